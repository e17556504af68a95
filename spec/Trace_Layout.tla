---------------------------- MODULE Trace_Layout ----------------------------
EXTENDS Layout, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
A == Case.a
N == Case.n
Rows == Len(A) \div N
Ident(n) == [i \in 1..n |-> i - 1]
Ok == CASE Ev.op = "transpose" -> Ev.r = N /\ Ev.c = Rows /\ TransposedOK(A, Ev.v, Rows, N)
        [] Ev.op = "back" -> Ev.r = Rows /\ Ev.c = N /\ Ev.v = A
        [] Ev.op = "big" -> /\ Ev.r = Case.n /\ Ev.c = Case.rows /\ Len(Ev.v) = Case.rows * Case.n /\ Ev.back
                            /\ \A k \in DOMAIN Ev.v : Ev.v[k] = Pat((k - 1) % Case.rows, (k - 1) \div Case.rows, Case.s, Case.m)
        [] Ev.op = "remap" -> Ev.v = Remap(A, Case.ind, N)
        [] Ev.op = "permute" -> Ev.v = [i \in DOMAIN Case.ind |-> A[Case.ind[i] + 1]]
        [] Ev.op = "throw" -> Ev.v = (Len(A) \div N # Len(Case.ind))
        [] Ev.op = "in" -> Ev.v = (Case.x \in Range(A)) /\ Ev.w = (Case.x \notin Range(A))
        [] Ev.op = "convert" -> Ev.v = A
        [] Ev.op = "equal" -> Ev.v = (A = Case.b) /\ Ev.w = (Len(A) = Len(Case.b) /\ \A i \in DOMAIN A : Abs(A[i] - Case.b[i]) <= Case.x)
        [] Ev.op = "matches" -> /\ Ev.v = Cardinality({i \in DOMAIN Case.b : A[i] = Case.b[i]})
                                /\ Ev.w = Cardinality({i \in DOMAIN Case.b : A[i] = Case.b[i] /\ A[i] = Case.x})
        [] Ev.op = "translate" -> Ev.v = [i \in DOMAIN Case.b |-> Case.b[i] - A[i]]
        [] Ev.op = "vector" -> Ev.v = A /\ Ev.w = A /\ Ev.n = Len(A)
        [] Ev.op = "set" -> Ev.v = [A EXCEPT ![Ev.p + 1] = Case.x]
        [] Ev.op = "mask" -> Ev.v = Ident(Ev.n)
        [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

-------------------------- MODULE Trace_Silhouette --------------------------
EXTENDS Silhouette, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
X == Case.X
L == Case.L
Ok == CASE Ev.op = "sizes" -> Ev.v = Sizes(L)
        [] Ev.op = "coh" -> Len(Ev.v) = Len(X) /\ \A i \in DOMAIN X : CohOK(X, L, i, Ev.v[i])
        [] Ev.op = "sep" -> Len(Ev.v) = Len(X) /\ \A i \in DOMAIN X : SepOK(X, L, i, Ev.v[i])
        [] Ev.op = "sil" -> Len(Ev.v) = Len(X) /\ \A i \in DOMAIN X : SilOK(X, L, i, Ev.v[i])
        \* the average of the reported scores
        [] Ev.op = "avg" -> Abs(Ev.v * Len(X) - SumSeq(Ev.s)) <= 2 * Len(X)
        [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

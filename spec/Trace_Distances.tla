--------------------------- MODULE Trace_Distances --------------------------
EXTENDS Distances, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
Float == Case.t \in {0, 1, 10}
P == Case.p
Q == Case.q
VecOK == CASE Ev.op = "sq" -> Ev.v = Dist2(P, Q)
           [] Ev.op = "eu" -> Ev.v = Dist2(P, Q)            \* projected to the square
           [] Ev.op = "sq0" -> Ev.v = Dist2(P, Zero(P))
           [] Ev.op = "eu0" -> Ev.v = Dist2(P, Zero(P))
           [] Ev.op = "man" -> Ev.v = Dist1(P, Q)
           [] Ev.op = "man0" -> Ev.v = Dist1(P, Zero(P))
           [] Ev.op = "auto" -> Ev.v = IF Float THEN Dist2(P, Q) ELSE Dist1(P, Q)
           [] Ev.op = "auto0" -> Ev.v = IF Float THEN Dist2(P, Zero(P)) ELSE Dist1(P, Zero(P))
           [] Ev.op = "cos" -> CosOK(P, Q, Ev.v)
           [] Ev.op = "lev" -> Ev.v = LevRows(P, Q)
           [] OTHER -> FALSE
MatOK == LET n == Len(Case.X) IN
         /\ Ev.n = <<n, n>> /\ Len(Ev.v) = n
         /\ \A i \in 1..n : Len(Ev.v[i]) = n /\ \A j \in 1..n : Ev.v[i][j] = IF Float THEN Dist2(Case.X[i], Case.X[j]) ELSE Dist1(Case.X[i], Case.X[j])
Ok == IF Ev.op = "mat" THEN MatOK ELSE VecOK
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

----------------------------- MODULE Trace_MST ------------------------------
EXTENDS MST, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
Met == IF Case.t >= 2 THEN 1 ELSE 2
Ok == CASE Ev.op = "core" -> /\ Len(Ev.d) = Len(Case.X)
                             /\ \A i \in DOMAIN Ev.d : Ev.d[i] = Core2(Case.X, Met, i - 1, Case.k)
        [] Ev.op = "mst" -> \E M \in {WeightsOf(Case.X, Met, Case.k)} : IsMST(Len(Case.X), Ev.e, M)
        [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

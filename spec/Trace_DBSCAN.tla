----------------------------- MODULE Trace_DBSCAN ----------------------------
EXTENDS DBSCAN, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
Ok == CASE Ev.op = "labels" -> \E N \in {IF Case.t >= 2 THEN Nbr1(Case.X, Ev.r) ELSE Nbr(Case.X, Ev.r * Ev.r)} : IsClustering(N, CoreSet(N, Ev.ms), Ev.L)
        [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

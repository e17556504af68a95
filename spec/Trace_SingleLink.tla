--------------------------- MODULE Trace_SingleLink --------------------------
EXTENDS SingleLink, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
Ok == CASE Ev.op = "tree" -> IsDendrogram(Len(Case.E) + 1, Case.E, Ev.n)
        [] Ev.op = "cut" -> IsFlatCut(Len(Case.E) + 1, Case.E, IF Ev.lv < 0 THEN 1000000 ELSE Ev.lv, Ev.m, Ev.L)
        [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

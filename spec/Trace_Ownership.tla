--------------------------- MODULE Trace_Ownership ---------------------------
(* Recorded histories of objects and handles: after every operation, which   *)
(* nodes are still alive; at the end, and after an operation was performed   *)
(* again and again, what is still allocated.                                 *)
EXTENDS Ownership, TraceBase
VARIABLES c, l, kids, hold
Case == Cases[c]
Ev == Case.ev[l]
TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ kids = <<>> /\ hold = [s \in 1..8 |-> 0]
Held(h) == {h[s] : s \in DOMAIN h} \ {0}
\* the nodes a build reports, in preorder: numbered as they are made
Grown == kids \o [i \in DOMAIN Ev.made |-> <<Ev.made[i][2], Ev.made[i][3]>>]
Src == hold[Ev.a]
\* what the operation returned, and who holds what afterwards
Result == CASE Ev.k \in {1, 2} -> Len(kids) + 1
            [] Ev.k \in {3, 4, 5, 6, 12, 14} -> Src
            [] Ev.k = 7 -> IF Src = 0 THEN 0 ELSE kids[Src][1]
            [] Ev.k = 8 -> IF Src = 0 THEN 0 ELSE kids[Src][2]
            [] Ev.k = 9 -> IF Src = 0 \/ ParentOf(kids, Src) \notin Reach(kids, Held(hold)) THEN 0 ELSE ParentOf(kids, Src)
            [] OTHER -> 0
After == CASE Ev.k \in {0, 11} -> hold
           [] Ev.k = 13 -> [s \in DOMAIN hold |-> 0]
           [] Ev.k = 5 -> [[hold EXCEPT ![Ev.a] = 0] EXCEPT ![Ev.s] = Src]
           [] OTHER -> [hold EXCEPT ![Ev.s] = Result]
WellMade == /\ \A i \in DOMAIN Ev.made : Ev.made[i][1] = Len(kids) + i
            /\ (Ev.k \in {1, 2}) = (Ev.made # <<>>)
Did == /\ WellMade /\ Ev.ok /\ (Ev.k \notin {0, 11} => Ev.res = Result)
       /\ Range(Ev.alive) = Reach(Grown, Held(After))
Ok == CASE Ev.op = "did" -> Did
        [] Ev.op = "left" -> Ev.blocks = 0 /\ Ev.bytes = 0 /\ Ev.files = 0
        [] Ev.op = "again" -> Ev.blocks <= 0 /\ Ev.bytes <= 0 /\ Ev.files <= 0
        [] OTHER -> FALSE
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
             /\ IF Ev.op = "did" THEN kids' = Grown /\ hold' = After ELSE UNCHANGED <<kids, hold>>
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, kids, hold>>
=============================================================================

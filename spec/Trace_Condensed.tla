--------------------------- MODULE Trace_Condensed ---------------------------
(* One case: a spanning tree whose weights are given by inverse distances,   *)
(* the dendrogram the code built and the labels of several option sets.      *)
EXTENDS Condensed, TraceBase
VARIABLES c, l, D
Case == Cases[c]
Ev == Case.ev[l]
Rank(lam) == IF lam = 0 THEN 0 ELSE 1000000 - lam
EdgesR == [e \in DOMAIN Case.E |-> <<Case.E[e][1], Case.E[e][2], Rank(Case.E[e][3])>>]
NodesR == [i \in DOMAIN Ev.n |-> [rep |-> Ev.n[i].rep, sz |-> Ev.n[i].sz, l |-> Ev.n[i].l, r |-> Ev.n[i].r, p |-> Ev.n[i].p, lam |-> Ev.n[i].lv, lv |-> Rank(Ev.n[i].lv)]]
n == Len(Case.E) + 1
Ok == CASE Ev.op = "tree" -> \E N \in {TLCEval(NodesR)} : /\ \E E \in {TLCEval(EdgesR)} : (IsDendrogram(n, E, N) = TRUE)
                                                           /\ D' = Nest(N, 1)
        [] Ev.op = "labels" -> /\ IsLabelling(n, Ev.L, Selections(Condense(D, Ev.ms), Ev.single = 1, Ev.leaves = 1, Case.tau)) = TRUE
                               /\ UNCHANGED D
        [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ D = {}
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ Ok /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, D>>
=============================================================================

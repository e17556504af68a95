--------------------------- MODULE Trace_Concurrent --------------------------
(* Recorded results of operations performed by several threads at the same   *)
(* time.  The driver records every different result of an operation once:    *)
(* first (w = 0) what it returned before the threads were started.           *)
EXTENDS Concurrent, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
Ind == Range(Case.ind)
TraceInit == c \in 1..Len(Cases) /\ l = 1
N == Len(Case.X)
Query(e) == [met |-> 2, c2 |-> Case.Q[e.q], k |-> e.k, reg |-> e.reg, r2 |-> e.r2, excl |-> Range(e.excl)]
D(a, b) == Dist2(Case.X[a+1], Case.X[b+1])
First(o) == Case.ev[CHOOSE i \in 1..Len(Case.ev) : Case.ev[i].op = "same" /\ Case.ev[i].o = o]
Ok == CASE Ev.op = "found" -> (\A j \in DOMAIN Ev.idx : Ev.idx[j] \in Ind) /\ IsAnswer(Case.X, Ind, Query(Ev), Ev.idx, Ev.d)
        [] Ev.op = "count" -> Ev.n = Len(Case.Q)
        [] Ev.op = "dense" -> \E NB \in {Nbr(Case.X, Ev.r * Ev.r)} : IsClustering(NB, CoreSet(NB, Ev.ms), Ev.L)
        [] Ev.op = "mst" -> \E W \in {WeightsOf(Case.X, 2, Ev.k)} : IsMST(N, Ev.e, W)
        [] Ev.op = "near" -> NearestCentre(Case.X, Case.C2, Ev.p, Ev.d)
        [] Ev.op = "medoid" -> NearestMedoid(Case.X, Case.M, Ev.p, Ev.d)
        [] Ev.op = "rows" -> /\ Len(Ev.v) = Ev.n /\ Range(Ev.v) \subseteq Range(Case.X)
                             /\ (Ev.new = 1 => Cardinality(Range(Ev.v)) = Min2(Ev.n, Cardinality(Range(Case.X))))
        [] Ev.op = "edge" -> IsKthEdge(Ind, Ind \ Range(Case.excl), D, Ev.k, Ev.a, Ev.b, Ev.d)
        [] Ev.op = "nth" -> Selected(Case.X, Case.ind, Ev.f, Ev.p, Ev.v)
        [] Ev.op = "flat" -> Len(Ev.L) = N /\ \E m \in {Max(Range(Ev.L))} : Range(Ev.L) \cup {0} = 0..m
        [] Ev.op = "same" -> First(Ev.o).v = Ev.v
        [] Ev.op = "end" -> Ev.races = 0 /\ Ev.intact
        [] OTHER -> FALSE
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

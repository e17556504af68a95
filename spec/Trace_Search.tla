---------------------------- MODULE Trace_Search ----------------------------
(* Recorded searches of the real code against IsAnswer/Summary.             *)
EXTENDS TraceBase, Search, UnionFind
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
Ev == Case.ev[l]
Ind == Range(Case.ind)
N == Len(Case.X)
TraceInit == c \in 1..Len(Cases) /\ l = 1
\* component of rep after the merges
Component(q) == LET p == FoldLeft(LAMBDA a, m : AbsMerge(a, m[1], m[2]), Singletons(0..N-1), q.merges)
                IN {i \in 0..N-1 : p[i] = p[q.rep]}
Query(q) == [met |-> IF Case.t >= 2 THEN 1 ELSE 2, c2 |-> q.c2, k |-> q.k, reg |-> q.reg, r2 |-> q.r2, lo |-> q.lo, hi |-> q.hi,
             excl |-> IF q.rep >= 0 THEN Component(q) ELSE Range(q.excl)]
GoodResult(q, r) ==
    /\ Len(r.idx) = Len(r.d)
    /\ r.size = Len(r.idx) /\ r.empty = (Len(r.idx) = 0)
    /\ \A j \in DOMAIN r.idx : r.idx[j] \in Ind
    /\ IsAnswer(Case.X, Ind, Query(q), r.idx, r.d)
    /\ Summary(r.idx, r.d, r.ci, r.cd, r.fi, r.fd)
ASearch == Ev.op = "search" /\ GoodResult(Case.queries[Ev.q], Ev)
\* a batch: one result per query, in the order of the queries
ABatch == /\ Ev.op = "batch"
          /\ Len(Ev.res) = Len(Ev.qs)
          /\ \A j \in DOMAIN Ev.qs : GoodResult(Case.queries[Ev.qs[j]], Ev.res[j])
\* n_samples: rows of the dataset the index refers to; the index is left as it was: same indices, same order, same samples
AShape == Ev.op = "shape" /\ Ev.n = N /\ Ev.nf = Case.nf /\ Ev.same = TRUE
AStable == Ev.op = "stable" /\ Ev.same
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l)
             /\ ((ASearch \/ ABatch \/ AStable \/ AShape) = TRUE)
             /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

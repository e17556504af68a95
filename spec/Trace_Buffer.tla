---------------------------- MODULE Trace_Buffer ----------------------------
(* Replayed histories of a real buffer.  off: admissible offers so far.     *)
EXTENDS TraceBase, Buffer, Search, UnionFind
VARIABLES c, l, off, part
vars == <<c, l, off, part>>
Case == Cases[c]
Ev == Case.ev[l]
N == Len(Case.X)
TraceInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ off = <<>>
             /\ part = FoldLeft(LAMBDA a, m : AbsMerge(a, m[1], m[2]), Singletons(0..Len(Cases[c].X)-1), Cases[c].merges)
Component == {i \in 0..N-1 : part[i] = part[Case.rep]}
Q == [met |-> IF Case.t >= 2 THEN 1 ELSE 2, c2 |-> Case.c2, k |-> Case.k, reg |-> Case.reg, r2 |-> Case.r2, lo |-> Case.lo, hi |-> Case.hi,
      excl |-> IF Case.rep >= 0 THEN Component ELSE Range(Case.excl)]
\* the offers of one operation, in order; membership of the excluded component is that of the moment of the offer
Offered(op) ==
    CASE op[1] = 0 -> IF op[2] \in Q.excl THEN <<>> ELSE << <<op[2], Sq(op[3])>> >>
      [] op[1] = 1 -> LET s == SelectSeq(Tail(op), LAMBDA i : i \notin Q.excl /\ InRegion(Case.X, Q, i))
                      IN [j \in DOMAIN s |-> <<s[j], D4(Case.X, Q, s[j])>>]
      [] OTHER -> <<>>
Content == [j \in DOMAIN Ev.idx |-> <<Ev.idx[j], Ev.d[j]>>]
Op == Case.ops[l-1]
AState == /\ Ev.op = "state" /\ Ev.j = l - 1
          /\ off' = IF l = 1 THEN <<>> ELSE off \o Offered(Op)
          /\ part' = IF l > 1 /\ Op[1] = 4 THEN AbsMerge(part, Op[2], Op[3]) ELSE part
          /\ Len(Ev.idx) = Len(Ev.d)
          /\ BestK(off', Case.k, Content)
          /\ Ev.idx2 = Ev.idx /\ Ev.d2 = Ev.d /\ Ev.ff = TRUE
          /\ Ev.ctr = IF Case.reg = "box" THEN [f \in DOMAIN Case.lo |-> Case.lo[f] + Case.hi[f]] ELSE Case.c2
          /\ Ev.size = Len(Ev.idx) /\ Ev.empty = (Len(Ev.idx) = 0)
          /\ Case.k > 0 => Ev.cap = Case.k /\ Ev.rem = Case.k - Len(Ev.idx)
          /\ Summary(Ev.idx, Ev.d, Ev.ci, Ev.cd, Ev.fi, Ev.fd)
AMoved == /\ Ev.op = "moved" /\ l = Len(Case.ops) + 2
          /\ Len(Ev.idx) = Len(Ev.d) /\ BestK(off, Case.k, Content)
          /\ UNCHANGED <<off, part>>
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l)
             /\ (AState \/ AMoved)
             /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

--------------------------- MODULE Trace_DualTree ---------------------------
EXTENDS TraceBase, DualTree, UnionFind
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
Ev == Case.ev[l]
TraceInit == c \in 1..Len(Cases) /\ l = 1
N == Max2(Len(Case.X), Len(Case.Y))
Ref == IF Len(Case.Y) = 0 THEN Case.X ELSE Case.Y
Component == LET p == FoldLeft(LAMBDA a, m : AbsMerge(a, m[1], m[2]), Singletons(0..N-1), Case.merges)
             IN {i \in 0..N-1 : p[i] = p[Case.rep]}
D(a, b) == Dist2(Case.X[a+1], Ref[b+1])
Q == Range(Case.Q)
A == Range(Case.R) \ (IF Case.rep >= 0 THEN Component ELSE Range(Case.excl))
AEdge == Ev.op = "edge" /\ Case.kind # 10 /\ IsKthEdge(Q, A, D, Case.k, Ev.a, Ev.b, Ev.d)
\* the exhaustive variant looks for the shortest edge of positive length
ASimple == /\ Ev.op = "edge" /\ Case.kind = 10
           /\ Ev.a \in Q /\ Ev.b \in A /\ Ev.d = D(Ev.a, Ev.b) /\ Ev.d > 0
           /\ \A a \in Q, b \in A : D(a, b) = 0 \/ D(a, b) >= Ev.d
ADist == Ev.op = "dist" /\ IsKth(Q, A, D, Case.k, Ev.d)
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l)
             /\ ((AEdge \/ ASimple \/ ADist) = TRUE)
             /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

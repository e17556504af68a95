-------------------------------- MODULE MST ---------------------------------
(* Spanning trees of the complete graph over the samples 0..n-1.  An edge is *)
(* <<a, b, w>> with w the square of its weight.                              *)
EXTENDS FFCLBase
\* squared distance: met = 2 Euclidean (floating-point features), 1 Manhattan (integral features)
MD2(met, p, q) == IF met = 2 THEN Dist2(p, q) ELSE Sq(FoldLeftDomain(LAMBDA a, f : a + Abs(p[f] - q[f]), 0, p))
\* squared core distance of sample i: distance to the k-th nearest sample, itself included
Core2(X, met, i, k) ==
    SortSeq([j \in 1..Len(X) |-> MD2(met, X[i+1], X[j])], <)[Min2(k, Len(X))]
\* squared weights: the distance for k = 1, mutual reachability otherwise
W2(X, met, core, k, a, b) == LET d == MD2(met, X[a+1], X[b+1]) IN IF k = 1 THEN d ELSE Max2(d, Max2(core[a], core[b]))
Cores(X, met, k) == TLCEval(IF k = 1 THEN [i \in 0..Len(X)-1 |-> 0] ELSE [i \in 0..Len(X)-1 |-> Core2(X, met, i, k)])

\* the matrix of all (squared) weights
WeightsOf(X, met, k) == CHOOSE m \in {TLCEval([a \in 0..Len(X)-1 |-> [b \in 0..Len(X)-1 |-> W2(X, met, C, k, a, b)]]) : C \in {Cores(X, met, k)}} : TRUE
Weights(X, k) == WeightsOf(X, 2, k)

\* the component of v in the graph whose edges are the positions S of E
RECURSIVE Grow(_, _, _)
Grow(E, S, C) == LET N == {E[s][1] : s \in {s \in S : E[s][2] \in C}} \cup {E[s][2] : s \in {s \in S : E[s][1] \in C}}
                 IN IF N \subseteq C THEN C ELSE Grow(E, S, C \cup N)
Component(E, S, v) == Grow(E, S, {v})

IsSpanningTree(n, E) ==
    /\ Len(E) = n - 1
    /\ \A e \in DOMAIN E : E[e][1] \in 0..n-1 /\ E[e][2] \in 0..n-1 /\ E[e][1] # E[e][2]
    /\ n > 0 => Component(E, DOMAIN E, 0) = 0..n-1
\* cut property: removing an edge splits the samples in two; no pair across the cut is shorter
IsMinimal(n, E, M) ==
    \A e \in DOMAIN E : LET C == Component(E, DOMAIN E \ {e}, E[e][1])
                        IN \A a \in C : \A b \in (0..n-1) \ C : M[a][b] >= E[e][3]
\* the total (squared) weight of the tree that grows from sample 0 by a nearest sample (Prim); MC_MST checks that
\* the minimal trees are exactly those of this total, for sums of any increasing function of the weights
Grown(n, M) ==
    FoldLeft(LAMBDA g, i :
                CHOOSE r \in {LET u == CHOOSE v \in g.rest : g.d[v] = lo
                                  rest == g.rest \ {u}
                              IN [rest |-> rest, tot |-> g.tot + lo, d |-> TLCEval([v \in rest |-> Min2(g.d[v], M[u][v])])]
                              : lo \in {Min({g.d[v] : v \in g.rest})}} : TRUE,
             [rest |-> 1..n-1, tot |-> 0, d |-> [v \in 1..n-1 |-> M[0][v]]], [i \in 1..n-1 |-> i]).tot
IsLightest(n, E, M) == FoldLeft(LAMBDA a, e : a + e[3], 0, E) = Grown(n, M)
IsMST(n, E, M) == /\ IsSpanningTree(n, E)
                        /\ \A e \in DOMAIN E : E[e][3] = M[E[e][1]][E[e][2]]
                        /\ IF n > 12 THEN IsLightest(n, E, M) ELSE IsMinimal(n, E, M)
=============================================================================

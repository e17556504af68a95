------------------------------ MODULE DualTree ------------------------------
(* Shortest edges between query samples Q of X and reference samples A of Y. *)
EXTENDS FFCLBase
\* D(a, b): length of the edge (any order-preserving measure)
IsKth(Q, A, D(_, _), k, d) ==
    /\ Cardinality({e \in Q \X A : D(e[1], e[2]) < d}) < k
    /\ Cardinality({e \in Q \X A : D(e[1], e[2]) <= d}) >= k
IsKthEdge(Q, A, D(_, _), k, a, b, d) == a \in Q /\ b \in A /\ d = D(a, b) /\ IsKth(Q, A, D, k, d)
=============================================================================

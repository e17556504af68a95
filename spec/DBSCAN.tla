-------------------------------- MODULE DBSCAN -------------------------------
(* Density-connected components.  X: samples, r2: the square of twice the    *)
(* radius, ms: minimum number of samples.  Samples are 1..n here.            *)
EXTENDS FFCLBase
Nbr(X, r2) == TLCEval([i \in 1..Len(X) |-> {j \in 1..Len(X) : 4 * Dist2(X[i], X[j]) < r2}])
\* integral features are compared with the Manhattan distance; r: twice the radius
Nbr1(X, r) == TLCEval([i \in 1..Len(X) |-> {j \in 1..Len(X) : 2 * Dist1(X[i], X[j]) < r}])
CoreSet(N, ms) == {i \in DOMAIN N : Cardinality(N[i]) > ms}
RECURSIVE Reach(_, _, _)
Reach(N, C, S) == LET T == S \cup UNION {N[i] \cap C : i \in S} IN IF T = S THEN S ELSE Reach(N, C, T)
\* the density-connected groups of core samples
Groups(N, C) == {Reach(N, C, {i}) : i \in C}
\* L: one label per sample
IsClustering(N, C, L) ==
    /\ Len(L) = Cardinality(DOMAIN N)
    /\ \E G \in {TLCEval(Groups(N, C))} :
         /\ Range(L) \ {0} = 1..Cardinality(G)
         /\ \A g \in G : Cardinality({L[i] : i \in g}) = 1
         /\ Cardinality({L[i] : i \in C}) = Cardinality(G)
         /\ \A i \in DOMAIN N : IF i \in C THEN L[i] # 0
                                ELSE IF N[i] \cap C = {} THEN L[i] = 0
                                ELSE \E j \in N[i] \cap C : L[i] = L[j]
=============================================================================

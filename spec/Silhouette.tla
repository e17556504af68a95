----------------------------- MODULE Silhouette -----------------------------
(* Silhouette scores of a labelling (C22).  D(i, j) is the distance of two  *)
(* samples in fixed point (U units), at most 1 below the true one, so a sum *)
(* of m distances is known up to m units.                                   *)
EXTENDS FFCLBase
U == 1000
Members(L, k) == {i \in DOMAIN L : L[i] = k}
Labels(L) == Range(L)
DistU(X, i, j) == ISqrt(Dist2(X[i], X[j]) * U * U)
\* sum of the distances from i to the samples of S: lower end
SumD(X, i, S) == FoldSet(LAMBDA j, a : a + DistU(X, i, j), 0, S)
Sizes(L) == [k \in 1..(MaxSeq(L) + 1) |-> Cardinality(Members(L, k - 1))]
Own(L, i) == Members(L, L[i]) \ {i}
CohU(X, L, i) == LET S == Own(L, i) IN IF S = {} THEN 0 ELSE SumD(X, i, S) \div Cardinality(S)
SepU(X, L, i) == Min({SumD(X, i, Members(L, k)) \div Cardinality(Members(L, k)) : k \in Labels(L) \ {L[i]}})
\* v (U units) is the mean distance up to the precision of the representation
Near(v, w, tol) == Abs(v - w) <= tol
CohOK(X, L, i, v) == IF Own(L, i) = {} THEN v = 0 ELSE Near(v, CohU(X, L, i), 3)
SepOK(X, L, i, v) == Near(v, SepU(X, L, i), 3)
\* s is the silhouette (U units) for mean distances a, b (U units, known up to 2)
SilOK(X, L, i, s) == /\ Abs(s) <= U
                     /\ IF Own(L, i) = {} THEN s = 0
                        ELSE LET a == CohU(X, L, i)  b == SepU(X, L, i)  m == Max2(a, b)
                             IN IF m = 0 THEN s = 0 ELSE Abs(s * m - U * (b - a)) <= 4 * U + m
=============================================================================

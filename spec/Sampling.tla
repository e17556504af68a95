------------------------------ MODULE Sampling ------------------------------
(* Random selection (C23).  What must hold for every outcome is stated for  *)
(* every single draw; what must hold of the distribution is stated for the  *)
(* counts over many draws, with margins (half of the expected count, which  *)
(* is at least 300) no correct generator leaves in practice.                *)
EXTENDS FFCLBase
\* count out of draws for an outcome of probability w / W
Plausible(count, draws, w, W) ==
    /\ (w = 0 => count = 0)
    /\ (draws * w >= 40 * W => count > 0)
    /\ (draws * w >= 300 * W => 2 * Abs(count * W - draws * w) <= draws * w)
InBag(s, t) == \A x \in Range(s) : Count(s, x) <= Count(t, x)
DistinctRows(X) == Range(X)
\* number of ordered selections of n out of m
RECURSIVE Falling(_, _)
Falling(m, n) == IF n = 0 THEN 1 ELSE m * Falling(m - 1, n - 1)
\* k-means++: rows that exist, a new position as long as there is one
PlusPlusOK(X, k, C) == Len(C) = k /\ Range(C) \subseteq Range(X) /\ Cardinality(Range(C)) = Min2(k, Cardinality(Range(X)))
PreviousOK(X, k, C) == Len(C) = k /\ Range(C) \subseteq Range(X) /\ (Cardinality(Range(X)) > 1 => \A i \in 1..k-1 : C[i] # C[i+1])
\* the partial Fisher-Yates shuffle for a sequence of choices (path[i] in i..m)
Shuffled(m, path) == FoldLeftDomain(LAMBDA a, i : [a EXCEPT ![i] = a[path[i]], ![path[i]] = a[i]], [k \in 1..m |-> k], path)
=============================================================================

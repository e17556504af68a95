----------------------------- MODULE Statistics -----------------------------
(* Statistics of samples and ranges (C25), on integers.                     *)
EXTENDS FFCLBase
Col(X, ind, f) == [i \in DOMAIN ind |-> X[ind[i] + 1][f + 1]]
SumSq(s) == FoldLeft(LAMBDA a, b : a + b * b, 0, s)
\* n (n-1) times the sample variance, an integer
VarN(s) == Len(s) * SumSq(s) - Sq(SumSeq(s))
\* quotient rounded towards zero, as integer division in C++
TDiv(a, n) == IF a >= 0 THEN a \div n ELSE -((-a) \div n)
MeanOK(s, v) == v = SumSeq(s)                                 \* v: n times the reported mean
VarOK(s, v) == Abs(v - VarN(s)) <= 1 + VarN(s) \div 500        \* v: n (n-1) times the reported variance
\* f is a feature of (numerically) highest variance among fs
ArgVarOK(X, ind, fs, f) == f \in fs /\ LET v == VarN(Col(X, ind, f)) IN \A g \in fs : VarN(Col(X, ind, g)) - v <= v \div 999 + 1
ArgMinOK(a, p) == p + 1 \in DOMAIN a /\ \A i \in DOMAIN a : a[p + 1] <= a[i]
ArgMaxOK(a, p) == p + 1 \in DOMAIN a /\ \A i \in DOMAIN a : a[p + 1] >= a[i]
\* v is the n-th smallest value
NthOK(a, n, v) == /\ Cardinality({i \in DOMAIN a : a[i] < v}) < n /\ Cardinality({i \in DOMAIN a : a[i] <= v}) >= n
SecondOK(a, pmax, p, v) == /\ p + 1 \in DOMAIN a /\ a[p + 1] = v
                           /\ IF Len(a) = 1 THEN p = 0 ELSE p # pmax /\ NthOK([i \in DOMAIN a |-> -a[i]], 2, -v)
\* min-max normalisation (u units): the smallest value gets 1, the largest 0
MinMaxOK(a, v, u) == LET lo == MinSeq(a)  hi == MaxSeq(a) IN
                     IF lo = hi THEN \A i \in DOMAIN a : Abs(v[i] * Len(a) - u) <= Len(a)
                     ELSE \A i \in DOMAIN a : v[i] \in 0..u /\ Abs(v[i] * (hi - lo) - u * (hi - a[i])) <= (hi - lo)
NormOK(a, v, u) == \A i \in DOMAIN a : Abs(v[i] * SumSeq(a) - u * a[i]) <= Abs(SumSeq(a))
=============================================================================

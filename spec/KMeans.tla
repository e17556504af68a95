-------------------------------- MODULE KMeans -------------------------------
(* k-means iterations with exact rational centroids: a centroid is a pair    *)
(* <<S, m>> (S an integer vector, m > 0) standing for S / m.                 *)
EXTENDS FFCLBase
\* squared norm of m*x - S
Off2(x, cen) == FoldLeftDomain(LAMBDA a, f : a + Sq(cen[2] * x[f] - cen[1][f]), 0, x)
\* is centroid p not farther from x than centroid q?  (in one dimension without squares)
NotFarther(x, p, q) ==
    IF Len(x) = 1 THEN Abs(p[2] * x[1] - p[1][1]) * q[2] <= Abs(q[2] * x[1] - q[1][1]) * p[2]
    ELSE Off2(x, p) * Sq(q[2]) <= Off2(x, q) * Sq(p[2])
NearestSet(x, cen) == {j \in DOMAIN cen : \A i \in DOMAIN cen : NotFarther(x, cen[j], cen[i])}

AddTo(agg, j, x) == [agg EXCEPT ![j] = <<[f \in DOMAIN x |-> @[1][f] + x[f]], @[2] + 1>>]
\* the sums and sizes of the clusters for every way to give each sample to one of its nearest centroids
Aggregates(X, cen) ==
    FoldLeft(LAMBDA acc, x : TLCEval(UNION {{AddTo(a, j, x) : a \in acc} : j \in NearestSet(x, cen)}),
             {[j \in DOMAIN cen |-> <<[f \in 1..Len(X[1]) |-> 0], 0>>]}, X)
\* a centroid moves to the mean of its samples; without samples it stays
Moved(cen, agg) == [j \in DOMAIN cen |-> IF agg[j][2] = 0 THEN cen[j] ELSE agg[j]]
Steps(X, cen) == {Moved(cen, a) : a \in Aggregates(X, cen)}

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* lowest terms, so that equal centroids are the same value
Reduce(cn) == LET g == FoldLeft(LAMBDA a, v : Gcd(a, Abs(v)), cn[2], cn[1])
              IN <<[f \in DOMAIN cn[1] |-> IF cn[1][f] < 0 THEN -((-cn[1][f]) \div g) ELSE cn[1][f] \div g], cn[2] \div g>>
ReduceAll(cen) == [j \in DOMAIN cen |-> Reduce(cen[j])]

\* v: a recorded centroid in units of 1/U
U == 100000
Shows(v, cn) == \A f \in DOMAIN v : Abs(v[f] * cn[2] - cn[1][f] * U) <= 2 * cn[2]
ShowsAll(vs, cen) == /\ Len(vs) = Len(cen)
                     /\ \A j \in DOMAIN cen : Len(vs[j]) = Len(cen[j][1]) /\ Shows(vs[j], cen[j])

\* distance of x and a centroid in units of 1/1000 (relative error below 1/20000 plus one unit)
Milli(x, cn) ==
    IF Len(x) = 1 THEN (Abs(cn[2] * x[1] - cn[1][1]) * 1000) \div cn[2]
    ELSE LET q == Off2(x, cn)
             g == Min2(1000, ISqrt(2000000000 \div (q + 1)))
         IN IF q = 0 THEN 0 ELSE (ISqrt(q * g * g) * 1000) \div (g * cn[2])
NearMilli(x, cen) == Min({Milli(x, cen[j]) : j \in DOMAIN cen})
Deviation(X, cen) == FoldLeft(LAMBDA a, x : a + NearMilli(x, cen), 0, X)
DevTol(X, d) == 3 * Len(X) + d \div 10000
=============================================================================

--------------------------------- MODULE PAM ---------------------------------
(* Partitioning around medoids.  D: matrix of distances (sequence of rows),  *)
(* med: sequence of medoids (1-based samples).                               *)
EXTENDS FFCLBase
DistTo(D, med, i) == Min({D[i][med[j]] : j \in DOMAIN med})
Loss(D, med) == SumOver(1..Len(D), LAMBDA i : DistTo(D, med, i))
Swap(med, j, c) == [med EXCEPT ![j] = c]
NonMedoids(D, med) == (1..Len(D)) \ Range(med)
\* no exchange of a medoid with another sample lowers the loss (by more than tol)
SwapOptimal(D, med, tol) ==
    \E cur \in {Loss(D, med)} : \A j \in DOMAIN med, c \in NonMedoids(D, med) : Loss(D, Swap(med, j, c)) >= cur - tol
ValidMedoids(D, med, k) == Len(med) = k /\ Distinct(med) /\ Range(med) \subseteq 1..Len(D)

\* exact: Manhattan distance (in one dimension also the Euclidean one); otherwise 1/1000 of the Euclidean distance
MilliDist(p, q) == LET d == Dist2(p, q)
                       g == Min2(1000, ISqrt(2000000000 \div (d + 1)))
                   IN IF d = 0 THEN 0 ELSE (ISqrt(d * g * g) * 1000) \div g
\* line: samples on a line whose Euclidean distances are integers
Matrix(X, exact, line) == [i \in DOMAIN X |-> [j \in DOMAIN X |-> IF line THEN ISqrt(Dist2(X[i], X[j])) ELSE IF exact THEN Dist1(X[i], X[j]) ELSE MilliDist(X[i], X[j])]]
=============================================================================

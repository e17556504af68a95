--------------------------------- MODULE MSC ---------------------------------
(* Medoid silhouette: the loss of a sample is the ratio of the distance to   *)
(* its nearest medoid and the distance to the second nearest one (0 when     *)
(* both are 0).  R(i, a, b): the ratio of the distances from sample i to     *)
(* samples a and b (nearer one first), as a fixed-point number.              *)
EXTENDS PAM
\* the distances to the nearest and second nearest medoid of sample i
NearestTwo(D, med, i) == LET x == DistTo(D, med, i)
                             a == CHOOSE j \in DOMAIN med : D[i][med[j]] = x
                             y == Min({D[i][med[j]] : j \in DOMAIN med \ {a}})
                         IN <<x, y>>
\* exact distances: x / y in millionths
ExactRatio(x, y) == IF y = 0 THEN 0 ELSE (x * 1000000) \div y
\* from squared distances: sqrt(x / y) in thousandths
RootRatio(x, y) == IF y = 0 THEN 0 ELSE ISqrt((x * 1000000) \div y)
MLossExact(D, med) == SumOver(1..Len(D), LAMBDA i : LET t == NearestTwo(D, med, i) IN ExactRatio(t[1], t[2]))
MLossRoot(D2, med) == SumOver(1..Len(D2), LAMBDA i : LET t == NearestTwo(D2, med, i) IN RootRatio(t[1], t[2]))
=============================================================================

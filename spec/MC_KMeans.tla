------------------------------ MODULE MC_KMeans ------------------------------
(* Lloyd's iteration over every small dataset and every start, with every    *)
(* way to break ties: the sum of squared distances never grows, and the      *)
(* centroids stop moving.                                                    *)
EXTENDS KMeans, Json
CONSTANTS N, C, Dim, K, Emit
VARIABLES X, cen, moved
vars == <<X, cen, moved>>
Pt == [1..Dim -> 0..C-1]
LexLe(p, q) == p = q \/ \E i \in 1..Dim : p[i] < q[i] /\ \A j \in 1..i-1 : p[j] = q[j]
Init == /\ X \in [1..N -> Pt] /\ \A i \in 1..N-1 : LexLe(X[i], X[i+1])
        /\ \E s \in [1..K -> Pt] : cen = [j \in 1..K |-> <<s[j], 1>>]
        /\ moved = TRUE
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> X, C2 |-> [j \in 1..K |-> [f \in 1..Dim |-> 2 * cen[j][1][f]]]])>>) ELSE TRUE
\* least common multiple of 1..N
L == CASE N <= 1 -> 1 [] N = 2 -> 2 [] N = 3 -> 6 [] N = 4 -> 12 [] OTHER -> 60
Norm(cn) == <<[f \in 1..Dim |-> cn[1][f] * (L \div cn[2])], L>>
Same(a, b) == \A j \in 1..K : Norm(a[j]) = Norm(b[j])
\* an iteration that leaves every centroid where it is ends the run
Step == /\ moved
        /\ \E n \in Steps(X, cen) : cen' = n /\ moved' = ~Same(n, cen)
        /\ UNCHANGED X
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* sum of squared distances to the nearest centroid, in units of 1/L^2
SSE(c) == SumOver(1..N, LAMBDA i : Min({Off2(X[i], Norm(c[j])) : j \in 1..K}))
Decreases == [][SSE(cen') <= SSE(cen)]_vars
StrictlyUnlessStill == [][moved' => SSE(cen') < SSE(cen) \/ \E j \in 1..K : TRUE /\ SSE(cen') = SSE(cen)]_vars
Inside == \A j \in 1..K : \A f \in 1..Dim : cen[j][1][f] >= 0 /\ cen[j][1][f] <= (C - 1) * cen[j][2]
Terminates == <>[](~moved)
=============================================================================

--------------------------- MODULE MC_Silhouette ----------------------------
(* The accumulation of cohesion and separation as in the code: for every    *)
(* sample, one pass over the other samples adds distances to the slot of    *)
(* their cluster; slots of empty clusters and of the own cluster are        *)
(* infinite.  Integer points on a line, exact fractions.                    *)
EXTENDS Silhouette, Json
CONSTANTS N, V, K, Emit
VARIABLES X, L, i, j, coh, slot, S
vars == <<X, L, i, j, coh, slot, S>>
D(a, b) == Abs(X[a][1] - X[b][1])
INF == <<1, 0>>
Lt(p, q) == IF p[2] = 0 THEN FALSE ELSE IF q[2] = 0 THEN TRUE ELSE p[1] * q[2] < q[1] * p[2]
Init == /\ X \in [1..N -> {<<v>> : v \in 0..V}] /\ L \in [1..N -> 0..K] /\ Cardinality(Range(L)) >= 2
        /\ i = 1 /\ j = 1 /\ coh = 0 /\ slot = [k \in 0..K |-> 0] /\ S = <<>>
        /\ (Emit => PrintT(<<"CASE", ToJson([X |-> X, L |-> L])>>))
Size(k) == Cardinality(Members(L, k))
Inner == /\ i <= N /\ j <= N /\ j' = j + 1
         /\ IF L[i] = L[j] THEN coh' = (IF i = j THEN coh ELSE coh + D(i, j)) /\ UNCHANGED slot
            ELSE slot' = [slot EXCEPT ![L[j]] = @ + D(i, j)] /\ UNCHANGED coh
         /\ UNCHANGED <<X, L, i, S>>
Score(a, b) == IF Size(L[i]) = 1 THEN <<0, 1>>
               ELSE IF Lt(a, b) THEN <<b[1] * a[2] - a[1] * b[2], b[1] * a[2]>>
               ELSE IF Lt(b, a) THEN <<b[1] * a[2] - a[1] * b[2], a[1] * b[2]>> ELSE <<0, 1>>
Outer == /\ i <= N /\ j > N
         /\ LET a == <<coh, Max2(1, Size(L[i]) - 1)>>
                cand == {IF k = L[i] \/ Size(k) = 0 THEN INF ELSE <<slot[k], Size(k)>> : k \in 0..K}
                b == CHOOSE p \in cand : \A q \in cand : ~Lt(q, p)
            IN S' = Append(S, <<a, b, Score(a, b)>>)
         /\ i' = i + 1 /\ j' = 1 /\ coh' = 0 /\ slot' = [k \in 0..K |-> 0] /\ UNCHANGED <<X, L>>
Spec == Init /\ [][Inner \/ Outer]_vars
\* the machine computes the definition
Defined == \A k \in DOMAIN S :
    LET a == S[k][1]  b == S[k][2]  s == S[k][3]
        own == Own(L, k)
        sums == {<<FoldSet(LAMBDA q, t : t + D(k, q), 0, Members(L, m)), Size(m)>> : m \in Labels(L) \ {L[k]}} IN
    /\ a[1] = FoldSet(LAMBDA q, t : t + D(k, q), 0, own)
    /\ b \in sums /\ \A q \in sums : ~Lt(q, b)
    /\ b[2] # 0                                   \* with two clusters the separation is finite
    /\ s[2] > 0 /\ Abs(s[1]) <= s[2]              \* in [-1, 1]
    /\ (own = {}) => s[1] = 0
    /\ CohOK(X, L, k, (U * a[1]) \div a[2]) /\ SepOK(X, L, k, (U * b[1]) \div b[2]) /\ SilOK(X, L, k, (U * s[1]) \div s[2])
=============================================================================

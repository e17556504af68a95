------------------------------- MODULE MC_PAM --------------------------------
(* FasterPAM: one candidate at a time, the change of the loss is computed    *)
(* from the cached nearest and second nearest medoids only, and the caches   *)
(* are updated incrementally; over all samples on a line and all starts.     *)
EXTENDS PAM, Json
CONSTANTS N, C, K, Emit
VARIABLES X, med, near, sec, loss, cand, changed, done
vars == <<X, med, near, sec, loss, cand, changed, done>>
d(i, j) == Abs(X[i] - X[j])
D == [i \in 1..N |-> [j \in 1..N |-> d(i, j)]]
\* positions of medoids; near and sec may be any of the tied ones initially
NearOK(m, o, a) == \A j \in 1..K : d(o, m[a]) <= d(o, m[j])
SecOK(m, o, a, b) == b /= a /\ \A j \in (1..K) \ {a} : d(o, m[b]) <= d(o, m[j])
First(m, o) == CHOOSE a \in 1..K : NearOK(m, o, a) /\ \A b \in 1..K : NearOK(m, o, b) => a <= b
Second(m, o) == CHOOSE b \in 1..K : SecOK(m, o, First(m, o), b) /\ \A e \in 1..K : SecOK(m, o, First(m, o), e) => b <= e
Init == /\ X \in [1..N -> 0..C-1] /\ \A i \in 1..N-1 : X[i] <= X[i+1]
        /\ med \in [1..K -> 1..N] /\ Distinct(med)
        /\ near = [o \in 1..N |-> First(med, o)] /\ sec = [o \in 1..N |-> Second(med, o)]
        /\ loss = Loss(D, med) /\ cand = 1 /\ changed = FALSE /\ done = FALSE
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> X, M |-> med])>>) ELSE TRUE
d1(o) == d(o, med[near[o]])
d2(o) == d(o, med[sec[o]])
Removal(j) == SumOver({o \in 1..N : near[o] = j}, LAMBDA o : d2(o) - d1(o))
Gain(c) == SumOver(1..N, LAMBDA o : IF d(c, o) < d1(o) THEN d(c, o) - d1(o) ELSE 0)
Correction(c, j) == SumOver({o \in 1..N : near[o] = j},
                            LAMBDA o : IF d(c, o) < d1(o) THEN d1(o) - d2(o) ELSE IF d(c, o) < d2(o) THEN d(c, o) - d2(o) ELSE 0)
Delta(c, j) == Gain(c) + Removal(j) + Correction(c, j)
BestSwap(c) == CHOOSE j \in 1..K : \A i \in 1..K : Delta(c, j) < Delta(c, i) \/ (Delta(c, j) = Delta(c, i) /\ j <= i)
\* the nearest medoid other than a, given that position j now holds c; j unless something is nearer
Rescan(m, o, a, j) == CHOOSE b \in (1..K) \ {a} : /\ \A e \in (1..K) \ {a} : d(o, m[b]) <= d(o, m[e])
                                                  /\ (b = j \/ d(o, m[j]) > d(o, m[b]))
                                                  /\ \A e \in (1..K) \ {a} : (b /= j /\ d(o, m[e]) = d(o, m[b])) => b <= e
NewCache(o, c, j) ==
    LET m == Swap(med, j, c) oc == d(c, o) IN
    IF o = c THEN <<j, IF near[o] = j THEN sec[o] ELSE near[o]>>
    ELSE IF near[o] = j THEN
        IF oc < d2(o) THEN <<j, sec[o]>> ELSE <<sec[o], Rescan(m, o, sec[o], j)>>
    ELSE IF oc < d1(o) THEN <<j, near[o]>>
    ELSE IF oc < d2(o) THEN <<near[o], j>>
    ELSE IF sec[o] = j THEN <<near[o], Rescan(m, o, near[o], j)>>
    ELSE <<near[o], sec[o]>>
Examine ==
    /\ ~done /\ cand <= N
    /\ IF cand \in Range(med) THEN UNCHANGED <<med, near, sec, loss, changed>>
       ELSE \E j \in {BestSwap(cand)} :
            IF Delta(cand, j) < 0
            THEN \E nc \in {[o \in 1..N |-> NewCache(o, cand, j)]} :
                 /\ med' = Swap(med, j, cand)
                 /\ near' = [o \in 1..N |-> nc[o][1]] /\ sec' = [o \in 1..N |-> nc[o][2]]
                 /\ loss' = SumOver(1..N, LAMBDA o : d(o, med'[nc[o][1]]))
                 /\ changed' = TRUE
            ELSE UNCHANGED <<med, near, sec, loss, changed>>
    /\ cand' = cand + 1 /\ UNCHANGED <<X, done>>
EndOfPass == /\ ~done /\ cand = N + 1
             /\ cand' = 1 /\ changed' = FALSE /\ done' = ~changed
             /\ UNCHANGED <<X, med, near, sec, loss>>
Next == Examine \/ EndOfPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Valid == ValidMedoids(D, med, K)
CachesOK == \A o \in 1..N : NearOK(med, o, near[o]) /\ SecOK(med, o, near[o], sec[o])
LossExact == loss = Loss(D, med)
\* the predicted change is the real one
DeltaExact == \A c \in NonMedoids(D, med), j \in 1..K : loss + Delta(c, j) = Loss(D, Swap(med, j, c))
Optimal == done => SwapOptimal(D, med, 0)
Descends == [][loss' <= loss /\ (med' /= med => loss' < loss)]_vars
Terminates == <>done
=============================================================================

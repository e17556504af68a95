------------------------------- MODULE MC_MSC --------------------------------
(* FasterMSC: candidates are examined one at a time; the change of the sum   *)
(* of ratios is predicted from the cached nearest, second and third nearest  *)
(* medoids, which are updated incrementally (K > 2); with two medoids the    *)
(* distances are cached by medoid.  All samples on a line and all starts;    *)
(* ratios are exact: multiples of 1/L with L a multiple of every distance.   *)
EXTENDS MSC, Json
CONSTANTS N, C, K, L, Emit
ASSUME \A v \in 1..C-1 : L % v = 0
VARIABLES X, med, near, sec, thd, loss, cand, changed, done
vars == <<X, med, near, sec, thd, loss, cand, changed, done>>
d(i, j) == Abs(X[i] - X[j])
D == [i \in 1..N |-> [j \in 1..N |-> d(i, j)]]
R(a, b) == IF b = 0 THEN 0 ELSE a * (L \div b)
MLoss(m) == SumOver(1..N, LAMBDA i : LET t == NearestTwo(D, m, i) IN R(t[1], t[2]))
\* the first of the nearest positions outside a set
Best(m, o, out) == CHOOSE a \in (1..K) \ out : \A b \in (1..K) \ out : d(o, m[a]) < d(o, m[b]) \/ (d(o, m[a]) = d(o, m[b]) /\ a <= b)
IsBest(m, o, a, out) == a \in (1..K) \ out /\ \A b \in (1..K) \ out : d(o, m[a]) <= d(o, m[b])
One(m, o) == IF K = 2 THEN 1 ELSE Best(m, o, {})
Two(m, o) == IF K = 2 THEN 2 ELSE Best(m, o, {One(m, o)})
Init == /\ X \in [1..N -> 0..C-1] /\ \A i \in 1..N-1 : X[i] <= X[i+1]
        /\ med \in [1..K -> 1..N] /\ Distinct(med)
        /\ near = [o \in 1..N |-> One(med, o)] /\ sec = [o \in 1..N |-> Two(med, o)]
        /\ thd = IF K = 2 THEN <<>> ELSE [o \in 1..N |-> Best(med, o, {near[o], sec[o]})]
        /\ loss = MLoss(med) /\ cand = 1 /\ changed = FALSE /\ done = FALSE
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> X, M |-> med])>>) ELSE TRUE
d1(o) == d(o, med[near[o]])
d2(o) == d(o, med[sec[o]])
d3(o) == d(o, med[thd[o]])
Removal(j) == SumOver(1..N, LAMBDA o : IF near[o] = j THEN R(d1(o), d2(o)) - R(d2(o), d3(o)) ELSE IF sec[o] = j THEN R(d1(o), d2(o)) - R(d1(o), d3(o)) ELSE 0)
Added(c) == SumOver(1..N, LAMBDA o : IF d(c, o) < d1(o) THEN R(d1(o), d2(o)) - R(d(c, o), d1(o)) ELSE IF d(c, o) < d2(o) THEN R(d1(o), d2(o)) - R(d1(o), d(c, o)) ELSE 0)
Correction(c, j) ==
    SumOver(1..N, LAMBDA o :
        LET oc == d(c, o) IN
        IF near[o] = j THEN IF oc < d1(o) THEN R(oc, d1(o)) + R(d2(o), d3(o)) - R(d1(o) + oc, d2(o))
                            ELSE IF oc < d2(o) THEN R(d1(o), oc) + R(d2(o), d3(o)) - R(d1(o) + oc, d2(o))
                            ELSE IF oc < d3(o) THEN R(d2(o), d3(o)) - R(d2(o), oc) ELSE 0
        ELSE IF sec[o] = j THEN IF oc < d2(o) THEN R(d1(o), d3(o)) - R(d1(o), d2(o))
                                ELSE IF oc < d3(o) THEN R(d1(o), d3(o)) - R(d1(o), oc) ELSE 0
        ELSE 0)
\* two medoids: near and sec are the two positions, whatever the distances
Ordered(a, b) == IF a < b THEN R(a, b) ELSE R(b, a)
Direct(c, j) == SumOver(1..N, LAMBDA o : Ordered(d(c, o), IF j = 1 THEN d2(o) ELSE d1(o)))
\* the predicted gain of exchanging the medoid at position j for sample c
Gain(c, j) == IF K = 2 THEN loss - Direct(c, j) ELSE Added(c) + Removal(j) + Correction(c, j)
BestSwap(c) == CHOOSE j \in 1..K : \A i \in 1..K : Gain(c, j) > Gain(c, i) \/ (Gain(c, j) = Gain(c, i) /\ j <= i)
\* the nearest position outside a set, the exchanged one (j) if nothing is nearer
Rescan(m, o, out, j) == LET b == Best(m, o, out) IN IF j \notin out /\ d(o, m[j]) <= d(o, m[b]) THEN j ELSE b
NewCache(o, c, j) ==
    LET m == Swap(med, j, c) oc == d(c, o) IN
    IF K = 2 THEN <<1, 2, 0>>
    ELSE IF o = c THEN IF near[o] = j THEN <<j, sec[o], thd[o]>> ELSE IF sec[o] = j THEN <<j, near[o], thd[o]>> ELSE <<j, near[o], sec[o]>>
    ELSE IF near[o] = j THEN
        IF oc < d2(o) THEN <<j, sec[o], thd[o]>>
        ELSE IF oc < d3(o) THEN <<sec[o], j, thd[o]>>
        ELSE <<sec[o], thd[o], Rescan(m, o, {sec[o], thd[o]}, j)>>
    ELSE IF sec[o] = j THEN
        IF oc < d1(o) THEN <<j, near[o], thd[o]>>
        ELSE IF oc < d3(o) THEN <<near[o], j, thd[o]>>
        ELSE <<near[o], thd[o], Rescan(m, o, {near[o], thd[o]}, j)>>
    ELSE IF oc < d1(o) THEN <<j, near[o], sec[o]>>
    ELSE IF oc < d2(o) THEN <<near[o], j, sec[o]>>
    ELSE IF oc < d3(o) THEN <<near[o], sec[o], j>>
    ELSE IF thd[o] = j THEN <<near[o], sec[o], Rescan(m, o, {near[o], sec[o]}, j)>>
    ELSE <<near[o], sec[o], thd[o]>>
Examine ==
    /\ ~done /\ cand <= N
    /\ IF cand \in Range(med) THEN UNCHANGED <<med, near, sec, thd, loss, changed>>
       ELSE \E j \in {BestSwap(cand)} :
            IF Gain(cand, j) > 0
            THEN \E nc \in {[o \in 1..N |-> NewCache(o, cand, j)]} :
                 /\ med' = Swap(med, j, cand)
                 /\ near' = [o \in 1..N |-> nc[o][1]] /\ sec' = [o \in 1..N |-> nc[o][2]]
                 /\ thd' = IF K = 2 THEN <<>> ELSE [o \in 1..N |-> nc[o][3]]
                 /\ loss' = SumOver(1..N, LAMBDA o : Ordered(d(o, med'[nc[o][1]]), d(o, med'[nc[o][2]])))
                 /\ changed' = TRUE
            ELSE UNCHANGED <<med, near, sec, thd, loss, changed>>
    /\ cand' = cand + 1 /\ UNCHANGED <<X, done>>
EndOfPass == /\ ~done /\ cand = N + 1
             /\ cand' = 1 /\ changed' = FALSE /\ done' = ~changed
             /\ UNCHANGED <<X, med, near, sec, thd, loss>>
Next == Examine \/ EndOfPass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Valid == ValidMedoids(D, med, K)
CachesOK == \A o \in 1..N : IF K = 2 THEN near[o] = 1 /\ sec[o] = 2
                            ELSE IsBest(med, o, near[o], {}) /\ IsBest(med, o, sec[o], {near[o]}) /\ IsBest(med, o, thd[o], {near[o], sec[o]})
LossExact == loss = MLoss(med)
GainExact == \A c \in NonMedoids(D, med), j \in 1..K : loss - Gain(c, j) = MLoss(Swap(med, j, c))
Optimal == done => \A j \in 1..K, c \in NonMedoids(D, med) : MLoss(Swap(med, j, c)) >= loss
Descends == [][loss' <= loss /\ (med' /= med => loss' < loss)]_vars
Terminates == <>done
=============================================================================

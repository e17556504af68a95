--------------------------- MODULE MC_Statistics ----------------------------
(* Two-pass variance and one-pass extrema over a range, in any order of its *)
(* elements: the order (of the indices) never matters.                      *)
EXTENDS Statistics, Json
CONSTANTS N, V, Shift, Emit
VARIABLES a, todo, phase, sum, sq, dev, mx, mn, sec
vars == <<a, todo, phase, sum, sq, dev, mx, mn, sec>>
n == Len(a)
Init == /\ a \in UNION {[1..k -> {v - Shift : v \in V}] : k \in 1..N} /\ todo = DOMAIN a /\ phase = 1 /\ sum = 0 /\ sq = 0 /\ dev = 0 /\ mx = 0 /\ mn = 0 /\ sec = 0
        /\ (Emit => PrintT(<<"CASE", ToJson([a |-> a])>>))
One == /\ phase = 1 /\ \E i \in todo :
          /\ todo' = todo \ {i} /\ sum' = sum + a[i] /\ sq' = sq + a[i] * a[i]
          /\ mn' = IF mn = 0 \/ a[i] < a[mn] THEN i ELSE mn
          /\ mx' = IF mx = 0 \/ a[i] > a[mx] THEN i ELSE mx
          /\ sec' = IF mx = 0 THEN 0 ELSE IF a[i] > a[mx] THEN mx ELSE IF sec = 0 \/ a[i] > a[sec] THEN i ELSE sec
       /\ UNCHANGED <<a, phase, dev>>
Turn == phase = 1 /\ todo = {} /\ phase' = 2 /\ todo' = DOMAIN a /\ UNCHANGED <<a, sum, sq, dev, mx, mn, sec>>
Two == /\ phase = 2 /\ \E i \in todo : todo' = todo \ {i} /\ dev' = dev + Sq(n * a[i] - sum)
       /\ UNCHANGED <<a, phase, sum, sq, mx, mn, sec>>
Spec == Init /\ [][One \/ Turn \/ Two]_vars
Done == phase = 2 /\ todo = {}
\* the two-pass sum of squared deviations is the variance, and so is the one-pass formula
VarianceOK == Done => /\ dev = n * VarN(a) /\ n * sq - sum * sum = VarN(a) /\ VarN(a) >= 0 /\ (VarN(a) = 0 <=> Cardinality(Range(a)) = 1)
ExtremaOK == Done => /\ ArgMinOK(a, mn - 1) /\ ArgMaxOK(a, mx - 1) /\ (n > 1 => SecondOK(a, mx - 1, sec - 1, a[sec]))
                     /\ \A k \in 1..n : \E i \in DOMAIN a : NthOK(a, k, a[i]) /\ \A j \in DOMAIN a : NthOK(a, k, a[j]) => a[j] = a[i]
=============================================================================

------------------------------ MODULE MC_Alias ------------------------------
(* Construction of the alias tables on integer weights (probabilities in    *)
(* units of the total weight T).                                            *)
EXTENDS Sampling, Json
CONSTANTS N, V, Emit
VARIABLES w, fake, small, large, prob, alias
vars == <<w, fake, small, large, prob, alias>>
n == Len(w)
T == SumSeq(w)
Down == [k \in 1..n |-> n + 1 - k]
Init == /\ w \in UNION {[1..k -> 0..V] : k \in 1..N} /\ SumSeq(w) > 0
        /\ fake = [i \in 1..Len(w) |-> Len(w) * w[i]]
        /\ small = SelectSeq(Down, LAMBDA i : fake[i] < T) /\ large = SelectSeq(Down, LAMBDA i : fake[i] >= T)
        /\ prob = [i \in 1..Len(w) |-> -1] /\ alias = [i \in 1..Len(w) |-> 1]
        /\ (Emit => PrintT(<<"CASE", ToJson([k |-> "alias", w |-> w])>>))
Pair == /\ small # <<>> /\ large # <<>>
        /\ LET s == Last(small)  g == Last(large)  f == fake[g] + fake[s] - T IN
           /\ prob' = [prob EXCEPT ![s] = fake[s]] /\ alias' = [alias EXCEPT ![s] = g] /\ fake' = [fake EXCEPT ![g] = f]
           /\ IF f < T THEN small' = Append(Front(small), g) /\ large' = Front(large)
              ELSE small' = Front(small) /\ large' = large
        /\ UNCHANGED w
RestL == small = <<>> /\ large # <<>> /\ prob' = [prob EXCEPT ![Last(large)] = T] /\ large' = Front(large) /\ UNCHANGED <<w, fake, small, alias>>
RestS == large = <<>> /\ small # <<>> /\ prob' = [prob EXCEPT ![Last(small)] = T] /\ small' = Front(small) /\ UNCHANGED <<w, fake, large, alias>>
Spec == Init /\ [][Pair \/ RestL \/ RestS]_vars
Done == small = <<>> /\ large = <<>>
\* every element is drawn with exactly its weight: column of its own plus the parts aliased to it
Exact == Done => \A i \in 1..n : prob[i] + FoldSet(LAMBDA j, t : t + (IF alias[j] = i /\ prob[j] < T THEN T - prob[j] ELSE 0), 0, 1..n) = n * w[i]
NoZero == Done => \A i \in 1..n : w[i] = 0 => prob[i] = 0 /\ \A j \in 1..n : prob[j] < T => alias[j] # i
=============================================================================

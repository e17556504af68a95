---------------------------- MODULE MC_Sampling -----------------------------
(* Partial Fisher-Yates shuffle with every choice of the generator, and     *)
(* k-means++ with every outcome of the weighted choice.                     *)
EXTENDS Sampling, Json
CONSTANTS M, V, Emit
VARIABLES mode, m, n, a, path, X, C
vars == <<mode, m, n, a, path, X, C>>
Init == \/ /\ mode = "shuffle" /\ m \in 1..M /\ n \in 1..m /\ a = [k \in 1..m |-> k] /\ path = <<>> /\ X = <<>> /\ C = <<>>
           /\ (Emit => PrintT(<<"CASE", ToJson([k |-> "select", m |-> m, n |-> n])>>))
        \/ /\ mode = "plusplus" /\ m = M /\ n \in 1..M /\ a = <<>> /\ path = <<>> /\ X \in [1..M -> 0..V] /\ C \in {<<X[i]>> : i \in 1..M}
           /\ (Emit => PrintT(<<"CASE", ToJson([k |-> "pp", X |-> X, n |-> n])>>))
Swap == /\ mode = "shuffle" /\ Len(path) < n
        /\ LET i == Len(path) + 1 IN \E j \in i..m : a' = [a EXCEPT ![i] = a[j], ![j] = a[i]] /\ path' = Append(path, j)
        /\ UNCHANGED <<mode, m, n, X, C>>
W(i) == Min({Abs(X[i] - C[j]) : j \in DOMAIN C})
Add == /\ mode = "plusplus" /\ Len(C) < n
       /\ \E i \in DOMAIN X : (W(i) > 0 \/ \A q \in DOMAIN X : W(q) = 0) /\ C' = Append(C, X[i])
       /\ UNCHANGED <<mode, m, n, a, path, X>>
Spec == Init /\ [][Swap \/ Add]_vars
\* the elements stay a permutation of the range: what is selected are distinct positions
Perm == mode = "shuffle" => SameBag(a, [k \in 1..m |-> k]) /\ a = Shuffled(m, path)
\* every arrangement is the result of exactly one sequence of choices, hence all are equally likely
Paths(mm, nn) == {p \in [1..nn -> 1..mm] : \A i \in 1..nn : p[i] >= i}
Uniform == (mode = "shuffle" /\ Len(path) = 0) =>
    LET ps == Paths(m, n)
        res == {SubSeq(Shuffled(m, p), 1, n) : p \in ps} IN
    /\ Cardinality(ps) = Falling(m, n) /\ Cardinality(res) = Cardinality(ps) /\ \A r \in res : Distinct(r)
Covers == (mode = "plusplus" /\ Len(C) = n) => PlusPlusOK(X, n, C)
=============================================================================

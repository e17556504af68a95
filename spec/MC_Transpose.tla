---------------------------- MODULE MC_Transpose ----------------------------
(* Blocked parallel transposition: blocks are distributed over threads, the *)
(* elements of different blocks are copied in any interleaving.             *)
EXTENDS Layout, Json
CONSTANTS MaxR, MaxC, B, Emit
VARIABLES R, C, pos, out
vars == <<R, C, pos, out>>
Blocks == {<<i * B, j * B>> : i \in 0..((R + B - 1) \div B - 1), j \in 0..((C + B - 1) \div B - 1)}
Src == [k \in 1..R * C |-> k]
\* cells of a block in the order of the two inner loops
H(b) == Min2(B, R - b[1])
W(b) == Min2(B, C - b[2])
Init == /\ R \in 1..MaxR /\ C \in 1..MaxC /\ pos = [b \in Blocks |-> 0] /\ out = [k \in 1..R * C |-> 0]
        /\ (Emit => PrintT(<<"CASE", ToJson([r |-> R, c |-> C])>>))
Copy == \E b \in Blocks : /\ pos[b] < H(b) * W(b)
                          /\ LET i == b[1] + (pos[b] \div W(b))  j == b[2] + (pos[b] % W(b))  k == j * R + i + 1 IN
                             /\ Assert(out[k] = 0, "a cell is written twice")
                             /\ out' = [out EXCEPT ![k] = At(Src, C, i, j)]
                          /\ pos' = [pos EXCEPT ![b] = @ + 1] /\ UNCHANGED <<R, C>>
Spec == Init /\ [][Copy]_vars
Done == \A b \in Blocks : pos[b] = H(b) * W(b)
Correct == Done => TransposedOK(Src, out, R, C) /\ TransposedOK(out, Src, C, R)
=============================================================================

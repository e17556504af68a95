---------------------------- MODULE MC_Distances ----------------------------
(* Two machines: (lev) the edit distance with two rows that are swapped, as *)
(* in the code; (mat) the triangular distance matrix filled row by row by   *)
(* threads in any interleaving.                                             *)
EXTENDS Distances, Json
CONSTANTS Alpha, MaxLen, Rows, V, Emit
VARIABLES m, s, t, i, j, prev, cur, cells, pos
vars == <<m, s, t, i, j, prev, cur, cells, pos>>
Strs == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
D(a, b) == Abs(s[a+1] - s[b+1])
InitLev == /\ m = "lev" /\ s \in Strs /\ t \in Strs /\ i = 0 /\ j = -1 /\ prev = [k \in 1..Len(t)+1 |-> k - 1] /\ cur = [k \in 1..Len(t)+1 |-> 0]
           /\ cells = <<>> /\ pos = <<>>
           /\ (Emit => PrintT(<<"CASE", ToJson([k |-> "lev", s |-> s, t |-> t])>>))
InitMat == /\ m = "mat" /\ s \in UNION {[1..n -> 0..V] : n \in 1..Rows} /\ t = <<>> /\ i = 0 /\ j = 0 /\ prev = <<>> /\ cur = <<>>
           /\ cells = [k \in 0..((Len(s) * (Len(s) - 1)) \div 2 - 1) |-> -1]   \* -1: never written
           /\ pos = [r \in 1..Len(s)-1 |-> 0]                                   \* next column of every row
           /\ (Emit => PrintT(<<"CASE", ToJson([k |-> "mat", s |-> s, t |-> t])>>))
LevHead == m = "lev" /\ i < Len(s) /\ j = -1 /\ cur' = [cur EXCEPT ![1] = i + 1] /\ j' = 0 /\ UNCHANGED <<m, s, t, i, prev, cells, pos>>
LevCell == /\ m = "lev" /\ i < Len(s) /\ j >= 0 /\ j < Len(t)
           /\ cur' = [cur EXCEPT ![j + 2] = Min({prev[j + 2] + 1, cur[j + 1] + 1, prev[j + 1] + IF s[i + 1] = t[j + 1] THEN 0 ELSE 1})]
           /\ j' = j + 1 /\ UNCHANGED <<m, s, t, i, prev, cells, pos>>
LevSwap == m = "lev" /\ i < Len(s) /\ j = Len(t) /\ prev' = cur /\ cur' = prev /\ i' = i + 1 /\ j' = -1 /\ UNCHANGED <<m, s, t, cells, pos>>
MatCell == m = "mat" /\ \E r \in DOMAIN pos : /\ pos[r] < r
                       /\ LET f == (r * (r - 1)) \div 2 + pos[r] IN
                          /\ cells[f] = -1                      \* no cell is written twice
                          /\ cells' = [cells EXCEPT ![f] = D(r, pos[r])]
                       /\ pos' = [pos EXCEPT ![r] = @ + 1]
                       /\ UNCHANGED <<m, s, t, i, j, prev, cur>>
Next == LevHead \/ LevCell \/ LevSwap \/ MatCell
Spec == InitLev /\ [][Next]_vars
SpecMat == InitMat /\ [][Next]_vars
LevOK == (m = "lev" /\ i = Len(s)) => /\ prev[Len(t) + 1] = LevDef(s, t) /\ LevRows(s, t) = LevDef(s, t) /\ LevDef(t, s) = LevDef(s, t)
                                      /\ (LevDef(s, t) = 0) = (s = t)
                                      /\ LevDef(s, t) <= Max2(Len(s), Len(t)) /\ LevDef(s, t) >= Abs(Len(s) - Len(t))
MatOK == (m = "mat" /\ \A r \in DOMAIN pos : pos[r] = r) =>
         \A r, c \in 0..Len(s)-1 : r # c => FlatOf(r, c) \in DOMAIN cells /\ cells[FlatOf(r, c)] = D(r, c) /\ FlatOf(r, c) = FlatOf(c, r)
NoLostWrite == \A r \in DOMAIN pos : \A q \in 0..pos[r]-1 : cells[FlatOf(r, q)] = D(r, q)
=============================================================================

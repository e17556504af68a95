------------------------------ MODULE Distances -----------------------------
(* Distances between feature vectors and sequences, distance matrices (C24). *)
EXTENDS FFCLBase
Dot(p, q) == FoldLeftDomain(LAMBDA a, i : a + p[i] * q[i], 0, p)
Zero(p) == [i \in DOMAIN p |-> 0]
\* v (in 1/1000) is the cosine of the angle of p and q
INFCOS == 888888
CosOK(p, q, v) == LET n == Dot(p, p) * Dot(q, q) IN
                  IF n = 0 THEN v = INFCOS
                  ELSE LET r == ISqrt(n * 1000000) IN Abs(v * r - Dot(p, q) * 1000000) <= Abs(v) + r + 1
\* edit distance by definition (exponential: models only) ...
RECURSIVE LevDef(_, _)
LevDef(s, t) == IF s = <<>> THEN Len(t) ELSE IF t = <<>> THEN Len(s)
                ELSE LET c == IF Head(s) = Head(t) THEN 0 ELSE 1
                     IN Min2(c + LevDef(Tail(s), Tail(t)), 1 + Min2(LevDef(Tail(s), t), LevDef(s, Tail(t))))
\* ... and row by row, shown equal to it by MC_Distances
LevRow(prev, x, t) == FoldLeftDomain(LAMBDA row, j : Append(row, Min2(Min2(prev[j+1], row[j]) + 1, prev[j] + (IF x = t[j] THEN 0 ELSE 1))),
                                     <<prev[1] + 1>>, t)
LevRows(s, t) == LET r == FoldLeft(LAMBDA prev, x : LevRow(prev, x, t), [j \in 1..Len(t)+1 |-> j - 1], s) IN r[Len(t) + 1]
\* triangular storage: cell of the (unordered) pair of different rows r, c (from 0)
FlatOf(r, c) == LET a == Max2(r, c)  b == Min2(r, c) IN (a * (a - 1)) \div 2 + b
=============================================================================

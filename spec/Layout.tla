------------------------------- MODULE Layout -------------------------------
(* Transposition and rearrangement of flat row-major data (C26).            *)
EXTENDS FFCLBase
\* element (i, j), from 0, of flat row-major data with n columns
At(d, n, i, j) == d[i * n + j + 1]
TransposedOK(d, t, rows, cols) == /\ Len(t) = rows * cols
                                  /\ \A i \in 0..rows-1, j \in 0..cols-1 : At(t, rows, j, i) = At(d, cols, i, j)
\* the pattern the driver fills big matrices with
Pat(i, j, s, m) == (i * 131 + j * 17 + s) % m
Remap(d, ind, n) == [k \in 1..Len(d) |-> At(d, n, ind[((k - 1) \div n) + 1], (k - 1) % n)]
=============================================================================

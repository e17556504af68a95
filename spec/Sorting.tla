------------------------------ MODULE Sorting -------------------------------
(* Requirements on reordering an array of sample indices by one feature.     *)
(* a, b: the values along the feature before and after (sequences), p: the   *)
(* returned position, 0-based.                                               *)
EXTENDS FFCLBase
PermutedOK(before, after) == SameBag(before, after)
\* everything before p is not greater, everything after p not smaller
AroundOK(b, p) == /\ p \in 0..Len(b)-1
                  /\ \A i \in 1..p : b[i] <= b[p+1]
                  /\ \A i \in p+2..Len(b) : b[i] >= b[p+1]
PartitionOK(a, b, pivot, p) == AroundOK(b, p) /\ b[p+1] = a[pivot+1]
SelectOK(b, kth, p) == p = kth /\ AroundOK(b, p)
\* the split at the lower median, moved to the first sample that has its value: below it strictly, from it on at or above
SplitOK(a, b, p) == /\ p \in 0..Len(b)-1
                    /\ LET v == b[p+1] m == (Len(a) - 1) \div 2 IN
                       /\ Cardinality({i \in DOMAIN a : a[i] < v}) <= m /\ m < Cardinality({i \in DOMAIN a : a[i] <= v})
                       /\ \A i \in 1..p : b[i] < v
                       /\ \A i \in p+1..Len(b) : b[i] >= v
SortedOK(b) == \A i \in 1..Len(b)-1 : b[i] <= b[i+1]
\* the median of the first, middle (left rounded) and last value
Median3(x, y, z) == IF x < y THEN (IF y < z THEN y ELSE Max2(x, z)) ELSE (IF x < z THEN x ELSE Max2(y, z))
Median3OK(a, p) == IF Len(a) < 3 THEN p = 0
                   ELSE /\ p \in {0, (Len(a) - 1) \div 2, Len(a) - 1}
                        /\ a[p+1] = Median3(a[1], a[((Len(a) - 1) \div 2) + 1], a[Len(a)])
=============================================================================

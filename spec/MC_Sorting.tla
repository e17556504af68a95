----------------------------- MODULE MC_Sorting -----------------------------
(* quickselect and quicksort, step by step: the median-of-three pivot, the   *)
(* two scans and swaps of the partition as the code performs them, the       *)
(* narrowing of the range (select) or the stack of ranges (sort).            *)
EXTENDS Sorting, Json
CONSTANTS N, V, Modes, Emit
VARIABLES in, a, mode, kth, lo, hi, pv, piv, i, j, pc, stack
vars == <<in, a, mode, kth, lo, hi, pv, piv, i, j, pc, stack>>
\* positions are 1-based; the range under work is lo..hi, pv the position of the pivot
Med(x, l, h) ==
    LET s == SubSeq(x, l, h) IN
    IF h - l + 1 < 3 THEN l
    ELSE LET m == l + ((h - l) \div 2)
             v == Median3(x[l], x[m], x[h])
         IN IF x[m] = v THEN m ELSE IF x[l] = v THEN l ELSE h
Swap(x, p, q) == [x EXCEPT ![p] = x[q], ![q] = x[p]]
Init == /\ in \in UNION {[1..n -> 0..V-1] : n \in 1..N} /\ a = in
        /\ mode \in Modes
        /\ kth \in IF mode = "sort" THEN {0} ELSE 1..Len(in)
        /\ lo = 1 /\ hi = Len(in) /\ pv = 0 /\ piv = 0 /\ i = 0 /\ j = 0 /\ stack = <<>>
        /\ pc = IF mode = "partition" THEN "scan0" ELSE "choose"
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([a |-> in, mode |-> mode, kth |-> kth])>>) ELSE TRUE
Choose == /\ pc = "choose" /\ lo < hi
          /\ pv' = Med(a, lo, hi) /\ piv' = a[pv'] /\ i' = lo - 1 /\ j' = hi + 1 /\ pc' = "left"
          /\ UNCHANGED <<in, a, mode, kth, lo, hi, stack>>
Trivial == /\ pc = "choose" /\ lo >= hi
           /\ IF mode = "sort" /\ stack # <<>>
              THEN lo' = Head(stack)[1] /\ hi' = Head(stack)[2] /\ stack' = Tail(stack) /\ pc' = pc /\ pv' = pv
              ELSE pc' = "done" /\ pv' = lo /\ UNCHANGED <<lo, hi, stack>>
           /\ UNCHANGED <<in, a, mode, kth, piv, i, j>>
Start == /\ pc = "scan0" /\ pv' = kth /\ piv' = a[kth] /\ i' = lo - 1 /\ j' = hi + 1 /\ pc' = IF lo = hi THEN "done" ELSE "left"
         /\ UNCHANGED <<in, a, mode, kth, lo, hi, stack>>
Left == /\ pc = "left" /\ i' = Min({p \in i+1..hi : a[p] >= piv}) /\ pc' = "right"
        /\ UNCHANGED <<in, a, mode, kth, lo, hi, pv, piv, j, stack>>
Right == /\ pc = "right" /\ j' = Max({p \in lo..j-1 : a[p] <= piv}) /\ pc' = "swap"
         /\ UNCHANGED <<in, a, mode, kth, lo, hi, pv, piv, i, stack>>
Exchange == /\ pc = "swap" /\ i < j
            /\ IF a[j] < piv
               THEN /\ a' = Swap(a, i, j)
                    /\ IF pv = i THEN pv' = j /\ j' = j + 1 ELSE UNCHANGED <<pv, j>>
                    /\ UNCHANGED i
               ELSE /\ a' = Swap(a, i, pv) /\ pv' = i /\ i' = i - 1 /\ UNCHANGED j
            /\ pc' = "left" /\ UNCHANGED <<in, mode, kth, lo, hi, piv, stack>>
Crossed == /\ pc = "swap" /\ i >= j
           /\ CASE mode = "partition" -> pc' = "done" /\ UNCHANGED <<lo, hi, stack>>
                [] mode = "select" ->
                     IF pv = kth THEN pc' = "done" /\ UNCHANGED <<lo, hi, stack>>
                     ELSE /\ pc' = "choose" /\ UNCHANGED stack
                          /\ IF kth < pv THEN hi' = pv - 1 /\ UNCHANGED lo ELSE lo' = pv + 1 /\ UNCHANGED hi
                [] mode = "sort" -> /\ pc' = "choose" /\ hi' = pv - 1 /\ UNCHANGED lo
                                    /\ stack' = <<<<pv + 1, hi>>>> \o stack
           /\ UNCHANGED <<in, a, mode, kth, pv, piv, i, j>>
Next == Choose \/ Trivial \/ Start \/ Left \/ Right \/ Exchange \/ Crossed
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the scans never leave the range
ScanInRange == /\ pc = "left" => \E p \in i+1..hi : a[p] >= piv
               /\ pc = "right" => \E p \in lo..j-1 : a[p] <= piv
Permutation == PermutedOK(in, a)
Correct == pc = "done" => CASE mode = "partition" -> PartitionOK(in, a, kth - 1, pv - 1)
                            [] mode = "select" -> SelectOK(a, kth - 1, pv - 1)
                            [] mode = "sort" -> SortedOK(a)
Terminates == <>(pc = "done")
=============================================================================

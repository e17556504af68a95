------------------------------ MODULE MC_Search -----------------------------
(* Exhaustive check of the search machine: every dataset of N samples with  *)
(* coordinates 0..C-1 in F features, every query centre, capacity, radius   *)
(* and excluded set, and every kd-tree over the dataset (any cut axis, any  *)
(* pivot, leaves of any size: the tree is chosen while it is walked).       *)
EXTENDS Search, Json
CONSTANTS N, F, C, Ks, R2s, MaxExcl, Met, Emit
VARIABLES X, q, stack, buf, seen, done
vars == <<X, q, stack, buf, seen, done>>
Pts == [1..F -> 0..C-1]
AsSeq(S) == SetToSortSeq(S, <)
Init == /\ X \in [1..N -> Pts]
        /\ \E c \in [1..F -> 0..C-1], k \in Ks, r \in R2s, e \in SUBSET (0..N-1) :
             /\ Cardinality(e) <= MaxExcl
             /\ q = [met |-> Met, c2 |-> [f \in 1..F |-> 2 * c[f]], k |-> k, reg |-> IF r = 0 THEN "all" ELSE "ball",
                     r2 |-> r, excl |-> e]
        /\ stack = <<<<"down", 0..N-1>>>>
        /\ buf = <<>> /\ seen = {} /\ done = FALSE
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> [i \in 1..N |-> [f \in 1..F |-> X[i][f]]],
                  c2 |-> q.c2, k |-> q.k, r2 |-> q.r2, excl |-> AsSeq(q.excl)])>>) ELSE TRUE
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
\* a leaf: all its samples are offered
Leaf == /\ Len(stack) > 0 /\ Top[1] = "down"
        /\ buf' = PartialSearch(X, q, buf, AsSeq(Top[2])) /\ seen' = seen \cup Top[2]
        /\ stack' = Pop /\ UNCHANGED <<X, q, done>>
\* an inner node: the pivot is offered, the child on the query's side is searched first
Inner == /\ Len(stack) > 0 /\ Top[1] = "down" /\ Cardinality(Top[2]) > 1
         /\ \E piv \in Top[2], ax \in 1..F :
              LET L == {i \in Top[2] : X[i+1][ax] < X[piv+1][ax]}
                  R == Top[2] \ (L \cup {piv})
                  left == q.c2[ax] < 2 * X[piv+1][ax]
              IN /\ buf' = PartialSearch(X, q, buf, <<piv>>) /\ seen' = seen \cup {piv}
                 /\ stack' = Pop \o << <<"up", piv, ax, left, IF left THEN R ELSE L>>, <<"down", IF left THEN L ELSE R>> >>
         /\ UNCHANGED <<X, q, done>>
\* back at the inner node: visit the sibling or prune it
Up == /\ Len(stack) > 0 /\ Top[1] = "up"
      /\ stack' = IF VisitSibling(X, q, buf, Top[2], Top[3], Top[4])
                  THEN Append(Pop, <<"down", Top[5]>>) ELSE Pop
      /\ UNCHANGED <<X, q, buf, seen, done>>
Finish == /\ Len(stack) = 0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<X, q, stack, buf, seen>>
Next == Leaf \/ Inner \/ Up \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Idx(b) == [j \in DOMAIN b |-> b[j][1]]
Ds(b)  == [j \in DOMAIN b |-> b[j][2]]
\* at every moment the buffer answers the query over the samples seen so far
BufferOK == IsAnswer(X, seen, q, Idx(buf), Ds(buf))
\* at the end it answers the query over all samples, although some were pruned
Exact == done => IsAnswer(X, 0..N-1, q, Idx(buf), Ds(buf))
\* an unlimited region search prunes nothing
Whole == done /\ q.k = 0 => seen = 0..N-1
Terminates == <>done
=============================================================================

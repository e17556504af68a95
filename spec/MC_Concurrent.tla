---------------------------- MODULE MC_Concurrent ----------------------------
(* All interleavings of P searches (the machine of MC_Search) and one thread  *)
(* that builds an index of its own over the same samples, for every dataset,  *)
(* every query of every thread and every shape of the shared tree.  The tree  *)
(* is chosen while it is first walked and kept: all threads walk the same.    *)
(* Scratch = "shared" lets the threads use one buffer: the invariants then    *)
(* fail (the model tells a private buffer from a shared one).                 *)
EXTENDS Search
CONSTANTS N, F, C, P, Ks, Scratch
VARIABLES X, tree, q, stack, buf, done, order, built
vars == <<X, tree, q, stack, buf, done, order, built>>
Threads == 1..P
Pts == [1..F -> 0..C-1]
AsSeq(S) == SetToSortSeq(S, <)
Slot(p) == IF Scratch = "shared" THEN 1 ELSE p
Init == /\ X \in [1..N -> Pts]
        /\ q \in [Threads -> {[met |-> 2, c2 |-> [f \in 1..F |-> 2 * v[f]], k |-> k, reg |-> "all", r2 |-> 0, excl |-> {}] : v \in Pts, k \in Ks}]
        /\ tree = <<>> /\ stack = [p \in Threads |-> <<<<"down", 0..N-1>>>>]
        /\ buf = [p \in Threads |-> <<>>] /\ done = [p \in Threads |-> FALSE]
        /\ order = [i \in 1..N |-> i - 1] /\ built = 0
Top(p) == stack[p][Len(stack[p])]
Pop(p) == SubSeq(stack[p], 1, Len(stack[p]) - 1)
\* how the node over the samples S is split: decided once, for all threads ("leaf" or <<pivot, axis>>)
Splits(S) == {<<"leaf">>} \cup (IF Cardinality(S) > 1 THEN {<<"cut", piv, ax>> : piv \in S, ax \in 1..F} ELSE {})
Node(S) == IF \E i \in DOMAIN tree : tree[i][1] = S THEN {tree[CHOOSE i \in DOMAIN tree : tree[i][1] = S][2]} ELSE Splits(S)
Keep(S, ch) == IF \E i \in DOMAIN tree : tree[i][1] = S THEN tree ELSE Append(tree, <<S, ch>>)
Down(p) == /\ Len(stack[p]) > 0 /\ Top(p)[1] = "down"
           /\ LET S == Top(p)[2] IN \E ch \in Node(S) :
                /\ tree' = Keep(S, ch)
                /\ IF ch[1] = "leaf"
                   THEN /\ buf' = [buf EXCEPT ![Slot(p)] = PartialSearch(X, q[p], @, AsSeq(S))]
                        /\ stack' = [stack EXCEPT ![p] = Pop(p)]
                   ELSE LET piv == ch[2] ax == ch[3]
                            L == {i \in S : X[i+1][ax] < X[piv+1][ax]}
                            R == S \ (L \cup {piv})
                            left == q[p].c2[ax] < 2 * X[piv+1][ax]
                        IN /\ buf' = [buf EXCEPT ![Slot(p)] = PartialSearch(X, q[p], @, <<piv>>)]
                           /\ stack' = [stack EXCEPT ![p] = Pop(p) \o << <<"up", piv, ax, left, IF left THEN R ELSE L>>, <<"down", IF left THEN L ELSE R>> >>]
           /\ UNCHANGED <<X, q, done, order, built>>
Up(p) == /\ Len(stack[p]) > 0 /\ Top(p)[1] = "up"
         /\ stack' = [stack EXCEPT ![p] = IF VisitSibling(X, q[p], buf[Slot(p)], Top(p)[2], Top(p)[3], Top(p)[4])
                                          THEN Append(Pop(p), <<"down", Top(p)[5]>>) ELSE Pop(p)]
         /\ UNCHANGED <<X, tree, q, buf, done, order, built>>
Finish(p) == /\ Len(stack[p]) = 0 /\ ~done[p] /\ done' = [done EXCEPT ![p] = TRUE] /\ UNCHANGED <<X, tree, q, stack, buf, order, built>>
\* another thread sorts its own indices by the first feature, one exchange of neighbours at a time
Build == /\ built < N * N
         /\ \E i \in 1..N-1 : /\ X[order[i]+1][1] > X[order[i+1]+1][1]
                               /\ order' = [order EXCEPT ![i] = order[i+1], ![i+1] = order[i]]
         /\ built' = built + 1 /\ UNCHANGED <<X, tree, q, stack, buf, done>>
Next == Build \/ \E p \in Threads : Down(p) \/ Up(p) \/ Finish(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Idx(b) == [j \in DOMAIN b |-> b[j][1]]
Ds(b)  == [j \in DOMAIN b |-> b[j][2]]
Exact == \A p \in Threads : done[p] => IsAnswer(X, 0..N-1, q[p], Idx(buf[p]), Ds(buf[p]))
\* what is shared is never written (the tree only unfolds)
Unwritten == [][X' = X /\ q' = q /\ Len(tree) <= Len(tree') /\ SubSeq(tree', 1, Len(tree)) = tree]_vars
Permutes == Range(order) = 0..N-1
AllDone == <>(\A p \in Threads : done[p])
=============================================================================

---------------------------- MODULE MC_DualTree -----------------------------
(* The dual traversal, abstracted from the shapes of the trees: pairs of a   *)
(* query and a reference are evaluated in any order; a pair may be pruned    *)
(* when its length exceeds the bound of a query node, which is at least the  *)
(* k-th distance of some query whose buffer is full.  pq: the queue of the   *)
(* k shortest edges seen (IndicesToBuffersMap::update_priority_queue).       *)
EXTENDS DualTree, Json
CONSTANTS NQ, NR, C, Ks, Emit
VARIABLES pos, ref, ban, k, left, bufs, pq
vars == <<pos, ref, ban, k, left, bufs, pq>>
Qs == 1..NQ
Rs == 1..NR
D(a, b) == Abs(pos[a] - ref[b])
Adm == Rs \ ban
Init == /\ pos \in [Qs -> 0..C-1] /\ ref \in [Rs -> 0..C-1] /\ k \in Ks
        /\ ban \in {{}, {1}} /\ NQ * Cardinality(Rs \ ban) >= k
        /\ left = Qs \X Rs /\ bufs = [q \in Qs |-> {}] /\ pq = {}
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([q |-> pos, r |-> ref, k |-> k, ban |-> ban = {1}])>>) ELSE TRUE
Worst(q, S) == Max({D(q, r) : r \in S})
Len2(e) == D(e[1], e[2])
\* best-k buffer of one query (a set: references are distinct)
Insert(q, S, r) == IF r \in ban THEN S
                   ELSE IF Cardinality(S) < k THEN S \cup {r}
                   ELSE IF D(q, r) < Worst(q, S) THEN (S \ {CHOOSE w \in S : D(q, w) = Worst(q, S)}) \cup {r} ELSE S
Shrink(S) == IF Cardinality(S) <= k THEN S ELSE S \ {CHOOSE e \in S : \A f \in S : Len2(f) <= Len2(e)}
Push(S, e) == IF Cardinality(S) < k \/ Len2(e) < Max({Len2(f) : f \in S}) THEN Shrink(S \cup {e}) ELSE S
Refresh(S, q, b) == FoldSet(LAMBDA r, acc : Push(acc, <<q, r>>), S, b)
Visit(e) == LET b == Insert(e[1], bufs[e[1]], e[2])
            IN /\ left' = left \ {e} /\ bufs' = [bufs EXCEPT ![e[1]] = b]
               /\ pq' = Refresh(pq, e[1], b)
               /\ UNCHANGED <<pos, ref, ban, k>>
Prune(e) == /\ \E q \in Qs : Cardinality(bufs[q]) = k /\ Worst(q, bufs[q]) < Len2(e)
            /\ left' = left \ {e} /\ UNCHANGED <<pos, ref, ban, k, bufs, pq>>
Next == \E e \in left : Visit(e) \/ Prune(e)
Spec == Init /\ [][Next]_vars
Sound == \A e \in pq : e[2] \in Adm
Exact == left = {} => pq # {} /\ IsKth(Qs, Adm, D, k, Max({Len2(e) : e \in pq}))
=============================================================================

------------------------------ MODULE MC_Buffer -----------------------------
(* Every sequence of L offers of the samples 0..L-1 with distances 0..C-1,  *)
(* some of them inadmissible, for every capacity in Ks.                     *)
EXTENDS Buffer, Json
CONSTANTS L, C, Ks, Bans, Emit
VARIABLES k, ban, offers, buf, hist
vars == <<k, ban, offers, buf, hist>>
Init == k \in Ks /\ ban \in Bans /\ offers = <<>> /\ buf = NoBuf /\ hist = <<>>
OfferIt(d) == LET x == <<Len(hist), d>> IN
            /\ hist' = Append(hist, x)
            /\ IF x[1] \in ban THEN UNCHANGED <<offers, buf>>
               ELSE offers' = Append(offers, x) /\ buf' = Update(buf, k, x)
            /\ IF Emit /\ Len(hist') = L THEN PrintT(<<"CASE", ToJson([k |-> k, ban |-> SetToSortSeq(ban, <), hist |-> hist'])>>) ELSE TRUE
            /\ UNCHANGED <<k, ban>>
Next == Len(hist) < L /\ \E d \in 0..C-1 : OfferIt(d)
Spec == Init /\ [][Next]_vars
Best == BestK(offers, k, buf.c)
Caches == Len(buf.c) > 0 =>
            LET ds == [j \in DOMAIN buf.c |-> buf.c[j][2]]
            IN /\ buf.c[buf.far][2] = MaxSeq(ds)
               /\ buf.clo \in Range(buf.c) /\ buf.clo[2] = MinSeq(ds)
NoBanned == \A j \in DOMAIN buf.c : buf.c[j][1] \notin ban
=============================================================================

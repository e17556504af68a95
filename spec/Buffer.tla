------------------------------- MODULE Buffer -------------------------------
(* The neighbour buffer.                                                    *)
(* Abstract state: the sequence of admissible offers <<sample, distance>>   *)
(* made so far; what the buffer shows must be a best-k choice among them.   *)
(* Machine state (StaticBuffer.hpp): the content, the position of the       *)
(* furthest entry and the closest entry, maintained incrementally.          *)
EXTENDS FFCLBase

\* content: a choice of the min(k, #offers) offers of smallest distance
BestK(offers, k, content) ==
    LET m == IF k = 0 THEN Len(offers) ELSE Min2(k, Len(offers))
    IN /\ Len(content) = m
       /\ \A x \in Range(content) : Count(content, x) <= Count(offers, x)
       /\ m > 0 => LET worst == MaxSeq([j \in DOMAIN content |-> content[j][2]])
                   IN \A x \in Range(offers) : Count(content, x) < Count(offers, x) => x[2] >= worst

NoBuf == [c |-> <<>>, far |-> 0, clo |-> <<0, 0>>]
ArgMaxFirst(c) == CHOOSE p \in DOMAIN c : /\ \A r \in DOMAIN c : c[r][2] <= c[p][2]
                                          /\ \A r \in 1..p-1 : c[r][2] < c[p][2]
\* update_static_buffers
Update(b, k, x) ==
    IF Len(b.c) = 0 THEN [c |-> <<x>>, far |-> 1, clo |-> x]
    ELSE LET clo == IF x[2] < b.clo[2] THEN x ELSE b.clo IN
         IF k = 0 \/ Len(b.c) < k
         THEN [c |-> Append(b.c, x), far |-> IF x[2] > b.c[b.far][2] THEN Len(b.c) + 1 ELSE b.far, clo |-> clo]
         ELSE IF x[2] < b.c[b.far][2]
              THEN LET c2 == [b.c EXCEPT ![b.far] = x] IN [c |-> c2, far |-> ArgMaxFirst(c2), clo |-> clo]
              ELSE b
=============================================================================

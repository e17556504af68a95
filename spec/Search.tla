------------------------------- MODULE Search -------------------------------
(* Searches over an index of samples.                                       *)
(*                                                                          *)
(* A query is a record                                                      *)
(*   c2   : centre in doubled coordinates (so that half-integer centres and *)
(*          the centres of boxes are integers)                              *)
(*   k    : capacity of the buffer, 0 = unlimited                           *)
(*   reg  : "all" | "ball" | "box"                                          *)
(*   r2   : doubled radius (ball);  lo, hi : box corners (box)              *)
(*   excl : samples that must not be returned                               *)
(* Samples are numbered from 0; X[i+1] are the features of sample i.        *)
(*   met  : 2 = Euclidean distance (floating-point features), 1 = Manhattan *)
(*          distance (integral features)                                    *)
(* D4 is four times the squared distance to the centre.                     *)
EXTENDS FFCLBase

D4(X, q, i) == IF q.met = 2 THEN FoldLeftDomain(LAMBDA a, f : a + Sq(2 * X[i+1][f] - q.c2[f]), 0, q.c2)
               ELSE Sq(FoldLeftDomain(LAMBDA a, f : a + Abs(2 * X[i+1][f] - q.c2[f]), 0, q.c2))

InRegion(X, q, i) ==
    CASE q.reg = "all"  -> TRUE
      [] q.reg = "ball" -> q.r2 > 0 /\ D4(X, q, i) < q.r2 * q.r2
      [] q.reg = "box"  -> \A f \in DOMAIN q.lo : q.lo[f] <= X[i+1][f] /\ X[i+1][f] <= q.hi[f]

Admissible(X, ind, q) == {i \in ind : i \notin q.excl /\ InRegion(X, q, i)}

\* The declarative meaning: idx (sequence of samples) with distances d is an answer to q over
\* the indexed samples ind.
IsAnswer(X, ind, q, idx, d) ==
    LET A == Admissible(X, ind, q)
        m == IF q.k = 0 THEN Cardinality(A) ELSE Min2(q.k, Cardinality(A))
        R == Range(idx)
    IN /\ Len(idx) = m /\ Len(d) = m
       /\ R \subseteq A /\ Cardinality(R) = m
       /\ \A j \in DOMAIN idx : d[j] = D4(X, q, idx[j])
       /\ m > 0 => LET worst == MaxSeq(d)
                   IN \A i \in A \ R : D4(X, q, i) >= worst

\* What the buffer reports about its content.
Summary(idx, d, ci, cd, fi, fd) ==
    Len(idx) > 0 => /\ cd = MinSeq(d) /\ fd = MaxSeq(d)
                    /\ \E j \in DOMAIN idx : idx[j] = ci /\ d[j] = cd
                    /\ \E j \in DOMAIN idx : idx[j] = fi /\ d[j] = fd

---------------------------------------------------------------------------
(* The search machine of TreeTraverser.hpp / KDNodeView.hpp / StaticBuffer.hpp.            *)
(* A buffer is a sequence of <<sample, D4>>.                                               *)
Full(buf, k)     == k # 0 /\ Len(buf) >= k
FurthestPos(buf) == CHOOSE p \in DOMAIN buf : /\ \A r \in DOMAIN buf : buf[r][2] <= buf[p][2]
                                              /\ \A r \in 1..p-1 : buf[r][2] < buf[p][2]
Offer(buf, k, i, dd) == IF ~Full(buf, k) THEN Append(buf, <<i, dd>>)
                        ELSE LET p == FurthestPos(buf)
                             IN IF dd < buf[p][2] THEN [buf EXCEPT ![p] = <<i, dd>>] ELSE buf
PartialSearch(X, q, buf, pts) ==
    FoldLeft(LAMBDA b, i : IF i \notin q.excl /\ InRegion(X, q, i) THEN Offer(b, q.k, i, D4(X, q, i)) ELSE b,
             buf, pts)

\* visit the sibling of a child that was searched first?  axis: cut axis, piv: pivot sample
VisitSibling(X, q, buf, piv, axis, fromLeft) ==
    \/ ~Full(buf, q.k)
    \/ LET gap4 == Sq(2 * X[piv+1][axis] - q.c2[axis])
           far4 == buf[FurthestPos(buf)][2]
       IN IF fromLeft THEN gap4 <= far4 ELSE gap4 < far4
=============================================================================

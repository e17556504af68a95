------------------------------- MODULE Bounds -------------------------------
(* Regions of space and their distances.  Boxes are sequences of <<lo, hi>> *)
(* (integers); probe points are in doubled coordinates, D4 quantities are   *)
(* four times squared lengths, so that everything is an integer.            *)
EXTENDS FFCLBase
Tight(X, S) == [f \in 1..Len(X[1]) |-> <<Min({X[i+1][f] : i \in S}), Max({X[i+1][f] : i \in S})>>]
InBox2(p2, box) == \A f \in DOMAIN box : 2 * box[f][1] <= p2[f] /\ p2[f] <= 2 * box[f][2]
Centre2(box) == [f \in DOMAIN box |-> box[f][1] + box[f][2]]
Half2(box) == [f \in DOMAIN box |-> box[f][2] - box[f][1]]
Diam2(box) == FoldLeftDomain(LAMBDA a, f : a + Sq(box[f][2] - box[f][1]), 0, box)
\* 4 * squared distance of a doubled point to a doubled centre
Far4(p2, c2) == FoldLeftDomain(LAMBDA a, f : a + Sq(p2[f] - c2[f]), 0, p2)
InBall4(p2, c2, r) == r > 0 /\ Far4(p2, c2) < 4 * r * r
SegGap(s, t) == IF s[2] < t[1] THEN t[1] - s[2] ELSE IF t[2] < s[1] THEN s[1] - t[2] ELSE 0
BoxGap2(a, b) == FoldLeftDomain(LAMBDA acc, f : acc + Sq(SegGap(a[f], b[f])), 0, a)
\* two balls: no gap (-1) or the squared distance of the centres
BallGap(q, ra, rb) == IF q <= Sq(ra + rb) THEN -1 ELSE q
=============================================================================

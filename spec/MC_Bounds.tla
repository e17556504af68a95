------------------------------ MODULE MC_Bounds -----------------------------
(* All pairs of sets of samples of a small grid: the tight box holds exactly *)
(* what it must, the gap of two boxes is attained and is a lower bound, and  *)
(* so is the gap of two balls for the points they hold.                      *)
EXTENDS Bounds, Json
CONSTANTS N, F, C, Radii, Emit
VARIABLES X, A, B, ra, rb, done
vars == <<X, A, B, ra, rb, done>>
Pts == [1..F -> 0..C-1]
AsSeq(S) == SetToSortSeq(S, <)
Init == /\ X \in [1..N -> Pts]
        /\ A \in (SUBSET (0..N-1)) \ {{}} /\ B \in (SUBSET (0..N-1)) \ {{}}
        /\ ra \in Radii /\ rb \in Radii /\ done = FALSE
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> X, A |-> AsSeq(A), B |-> AsSeq(B), ra |-> ra, rb |-> rb])>>) ELSE TRUE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<X, A, B, ra, rb>>
Spec == Init /\ [][Next]_vars
BA == Tight(X, A)
BB == Tight(X, B)
InI(p, box) == \A f \in DOMAIN box : box[f][1] <= p[f] /\ p[f] <= box[f][2]
TightOK == /\ \A i \in A : InI(X[i+1], BA)
           /\ \A f \in 1..F : (\E i \in A : X[i+1][f] = BA[f][1]) /\ (\E i \in A : X[i+1][f] = BA[f][2])
GapLower == \A p \in Pts, q \in Pts : InI(p, BA) /\ InI(q, BB) => BoxGap2(BA, BB) <= Dist2(p, q)
GapAttained == \E p \in Pts, q \in Pts : InI(p, BA) /\ InI(q, BB) /\ BoxGap2(BA, BB) = Dist2(p, q)
GapZero == (BoxGap2(BA, BB) = 0) <=> \E p \in Pts : InI(p, BA) /\ InI(p, BB)
c1 == X[Min(A)+1]
c2 == X[Min(B)+1]
\* points strictly inside the balls are further apart than the gap: d(p,q) >= d(c1,c2) - ra - rb
\* (on a line, where distances are integers)
BallLower == F = 1 => \A p \in Pts, q \in Pts :
    (Dist2(p, c1) < ra * ra /\ Dist2(q, c2) < rb * rb) => Abs(p[1] - q[1]) >= Abs(c1[1] - c2[1]) - ra - rb
DiamOK == \A p \in Pts, q \in Pts : InI(p, BA) /\ InI(q, BA) => Dist2(p, q) <= Diam2(BA)
=============================================================================

----------------------------- MODULE MC_Hamerly ------------------------------
(* Hamerly's algorithm in one dimension, exactly: positions and bounds in    *)
(* units of 1/L with L a common multiple of the cluster sizes.  Samples are  *)
(* processed one by one; the two bound tests, the full search and the bound  *)
(* updates are those of the implementation.                                  *)
EXTENDS FFCLBase, Json
CONSTANTS N, C, K, Emit
VARIABLES X, cen, asg, ub, lb, todo, rounds
vars == <<X, cen, asg, ub, lb, todo, rounds>>
P == 1..N
L == CASE N <= 1 -> 2 [] N = 2 -> 2 [] N = 3 -> 6 [] N = 4 -> 12 [] OTHER -> 60
Inf == 100000
D(i, c, j) == Abs(L * X[i] - c[j])
Near(i, c) == {j \in 1..K : \A h \in 1..K : D(i, c, j) <= D(i, c, h)}
Second(i, c, j) == IF K = 1 THEN Inf ELSE Min({D(i, c, h) : h \in (1..K) \ {j}})
HalfGap(c, j) == IF K = 1 THEN Inf ELSE Min({Abs(c[j] - c[h]) : h \in (1..K) \ {j}})   \* twice the half gap
Init == /\ X \in [P -> 0..C-1] /\ \A i \in 1..N-1 : X[i] <= X[i+1]
        /\ \E s \in [1..K -> 0..C-1] : cen = [j \in 1..K |-> L * s[j]]
        /\ asg = [i \in P |-> Min(Near(i, cen))]
        /\ ub = [i \in P |-> D(i, cen, Min(Near(i, cen)))]
        /\ lb = [i \in P |-> Second(i, cen, Min(Near(i, cen)))]
        /\ todo = 1 /\ rounds = 0
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> [i \in P |-> <<X[i]>>], C2 |-> [j \in 1..K |-> <<2 * (cen[j] \div L)>>]])>>) ELSE TRUE
\* bounds are compared doubled
Bound(i) == Max2(HalfGap(cen, asg[i]), 2 * lb[i])
Swap == /\ todo <= N
        /\ LET i == todo
               u == D(i, cen, asg[i])
           IN IF 2 * ub[i] <= Bound(i) THEN UNCHANGED <<asg, ub, lb>>
              ELSE IF 2 * u <= Bound(i) THEN ub' = [ub EXCEPT ![i] = u] /\ UNCHANGED <<asg, lb>>
              ELSE LET b == IF asg[i] \in Near(i, cen) THEN asg[i] ELSE Min(Near(i, cen))
                   IN /\ asg' = [asg EXCEPT ![i] = b]
                      /\ ub' = [ub EXCEPT ![i] = D(i, cen, b)]
                      /\ lb' = [lb EXCEPT ![i] = Second(i, cen, b)]
        /\ todo' = todo + 1 /\ UNCHANGED <<X, cen, rounds>>
Mem(j) == {i \in P : asg[i] = j}
NewC == [j \in 1..K |-> IF Mem(j) = {} THEN cen[j] ELSE SumOver(Mem(j), LAMBDA i : L * X[i]) \div Cardinality(Mem(j))]
Vel(n, j) == Abs(n[j] - cen[j])
Move == /\ todo = N + 1 /\ NewC # cen
        /\ LET n == NewC
               far == CHOOSE j \in 1..K : \A h \in 1..K : Vel(n, h) <= Vel(n, j)
               snd == IF K = 1 THEN Vel(n, far) ELSE Max({Vel(n, h) : h \in (1..K) \ {far}})
           IN /\ cen' = n
              /\ ub' = [i \in P |-> ub[i] + Vel(n, asg[i])]
              /\ lb' = [i \in P |-> lb[i] - (IF asg[i] = far THEN snd ELSE Vel(n, far))]
        /\ todo' = 1 /\ rounds' = rounds + 1 /\ UNCHANGED <<X, asg>>
Next == Swap \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the bounds are bounds, and skipping never changes the outcome
BoundsOK == \A i \in P : /\ ub[i] >= D(i, cen, asg[i])
                         /\ (K > 1 => lb[i] <= Second(i, cen, asg[i]))
Exact == \A i \in 1..(todo - 1) : asg[i] \in Near(i, cen)
Terminates == <>[](todo = N + 1)
View == <<X, cen, asg, ub, lb, todo>>
=============================================================================

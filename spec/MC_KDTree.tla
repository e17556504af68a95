------------------------------ MODULE MC_KDTree -----------------------------
(* The build of KDTree.hpp as a machine: a stack of ranges still to build,  *)
(* each with the box that is cut on the way down and restored on the way    *)
(* up.  The axis is any axis (all policies) and the selection may leave the *)
(* range in any order that puts a left-rounded median at its place; the     *)
(* pivot is then shifted to the leftmost adjacent equal value, as the code  *)
(* does.  All datasets of N samples on the grid, all buckets and depths.    *)
EXTENDS KDTree, Json
CONSTANTS N, F, C, Buckets, Depths, Emit
VARIABLES X, conf, ind, todo, nodes
vars == <<X, conf, ind, todo, nodes>>
Init == /\ X \in [1..N -> [1..F -> 0..C-1]]
        /\ \E b \in Buckets, d \in Depths : conf = [bucket |-> b, depth |-> d, axis |-> 0, mask |-> <<>>, rate |-> 10]
        /\ ind = [i \in 1..N |-> i - 1]
        /\ LET t == TightBox(X, 0..N-1)
           IN todo = <<[a |-> 0, b |-> N, d |-> 0, p |-> 0, side |-> "root",
                        blo |-> [f \in 1..F |-> t[f][1]], bhi |-> [f \in 1..F |-> t[f][2]]]>>
        /\ nodes = <<>>
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> X, bucket |-> conf.bucket, depth |-> conf.depth])>>) ELSE TRUE
Top == todo[Len(todo)]
Rest == SubSeq(todo, 1, Len(todo) - 1)
Link(ns, p, side, me) == IF side = "root" THEN ns
                         ELSE IF side = "l" THEN [ns EXCEPT ![p].l = me] ELSE [ns EXCEPT ![p].r = me]
NewNode(lo, hi, ax) == [lo |-> lo, hi |-> hi, axis |-> ax, l |-> 0, r |-> 0, p |-> Top.p, blo |-> Top.blo, bhi |-> Top.bhi]
Split == Top.d < conf.depth /\ Top.b - Top.a > conf.bucket
Leaf == /\ Len(todo) > 0 /\ ~Split
        /\ nodes' = Append(Link(nodes, Top.p, Top.side, Len(nodes) + 1), NewNode(Top.a, Top.b, -1))
        /\ todo' = Rest /\ UNCHANGED <<X, conf, ind>>
\* a rearrangement of [a, b) in which position m is selected along ax
Selected(ar, a, b, ax, m) == /\ \A i \in a..m-1 : Val(X, ar, i, ax) <= Val(X, ar, m, ax)
                             /\ \A i \in m+1..b-1 : Val(X, ar, i, ax) >= Val(X, ar, m, ax)
\* what quickselect adds: values equal to the selected one on its left are adjacent to it
EqualsAdjacent(ar, a, b, ax, m) ==
    \A i \in a..m-1 : Val(X, ar, i, ax) = Val(X, ar, m, ax) =>
        \A j \in i..m : Val(X, ar, j, ax) = Val(X, ar, m, ax)
ShiftLeft(ar, a, ax, m) == Min({p \in a..m : \A j \in p..m : Val(X, ar, j, ax) = Val(X, ar, m, ax)})
Perms(a, b) == {pi \in [a..b-1 -> a..b-1] : \A i, j \in a..b-1 : i # j => pi[i] # pi[j]}
Inner == /\ Len(todo) > 0 /\ Split
         /\ \E ax \in 0..F-1, pi \in Perms(Top.a, Top.b) :
              LET ar == [k \in DOMAIN ind |-> IF k - 1 \in Top.a..Top.b-1 THEN ind[pi[k-1] + 1] ELSE ind[k]]
                  m == Top.a + (Top.b - Top.a - 1) \div 2
                  piv == ShiftLeft(ar, Top.a, ax, m)
                  v == Val(X, ar, piv, ax)
                  me == Len(nodes) + 1
              IN /\ Selected(ar, Top.a, Top.b, ax, m) /\ EqualsAdjacent(ar, Top.a, Top.b, ax, m)
                 /\ ind' = ar
                 /\ nodes' = Append(Link(nodes, Top.p, Top.side, me), NewNode(piv, piv + 1, ax))
                 /\ todo' = Rest \o
                      << [a |-> piv + 1, b |-> Top.b, d |-> Top.d + 1, p |-> me, side |-> "r",
                          blo |-> [Top.blo EXCEPT ![ax+1] = v], bhi |-> Top.bhi],
                         [a |-> Top.a, b |-> piv, d |-> Top.d + 1, p |-> me, side |-> "l",
                          blo |-> Top.blo, bhi |-> [Top.bhi EXCEPT ![ax+1] = v]] >>
         /\ UNCHANGED <<X, conf>>
Next == Leaf \/ Inner
Spec == Init /\ [][Next]_vars
Built == Len(todo) = 0
Shape == Built => TreeOK(X, [i \in 1..N |-> i - 1], ind, nodes, conf)
Boxes == Built => BoxesOK(X, ind, nodes)
AlwaysPerm == SameBag([i \in 1..N |-> i - 1], ind)
=============================================================================

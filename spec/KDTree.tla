------------------------------- MODULE KDTree -------------------------------
(* The index: a binary tree of nodes over an array of sample indices.       *)
(* nodes is a sequence of records                                           *)
(*   lo, hi : positions [lo, hi) of the index array held by the node itself *)
(*            (a single pivot for an inner node)                            *)
(*   axis   : cut axis, 0-based, -1 for a leaf                              *)
(*   l, r, p: node numbers of the children and the parent, 0 = none         *)
(*   blo, bhi : the node's bounding box                                     *)
(* node 1 is the root; ind is the index array after the build; X[i+1] are   *)
(* the features of sample i.                                                *)
EXTENDS FFCLBase

Val(X, ind, pos, ax) == X[ind[pos+1]+1][ax+1]
IsLeaf(nd) == nd.l = 0 /\ nd.r = 0

\* number of positions of [a, b) whose value along ax is below v
Below(X, ind, a, b, ax, v) == Cardinality({p \in a..b-1 : Val(X, ind, p, ax) < v})
AtMost(X, ind, a, b, ax, v) == Cardinality({p \in a..b-1 : Val(X, ind, p, ax) <= v})

\* pivot at position p of [a, b): everything before is below, everything after at or above, and
\* the pivot is a (left rounded) median of the range
PivotOK(X, ind, a, b, ax, p) ==
    LET v == Val(X, ind, p, ax)
        m == (b - a - 1) \div 2
    IN /\ \A i \in a..p-1 : Val(X, ind, i, ax) < v
       /\ \A i \in p+1..b-1 : Val(X, ind, i, ax) >= v
       /\ p - a <= m
       /\ AtMost(X, ind, a, b, ax, v) > m

\* the subtree of node i holds exactly the positions [a, b)
RECURSIVE SubtreeOK(_, _, _, _, _, _, _)
SubtreeOK(X, ind, nodes, conf, i, range, depth) ==
    LET nd == nodes[i]
        a == range[1]
        b == range[2]
    IN /\ depth <= conf.depth
       /\ IF IsLeaf(nd)
          THEN /\ nd.lo = a /\ nd.hi = b
               /\ b - a > conf.bucket => depth = conf.depth
          ELSE /\ nd.l \in DOMAIN nodes /\ nd.r \in DOMAIN nodes
               /\ nd.hi = nd.lo + 1 /\ a <= nd.lo /\ nd.lo < b
               /\ nd.axis \in 0..Len(X[1])-1
               /\ PivotOK(X, ind, a, b, nd.axis, nd.lo)
               /\ nodes[nd.l].p = i /\ nodes[nd.r].p = i
               /\ SubtreeOK(X, ind, nodes, conf, nd.l, <<a, nd.lo>>, depth + 1)
               /\ SubtreeOK(X, ind, nodes, conf, nd.r, <<nd.lo + 1, b>>, depth + 1)

TreeOK(X, before, ind, nodes, conf) ==
    /\ SameBag(before, ind)
    /\ nodes[1].p = 0
    /\ SubtreeOK(X, ind, nodes, conf, 1, <<0, Len(ind)>>, 0)

\* positions held by the subtree of node i
RECURSIVE Held(_, _)
Held(nodes, i) == LET nd == nodes[i] IN (nd.lo..nd.hi-1) \cup
                    (IF IsLeaf(nd) THEN {} ELSE Held(nodes, nd.l) \cup Held(nodes, nd.r))

\* ----------------------------------------------------------------- boxes
TightBox(X, S) == [f \in 1..Len(X[1]) |-> <<Min({X[i+1][f] : i \in S}), Max({X[i+1][f] : i \in S})>>]
InBox(x, blo, bhi) == \A f \in DOMAIN x : blo[f] <= x[f] /\ x[f] <= bhi[f]
BoxesOK(X, ind, nodes) ==
    /\ LET t == TightBox(X, Range(ind))
       IN \A f \in DOMAIN t : nodes[1].blo[f] = t[f][1] /\ nodes[1].bhi[f] = t[f][2]
    /\ \A i \in DOMAIN nodes : \A p \in Held(nodes, i) : InBox(X[ind[p+1]+1], nodes[i].blo, nodes[i].bhi)

\* how this code derives the boxes: the parent's box cut at the pivot (a fact of the design model, not a requirement on the code)
BoxesCutAtPivot(X, ind, nodes) ==
    /\ \A i \in DOMAIN nodes : ~IsLeaf(nodes[i]) =>
         LET nd == nodes[i]
             v == Val(X, ind, nd.lo, nd.axis)
         IN \A f \in DOMAIN nd.blo :
              /\ nodes[nd.l].blo[f] = nd.blo[f]
              /\ nodes[nd.l].bhi[f] = IF f = nd.axis + 1 THEN v ELSE nd.bhi[f]
              /\ nodes[nd.r].blo[f] = IF f = nd.axis + 1 THEN v ELSE nd.blo[f]
              /\ nodes[nd.r].bhi[f] = nd.bhi[f]

\* ------------------------------------------------------ cut axis policies
Feats(conf, nf) == IF Len(conf.mask) = 0 THEN 0..nf-1 ELSE Range(conf.mask)
Extent(nd, f) == nd.bhi[f+1] - nd.blo[f+1]
\* n * sum of squares - square of the sum: proportional to the variance
Var(X, ind, a, b, ax) ==
    LET vs == [i \in 1..(b-a) |-> Val(X, ind, a + i - 1, ax)]
    IN (b - a) * SumSeq([i \in DOMAIN vs |-> Sq(vs[i])]) - Sq(SumSeq(vs))
AxisOK(X, ind, nodes, conf, i, a, b, depth) ==
    LET nd == nodes[i]
        nf == Len(X[1])
        fs == Feats(conf, nf)
    IN CASE conf.axis = 2 -> nd.axis = IF Len(conf.mask) = 0 THEN depth % nf ELSE conf.mask[(depth % Len(conf.mask)) + 1]
         [] conf.axis = 3 -> \/ \A f \in fs : Extent(nd, f) = 0
                             \/ nd.axis \in fs /\ \A f \in fs : Extent(nd, f) <= Extent(nd, nd.axis)
         [] conf.axis = 1 /\ b - a >= 2 /\ (conf.rate = 100 \/ b - a <= conf.all) ->   \* subtrees of up to conf.all samples are always sampled whole
              \/ \A f \in fs : Var(X, ind, a, b, f) = 0
              \/ /\ nd.axis \in fs
                 /\ LET v == Var(X, ind, a, b, nd.axis)
                    IN \A f \in fs : Var(X, ind, a, b, f) <= v + (v \div 1000)
         [] OTHER -> TRUE
RECURSIVE AxesOK(_, _, _, _, _, _, _)
AxesOK(X, ind, nodes, conf, i, range, depth) ==
    LET nd == nodes[i] IN
    IF IsLeaf(nd) THEN TRUE
    ELSE /\ AxisOK(X, ind, nodes, conf, i, range[1], range[2], depth)
         /\ AxesOK(X, ind, nodes, conf, nd.l, <<range[1], nd.lo>>, depth + 1)
         /\ AxesOK(X, ind, nodes, conf, nd.r, <<nd.lo + 1, range[2]>>, depth + 1)
=============================================================================

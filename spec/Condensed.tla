------------------------------ MODULE Condensed ------------------------------
(* Condensed cluster hierarchy and excess-of-mass selection.                 *)
(* A dendrogram is nested here: [m |-> members, lv |-> level, lam |->        *)
(* inverse of the level, an integer in some unit (0 for level 0),            *)
(* ch |-> {two dendrograms} or {}].                                          *)
EXTENDS SingleLink
Leaf(v) == [m |-> {v}, lv |-> 0, lam |-> 0, ch |-> {}]
Join(a, b, lv, lam) == [m |-> a.m \cup b.m, lv |-> lv, lam |-> lam, ch |-> {a, b}]
\* from the positional form of SingleLink (its nodes with a field lam)
RECURSIVE Nest(_, _)
Nest(N, i) == IF N[i].l = 0 THEN Leaf(N[i].rep) ELSE Join(Nest(N, N[i].l), Nest(N, N[i].r), N[i].lv, N[i].lam)

\* agglomeration of a complete graph with weights M: the pairs of trees that may be merged next
Gap(a, b, M) == Min({M[u][v] : u \in a.m, v \in b.m})
Least(F, M) == Min({M[u][v] : <<u, v>> \in {p \in (UNION {a.m : a \in F}) \X (UNION {a.m : a \in F}) : \E a \in F : p[1] \in a.m /\ p[2] \notin a.m}})

\* a condensed cluster: [m |-> members, st |-> stability, ch |-> {two clusters} or {}]
\* x: current dendrogram below the cluster with members top, birth: inverse distance at which it appeared
RECURSIVE CondenseFrom(_, _, _, _, _)
CondenseFrom(x, birth, ms, top, acc) ==
    IF x.ch = {} THEN [m |-> top, st |-> acc, ch |-> {}]
    ELSE LET big == {y \in x.ch : Cardinality(y.m) >= ms}
             gain(k) == acc + k * (x.lam - birth)
         IN CASE Cardinality(big) = 2 -> [m |-> top, st |-> gain(Cardinality(x.m)),
                                          ch |-> {CondenseFrom(y, x.lam, ms, y.m, 0) : y \in big}]
              [] Cardinality(big) = 1 -> LET y == CHOOSE y \in big : TRUE
                                         IN CondenseFrom(y, birth, ms, top, gain(Cardinality(x.m) - Cardinality(y.m)))
              [] OTHER -> [m |-> top, st |-> gain(Cardinality(x.m)), ch |-> {}]
Condense(x, ms) == TLCEval(CondenseFrom(x, 0, ms, x.m, 0))

Combine(A, B) == {a \cup b : a \in A, b \in B}
\* the best selections below a cluster: [v |-> total stability, s |-> set of selections]
\* tau < 0: exact arithmetic, a tie keeps the larger cluster; tau >= 0: sums this close are not told apart
RECURSIVE Best(_, _)
Best(c, tau) ==
    IF c.ch = {} THEN [v |-> c.st, s |-> {{c.m}}]
    ELSE CHOOSE r \in {LET sum == SumOver(bs, LAMBDA b : b[2].v)
                           sel == FoldSet(LAMBDA b, acc : Combine(b[2].s, acc), {{}}, bs)
                       IN TLCEval([v |-> Max2(sum, c.st),
                                   s |-> (IF sum > c.st \/ (tau >= 0 /\ sum >= c.st - tau) THEN sel ELSE {})
                                         \cup (IF sum <= c.st \/ (tau >= 0 /\ sum <= c.st + tau) THEN {{c.m}} ELSE {})])
                       : bs \in {TLCEval({<<x.m, Best(x, tau)>> : x \in c.ch})}} : TRUE
RECURSIVE LeafClusters(_)
LeafClusters(c) == IF c.ch = {} THEN {c.m} ELSE UNION {LeafClusters(x) : x \in c.ch}
\* the allowed sets of flat clusters
Selections(c, single, leaves, tau) ==
    IF leaves THEN {LeafClusters(c)}
    ELSE IF single \/ c.ch = {} THEN Best(c, tau).s
    ELSE FoldSet(LAMBDA x, acc : Combine(Best(x, tau).s, acc), {{}}, c.ch)
\* labels L (L[v+1] for sample v) name exactly the clusters of one allowed selection
IsLabelling(n, L, Sels) ==
    /\ Len(L) = n
    /\ \E K \in {Cardinality(Range(L) \ {0})} : Range(L) \ {0} = 1..K
    /\ {{v \in 0..n-1 : L[v+1] = k} : k \in Range(L) \ {0}} \in Sels
=============================================================================

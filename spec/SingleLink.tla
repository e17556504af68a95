------------------------------ MODULE SingleLink -----------------------------
(* The single-linkage dendrogram of a spanning tree E of the samples 0..n-1  *)
(* (a sequence of <<a, b, weight>>) and its flat cuts.                       *)
(* A dendrogram is a sequence of nodes [rep, lv, sz, l, r, p]: positions of  *)
(* the children and the parent, 0 for none; the root is node 1.              *)
EXTENDS MST
RECURSIVE Members(_, _)
Members(N, i) == IF N[i].l = 0 THEN {N[i].rep} ELSE Members(N, N[i].l) \cup Members(N, N[i].r)
AllMembers(N) == TLCEval([i \in DOMAIN N |-> Members(N, i)])
\* the links form a binary tree over all nodes (children after their parent)
IsLinked(N) == /\ N[1].p = 0
               /\ \A i \in DOMAIN N : /\ (N[i].l = 0) = (N[i].r = 0)
                                      /\ N[i].l # 0 => /\ N[i].l > i /\ N[i].r > i /\ N[i].l # N[i].r
                                                       /\ N[N[i].l].p = i /\ N[N[i].r].p = i
                                      /\ i > 1 => /\ N[i].p \in 1..i-1
                                                  /\ i \in {N[N[i].p].l, N[N[i].p].r}
Joins(E, A, B, w) == \E e \in DOMAIN E : /\ E[e][3] = w
                                         /\ \/ E[e][1] \in A /\ E[e][2] \in B
                                            \/ E[e][2] \in A /\ E[e][1] \in B
IsDendrogram(n, E, N) ==
    /\ Len(N) = 2*n - 1
    /\ IsLinked(N)
    /\ {N[i].rep : i \in {i \in DOMAIN N : N[i].l = 0}} = 0..n-1
    /\ \E M \in {AllMembers(N)} :
        \A i \in DOMAIN N :
           /\ N[i].sz = Cardinality(M[i]) /\ N[i].rep \in M[i]
           /\ IF N[i].l = 0 THEN N[i].lv = 0 /\ Cardinality(M[i]) = 1
              ELSE /\ M[N[i].l] \cap M[N[i].r] = {}
                   /\ Joins(E, M[N[i].l], M[N[i].r], N[i].lv)
                   /\ N[N[i].l].lv <= N[i].lv /\ N[N[i].r].lv <= N[i].lv
\* the connected group of sample v when only the edges below the level are kept
Group(E, lv, v) == Component(E, {e \in DOMAIN E : E[e][3] < lv}, v)
\* L: labels of the samples (L[v+1]); groups of fewer than m samples are noise (0)
IsFlatCut(n, E, lv, m, L) ==
    /\ Len(L) = n
    /\ \E G \in {TLCEval([v \in 0..n-1 |-> Group(E, lv, v)])} :
        \A v \in 0..n-1 :
           IF Cardinality(G[v]) < m THEN L[v+1] = 0
           ELSE /\ L[v+1] \in G[v]
                /\ \A u \in 0..n-1 : Cardinality(G[u]) >= m => ((L[u+1] = L[v+1]) <=> (u \in G[v]))
=============================================================================

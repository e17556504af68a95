----------------------------- MODULE UnionFind ------------------------------
(* Union-find.  Abstract state: a partition, represented by a function that *)
(* maps every element to the least element of its block.                    *)
(* Concrete state, as in datastruct/UnionFind.hpp: parents and ranks, with  *)
(* union by rank and path halving.                                          *)
EXTENDS FFCLBase

\* ------------------------------------------------------- abstract partition
Singletons(E)     == [e \in E |-> e]
AbsMerge(p, a, b) == LET m == Min2(p[a], p[b])
                     IN [e \in DOMAIN p |-> IF p[e] \in {p[a], p[b]} THEN m ELSE p[e]]
\* reps (element -> what find returns) is a choice of representatives of p
Represents(reps, p) ==
    /\ \A e \in DOMAIN p : reps[e] \in DOMAIN p /\ p[reps[e]] = p[e]
    /\ \A e \in DOMAIN p : reps[reps[e]] = reps[e]
    /\ \A e, f \in DOMAIN p : p[e] = p[f] => reps[e] = reps[f]

\* ------------------------------------------------------------ concrete forest
\* the root above e in a forest without path compression
RECURSIVE RootOf(_, _)
RootOf(par, e) == IF par[e] = e THEN e ELSE RootOf(par, par[e])
\* partition described by a forest of parents
PartOf(par) == [e \in DOMAIN par |-> Min({f \in DOMAIN par : RootOf(par, f) = RootOf(par, e)})]

\* find: path halving, returns <<root, parents'>>
RECURSIVE FindC(_, _)
FindC(par, e) == IF par[e] = e THEN <<e, par>>
                 ELSE LET t == par[e] IN FindC([par EXCEPT ![e] = par[t]], t)

\* merge, returns <<representative, parents', ranks'>>
MergeC(par, rank, a, b) ==
    LET f1 == FindC(par, a)
        f2 == FindC(f1[2], b)
        ra == f1[1]
        rb == f2[1]
        pp == f2[2]
    IN IF ra = rb THEN <<ra, pp, rank>>
       ELSE IF rank[ra] = rank[rb] THEN <<ra, [pp EXCEPT ![rb] = ra], [rank EXCEPT ![ra] = @ + 1]>>
       ELSE IF rank[ra] > rank[rb] THEN <<ra, [pp EXCEPT ![rb] = ra], rank>>
       ELSE <<rb, [pp EXCEPT ![ra] = rb], rank>>
=============================================================================

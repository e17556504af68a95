----------------------------- MODULE MC_Condensed ----------------------------
(* Single-linkage agglomeration of every small weighted complete graph (all  *)
(* orders of tied merges); the recursive selection is compared with the      *)
(* optimum over every antichain of clusters.                                 *)
EXTENDS Condensed, Json
CONSTANTS N, W, Ms, Emit
VARIABLES M, F
vars == <<M, F>>
P == 0..N-1
\* levels 0..W: inverse distances 0 (level 0), 2^(W-1) (level 1), ..., 1 (level W)
LamW(lv) == IF lv = 0 THEN 0 ELSE 2^(W - lv)
Pairs == {p \in P \X P : p[1] < p[2]}
Init == /\ \E w \in [Pairs -> 0..W] :
              M = [a \in P |-> [b \in P |-> IF a = b THEN 0 ELSE w[<<Min2(a, b), Max2(a, b)>>]]]
        /\ F = {Leaf(v) : v \in P}
Merge == \E a \in F, b \in F : /\ a # b /\ Gap(a, b, M) = Least(F, M)
                               /\ F' = (F \ {a, b}) \cup {Join(a, b, Least(F, M), LamW(Least(F, M)))} /\ UNCHANGED M
RECURSIVE EdgesOf(_)
EdgesOf(x) == IF x.ch = {} THEN {}
              ELSE {<<Min(UNION {y.m : y \in {y \in x.ch : Min(y.m) = Min(x.m)}}), Min(UNION {y.m : y \in {y \in x.ch : Min(y.m) # Min(x.m)}}), LamW(x.lv)>>}
                   \cup UNION {EdgesOf(y) : y \in x.ch}
Next == /\ Merge
        /\ IF Emit /\ Cardinality(F') = 1 THEN PrintT(<<"CASE", ToJson([E |-> SetToSeq(EdgesOf(CHOOSE x \in F' : TRUE))])>>) ELSE TRUE
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* final dendrograms are compared as such: the weights they come from no longer matter
View == IF Cardinality(F) = 1 THEN <<{}, F>> ELSE <<M, F>>

RECURSIVE Clusters(_)
Clusters(c) == {c} \cup UNION {Clusters(x) : x \in c.ch}
RECURSIVE Inner(_)
Inner(x) == IF x.ch = {} THEN {} ELSE {x} \cup UNION {Inner(y) : y \in x.ch}
\* the same stability, sample by sample: the lowest split of the cluster's branch that still holds the sample
ParentLam(root, m) == LET up == {y \in Inner(root) : m \subseteq y.m /\ m # y.m}
                      IN IF up = {} THEN 0 ELSE LamW((CHOOSE y \in up : \A z \in up : y.m \subseteq z.m).lv)
BranchOf(root, c) == {y \in Inner(root) : y.m \subseteq c.m /\ Cardinality(y.m) >= 1 /\ ~\E d \in c.ch : y.m \subseteq d.m}
LeavesAt(root, c, v, ms) == \* nodes of the branch holding v and enough samples (or being the cluster itself)
    LET b == {y \in BranchOf(root, c) : v \in y.m /\ (Cardinality(y.m) >= ms \/ y.m = c.m)}
    IN IF b = {} THEN ParentLam(root, c.m) ELSE LamW((CHOOSE y \in b : \A z \in b : y.m \subseteq z.m).lv)
StabilityBySample(root, c, ms) == SumOver(c.m, LAMBDA v : LeavesAt(root, c, v, ms) - ParentLam(root, c.m))

\* antichains that leave no cluster without a selected ancestor, descendant or itself
Covers(c) == {S \in SUBSET Clusters(c) : /\ \A a, b \in S : a # b => a.m \cap b.m = {}
                                         /\ \A x \in Clusters(c) : x.ch = {} => \E s \in S : x.m \subseteq s.m}
Total(S) == SumOver(S, LAMBDA x : x.st)
Optimal(c, Cand) == \A s \in Cand : \A S \in Covers(c) : Total({x \in Clusters(c) : x.m \in s}) >= Total(S)
Done == Cardinality(F) = 1
Root == CHOOSE x \in F : TRUE
Right == Done => \A ms \in Ms : \E c \in {Condense(Root, ms)} :
    /\ \A x \in Clusters(c) : x.st = StabilityBySample(Root, x, ms)
    /\ \A x \in Clusters(c) : x = c \/ Cardinality(x.m) >= ms
    /\ Cardinality(Best(c, -1).s) = 1 /\ Optimal(c, Best(c, -1).s)
    /\ \A s \in Best(c, 0).s : Total({x \in Clusters(c) : x.m \in s}) = Best(c, -1).v
    /\ c.ch # {} => \A x \in c.ch : Optimal(x, Best(x, -1).s)
    /\ \A single, leaves \in BOOLEAN : \A S \in Selections(c, single, leaves, -1) :
          /\ \A a, b \in S : a # b => a \cap b = {}
          /\ (c.m \in S /\ ~single) => c.ch = {}
\* the condensed splits are exactly the dendrogram splits with two large sides reached through large sides
SplitsRight == Done => \A ms \in Ms : \E c \in {Condense(Root, ms)} :
    {x.m : x \in Clusters(c) \ {c}} = {y.m : y \in UNION {z.ch : z \in {z \in Inner(Root) : \A w \in z.ch : Cardinality(w.m) >= ms}}}
Terminates == <>Done
=============================================================================

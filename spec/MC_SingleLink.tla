----------------------------- MODULE MC_SingleLink ---------------------------
(* Agglomeration: the edges are taken by increasing weight (equal weights in *)
(* any order), each merges the nodes that currently hold its two ends.       *)
(* Then the dendrogram is cut: the label of a node is renewed below a parent *)
(* at or above the cut level, kept otherwise.                                *)
EXTENDS SingleLink, Json
CONSTANTS N, W, Emit
VARIABLES E, left, forest, nodes
vars == <<E, left, forest, nodes>>
P == 0..N-1
\* trees: sample i > 0 hangs below a sample of smaller number
Init == /\ \E par \in [1..N-1 -> 0..N-2], w \in [1..N-1 -> 0..W] :
              /\ \A i \in 1..N-1 : par[i] < i
              /\ E = [i \in 1..N-1 |-> <<par[i], i, w[i]>>]
        /\ left = 1..N-1
        /\ forest = {<<"leaf", i>> : i \in P}
        /\ nodes = {[id |-> <<"leaf", i>>, mem |-> {i}, lv |-> 0, l |-> <<>>, r |-> <<>>] : i \in P}
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([E |-> E])>>) ELSE TRUE
Holder(v) == CHOOSE x \in nodes : x.id \in forest /\ v \in x.mem
Merge == \E e \in left :
           /\ \A f \in left : E[e][3] <= E[f][3]
           /\ LET a == Holder(E[e][1])
                  b == Holder(E[e][2])
                  id == <<"node", e>>
              IN /\ a # b
                 /\ nodes' = nodes \cup {[id |-> id, mem |-> a.mem \cup b.mem, lv |-> E[e][3], l |-> a.id, r |-> b.id]}
                 /\ forest' = (forest \ {a.id, b.id}) \cup {id}
           /\ left' = left \ {e} /\ UNCHANGED E
Next == Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Node(id) == CHOOSE x \in nodes : x.id = id
Par(id) == {x \in nodes : x.l = id \/ x.r = id}
\* merging is never stuck: an edge of a spanning tree always joins two nodes
Complete == left = {} => Cardinality(forest) = 1
Joined == \A x \in nodes : x.l # <<>> => /\ Joins(E, Node(x.l).mem, Node(x.r).mem, x.lv)
                                         /\ Node(x.l).mem \cap Node(x.r).mem = {}
Monotone == \A x \in nodes : x.l # <<>> => Node(x.l).lv <= x.lv /\ Node(x.r).lv <= x.lv
\* the cut: the topmost nodes that are the root or hang below a parent at or above the level
Tops(lv) == {x \in nodes : (\A q \in Par(x.id) : q.lv >= lv) /\ (x.l = <<>> \/ x.lv < lv)}
CutRight == left = {} => \A lv \in 0..W+1 : {x.mem : x \in Tops(lv)} = {Group(E, lv, v) : v \in P}
Terminates == <>(left = {})
=============================================================================

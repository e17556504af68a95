------------------------------ MODULE Ownership ------------------------------
(* Who keeps the nodes of hierarchies alive.  A parent owns its children; a  *)
(* child only observes its parent.  Users hold handles (objects, copies of   *)
(* objects, nodes).  What no handle leads to is given back; what a handle    *)
(* leads to stays.                                                           *)
EXTENDS FFCLBase
\* kids: sequence of <<left, right>> (0: none); the node i is kids[i]
Children(kids, n) == {k \in {kids[n][1], kids[n][2]} : k # 0}
RECURSIVE Below(_, _)
Below(kids, n) == IF n = 0 THEN {} ELSE {n} \cup UNION {Below(kids, k) : k \in Children(kids, n)}
Reach(kids, held) == UNION {Below(kids, n) : n \in held}
ParentOf(kids, n) == LET P == {p \in DOMAIN kids : n \in Children(kids, p)} IN IF P = {} THEN 0 ELSE CHOOSE p \in P : TRUE
=============================================================================

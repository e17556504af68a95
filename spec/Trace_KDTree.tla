---------------------------- MODULE Trace_KDTree ----------------------------
EXTENDS TraceBase, KDTree
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
Ev == Case.ev[l]
TraceInit == c \in 1..Len(Cases) /\ l = 1
Shaped(n) == /\ n.lo \in 0..Len(Case.ind) /\ n.hi \in n.lo..Len(Case.ind)
             /\ Len(n.blo) = Case.nf /\ Len(n.bhi) = Case.nf
Nodes == Ev.nodes
WellShaped == /\ Len(Ev.ind) = Len(Case.ind) /\ Len(Nodes) > 0
              /\ Range(Ev.ind) \subseteq 0..Len(Case.X)-1
              /\ \A i \in DOMAIN Nodes : Shaped(Nodes[i]) /\ Nodes[i].l \in 0..Len(Nodes) /\ Nodes[i].r \in 0..Len(Nodes)
\* what a node says about itself
SelfOK(n) == /\ n.ns = n.hi - n.lo /\ n.em = (n.hi = n.lo) /\ n.rng = TRUE
             /\ n.leaf = (n.l = 0 /\ n.r = 0) /\ n.hc = (n.l # 0 \/ n.r # 0) /\ n.hp = (n.p # 0)
ABuild == /\ Ev.op = "build" /\ WellShaped
          /\ \A i \in DOMAIN Nodes : SelfOK(Nodes[i])
          /\ Ev.same                      \* the samples are untouched
          /\ TreeOK(Case.X, Case.ind, Ev.ind, Nodes, Case.conf)
          /\ AxesOK(Case.X, Ev.ind, Nodes, Case.conf @@ [all |-> IF Case.t < 2 THEN 3 ELSE 2], 1, <<0, Len(Ev.ind)>>, 0)
ABoxes == /\ Ev.op = "boxes" /\ WellShaped
          /\ BoxesOK(Case.X, Ev.ind, Nodes)
\* a document: n_samples, n_features, bucket, depth, box, nodes in pre-order [axis, pts, l, r]
ADoc == /\ Ev.op = "doc" /\ WellShaped
        /\ Ev.doc.ok
        /\ Ev.doc.n_samples = Len(Case.ind) /\ Ev.doc.n_features = Case.nf
        /\ Ev.doc.bucket = Case.conf.bucket /\ Ev.doc.depth = Case.conf.depth
        /\ LET t == TightBox(Case.X, Range(Case.ind)) IN Ev.doc.box = [f \in 1..Case.nf |-> t[f]]
        /\ Len(Ev.doc.nodes) = Len(Nodes)
        /\ \A i \in DOMAIN Nodes :
             /\ Ev.doc.nodes[i].axis = Nodes[i].axis
             /\ Ev.doc.nodes[i].l = Nodes[i].l /\ Ev.doc.nodes[i].r = Nodes[i].r
             /\ Ev.doc.nodes[i].pts = [j \in 1..(Nodes[i].hi - Nodes[i].lo) |-> Case.X[Ev.ind[Nodes[i].lo + j] + 1]]
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l)
             /\ ((ABuild \/ ABoxes \/ ADoc) = TRUE)
             /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

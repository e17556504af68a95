---------------------------- MODULE MC_Ownership -----------------------------
(* Reference counting, step by step: hierarchies are built bottom-up like a   *)
(* single linkage tree (leaves, then merges that take over the children's     *)
(* only reference), handles are copied, moved along the links and dropped in  *)
(* any order, and a count that reaches zero frees a node and, one at a time,  *)
(* drops the references it held.  Back = "weak": a node observes its parent.  *)
(* Back = "strong": it owns it, and released hierarchies are never freed.     *)
(* Back = "raw": it keeps a plain pointer, which outlives its target.         *)
EXTENDS Ownership
CONSTANTS MaxNodes, Slots, Steps, Back
VARIABLES kids, live, count, parent, hold, pending, steps
vars == <<kids, live, count, parent, hold, pending, steps>>
None == 0
Init == kids = <<>> /\ live = {} /\ count = <<>> /\ parent = <<>> /\ hold = [s \in 1..Slots |-> None] /\ pending = <<>> /\ steps = 0
Idle == pending = <<>>
Tick == steps < Steps /\ steps' = steps + 1
\* a new leaf, held by the slot s (which must be free)
Leaf(s) == /\ Idle /\ Tick /\ hold[s] = None /\ Len(kids) < MaxNodes
           /\ kids' = Append(kids, <<0, 0>>) /\ live' = live \cup {Len(kids) + 1}
           /\ count' = Append(count, 1) /\ parent' = Append(parent, None)
           /\ hold' = [hold EXCEPT ![s] = Len(kids) + 1] /\ UNCHANGED pending
\* two roots become the children of a new node: the slots' references move into it
Merge(s, t) == /\ Idle /\ Tick /\ s # t /\ hold[s] # None /\ hold[t] # None /\ hold[s] # hold[t] /\ Len(kids) < MaxNodes
               /\ ParentOf(kids, hold[s]) = 0 /\ ParentOf(kids, hold[t]) = 0
               /\ LET p == Len(kids) + 1 a == hold[s] b == hold[t] IN
                  /\ kids' = Append(kids, <<a, b>>) /\ live' = live \cup {p}
                  /\ parent' = [Append(parent, None) EXCEPT ![a] = p, ![b] = p]
                  /\ count' = Append(count, IF Back = "strong" THEN 3 ELSE 1)
                  /\ hold' = [hold EXCEPT ![s] = p, ![t] = None]
               /\ UNCHANGED pending
\* a further handle to a node: a copy, a child, or the parent if it is still there
Give(s, n) == /\ hold[s] = None /\ n # None /\ hold' = [hold EXCEPT ![s] = n] /\ count' = [count EXCEPT ![n] = @ + 1]
              /\ UNCHANGED <<kids, live, parent, pending>>
Copy(s, t)  == Idle /\ Tick /\ hold[t] # None /\ Give(s, hold[t])
Down(s, t)  == Idle /\ Tick /\ hold[t] # None /\ \E k \in Children(kids, hold[t]) : Give(s, k)
\* what a node says its parent is
Seen(n) == IF parent[n] # None /\ (Back = "raw" \/ parent[n] \in live) THEN parent[n] ELSE None
Up(s, t)    == Idle /\ Tick /\ hold[t] # None /\ Give(s, Seen(hold[t]))
\* dropping a handle: the count goes down, and what reaches zero is freed, one release at a time
Dropped(n) == IF count[n] = 1 THEN Append(pending, n) ELSE pending
Drop(s) == /\ Idle /\ Tick /\ hold[s] # None
           /\ count' = [count EXCEPT ![hold[s]] = @ - 1] /\ pending' = Dropped(hold[s])
           /\ hold' = [hold EXCEPT ![s] = None] /\ UNCHANGED <<kids, live, parent>>
RECURSIVE Release(_, _)
\* counts after the nodes of the sequence q lost one reference each
Release(cn, q) == IF q = <<>> THEN cn ELSE Release([cn EXCEPT ![Head(q)] = @ - 1], Tail(q))
Free == /\ pending # <<>>
        /\ LET n == Head(pending)
               out == SelectSeq(<<kids[n][1], kids[n][2], IF Back = "strong" THEN parent[n] ELSE None>>, LAMBDA k : k # None)
               c2 == Release(count, out)
           IN /\ count' = c2 /\ live' = live \ {n}
              /\ pending' = Tail(pending) \o SelectSeq(out, LAMBDA k : c2[k] = 0)
        /\ UNCHANGED <<kids, parent, hold, steps>>
Next == \/ Free
        \/ \E s \in 1..Slots : Leaf(s) \/ Drop(s) \/ \E t \in 1..Slots : Merge(s, t) \/ Copy(s, t) \/ Down(s, t) \/ Up(s, t)
Spec == Init /\ [][Next]_vars
Held == {hold[s] : s \in 1..Slots} \ {None}
Kept     == Reach(kids, Held) \subseteq live
NoLeak   == Idle => live = Reach(kids, Held)
NoDangle == \A n \in live : Idle => Seen(n) \in live \cup {None}
Counts   == \A n \in live : count[n] > 0 \/ n \in Range(pending)
=============================================================================

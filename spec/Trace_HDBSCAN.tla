---------------------------- MODULE Trace_HDBSCAN ----------------------------
(* HDBSCAN from samples to labels: weights of the mutual reachability graph, *)
(* agglomeration (every order of tied merges is a behaviour), condensation   *)
(* and selection.  Recorded labels are accepted when some behaviour explains *)
(* them.  Case.mode: "full"; "weak" (too many ties to enumerate: only sizes, *)
(* numbering and noise are checked).                                         *)
EXTENDS Condensed, TraceBase
VARIABLES c, l, M, F
Case == Cases[c]
Ev == Case.ev[l]
n == Len(Case.X)
\* inverse distances: exact when all merging distances are powers of two, else in units of 1/44721
LamOf(q) == IF q = 0 THEN 0 ELSE IF Case.ex = 1 THEN 4096 \div ISqrt(q) ELSE ISqrt(2000000000 \div q)
Tau == IF Case.ex = 1 THEN -1 ELSE 4 * n + 4
\* every prediction agglomerates anew: tied merges may be taken in another order than by the prediction before
Leaves == IF Case.mode = "weak" THEN {} ELSE {Leaf(v) : v \in 0..n-1}
Weak(L, ms) == /\ Len(L) = n
               /\ \E K \in {Cardinality(Range(L) \ {0})} : Range(L) \ {0} = 1..K /\ K >= 1
               /\ \A k \in Range(L) \ {0} : \/ Count(L, k) >= ms
                                            \/ Range(L) = {1}
Ok == CASE Ev.op = "labels" /\ Case.mode = "weak" -> Weak(Ev.L, Ev.ms)
        [] Ev.op = "labels" -> Weak(Ev.L, Ev.ms) /\ IsLabelling(n, Ev.L, Selections(Condense(CHOOSE x \in F : TRUE, Ev.ms), Ev.single = 1, Ev.leaves = 1, Tau))
        [] OTHER -> FALSE
Ready == Cardinality(F) = 1 \/ Case.mode = "weak"
Merge == /\ ~Ready
         /\ \E w \in {Least(F, M)} : \E a \in F, b \in F :
               /\ Min(a.m) < Min(b.m) /\ Gap(a, b, M) = w
               /\ F' = (F \ {a, b}) \cup {Join(a, b, w, LamOf(w))}
         /\ UNCHANGED <<c, l, M>>
TraceInit == /\ c \in 1..Len(Cases) /\ l = 1
             /\ M = IF Case.mode = "weak" THEN {} ELSE Weights(Case.X, Case.k)
             /\ F = Leaves
TraceNext == \/ Merge
             \/ Ready /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ F' = (IF l = Len(Case.ev) THEN F ELSE Leaves) /\ UNCHANGED <<c, M>>
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l, M, F>>
=============================================================================

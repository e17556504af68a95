------------------------------- MODULE MC_MST -------------------------------
(* Boruvka's algorithm: in a round every component proposes one of its       *)
(* shortest outgoing edges (any of them), then the proposals are merged one  *)
(* by one in any order, skipping those whose ends are already connected.     *)
(* With two components only one of them proposes.                            *)
EXTENDS MST, Json
CONSTANTS N, C, Dim, Ks, Met, Emit
VARIABLES X, k, M, comp, props, todo, E
vars == <<X, k, M, comp, props, todo, E>>
P == 0..N-1
W(a, b) == M[a][b]                  \* M: the weights
\* comp: sample -> representative (the least element of its component)
Reps(cm) == {cm[i] : i \in P}
\* points in lexicographic order: permutations give the same behaviours
LexLe(p, q) == \/ p = q \/ \E i \in 1..Dim : p[i] < q[i] /\ \A j \in 1..i-1 : p[j] = q[j]
Init == /\ X \in [1..N -> [1..Dim -> 0..C-1]] /\ \A i \in 1..N-1 : LexLe(X[i], X[i+1])
        /\ k \in Ks /\ M = WeightsOf(X, Met, k)
        /\ comp = [i \in P |-> i] /\ props = {} /\ todo = P /\ E = <<>>
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> X, k |-> k])>>) ELSE TRUE
Out(r) == {<<a, b>> \in P \X P : comp[a] = r /\ comp[b] # r}
Shortest(r) == {e \in Out(r) : \A f \in Out(r) : W(e[1], e[2]) <= W(f[1], f[2])}
Active(cm) == IF Cardinality(Reps(cm)) = 1 THEN {} ELSE Reps(cm)
\* todo: the components that have not proposed in this round
Propose == /\ todo # {} /\ Cardinality(Reps(comp)) > 2
           /\ LET r == Min(todo) IN \E e \in Shortest(r) : props' = props \cup {e}
           /\ todo' = todo \ {Min(todo)}
           /\ UNCHANGED <<X, k, M, comp, E>>
\* the smallest of two components proposes: any of the two here
ProposeLast == /\ Cardinality(Reps(comp)) = 2 /\ props = {} /\ todo # {}
               /\ \E r \in Reps(comp) : \E e \in Shortest(r) : props' = {e}
               /\ todo' = {} /\ UNCHANGED <<X, k, M, comp, E>>
Merge == /\ todo = {} /\ props # {}
         /\ \E e \in props :
              LET a == comp[e[1]]
                  b == comp[e[2]]
                  m == Min2(a, b)
                  nc == IF a = b THEN comp ELSE [i \in P |-> IF comp[i] \in {a, b} THEN m ELSE comp[i]]
              IN /\ props' = props \ {e}
                 /\ comp' = nc
                 /\ E' = IF a = b THEN E ELSE Append(E, <<e[1], e[2], W(e[1], e[2])>>)
                 /\ todo' = IF props' = {} THEN Active(nc) ELSE {}
         /\ UNCHANGED <<X, k, M>>
Next == Propose \/ ProposeLast \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == (todo = {} /\ props = {}) \/ N = 1
\* every prefix of the construction is a forest of valid, minimal edges
Forest == \A e \in DOMAIN E : Component(E, DOMAIN E \ {e}, E[e][1]) \cap {E[e][2]} = {}
Correct == Finished => IsMST(N, E, M) /\ IsMinimal(N, E, M) /\ IsLightest(N, E, M)
\* the two characterisations of minimal trees agree on all spanning trees of four samples with weights 0..2
Pairs4 == <<<<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>>>>
Matrix4(f) == [a \in 0..3 |-> [b \in 0..3 |-> IF a = b THEN 0 ELSE f[CHOOSE i \in 1..6 : Pairs4[i] = <<Min2(a, b), Max2(a, b)>>]]]
Edges4(S, f) == LET s == SetToSeq(S) IN [i \in 1..3 |-> <<Pairs4[s[i]][1], Pairs4[s[i]][2], f[s[i]]>>]
ASSUME \A f \in [1..6 -> 0..2] : \A S \in kSubset(3, 1..6) :
          \E m \in {TLCEval(Matrix4(f))} : \E e \in {TLCEval(Edges4(S, f))} : IsSpanningTree(4, e) => (IsMinimal(4, e, m) <=> IsLightest(4, e, m))
Progress == (todo = {} /\ props = {}) => Cardinality(Reps(comp)) = 1
Terminates == <>Finished
=============================================================================

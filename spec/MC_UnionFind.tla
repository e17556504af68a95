---------------------------- MODULE MC_UnionFind ----------------------------
(* The forest of UnionFind.hpp refines the partition generated by the       *)
(* merges.  With Emit every transition of the state graph is printed as a   *)
(* behaviour to be replayed in the implementation.                          *)
EXTENDS UnionFind, Json
CONSTANTS N, Emit, MaxOps
VARIABLES par, rank, part, last, hist
vars == <<par, rank, part, last, hist>>
E == 0..N-1
Init == /\ par = [e \in E |-> e] /\ rank = [e \in E |-> 0]
        /\ part = Singletons(E) /\ last = <<"init">> /\ hist = <<>>
Out(h) == IF Emit THEN PrintT(<<"CASE", ToJson([n |-> N, ops |-> h])>>) ELSE TRUE
Merge(a, b) == /\ LET m == MergeC(par, rank, a, b)
                  IN par' = m[2] /\ rank' = m[3] /\ last' = <<"merge", a, b, m[1]>>
               /\ part' = AbsMerge(part, a, b)
               /\ hist' = IF Emit THEN Append(hist, <<1, a, b>>) ELSE hist
Find(a) == /\ LET f == FindC(par, a) IN par' = f[2] /\ last' = <<"find", a, f[1]>>
           /\ UNCHANGED <<rank, part>>
           /\ hist' = IF Emit THEN Append(hist, <<0, a, a>>) ELSE hist
Next == /\ Len(hist) < MaxOps
        /\ \/ \E a, b \in E : Merge(a, b)
           \/ \E a \in E : Find(a)
        /\ Out(hist')
Spec == Init /\ [][Next]_vars
View == <<par, rank, part>>
FullView == <<par, rank, part, last>>
\* the forest is acyclic and describes exactly the abstract partition
Acyclic == \A e \in E : \E k \in 0..N : \E r \in E : par[r] = r
Refines == PartOf(par) = part
RepsOK  == Represents([e \in E |-> RootOf(par, e)], part)
LastOK  == CASE last[1] = "merge" -> /\ part[last[2]] = part[last[3]]
                                     /\ last[4] = RootOf(par, last[2]) /\ last[4] = RootOf(par, last[3])
             [] last[1] = "find"  -> last[3] = RootOf(par, last[2])
             [] OTHER -> TRUE
\* a tree of rank r has at least 2^r elements: finding is logarithmic and terminates
RankOK  == \A e \in E : par[e] = e =>
             Cardinality({f \in E : RootOf(par, f) = e}) >= 2 ^ rank[e]
=============================================================================

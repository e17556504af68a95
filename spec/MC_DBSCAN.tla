------------------------------ MODULE MC_DBSCAN ------------------------------
(* The expansion of clusters: entry points in index order; the neighbours of *)
(* a cluster are processed one by one (any order), a core neighbour adds its *)
(* unvisited neighbours; a sample keeps the first label it gets.             *)
EXTENDS DBSCAN, Json
CONSTANTS N, C, Dim, R2s, Mss, Emit
VARIABLES X, par, nb, visited, label, k, work
vars == <<X, par, nb, visited, label, k, work>>
\* par = <<r2, ms>>; k: number of clusters; work: samples to process for cluster k
P == 1..N
Init == /\ X \in [P -> [1..Dim -> 0..C-1]]
        /\ par \in R2s \X Mss
        /\ nb = Nbr(X, par[1])
        /\ visited = {} /\ label = [i \in P |-> 0] /\ k = 0 /\ work = {}
        /\ IF Emit THEN PrintT(<<"CASE", ToJson([X |-> X, r2 |-> par[1], ms |-> par[2]])>>) ELSE TRUE
IsCore(i) == Cardinality(nb[i]) > par[2]
Enter == /\ work = {} /\ visited # P
         /\ LET i == Min(P \ visited)
            IN /\ visited' = visited \cup {i}
               /\ IF IsCore(i) THEN /\ k' = k + 1 /\ work' = nb[i]
                                    /\ label' = [label EXCEPT ![i] = k + 1]
                  ELSE UNCHANGED <<k, work, label>>
         /\ UNCHANGED <<X, par, nb>>
Expand == /\ \E j \in work :
               /\ visited' = visited \cup {j}
               /\ work' = (work \ {j}) \cup (IF j \notin visited /\ IsCore(j) THEN {i \in nb[j] : i \notin visited' \/ label[i] = 0} ELSE {})
               /\ label' = IF label[j] = 0 THEN [label EXCEPT ![j] = k] ELSE label
          /\ UNCHANGED <<X, par, nb, k>>
Next == Enter \/ Expand
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == visited = P /\ work = {}
Right == Done => IsClustering(nb, CoreSet(nb, par[2]), label)
\* a label never changes once given; when a cluster is finished, so are its core samples' components
Stable == [][\A i \in P : label[i] # 0 => label'[i] = label[i]]_vars
Closed == work = {} => \A i \in CoreSet(nb, par[2]) : label[i] # 0 => \A j \in nb[i] : label[j] # 0
Terminates == <>Done
=============================================================================

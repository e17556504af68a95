--------------------------- MODULE Trace_UnionFind --------------------------
EXTENDS TraceBase, UnionFind
VARIABLES c, l, part, reps
vars == <<c, l, part, reps>>
Case == Cases[c]
E == 0..Case.n-1
Ev == Case.ev[l]
TraceInit == /\ c \in 1..Len(Cases) /\ l = 1
             /\ part = IF Len(Cases[c].parents) = 0 THEN Singletons(0..Cases[c].n-1)
                       ELSE PartOf([e \in 0..Cases[c].n-1 |-> Cases[c].parents[e+1]])
             /\ reps = <<>>
\* the full table of representatives is only recorded at some events (find compresses paths)
SeenReps(p) == IF Len(Ev.reps) = 0 THEN TRUE
               ELSE /\ Len(Ev.reps) = Case.n
                    /\ Represents([e \in E |-> Ev.reps[e+1]], p)
AMerge == /\ Ev.op = "merge"
          /\ part' = AbsMerge(part, Ev.a, Ev.b)
          /\ Ev.r \in E /\ part'[Ev.r] = part'[Ev.a]
          /\ SeenReps(part')
          /\ Len(Ev.reps) > 0 => Ev.r = Ev.reps[Ev.a+1] /\ Ev.r = Ev.reps[Ev.b+1]
          /\ reps' = IF part' = part /\ Len(Ev.reps) = 0 THEN reps ELSE Ev.reps
AFind == /\ Ev.op = "find"
         /\ part' = part
         /\ Ev.r \in E /\ part[Ev.r] = part[Ev.a]
         /\ SeenReps(part)
         \* finding never changes the representatives
         /\ Len(reps) > 0 => Ev.r = reps[Ev.a+1] /\ (Len(Ev.reps) > 0 => Ev.reps = reps)
         /\ Len(Ev.reps) > 0 => Ev.r = Ev.reps[Ev.a+1]
         /\ reps' = IF Len(Ev.reps) > 0 THEN Ev.reps ELSE reps
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l)
             /\ AMerge \/ AFind
             /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

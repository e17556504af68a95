----------------------------- MODULE Trace_KMeans ----------------------------
(* cen: exact centroids of the run that is being followed; start: those of   *)
(* the previous iteration; cand: for every initialization the result of its  *)
(* run; fin: whether the run has stopped; pat: consecutive unchanged rounds. *)
EXTENDS KMeans, TraceBase
VARIABLES c, l, cen, cand, run
vars == <<c, l, cen, cand, run>>
Case == Cases[c]
Ev == Case.ev[l]
Start(i) == [j \in DOMAIN Case.C2[i] |-> <<Case.C2[i][j], 2>>]
DevOK(d) == \E e \in {Deviation(Case.X, cen')} : Abs(d - e) <= DevTol(Case.X, e)
\* a run of the algorithm alone; what fit makes of it: at most maxit iterations, ending early once
\* the centroids stayed within the tolerance for more than patience consecutive iterations
NewRun == [it |-> 0, pat |-> 0, over |-> Case.maxit = 0, prev |-> <<>>]
Still(vs) == Len(run.prev) > 0 /\ \A j \in DOMAIN vs : \A f \in DOMAIN vs[j] : Abs(vs[j][f] - run.prev[j][f]) <= Case.tol
AStart == /\ Ev.op = "start" /\ cen' = Start(Ev.i)
          /\ DevOK(Ev.dev)
          /\ cand' = Append(cand, cen') /\ run' = NewRun
AStep == /\ Ev.op = "step"
         /\ \E n \in {TLCEval(ReduceAll(s)) : s \in {s \in Steps(Case.X, cen) : ShowsAll(Ev.c, s)}} : cen' = n
         /\ Case.alg = 0 => DevOK(Ev.dev)
         /\ LET stop == Case.early = 1 /\ Still(Ev.c) /\ run.pat = Case.patience
            IN run' = [it |-> run.it + 1, pat |-> IF Still(Ev.c) THEN run.pat + 1 ELSE 0, prev |-> Ev.c,
                       over |-> run.over \/ stop \/ run.it + 1 >= Case.maxit]
         /\ cand' = IF run.over THEN cand ELSE [cand EXCEPT ![Len(cand)] = cen']
\* fit keeps a candidate of least deviation
AFit == /\ Ev.op = "fit" /\ run.over
        /\ \E i \in DOMAIN cand :
             /\ ShowsAll(Ev.c, cand[i])
             /\ \A j \in DOMAIN cand : \E a \in {Deviation(Case.X, cand[i])} : a <= Deviation(Case.X, cand[j]) + 2 * DevTol(Case.X, a)
             /\ cen' = cand[i]
        /\ Ev.calls = Case.calls
        /\ UNCHANGED <<cand, run>>
\* samples Y are given to nearest centroids, at these distances
APredict == /\ Ev.op = "predict" /\ Len(Ev.p) = Len(Ev.Y) /\ Len(Ev.d) = Len(Ev.Y)
            /\ \A i \in DOMAIN Ev.Y : /\ Ev.p[i] + 1 \in NearestSet(Ev.Y[i], cen)
                                      /\ \E e \in {NearMilli(Ev.Y[i], cen)} : Abs(Ev.d[i] - e) <= 3 + e \div 10000
            /\ UNCHANGED <<cen, cand, run>>
\* fitting a fitted model starts from its centroids alone
AAgain == /\ Ev.op = "again" /\ cen' = cen /\ DevOK(Ev.dev) /\ cand' = <<cen>> /\ run' = NewRun
\* the free functions the algorithms are made of
SecondMilli(x, cs) == LET q == SortSeq([j \in DOMAIN cs |-> Milli(x, cs[j])], <) IN q[2]
Near(v, e) == Abs(v - e) <= 3 + e \div 10000
AUtils ==
    /\ Ev.op = "utils"
    /\ \E cs \in {Start(1)} :
        /\ Len(Ev.p) = Len(Case.X) /\ Len(Ev.d1) = Len(Case.X) /\ Len(Ev.d2) = Len(Case.X) /\ Len(Ev.sz) = Len(cs) /\ Len(Ev.nn) = Len(cs)
        /\ \A i \in DOMAIN Case.X : /\ Ev.p[i] + 1 \in NearestSet(Case.X[i], cs)
                                    /\ Near(Ev.d1[i], NearMilli(Case.X[i], cs))
                                    /\ IF Len(cs) = 1 THEN Ev.d2[i] = -1 ELSE Near(Ev.d2[i], SecondMilli(Case.X[i], cs))
        /\ \A j \in DOMAIN cs : LET S == {i \in DOMAIN Case.X : Ev.p[i] = j - 1} IN
            /\ Ev.sz[j] = Cardinality(S)
            /\ \A f \in 1..Case.nf : Ev.sum[j][f] = FoldLeftDomain(LAMBDA a, i : IF i \in S THEN a + Case.X[i][f] ELSE a, 0, Case.X)
            /\ IF Len(cs) = 1 THEN Ev.nn[j] = -1
               ELSE \E e \in {Min({Milli(Case.C2[1][j], <<Case.C2[1][m], 1>>) \div 2 : m \in DOMAIN cs \ {j}})} : Near(Ev.nn[j], e)
    /\ UNCHANGED <<cen, cand, run>>
\* with a random initialization: a fixed point; every centroid is the mean of the samples it is nearest to
AAuto ==
    /\ Ev.op = "auto" /\ Len(Ev.lab) = Len(Case.X) /\ Len(Ev.c) = Len(Case.C2[1])
    /\ \A i \in DOMAIN Ev.lab : Ev.lab[i] \in 0..Len(Ev.c)-1
    /\ \E agg \in {TLCEval([j \in DOMAIN Ev.c |-> LET S == {i \in DOMAIN Case.X : Ev.lab[i] = j - 1} IN
                        <<[f \in 1..Case.nf |-> FoldLeftDomain(LAMBDA a, i : IF i \in S THEN a + Case.X[i][f] ELSE a, 0, Case.X)], Cardinality(S)>>])} :
        /\ Ev.tie \/ \A j \in DOMAIN Ev.c : agg[j][2] = 0 \/ Shows(Ev.c[j], agg[j])
        /\ Ev.full /\ ~Ev.tie => \A i \in DOMAIN Case.X : Ev.lab[i] + 1 \in NearestSet(Case.X[i], agg)
        /\ cen' = agg
    /\ UNCHANGED <<cand, run>>
AGiven == /\ Ev.op = "given" /\ cen' = Start(1) /\ UNCHANGED <<cand, run>>
TraceInit == c \in 1..Len(Cases) /\ l = 1 /\ cen = <<>> /\ cand = <<>> /\ run = [it |-> 0, pat |-> 0, over |-> TRUE, prev |-> <<>>]
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l)
             /\ AStart \/ AStep \/ AFit \/ APredict \/ AGiven \/ AAgain \/ AUtils \/ AAuto
             /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

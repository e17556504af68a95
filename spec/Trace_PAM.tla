------------------------------ MODULE Trace_PAM ------------------------------
(* D: distances of the samples; med: current medoids (1-based), dev: the     *)
(* total deviation; run: progress of fit's loop; fitted: what fit returned.  *)
(* alg 2: FasterMSC, whose loss is the medoid silhouette's (E: its matrix).  *)
EXTENDS MSC, TraceBase
VARIABLES c, l, D, E, med, dev, run
vars == <<c, l, D, E, med, dev, run>>
Case == Cases[c]
Ev == Case.ev[l]
Exact == Case.exact = 1
One(s) == [i \in DOMAIN s |-> s[i] + 1]
N == Len(Case.X)
MS == Case.alg = 2
LossOf(m) == IF ~MS THEN Loss(D, m) ELSE IF Exact THEN MLossExact(E, m) ELSE MLossRoot(E, m)
Tol(v) == IF MS THEN 3 * N + v \div (IF Exact THEN 100000 ELSE 10000) ELSE IF Exact THEN 0 ELSE 3 * N + v \div 5000
DTol(v) == IF Exact THEN 0 ELSE 3 + v \div 10000
IsLoss(v, m) == \E w \in {LossOf(m)} : Abs(v - w) <= Tol(w)
\* no exchange lowers the loss; rounding may make a pass exchange tied medoids back and forth, so nothing is
\* required where an exchange leaves the silhouette loss as it is
Settled(m) == IF ~MS THEN Exact => SwapOptimal(D, m, 0)
              ELSE N * N * Len(m) > 40000 \/
                   \E cur \in {LossOf(m)} : \E t \in {2 * Tol(cur)} :
                   \E S \in {TLCEval({LossOf(Swap(m, p[1], p[2])) - cur : p \in (DOMAIN m) \X NonMedoids(D, m)})} :
                      (\E v \in S : Abs(v) <= t) \/ (\A v \in S : v > t)
AStart == /\ Ev.op = "start" /\ UNCHANGED <<D, E>> /\ med' = One(Case.M)
          /\ IsLoss(Ev.dev, med') /\ dev' = Ev.dev
          /\ run' = [it |-> 0, pat |-> 0, over |-> Case.maxit = 0, res |-> med', prev |-> <<>>]
AStep == /\ Ev.op = "step" /\ UNCHANGED <<D, E>> /\ med' = One(Ev.m)
         /\ ValidMedoids(D, med', Len(med))
         /\ IsLoss(Ev.dev, med') /\ Ev.dev <= dev + Tol(dev) /\ dev' = Ev.dev
         /\ med' = med => Settled(med)
         /\ LET same == med' = run.prev
                stop == Case.early = 1 /\ same /\ run.pat = Case.patience
            IN run' = [it |-> run.it + 1, pat |-> IF same THEN run.pat + 1 ELSE 0, prev |-> med',
                       over |-> run.over \/ stop \/ run.it + 1 >= Case.maxit, res |-> IF run.over THEN run.res ELSE med']
\* fit from the given medoids: what the algorithm reaches from there
AFit == /\ Ev.op = "fit" /\ run.over /\ UNCHANGED <<D, E>>
        /\ med' = One(Ev.m) /\ med' = run.res
        /\ UNCHANGED <<dev, run>>
\* fit from random medoids: distinct existing samples; the best of so many starts when nothing is iterated;
\* swap-optimal when iterated until nothing changes
ARand == /\ Ev.op = "rand" /\ UNCHANGED <<D, E>> /\ med' = One(Ev.m)
         /\ ValidMedoids(D, med', Case.k)
         /\ Case.early = 1 /\ Case.maxit >= 100 => Settled(med')
         /\ Case.best = 1 =>
               \E cur \in {LossOf(med')} : \A s \in kSubset(Case.k, 1..N) : LossOf(SetToSeq(s)) >= cur - Tol(cur)
         /\ UNCHANGED <<dev, run>>
\* fitting again goes on from the medoids that were found
AAgain == /\ Ev.op = "again" /\ UNCHANGED <<D, E>> /\ med' = One(Ev.m) /\ ValidMedoids(D, med', Len(med))
          /\ IF MS /\ Case.mode > 1 THEN TRUE ELSE \E w \in {LossOf(med)} : LossOf(med') <= w + Tol(w)
          /\ UNCHANGED <<dev, run>>
AAny == /\ Ev.op = "any" /\ UNCHANGED <<D, E>> /\ med' = One(Ev.m) /\ ValidMedoids(D, med', Case.k) /\ UNCHANGED <<dev, run>>
AGiven == Ev.op = "given" /\ UNCHANGED <<D, E>> /\ med' = One(Case.M) /\ UNCHANGED <<dev, run>>
APredict == /\ Ev.op = "predict" /\ Len(Ev.p) = N /\ Len(Ev.d) = N
            /\ \A i \in 1..N : /\ Ev.p[i] + 1 \in DOMAIN med
                               /\ \E w \in {DistTo(D, med, i)} : /\ Abs(Ev.d[i] - w) <= DTol(w)
                                                                 /\ D[i][med[Ev.p[i] + 1]] <= w + 2 * DTol(w)
            /\ UNCHANGED <<D, E, med, dev, run>>
\* the utilities both algorithms start from: nearest, second and third nearest medoids, losses of removing a medoid,
\* the single best medoid, the medoids' features
NthDist(m, i, n) == SetToSortSeq({<<D[i][m[j]], j>> : j \in DOMAIN m}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))[n][1]
AUtils == /\ Ev.op = "utils" /\ UNCHANGED <<D, E, med, dev, run>>
          /\ Ev.ref = [i \in 1..8 |-> 1]         \* no medoids, rank 0 or beyond the medoids: refused
          /\ \E m \in {One(Case.M)} :
             /\ Len(Ev.p) = Min2(3, Len(m)) /\ Len(Ev.q) = Len(Ev.p)
             /\ \A n \in DOMAIN Ev.p : Len(Ev.p[n]) = N /\ Len(Ev.q[n]) = N
             /\ \A i \in 1..N : /\ \A n \in DOMAIN Ev.p : /\ Ev.p[n][i] + 1 \in DOMAIN m
                                                          /\ \E w \in {NthDist(m, i, n)} : /\ Abs(Ev.q[n][i] - w) <= DTol(w)
                                                                                           /\ Abs(D[i][m[Ev.p[n][i] + 1]] - w) <= 2 * DTol(w)
                                /\ \A a, b \in DOMAIN Ev.p : a /= b => Ev.p[a][i] /= Ev.p[b][i]
             /\ Len(Ev.rem) = Len(m)
             /\ \A j \in DOMAIN m : \E w \in {SumOver({i \in 1..N : Ev.p[1][i] + 1 = j}, LAMBDA i : NthDist(m, i, 2) - NthDist(m, i, 1))} : Abs(Ev.rem[j] - w) <= DTol(w) * N
             /\ Ev.cs = [j \in DOMAIN m |-> Case.X[m[j]]]
             /\ Ev.first + 1 \in 1..N
             /\ \E s \in {TLCEval([i \in 1..N |-> SumOver(1..N, LAMBDA j : D[i][j])])} :
                \E w \in {Min({s[i] : i \in 1..N})} : \E t \in {IF Exact THEN 0 ELSE 3 * N + w \div 5000} :
                    Abs(Ev.td - w) <= t /\ s[Ev.first + 1] <= w + 2 * t
TraceInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ D = TLCEval(Matrix(Cases[c].X, Cases[c].exact = 1, Cases[c].line = 1))
             /\ E = IF Cases[c].alg /= 2 THEN <<>> ELSE IF Cases[c].exact = 1 THEN D ELSE TLCEval([i \in DOMAIN D |-> [j \in DOMAIN D |-> Dist2(Cases[c].X[i], Cases[c].X[j])]])
             /\ med = <<>> /\ dev = 0
             /\ run = [it |-> 0, pat |-> 0, over |-> FALSE, res |-> <<>>, prev |-> <<>>]
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l)
             /\ AStart \/ AStep \/ AFit \/ ARand \/ AAgain \/ AAny \/ AGiven \/ APredict \/ AUtils
             /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

--------------------------- MODULE Trace_Sampling ---------------------------
EXTENDS Sampling, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
M == Len(Case.a)
\* rows that can be selected: all or those of the given indices
Pool == IF Ev.from = "ind" THEN [i \in DOMAIN Case.ind |-> Case.X[Case.ind[i] + 1]] ELSE Case.X
Ok == CASE Ev.op = "draw" -> Len(Ev.v) = Case.n /\ InBag(Ev.v, Case.a)                      \* elements at distinct positions
        \* counts of the ordered selections of Case.n out of M different elements: <<selection, count>>
        [] Ev.op = "arrangements" -> /\ \A i \in DOMAIN Ev.v : Distinct(Ev.v[i][1]) /\ Range(Ev.v[i][1]) \subseteq Range(Case.a)
                                     /\ \A i \in DOMAIN Ev.v : Plausible(Ev.v[i][2], Ev.draws, 1, Falling(M, Case.n))
                                     /\ Len(Ev.v) = Falling(M, Case.n)
        \* how often element i was in slot s
        [] Ev.op = "slots" -> \A s \in DOMAIN Ev.v : \A i \in DOMAIN Ev.v[s] : Plausible(Ev.v[s][i], Ev.draws, 1, M)
        [] Ev.op = "rows" -> Len(Ev.v) = Min2(Case.n, Len(Pool)) /\ InBag(Ev.v, Pool)
        [] Ev.op = "rowcounts" -> \A i \in DOMAIN Ev.v : Plausible(Ev.v[i], Ev.draws, Count(Pool, Case.X[i]), Len(Pool))
        [] Ev.op = "box" -> /\ Len(Ev.lo) = Len(Case.X[1])
                            /\ \A f \in DOMAIN Ev.lo : LET col == [i \in DOMAIN Case.X |-> Case.X[i][f]] IN
                                 /\ Ev.in[f] /\ Ev.lo[f] >= MinSeq(col) * 1000 - 1 /\ Ev.hi[f] <= MaxSeq(col) * 1000 + 1
                                 /\ (MinSeq(col) < MaxSeq(col) => \A q \in DOMAIN Ev.q[f] : Plausible(Ev.q[f][q], Ev.draws, 1, 4))
        [] Ev.op = "pp" -> PlusPlusOK(Case.X, Case.n, Ev.v)
        [] Ev.op = "prev" -> PreviousOK(Case.X, Case.n, Ev.v)
        \* first and second centroid: the first uniform, the second by its distance to the first
        [] Ev.op = "pairs" -> \A i, j \in DOMAIN Ev.v :
                                LET D(p, q) == Dist1(Case.X[p], Case.X[q])  S == FoldSet(LAMBDA q, t : t + D(i, q), 0, DOMAIN Ev.v)
                                IN S > 0 => Plausible(Ev.v[i][j], Ev.draws, D(i, j), S * Len(Ev.v))
        [] Ev.op = "weights" -> Len(Ev.v) = M /\ SumSeq(Ev.v) = Ev.draws /\ \A i \in DOMAIN Ev.v : Plausible(Ev.v[i], Ev.draws, Case.a[i], SumSeq(Case.a))
        [] Ev.op = "throw" -> Ev.v = (Case.a = <<>>)
        [] Ev.op = "ints" -> Ev.out = 0 /\ \A i \in DOMAIN Ev.v : Plausible(Ev.v[i], Ev.draws, 1, Len(Ev.v))
        [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

-------------------------- MODULE Trace_Statistics --------------------------
EXTENDS Statistics, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
All == [i \in DOMAIN Case.X |-> i - 1]
Ind == IF Ev.var = "plain" THEN All ELSE Case.ind
Fs == IF Ev.var = "masked" THEN Case.mask ELSE [f \in 1..Case.nf |-> f - 1]
Integral == Case.t >= 2
Ok == CASE Ev.op = "mean" -> /\ Len(Ev.v) = Len(Fs)
                             /\ \A k \in DOMAIN Fs : LET s == Col(Case.X, Ind, Fs[k]) IN IF Integral THEN Ev.v[k] = TDiv(SumSeq(s), Len(s)) ELSE MeanOK(s, Ev.v[k])
        [] Ev.op = "variance" -> Len(Ev.v) = Len(Fs) /\ \A k \in DOMAIN Fs : VarOK(Col(Case.X, Ind, Fs[k]), Ev.v[k])
        [] Ev.op = "argvar" -> ArgVarOK(Case.X, Ind, Range(Fs), Ev.v)
        [] Ev.op = "var1" -> VarOK(Case.a, Ev.v)
        [] Ev.op = "argmin" -> ArgMinOK(Case.a, Ev.p)
        [] Ev.op = "argmax" -> ArgMaxOK(Case.a, Ev.p)
        [] Ev.op = "min" -> ArgMinOK(Case.a, Ev.p) /\ Case.a[Ev.p + 1] = Ev.v
        [] Ev.op = "max2" -> /\ ArgMaxOK(Case.a, Ev.p) /\ Case.a[Ev.p + 1] = Ev.v /\ SecondOK(Case.a, Ev.p, Ev.p2, Ev.v2)
        [] Ev.op = "nth" -> \A k \in DOMAIN Ev.v : NthOK(Case.a, k, Ev.v[k]) /\ Ev.p[k] + 1 \in DOMAIN Case.a /\ Case.a[Ev.p[k] + 1] = Ev.v[k]
        [] Ev.op = "minmax" -> Len(Ev.v) = Len(Case.a) /\ MinMaxOK(Case.a, Ev.v, 10000)
        [] Ev.op = "norm" -> Len(Ev.v) = Len(Case.a) /\ NormOK(Case.a, Ev.v, 10000)
        [] Ev.op = "mins" -> Ev.v = [i \in DOMAIN Case.a |-> Min2(Case.a[i], Case.b[i])]
        [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

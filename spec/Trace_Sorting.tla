---------------------------- MODULE Trace_Sorting ---------------------------
EXTENDS Sorting, TraceBase
VARIABLES c, l
Case == Cases[c]
Ev == Case.ev[l]
Vals(ind) == [i \in DOMAIN ind |-> Case.X[ind[i]+1][Case.f+1]]
Ok == LET a == Vals(Case.ind) IN
      /\ Ev.same                                    \* the samples are untouched
      /\ PermutedOK(Case.ind, Ev.ind)
      /\ LET b == Vals(Ev.ind) IN
         CASE Ev.op = "median3" -> Ev.ind = Case.ind /\ Median3OK(a, Ev.p)
           [] Ev.op = "partition" -> PartitionOK(a, b, Case.p, Ev.p)
           [] Ev.op = "select" -> SelectOK(b, Case.p, Ev.p) /\ Ev.len = 1
           [] Ev.op = "sort" -> SortedOK(b) /\ Ev.p \in DOMAIN [i \in 0..Len(b)-1 |-> i] /\ b[Ev.p+1] = a[Case.p+1]
           [] Ev.op = "split" -> Ev.cuts = <<0, Ev.p, Ev.p, Ev.p + 1, Ev.p + 1, Len(b)>> /\ SplitOK(a, b, Ev.p)
           [] OTHER -> FALSE
TraceInit == c \in 1..Len(Cases) /\ l = 1
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l) /\ (Ok = TRUE) /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
=============================================================================

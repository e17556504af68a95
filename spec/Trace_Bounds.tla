---------------------------- MODULE Trace_Bounds ----------------------------
EXTENDS TraceBase, Bounds
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
Ev == Case.ev[l]
TraceInit == c \in 1..Len(Cases) /\ l = 1
BA == Tight(Case.X, Range(Case.A))
BB == Tight(Case.X, Range(Case.B))
Twice(x) == [f \in DOMAIN x |-> 2 * x[f]]
CA == Case.X[Case.A[1] + 1]
CB == Case.X[Case.B[1] + 1]
AllEq(s, v) == \A i \in DOMAIN s : s[i] = v
ATight == /\ Ev.op = "tight"
          /\ Ev.a = BA /\ Ev.b = BB /\ Ev.c = BA /\ Ev.s1 = BA /\ Ev.s2 = BA
AGeom == /\ Ev.op = "geom"
         /\ Ev.c1 = Centre2(BA) /\ Ev.c2 = Centre2(BA) /\ Ev.c3 = Centre2(BA)
         /\ Ev.h1 = Half2(BA) /\ Ev.h2 = Half2(BA)
         /\ Ev.far1 = MaxSeq(Half2(BA)) /\ Ev.far2 = MaxSeq(Half2(BA))
         /\ AllEq(Ev.d, Diam2(BA)) /\ AllEq(Ev.nf, Case.nf)
AProbe == /\ Ev.op = "probe"
          /\ LET p == Case.P[Ev.p]
                 inb == InBox2(p, BA)
                 bd == Far4(p, Centre2(BA))
                 kd == Far4(p, Twice(CA))
                 ink == InBall4(p, Twice(CA), Case.ra)
             IN /\ AllEq(Ev.box, inb) /\ AllEq(Ev.boxd, IF inb THEN bd ELSE -1) /\ AllEq(Ev.boxc, bd)
                /\ AllEq(Ev.ball, ink) /\ AllEq(Ev.balld, IF ink THEN kd ELSE -1) /\ AllEq(Ev.ballc, kd)
                /\ AllEq(Ev.all, TRUE) /\ AllEq(Ev.alld, kd)
AGap == /\ Ev.op = "gap"
        /\ Ev.seg = [j \in 1..(4 * Case.nf) |-> SegGap(BA[((j - 1) \div 4) + 1], BB[((j - 1) \div 4) + 1])]
        /\ AllEq(Ev.box, BoxGap2(BA, BB))
        /\ AllEq(Ev.ball, BallGap(Dist2(CA, CB), Case.ra, Case.rb))
        /\ AllEq(Ev.un, 0)
        /\ AllEq(Ev.dia, 4 * Case.ra)
\* segments and boxes of whole numbers, probed from two below to two above
AWhole == /\ Ev.op = "whole"
          /\ \E w \in {[f \in 1..Case.nf |-> [j \in 1..(BA[f][2] - BA[f][1] + 5) |-> IF j >= 3 /\ j <= BA[f][2] - BA[f][1] + 3 THEN 1 ELSE 0]]} : Ev.u = w /\ Ev.l = w /\ Ev.b = w
\* every bound reports its own size, centre and reach, whichever accessor is used
Inf == -2
ASelf == /\ Ev.op = "self"
         /\ LET cen == Centre2(BA)  kc == Twice(CA)  h == Half2(BA)  hb == Append(h, MaxSeq(h)) IN
            /\ Ev.ctr = <<cen, cen, cen, cen, cen, cen, kc, kc, kc, kc, kc, kc, kc, kc>>
            /\ AllEq(Ev.n, Case.nf)
            /\ \A i \in 1..3 : Ev.far[i] = hb
            /\ \A i \in 4..5 : Ev.far[i] = [f \in 1..(Case.nf + 1) |-> 2 * Case.ra]
            /\ \A i \in 6..7 : Ev.far[i] = [f \in 1..(Case.nf + 1) |-> Inf]
            /\ Ev.at1 = cen /\ Ev.at2 = cen
            /\ Ev.sg1 = BA /\ Ev.sg2 = BA /\ Ev.sg3 = BA /\ Ev.sg4 = BA /\ Ev.sg5 = BA
            /\ Ev.inf = TRUE
\* bounds whose number of features is a compile-time constant are the same bounds
AFixed == /\ Ev.op = "fixed"
          /\ LET cen == Centre2(BA)  kc == Twice(CA)  h == Half2(BA)  hb == Append(h, MaxSeq(h))
                 np == Len(Case.P)
                 inb == [p \in 1..np |-> InBox2(Case.P[p], BA)]
                 bd == [p \in 1..np |-> Far4(Case.P[p], cen)]
                 kd == [p \in 1..np |-> Far4(Case.P[p], kc)]
                 ink == [p \in 1..np |-> InBall4(Case.P[p], kc, Case.ra)]
             IN
             /\ Ev.ctr = <<cen, cen, cen, cen, cen, cen, kc, kc, kc, kc>>
             /\ AllEq(Ev.n, Case.nf)
             /\ \A i \in 1..3 : Ev.far[i] = hb
             /\ Ev.far[4] = [f \in 1..(Case.nf + 1) |-> 2 * Case.ra]
             /\ Ev.far[5] = [f \in 1..(Case.nf + 1) |-> Inf]
             /\ AllEq(Ev.d, Diam2(BA)) /\ Ev.dk = 4 * Case.ra
             /\ AllEq(Ev.gap, BoxGap2(BA, BB))
             /\ Ev.bgap = BallGap(Dist2(CA, CB), Case.ra, Case.rb) /\ Ev.un = 0
             /\ Len(Ev.ballin) = np /\ Len(Ev.boxin) = 4 * np /\ Len(Ev.boxd) = 2 * np /\ Len(Ev.alld) = 2 * np
             /\ \A p \in 1..np :
                   /\ \A j \in 1..4 : (Ev.boxin[4 * (p - 1) + j] = 1) = inb[p]
                   /\ \A j \in 1..2 : Ev.boxd[2 * (p - 1) + j] = IF inb[p] THEN bd[p] ELSE -1
                   /\ (Ev.ballin[p] = 1) = ink[p] /\ Ev.balld[p] = IF ink[p] THEN kd[p] ELSE -1
                   /\ Ev.alld[2 * p - 1] = kd[p] /\ Ev.alld[2 * p] = bd[p]
TraceNext == /\ l <= Len(Case.ev) /\ Step(Case, l)
             /\ ((ATight \/ AGeom \/ AProbe \/ AGap \/ ASelf \/ AFixed \/ AWhole) = TRUE)
             /\ Done(Case, l) /\ l' = l + 1 /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

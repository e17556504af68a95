------------------------------- MODULE MC_Fit --------------------------------
(* The loop around an iterative clustering algorithm (KMeans::fit,           *)
(* KMedoids::fit): several starts, at most MaxIt iterations each, early      *)
(* stopping after more than Patience unchanged rounds, and the choice of a   *)
(* run of least deviation.  The algorithm itself is any function on a small  *)
(* set of configurations that never increases a loss.                        *)
EXTENDS FFCLBase
CONSTANTS S, Cands, MaxIt, Patience, Early
VARIABLES f, loss, start, k, cur, prev, it, pat, final, result
vars == <<f, loss, start, k, cur, prev, it, pat, final, result>>
Conf == 1..S
Init == /\ loss \in [Conf -> 0..2]
        /\ f \in [Conf -> Conf] /\ \A x \in Conf : loss[f[x]] < loss[x] \/ f[x] = x
        /\ start \in [1..Cands -> Conf]
        /\ k = 1 /\ cur = start[1] /\ prev = 0 /\ it = 0 /\ pat = 0 /\ final = <<>> /\ result = 0
Finish(x) == /\ final' = Append(final, x)
             /\ IF k < Cands THEN k' = k + 1 /\ cur' = start[k+1] ELSE k' = k + 1 /\ cur' = 0
             /\ prev' = 0 /\ it' = 0 /\ pat' = 0
Iterate == /\ k <= Cands /\ it < MaxIt
           /\ LET x == f[cur] IN
              IF Early /\ x = prev /\ pat = Patience THEN Finish(x)
              ELSE /\ cur' = x /\ prev' = x /\ it' = it + 1 /\ pat' = (IF Early /\ x = prev THEN pat + 1 ELSE 0)
                   /\ UNCHANGED <<final, k>>
           /\ UNCHANGED <<f, loss, start, result>>
OutOfIterations == k <= Cands /\ it = MaxIt /\ Finish(cur) /\ UNCHANGED <<f, loss, start, result>>
Choose == /\ k = Cands + 1 /\ result = 0
          /\ \E i \in 1..Cands : (\A j \in 1..Cands : loss[final[i]] <= loss[final[j]]) /\ result' = final[i]
          /\ UNCHANGED <<f, loss, start, k, cur, prev, it, pat, final>>
Next == Iterate \/ OutOfIterations \/ Choose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN x ELSE Power(f[x], n - 1)
Bounded == it <= MaxIt
\* every run ends with the configuration that MaxIt iterations lead to: stopping early loses nothing
NothingLost == \A i \in DOMAIN final : final[i] = Power(start[i], MaxIt)
\* the result is no worse than any start and than any other run
Best == result /= 0 => /\ \A i \in 1..Cands : loss[result] <= loss[start[i]] /\ loss[result] <= loss[final[i]]
                       /\ \E i \in 1..Cands : result = final[i]
Ends == <>(result /= 0)
=============================================================================

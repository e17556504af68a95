------------------------------ MODULE TraceBase -----------------------------
(* Every trace module validates recorded executions of the real code: one   *)
(* JSON record per case, with the input of the case and the events (ev)     *)
(* recorded from the code.  A case is chosen in the initial state, every    *)
(* step consumes one event and must be an action of the specification; the  *)
(* cases whose last event is reached are printed as ACCEPTed.               *)
EXTENDS FFCLBase, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Diag  == IOEnv.DIAG = "1"
Done(case, l) == IF l = Len(case.ev) THEN PrintT(<<"ACCEPT", case.id>>) ELSE TRUE
Step(case, l) == IF Diag THEN PrintT(<<"STEP", case.id, l>>) ELSE TRUE
Has(e, f) == f \in DOMAIN e
=============================================================================

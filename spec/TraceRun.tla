------------------------------ MODULE TraceRun ------------------------------
(* Reads a trace recorded from the real code (ndjson file named by the environment variable     *)
(* TRACE) and follows it with a specification Step(state, event) = <<next state, verdict>>.      *)
(* The specification is total: a call whose result it does not allow is reported, the object is   *)
(* given up, and the rest of the trace is still checked.                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Step(_, _), Start, Forget(_, _), Trace
VARIABLES i, st, nbad, nknown
TInit == i = 1 /\ st = Start /\ nbad = 0 /\ nknown = 0
\* No more than these are printed, unless all are asked for (tools/corrupt.py).
Cap == IF "ALLBAD" \in DOMAIN IOEnv THEN 1000000 ELSE 20
Quiet == {"ok", "skip"}
Known == {"known:pad2"}
TNext ==
    /\ i <= Len(Trace)
    /\ i' = i + 1
    /\ LET ev == Trace[i]
       IN IF ev.op = "scenario" THEN st' = Start /\ UNCHANGED <<nbad, nknown>>
          ELSE LET r == TLCEval(Step(st, ev))
               IN IF r[2] \in Quiet THEN st' = r[1] /\ UNCHANGED <<nbad, nknown>>
                  ELSE IF r[2] \in Known
                  THEN st' = r[1] /\ nknown' = nknown + 1 /\ UNCHANGED nbad
                       /\ (nknown > 0 \/ PrintT(<<"KNOWN", i, r[2]>>))
                  ELSE st' = Forget(r[1], ev) /\ nbad' = nbad + 1 /\ UNCHANGED nknown
                       /\ (nbad > Cap \/ PrintT(<<"MISMATCH", i, r[2]>>))
    /\ (i' <= Len(Trace) \/ PrintT(<<"CONSUMED", i, nbad', nknown'>>))
TView == i
============================================================================

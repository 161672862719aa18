------------------------------ MODULE TraceStd ------------------------------
(* Conformance with the standards (C01, C03, C04, C08 - C15, C19).                              *)
EXTENDS Objects, Json, IOUtils
VARIABLES i, st, nbad, nknown
ForgetStd(heap, ev) == IF "id" \in DOMAIN ev /\ ev.id \in DOMAIN heap THEN Drop1(heap, ev.id) ELSE heap
\* A constant of the root module: read once.
TheTrace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceRun WITH Trace <- TheTrace, Step <- StepStd, Start <- <<>>, Forget <- ForgetStd
============================================================================

-------------------------------- MODULE Gen --------------------------------
(* Call histories for the conformance checks: the life cycle of each kind of object with         *)
(* abstract arguments.  TLC enumerates every history of Depth calls (breadth first) and prints   *)
(* it; harness/scen.py puts concrete bytes in and runs the real code.                            *)
(* "uN": update with N bytes, "wN": N whole blocks, "r": a ragged piece, "bad": bad argument.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Kind == IOEnv.GENKIND
Depth == atoi(IOEnv.GENDEPTH)
\* h: history, n: number of objects, end: a ragged piece ended the stream, c: state class
VARIABLES h, n, end
vars == <<h, n, end>>
Step(op) == h' = Append(h, op)
Keep == UNCHANGED <<n, end>>
Last == h[Len(h)]
\* Hash and HMAC objects with copies.
Updates == {"u0", "u1", "u63", "u64", "u65"}
HashInit == h \in {<<"new">>, <<"new1">>, <<"new64">>} /\ n = 1 /\ end = FALSE
HashNext ==
    \/ \E u \in Updates : Step(u) /\ Keep
    \/ \E d \in {"digest", "hexdigest", "reset", "bad"} : Last # d /\ Step(d) /\ Keep
    \/ n < 3 /\ Step("copy") /\ n' = n + 1 /\ UNCHANGED end
    \/ n > 1 /\ Last # "switch" /\ Step("switch") /\ Keep
\* A stream of pieces through a cipher object.
CipherInit == h = <<>> /\ n = 1 /\ end = FALSE
CipherNext ==
    \/ \E u \in {"w0", "w1", "w2"} : ~end /\ Step(u) /\ Keep
    \/ ~end /\ Step("r") /\ end' = TRUE /\ UNCHANGED n
    \/ \E d \in {"attr", "other"} : ~end /\ (IF h = <<>> THEN TRUE ELSE Last # d) /\ Step(d) /\ Keep
    \/ end /\ Last # "." /\ Step(".") /\ Keep
    \/ end /\ Last = "." /\ Step(".") /\ Keep
\* Gamma: ragged pieces anywhere.
GammaInit == h = <<>> /\ n = 1 /\ end = FALSE
GammaNext == \E u \in {"r1", "r2", "rm", "w1", "w2", "w3", "wr"} : Step(u) /\ Keep
MacInit == h \in {<<"new">>, <<"newB">>} /\ n = 1 /\ end = FALSE
MacNext ==
    \/ \E u \in {"u0", "u1", "uB-", "uB", "uB+", "u2B"} : Step(u) /\ Keep
    \/ \E d \in {"digest", "hexdigest"} : Last # d /\ Step(d) /\ Keep
DrbgInit == h = <<>> /\ n = 1 /\ end = FALSE
DrbgNext == \E u \in {"random", "reset", "resetzero", "clear", "resetnone"} : Step(u) /\ Keep
Init == CASE Kind = "hash" -> HashInit [] Kind = "cipher" -> CipherInit [] Kind = "gamma" -> GammaInit
          [] Kind = "mac" -> MacInit [] Kind = "drbg" -> DrbgInit
Next0 == CASE Kind = "hash" -> HashNext [] Kind = "cipher" -> CipherNext [] Kind = "gamma" -> GammaNext
          [] Kind = "mac" -> MacNext [] Kind = "drbg" -> DrbgNext
Next == Len(h) < Depth /\ Next0
\* Printed once per history of full length.
Emit == Len(h) < Depth \/ PrintT(<<"HIST", ToJson(h)>>)
============================================================================

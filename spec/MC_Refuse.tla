----------------------------- MODULE MC_Refuse ------------------------------
(* C22 on the specification: how the trace specification decides that refused calls change nothing     *)
(* (StepRef of Relational).  An object is a secret and the calls made on it.  A refused call keeps the   *)
(* object, or clears it (ciphers and MACs), or - a broken library - does something else to it:            *)
(* loses the last call, or counts the refused call, or forgets the secret silently.  The tracker sees        *)
(* results only; "ref" is what objects without refused calls have shown (all histories here).                  *)
(*   Sound:    a library that keeps or clears is never reported.                                                *)
(*   Complete: an object in a state no allowed history explains is reported when it is asked.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
MaxOps == IF Thorough THEN 9 ELSE 7
Data == {"a", "b"}
Kinds == {"plain", "cipher"}
\* What the library does with a refused call; the first two are the allowed ones.
Reactions == {"keep", "clear", "lose", "count", "forget"}
Allowed(k) == IF k = "cipher" THEN {"keep", "clear"} ELSE {"keep"}
VARIABLES kind, real, cs, pure, verdict, ops, wrong
vars == <<kind, real, cs, pure, verdict, ops, wrong>>
\* real: the calls the object has effectively seen; "!" stands for clear.  A result shows all after the
\* last clear, and whether there was one.
Last(h, n) == SubSeq(h, Len(h) - n + 1, Len(h))
Cleared(h) == \E j \in 1..Len(h) : h[j] = "!"
After(h) == LET js == {j \in 1..Len(h) : h[j] = "!"}
            IN IF js = {} THEN h ELSE LET m == CHOOSE j \in js : \A l \in js : l <= j IN SubSeq(h, m + 1, Len(h))
View(h) == <<Cleared(h), After(h)>>
Clr(h) == IF Len(h) > 0 /\ h[Len(h)] = "!" THEN h ELSE Append(h, "!")
Init == /\ kind \in Kinds /\ real = <<>> /\ cs = {<<>>} /\ pure = TRUE /\ verdict = "none" /\ ops = 0 /\ wrong = FALSE
Go == ops < MaxOps /\ ops' = ops + 1 /\ verdict # "alarm"
Call(d) == /\ Go /\ real' = Append(real, d) /\ cs' = {Append(h, d) : h \in cs} /\ verdict' = "none"
           /\ UNCHANGED <<kind, pure, wrong>>
Clear == /\ Go /\ kind = "cipher" /\ real' = Clr(real) /\ cs' = {Clr(h) : h \in cs} /\ verdict' = "none"
         /\ UNCHANGED <<kind, pure, wrong>>
Effect(r) == CASE r = "keep" -> real
               [] r = "clear" -> Clr(real)
               [] r = "lose" -> IF real = <<>> THEN real ELSE Last(real, Len(real) - 1)
               [] r = "count" -> Append(real, "a")
               [] r = "forget" -> Clr(real)
\* One call in a behaviour may be handled wrongly.
Refuse(r) == /\ Go /\ (r \in Allowed(kind) \/ ~wrong)
             /\ real' = Effect(r) /\ wrong' = (wrong \/ r \notin Allowed(kind))
             /\ cs' = cs \cup (IF kind = "cipher" THEN {Clr(h) : h \in cs} ELSE {})
             /\ pure' = FALSE /\ verdict' = "none" /\ UNCHANGED kind
Ask == /\ Go
       /\ LET H == {h \in cs : View(h) = View(real)}
          IN verdict' = (IF H = {} THEN "alarm" ELSE "ok") /\ cs' = (IF H = {} THEN cs ELSE H)
       /\ UNCHANGED <<kind, real, pure, wrong>>
Next == \/ \E d \in Data : Call(d)
        \/ Clear \/ Ask
        \/ \E r \in Reactions : Refuse(r)
Sound == wrong \/ verdict # "alarm"
Explained == \E h \in cs : View(h) = View(real)
Complete == verdict = "ok" => Explained
\* The tracker does not get lost: without a wrong reaction the true history is among the candidates.
Kept == wrong \/ Explained
\* For objects that may not clear themselves there is nothing to choose.
Plain == kind = "plain" => Cardinality(cs) = 1
\* Refused calls never widen what is known of a pure object.
PureOne == pure => Cardinality(cs) = 1
Bad == wrong /\ ~Explained /\ verdict = "ok"
NeverBad == ~Bad
=============================================================================

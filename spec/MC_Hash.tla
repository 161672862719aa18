------------------------------ MODULE MC_Hash -------------------------------
(* C02 on the specification: every incremental object equals the hashing procedure of the       *)
(* standard over the data it stands for, for every history of new, update, digest, reset, copy.  *)
(* The compression function and the final transformation are free constructors (terms), so that   *)
(* two equal results are equal for every choice of the primitives.  The n-th byte of a message    *)
(* is n: all cuts of a message are told apart.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
B == 3
MaxLen == IF Thorough THEN 10 ELSE 7
MaxUpd == IF Thorough THEN 7 ELSE 5
MaxObj == IF Thorough THEN 3 ELSE 2
TG(h, n, m) == <<"g", h, n, m>>
\* Counters and checksums are formal sums: sequences of what was added.
TAdd(a, b) == <<"sum", a, b, 0>>
TZero == <<"zero", 0, 0, 0>>
TBits(x) == <<"bits", x, 0, 0>>
TNum(m) == <<"num", m, 0, 0>>
TIv(s) == <<"iv", s, 0, 0>>
TOut(h, s) == <<"out", h, s, 0>>
INSTANCE HashObj WITH HBS <- B, HIV <- TIv, HG <- TG, HAdd <- TAdd, HZero <- TZero, HBits <- TBits, HNum <- TNum, HOut <- TOut
\* obj: objects of the library; msg: what each stands for; last: result last returned with the message it was asked for
VARIABLES obj, msg, last
vars == <<obj, msg, last>>
Ids == 1..MaxObj
Data(from, n) == [i \in 1..n |-> from + i]
Init == \E s \in {32, 64}, n \in 0..MaxUpd :
            /\ obj = <<HUpdate(HInit(s), Data(0, n))>>
            /\ msg = <<Data(0, n)>>
            /\ last = <<>>
Update(i, n) ==
    /\ Len(msg[i]) + n <= MaxLen
    /\ obj' = [obj EXCEPT ![i] = HUpdate(@, Data(Len(msg[i]), n))]
    /\ msg' = [msg EXCEPT ![i] = @ \o Data(Len(@), n)]
    /\ last' = <<>>
Digest(i) == last' = <<HDigest(obj[i]), obj[i].size, msg[i]>> /\ UNCHANGED <<obj, msg>>
Reset(i) == obj' = [obj EXCEPT ![i] = HReset(@)] /\ msg' = [msg EXCEPT ![i] = <<>>] /\ last' = <<>>
Copy(i) == /\ Len(obj) < MaxObj
           /\ obj' = Append(obj, obj[i]) /\ msg' = Append(msg, msg[i]) /\ last' = <<>>
Refused(i) == UNCHANGED vars                \* an update with an argument of the wrong type
Next == \E i \in 1..Len(obj) :
            \/ \E n \in 0..MaxUpd : Update(i, n)
            \/ Digest(i) \/ Reset(i) \/ Copy(i) \/ Refused(i)
\* The digest of an object is the hash of what it stands for, whatever its history.
AgreesWithStandard == \A i \in 1..Len(obj) : HDigest(obj[i]) = StdHash(obj[i].size, msg[i])
ReturnedIsRight == last = <<>> \/ last[1] = StdHash(last[2], last[3])
\* A buffer never holds a whole block, and holds the tail of the message.
BufferIsTail == \A i \in 1..Len(obj) :
    /\ Len(obj[i].buf) < B
    /\ obj[i].buf = SubSeq(msg[i], Len(msg[i]) - Len(obj[i].buf) + 1, Len(msg[i]))
\* The state is a function of the message: no history leaves a trace.
NoHistory == \A i \in 1..Len(obj) : obj[i] = HUpdate(HInit(obj[i].size), msg[i])
=============================================================================

------------------------------ MODULE MC_Hmac -------------------------------
(* C09 on the specification: the HMAC object equals the HMAC of the standard over the data since  *)
(* creation or the last reset, for every history of update, digest, reset, copy, clear; a cleared  *)
(* object is one made with the zero key.  The hash is HashObj over 3-byte blocks with a small      *)
(* compression function.                                                                           *)
EXTENDS Bytes, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
B == 3
MaxLen == IF Thorough THEN 8 ELSE 5
MaxUpd == IF Thorough THEN 5 ELSE 4
MaxObj == 2
TKeys == {<<>>, <<5>>, <<5, 9>>, <<5, 9, 200>>, <<0>>, <<54, 54, 54>>}
\* HashObj feeds counters and checksums to the compression function as blocks: numbers are
\* three-byte blocks here.
Mix(a, b) == (a * 191 + b * 7 + 13) % 65521
TGm(h, n, m) == Mix(Mix(h % 65521, n % 65521), (m[1] + 3 * m[2] + 19 * m[3]) * 31 + m[1])
N3(x) == <<x % 256, (x \div 256) % 256, x \div 65536>>
V3(b) == b[1] + 256 * b[2] + 65536 * b[3]
G3(h, n, m) == N3(TGm(V3(h), V3(n), m))
Add3(a, b) == N3((V3(a) + V3(b)) % 16777216)
Bits3(x) == N3(x)
Num3(m) == m
Iv3(s) == Rep(IF s = 32 THEN 1 ELSE 0, 3)
Out3(h, s) == IF s = 32 THEN Take(h, 2) ELSE h
INSTANCE HashObj WITH HBS <- B, HIV <- Iv3, HG <- G3, HAdd <- Add3, HZero <- Zeros(3), HBits <- Bits3, HNum <- Num3, HOut <- Out3
INSTANCE HmacObj WITH KBS <- B, FInit <- HInit, FUpdate <- HUpdate, FDigest <- HDigest
VARIABLES obj, msg, key
vars == <<obj, msg, key>>
Data(from, n) == [i \in 1..n |-> (11 * (from + i)) % 256]
Init == \E s \in {32, 64}, k \in TKeys :
            obj = <<KInit(s, k)>> /\ msg = <<<<>>>> /\ key = <<k>>
Next == \E i \in 1..Len(obj) :
    \/ \E n \in 0..MaxUpd : /\ Len(msg[i]) + n <= MaxLen
                            /\ obj' = [obj EXCEPT ![i] = KUpdate(@, Data(Len(msg[i]), n))]
                            /\ msg' = [msg EXCEPT ![i] = @ \o Data(Len(@), n)]
                            /\ UNCHANGED key
    \/ obj' = [obj EXCEPT ![i] = KReset(@)] /\ msg' = [msg EXCEPT ![i] = <<>>] /\ UNCHANGED key
    \/ obj' = [obj EXCEPT ![i] = KClear(@)] /\ msg' = [msg EXCEPT ![i] = <<>>] /\ key' = [key EXCEPT ![i] = <<>>]
    \/ Len(obj) < MaxObj /\ obj' = Append(obj, obj[i]) /\ msg' = Append(msg, msg[i]) /\ key' = Append(key, key[i])
AgreesWithStandard == \A i \in 1..Len(obj) : KDigest(obj[i]) = StdHmac(obj[i].size, key[i], msg[i])
\* A cleared object carries nothing of its key (C18).
ClearedIsZeroKey == \A i \in 1..Len(obj) : key[i] = <<>> => obj[i].kp = Zeros(B)
NoHistory == \A i \in 1..Len(obj) : obj[i] = KUpdate(KInit(obj[i].size, key[i]), msg[i])
\* The form used to follow long derivations (Objects!Prf) is StdHmac.
PrfForm == \A i \in 1..Len(obj) :
    LET kp == KPad(key[i])
        ki == HUpdate(HInit(64), IPad(kp))
        ko == HUpdate(HInit(64), OPad(kp))
    IN HDigest(HUpdate(ko, HDigest(HUpdate(ki, msg[i])))) = StdHmac(64, key[i], msg[i])
\* Keys padded with zeros are the same key; different pads give different inner blocks.
ASSUME KPad(<<5>>) = KPad(<<5, 0>>) /\ IPad(KPad(<<5>>)) # OPad(KPad(<<5>>))
=============================================================================

------------------------------- MODULE MC_Oid -------------------------------
(* C19 on the specification: the DER encoding is invertible (so different identifiers have          *)
(* different encodings), its octets have the prescribed form, and the register is consistent.        *)
EXTENDS Oid, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Edge == {0, 1, 39, 40, 47, 48, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456}
Big == {<<1, 0, 0, 0, 0>>, <<127, 255, 255, 255, 255>>, <<1>> \o Zeros(15), Rep(255, 16)}
Nums == {NInt(x) : x \in Edge} \cup Big
MaxParts == IF Thorough THEN 5 ELSE 4
VARIABLE cs
Init == \E a \in 0..3 : \E b \in Nums : cs = <<NInt(a), b>> /\ Encodable(cs)
Next == Len(cs) < MaxParts /\ \E n \in Nums : cs' = Append(cs, n)
D == DerOid(cs)
Invertible == DerOidInv(D) = cs
Header == D[1] = 6 /\ (Len(D) < 130 => D[2] = Len(D) - 2)
\* Every component is minimal base 128: no leading 128, the last octet below 128.
Minimal == \A i \in 2..Len(cs) : LET b == Base128(cs[i])
    IN b[1] # 128 /\ b[Len(b)] < 128 /\ \A j \in 1..(Len(b) - 1) : b[j] >= 128
Valid == Encodable(cs)
\* Text: digits and back.
TextOf(n) == [i \in 1..Len(n) |-> n[i]]
ASSUME \A x \in {0, 1, 9, 10, 99, 100, 12345, 2147483647} :
    DecToN(LET s == ToString(x) IN [i \in 1..Len(s) |-> 48 + (CHOOSE v \in 0..9 : ToString(v) = SubSeq(s, i, i))]) = NInt(x)
ASSUME NumText(<<48>>) /\ ~NumText(<<48, 49>>) /\ ~NumText(<<>>) /\ ~NumText(<<49, 32>>)
ASSUME SplitDots(<<49, 46, 50>>) = <<<<49>>, <<50>>>> /\ SplitDots(<<46>>) = <<<<>>, <<>>>>
\* Nothing encodable is refused: every content that begins with one of these is that of an identifier.
ASSUME \A v \in (0..300) \cup Edge : LET n == NInt(v)
                                        i == DerOidInv(<<6, 1>> \o Base128(n))
                                    IN Encodable(i) /\ Drop(DerOid(i), 2) = Base128(n)
\* Long bodies use the long form of the length.
ASSUME DerLen(127) = <<127>> /\ DerLen(128) = <<129, 128>> /\ DerLen(256) = <<130, 1, 0>>
ASSUME LET l == <<<<1>>, <<2>>>> \o [i \in 1..200 |-> <<(i % 200) + 1>>]
       IN DerOidInv(DerOid(l)) = l
\* Identifiers and names of the register are unique.
ASSUME Cardinality({OidTab[i][1] : i \in 1..Len(OidTab)}) = Len(OidTab)
ASSUME Cardinality({OidTab[i][2] : i \in 1..Len(OidTab)}) = Len(OidTab)
=============================================================================

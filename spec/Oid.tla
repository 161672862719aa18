-------------------------------- MODULE Oid ---------------------------------
(* Object identifiers: dotted text (character codes), components (BigNat), DER.                *)
EXTENDS BigNat, OidTab
IsDigitC(c) == c >= 48 /\ c <= 57
\* Text split at the dots.
SplitDots(t) ==
    LET r == FoldLeft(LAMBDA st, c : IF c = 46 THEN <<Append(st[1], st[2]), <<>>>> ELSE <<st[1], Append(st[2], c)>>,
                      <<<<>>, <<>>>>, t)
    IN TLCEval(Append(r[1], r[2]))
\* A number in dotted notation has no sign, blank, separator or superfluous zero.
NumText(c) == Len(c) >= 1 /\ (\A i \in 1..Len(c) : IsDigitC(c[i])) /\ (Len(c) = 1 \/ c[1] # 48)
DecToN(c) == FoldLeft(LAMBDA a, d : NAdd(NMul(a, <<10>>), NInt(d - 48)), <<>>, c)
Numeric(t) == LET ps == SplitDots(t) IN \A i \in 1..Len(ps) : NumText(ps[i])
\* Defined for numeric text.
Components(t) == LET ps == SplitDots(t) IN TLCEval([i \in 1..Len(ps) |-> DecToN(ps[i])])
Encodable(cs) ==
    Len(cs) >= 2 /\ \/ cs[1] \in {<<>>, <<1>>} /\ NLt(cs[2], <<40>>)
                    \/ cs[1] = <<2>>
ValidOid(t) == Numeric(t) /\ Encodable(Components(t))
\* Base-128 digits, most significant first; bit 8 set on all but the last.
Base128(n) ==
    LET k == IF n = <<>> THEN 1 ELSE (NBits(n) + 6) \div 7
        dig(j) == FoldLeft(LAMBDA a, b : 2 * a + NBit(n, 7 * j + 6 - b), 0, <<0, 1, 2, 3, 4, 5, 6>>)
    IN TLCEval([i \in 1..k |-> dig(k - i) + (IF i < k THEN 128 ELSE 0)])
\* DER length octets.
DerLen(n) == IF n < 128 THEN <<n>> ELSE LET l == NInt(n) IN <<128 + Len(l)>> \o l
DerOid(cs) ==
    LET first == NAdd(NMul(<<40>>, cs[1]), cs[2])
        body == FlattenB(<<Base128(first)>> \o [i \in 1..(Len(cs) - 2) |-> Base128(cs[i + 2])])
    IN TLCEval(<<6>> \o DerLen(Len(body)) \o body)
\* Inverse, for MC_Oid: components of a DER encoding.
RECURSIVE Un128(_, _, _)
Un128(b, acc, out) ==
    IF b = <<>> THEN out
    ELSE LET a == NAdd(NMul(acc, <<128>>), NInt(b[1] % 128))
         IN IF b[1] >= 128 THEN Un128(Drop(b, 1), a, out) ELSE Un128(Drop(b, 1), <<>>, Append(out, a))
DerOidInv(o) ==
    LET hl == IF o[2] < 128 THEN 2 ELSE 2 + (o[2] - 128)
        s == Un128(Drop(o, hl), <<>>, <<>>)
        f == s[1]
        a == IF NLt(f, <<40>>) THEN <<>> ELSE IF NLt(f, <<80>>) THEN <<1>> ELSE <<2>>
    IN <<a, NSub(f, NMul(<<40>>, a))>> \o Tail(s)
\* TC 26 name of a dotted string, "" for others.
NameOf(s) == LET m == SelectSeq(OidTab, LAMBDA e : e[1] = s) IN IF m = <<>> THEN "" ELSE m[1][2]
============================================================================

------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of 0..255. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Bitwise, TLC

Byte == 0..255
Rep(b, n) == [i \in 1..n |-> b]
Zeros(n) == Rep(0, n)
Take(s, n) == SubSeq(s, 1, n)                 \* first n bytes
Drop(s, n) == SubSeq(s, n + 1, Len(s))        \* all but the first n bytes
Tail_(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))   \* last n bytes
Min2(a, b) == IF a < b THEN a ELSE b
\* Bytewise exclusive or, of the common length.  (Java override: Bytes.java)
XorSeq(a, b) == TLCEval([i \in 1..Min2(Len(a), Len(b)) |-> a[i] ^^ b[i]])
IsZero(s) == \A i \in 1..Len(s) : s[i] = 0
\* Lowercase hexadecimal text as character codes.
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexCodes(s) == TLCEval([i \in 1..(2 * Len(s)) |->
    IF i % 2 = 1 THEN HexDigit(s[(i + 1) \div 2] \div 16) ELSE HexDigit(s[i \div 2] % 16)])
\* s cut into blocks of n bytes; the last one may be shorter; empty for the empty string.
NumBlocks(s, n) == (Len(s) + n - 1) \div n
Block(s, n, i) == SubSeq(s, (i - 1) * n + 1, Min2(i * n, Len(s)))
\* Concatenation of a sequence of byte strings.  (Java override: Bytes.java)
FlattenCore(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
FlattenB(ss) == FlattenCore(ss)
\* Addition of a small number to a big-endian counter, modulo 256^Len(c).
RECURSIVE IncBEr(_, _, _)
IncBEr(c, i, carry) ==
    IF i = 0 \/ carry = 0 THEN c
    ELSE LET t == c[i] + carry IN IncBEr([c EXCEPT ![i] = t % 256], i - 1, t \div 256)
AddBE(c, k) == TLCEval(IncBEr(c, Len(c), k))
IncBE(c) == AddBE(c, 1)
============================================================================

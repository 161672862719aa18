-------------------------------- MODULE Omac --------------------------------
(* The MAC mode of GOST R 34.13-2015 (section 5.6) over any block cipher.                       *)
EXTENDS Bytes
CONSTANTS Enc(_, _), BS(_),
          Poly(_)               \* block size -> low byte(s) of the reduction constant, as a block

\* Doubling in GF(2^n): shift left by one bit, reduce when a bit is shifted out.
ShiftLeft1(b) == TLCEval([i \in 1..Len(b) |->
    ((b[i] * 2) % 256) + (IF i < Len(b) THEN b[i + 1] \div 128 ELSE 0)])
Dbl(b) == IF b[1] >= 128 THEN XorSeq(ShiftLeft1(b), Poly(Len(b))) ELSE ShiftLeft1(b)
SubKey1(k) == Dbl(Enc(k, Zeros(BS(k))))
SubKey2(k) == Dbl(SubKey1(k))
\* The standard, for a whole message (empty: one padded block).
StdMac(k, msg) ==
    LET bs == BS(k)
        q == IF msg = <<>> THEN 1 ELSE NumBlocks(msg, bs)
        last == Drop(msg, (q - 1) * bs)
        whole == Len(last) = bs
        cq == FoldLeft(LAMBDA c, i : TLCEval(Enc(k, XorSeq(c, Block(msg, bs, i)))), Zeros(bs), [i \in 1..(q - 1) |-> i])
        pl == IF whole THEN last ELSE last \o <<128>> \o Zeros(bs - 1 - Len(last))
    IN Enc(k, XorSeq(XorSeq(cq, pl), IF whole THEN SubKey1(k) ELSE SubKey2(k)))

\* The object: current chaining value and pending bytes (the last whole block stays pending).
OInit(k) == [k |-> k, k1 |-> SubKey1(k), k2 |-> SubKey2(k), cur |-> Zeros(BS(k)), buf |-> <<>>]
OUpdate(o, data) ==
    LET bs == BS(o.k)
        all == TLCEval(o.buf \o data)
        nb == IF all = <<>> THEN 0 ELSE (Len(all) - 1) \div bs
        c == FoldLeft(LAMBDA cc, i : TLCEval(Enc(o.k, XorSeq(cc, Block(all, bs, i)))), o.cur, [i \in 1..nb |-> i])
    IN [o EXCEPT !.cur = c, !.buf = TLCEval(Drop(all, nb * bs))]
OFinal(o) ==
    LET bs == BS(o.k)
        whole == Len(o.buf) = bs
        pl == IF whole THEN o.buf ELSE o.buf \o <<128>> \o Zeros(bs - 1 - Len(o.buf))
    IN TLCEval(Enc(o.k, XorSeq(XorSeq(o.cur, pl), IF whole THEN o.k1 ELSE o.k2)))
ODigest(o, n) == Take(OFinal(o), n)
============================================================================

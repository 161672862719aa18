------------------------------- MODULE Modes --------------------------------
(* GOST R 34.13-2015 over any block cipher: ECB, CBC, CFB, OFB, CTR.                            *)
(* Std*: the formulas of the standard for a whole message.  MInit / MEnc / MDec: the object of  *)
(* the library, with its register or counter, that may be given the message in pieces.          *)
(* MC_Modes checks that they agree and checks C05, C06 and C07 on them.                         *)
EXTENDS Bytes
CONSTANTS Enc(_, _), Dec(_, _),   \* block cipher under a key
          BS(_)                   \* its block size in bytes

\* Padding procedures 1 and 2 of the standard (4.1.1, 4.1.2).
Pad1(d, bs) == d \o Zeros((bs - (Len(d) % bs)) % bs)
Pad2(d, bs) == d \o <<128>> \o Zeros(bs - 1 - (Len(d) % bs))
PadD(pad, d, bs) == TLCEval(IF pad = 1 THEN Pad1(d, bs) ELSE Pad2(d, bs))
\* Known deviation of the library (pinned by its tests): a whole zero block follows when the
\* data did not end on a block boundary.
Pad2Long(d, bs) == TLCEval(IF Len(d) % bs = 0 THEN Pad2(d, bs) ELSE Pad2(d, bs) \o Zeros(bs))

Ids(n) == [i \in 1..n |-> i]
\* ---------------------------------------------------------------- the standard's formulas
\* Whole padded messages for ECB and CBC; iv is z blocks long, z >= 1.
StdEcb(k, p) == LET bs == BS(k) IN FlattenB([i \in 1..(Len(p) \div bs) |-> Enc(k, Block(p, bs, i))])
\* C_i = E(P_i xor (IV_i for i <= z, C_{i-z} after)).
RECURSIVE StdCbcBlock(_, _, _, _)
StdCbcBlock(k, iv, p, i) ==
    LET bs == BS(k)
        z == Len(iv) \div bs
    IN Enc(k, XorSeq(Block(p, bs, i), IF i <= z THEN Block(iv, bs, i) ELSE StdCbcBlock(k, iv, p, i - z)))
StdCbc(k, iv, p) == FlattenB([i \in 1..(Len(p) \div BS(k)) |-> StdCbcBlock(k, iv, p, i)])
\* C_i = P_i xor E(IV_i or C_{i-z}); C_{i-z} is always a whole block.
RECURSIVE StdCfbBlock(_, _, _, _)
StdCfbBlock(k, iv, p, i) ==
    LET bs == BS(k)
        z == Len(iv) \div bs
    IN XorSeq(Enc(k, IF i <= z THEN Block(iv, bs, i) ELSE StdCfbBlock(k, iv, p, i - z)), Block(p, bs, i))
StdCfb(k, iv, p) == FlattenB([i \in 1..NumBlocks(p, BS(k)) |-> StdCfbBlock(k, iv, p, i)])
\* G_i = E(IV_i or G_{i-z}).
RECURSIVE StdOfbGamma(_, _, _)
StdOfbGamma(k, iv, i) ==
    LET bs == BS(k)
        z == Len(iv) \div bs
    IN Enc(k, IF i <= z THEN Block(iv, bs, i) ELSE StdOfbGamma(k, iv, i - z))
StdOfb(k, iv, p) ==
    FlattenB([i \in 1..NumBlocks(p, BS(k)) |-> XorSeq(StdOfbGamma(k, iv, i), Block(p, BS(k), i))])
\* CTR_i = iv || 0 + (i - 1) modulo 2^n.
StdCtr(k, iv, p) ==
    LET bs == BS(k)
    IN FlattenB([i \in 1..NumBlocks(p, bs) |->
                    XorSeq(Enc(k, AddBE(iv \o Zeros(bs \div 2), i - 1)), Block(p, bs, i))])

\* ---------------------------------------------------------------- the object
\* reg: the register (CBC, CFB, OFB), the counter (CTR), or empty (ECB).
MInit(k, mode, iv, pad) ==
    [k |-> k, mode |-> mode, pad |-> pad,
     reg |-> IF mode = "ctr" THEN iv \o Zeros(BS(k) \div 2) ELSE iv]
Shift(reg, b) == TLCEval(Drop(reg, Len(b)) \o b)
\* f(reg, block) = <<output block, next reg>>; returns <<reg, output>>.
RunBlocks(f(_, _), reg0, data, bs) ==
    LET r == FoldLeft(LAMBDA acc, i : LET x == f(acc[1], Block(data, bs, i))
                                      IN TLCEval(<<x[2], Append(acc[2], x[1])>>),
                      <<reg0, <<>>>>, Ids(NumBlocks(data, bs)))
    IN <<r[1], TLCEval(FlattenB(r[2]))>>
EcbE(k, reg, b) == <<Enc(k, b), reg>>
EcbD(k, reg, b) == <<Dec(k, b), reg>>
CbcE(k, reg, b) == LET c == TLCEval(Enc(k, XorSeq(Take(reg, BS(k)), b))) IN <<c, Shift(reg, c)>>
CbcD(k, reg, b) == <<XorSeq(Dec(k, b), Take(reg, BS(k))), Shift(reg, b)>>
\* After a ragged last block the register takes what the standard leaves open: the gamma block
\* with its used part replaced by ciphertext (CFB) or the gamma block itself (OFB); either way
\* no part of the gamma is applied twice.
CfbX(k, reg, b, dec) ==
    LET g == TLCEval(Enc(k, Take(reg, BS(k))))
        x == XorSeq(g, b)
        c == IF dec THEN b ELSE x
    IN <<x, Shift(reg, TLCEval(c \o Drop(g, Len(c))))>>
OfbX(k, reg, b) == LET g == TLCEval(Enc(k, Take(reg, BS(k)))) IN <<XorSeq(g, b), Shift(reg, g)>>
CtrX(k, reg, b) == <<XorSeq(Enc(k, reg), b), IncBE(reg)>>

MRun(o, dec, data) ==
    LET k == o.k
        bs == BS(k)
        f(reg, b) == CASE o.mode = "ecb" -> IF dec THEN EcbD(k, reg, b) ELSE EcbE(k, reg, b)
                       [] o.mode = "cbc" -> IF dec THEN CbcD(k, reg, b) ELSE CbcE(k, reg, b)
                       [] o.mode = "cfb" -> CfbX(k, reg, b, dec)
                       [] o.mode = "ofb" -> OfbX(k, reg, b)
                       [] o.mode = "ctr" -> CtrX(k, reg, b)
        r == RunBlocks(f, o.reg, data, bs)
    IN <<[o EXCEPT !.reg = r[1]], r[2]>>
Padded(o) == o.mode \in {"ecb", "cbc"}
\* <<object, ciphertext>>
MEnc(o, data) == MRun(o, FALSE, IF Padded(o) THEN PadD(o.pad, data, BS(o.k)) ELSE data)
\* The same with the known deviation of the padding.
MEncLong(o, data) == MRun(o, FALSE, IF Padded(o) /\ o.pad = 2 THEN Pad2Long(data, BS(o.k)) ELSE
                                    IF Padded(o) THEN PadD(o.pad, data, BS(o.k)) ELSE data)
\* <<object, plaintext>>; ECB and CBC take whole blocks.
MDec(o, data) == MRun(o, TRUE, data)
MIv(o) == Tail_(o.reg, BS(o.k))
MCounter(o) == o.reg
============================================================================

------------------------------ MODULE MC_Modes ------------------------------
(* C04 - C07 on the specification, over a small keyed permutation of blocks: for every way of    *)
(* cutting a message into pieces the object gives what the formulas of GOST R 34.13-2015 give for  *)
(* the whole message; a second object that is given the ciphertext in any other pieces recovers    *)
(* the message; and no part of the gamma is applied twice, ragged pieces included.                 *)
(*                                                                                                 *)
(* Cut: a stream of pieces, the last one possibly ragged (C04, C05, C06).                          *)
(* Rag: pieces of any length in any order (C07).                                                   *)
EXTENDS Bytes, Tables, FiniteSets, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
BLK == 2
MaxBlocks == IF Thorough THEN 7 ELSE 5
MaxLen == MaxBlocks * BLK
Fk(k, x, c) == Pi[((x + k + c) % 256) + 1]
E2(k, b) == LET a1 == b[1] ^^ Fk(k, b[2], 1)
                b1 == b[2] ^^ Fk(k, a1, 2)
                a2 == a1 ^^ Fk(k, b1, 3)
            IN <<a2, b1>>
D2(k, b) == LET a1 == b[1] ^^ Fk(k, b[2], 3)
                b0 == b[2] ^^ Fk(k, a1, 2)
            IN <<a1 ^^ Fk(k, b0, 1), b0>>
BSK(k) == BLK
INSTANCE Modes WITH Enc <- E2, Dec <- D2, BS <- BSK
ASSUME \A k \in {0, 77, 255}, x \in {0, 1, 2, 127, 128, 255}, y \in 0..255 : D2(k, E2(k, <<x, y>>)) = <<x, y>>
K == 77
Iv(mode, z) == CASE mode = "ecb" -> <<>>
                 [] mode = "ctr" -> <<200>>
                 [] OTHER -> [i \in 1..(z * BLK) |-> (31 * i + 5) % 256]
Data(from, n) == [i \in 1..n |-> (7 * (from + i) * (from + i)) % 256]
\* phase "cut" or "rag"; e, d: objects; p: plaintext; c: ciphertext; r: what d gave back;
\* n: ciphertext bytes given to d; end: a ragged piece closed the stream; gam: gamma pieces
\* applied with the block of the keystream they belong to; ins: inputs of the cipher at the start of every
\* piece.
VARIABLES mode, z, pad, phase, e, d, p, c, r, n, end, gam, ins
vars == <<mode, z, pad, phase, e, d, p, c, r, n, end, gam, ins>>
Strm == mode \in {"cfb", "ofb", "ctr"}
Init ==
    /\ mode \in {"ecb", "cbc", "cfb", "ofb", "ctr"}
    /\ z \in (IF mode \in {"ecb", "ctr"} THEN {1} ELSE 1..3)
    /\ pad \in (IF mode \in {"ecb", "cbc"} THEN {1, 2} ELSE {1})
    /\ phase \in (IF mode \in {"cfb", "ofb", "ctr"} THEN {"cut", "rag"} ELSE {"cut"})
    /\ e = MInit(K, mode, Iv(mode, z), pad) /\ d = e
    /\ p = <<>> /\ c = <<>> /\ r = <<>> /\ n = 0 /\ end = FALSE /\ gam = <<>> /\ ins = <<>>
\* A piece of whole blocks; with padding 2 every piece is padded, so the one piece is the message.
Piece(k) ==
    /\ phase = "cut" /\ ~end /\ Len(p) + k <= MaxLen
    /\ LET x == Data(Len(p), k)
           y == MEnc(e, x)
       IN /\ e' = y[1] /\ p' = p \o x /\ c' = c \o y[2]
    /\ end' = (k % BLK # 0 \/ pad = 2)
    /\ UNCHANGED <<mode, z, pad, phase, d, r, n, gam, ins>>
\* The other side takes what is there in pieces of its own.
Give(k) ==
    /\ phase = "cut" /\ n + k <= Len(c) /\ (k % BLK = 0 \/ (n + k = Len(c) /\ end))
    /\ LET y == MDec(d, SubSeq(c, n + 1, n + k)) IN d' = y[1] /\ r' = r \o y[2]
    /\ n' = n + k
    /\ UNCHANGED <<mode, z, pad, phase, e, p, c, end, gam, ins>>
\* Any piece at all.  gam: per piece the blocks of gamma applied (data xor output).
Rag(k, dir) ==
    /\ phase = "rag" /\ k > 0 /\ Len(p) + k <= MaxLen
    /\ LET x == Data(Len(p), k)
           y == IF dir = "enc" THEN MEnc(e, x) ELSE MDec(e, x)
       IN /\ e' = y[1] /\ p' = p \o x /\ c' = c \o y[2]
          /\ gam' = gam \o [j \in 1..NumBlocks(x, BLK) |-> XorSeq(Block(x, BLK, j), Block(y[2], BLK, j))]
    /\ ins' = Append(ins, Take(e.reg, BLK))
    /\ UNCHANGED <<mode, z, pad, phase, d, r, n, end>>
Next == \/ \E k \in 0..(3 * BLK + 1) : Piece(k)
        \/ \E k \in 1..(2 * BLK) : Give(k)
        \/ \E k \in 1..(2 * BLK + 1) : Rag(k, "enc") \/ Rag(k, "dec")
PP == IF mode \in {"ecb", "cbc"} THEN PadD(pad, p, BLK) ELSE p
Std == CASE mode = "ecb" -> StdEcb(K, PP)
         [] mode = "cbc" -> StdCbc(K, Iv(mode, z), PP)
         [] mode = "cfb" -> StdCfb(K, Iv(mode, z), PP)
         [] mode = "ofb" -> StdOfb(K, Iv(mode, z), PP)
         [] mode = "ctr" -> StdCtr(K, Iv(mode, z), PP)
\* C04, C06: the pieces give what the formulas give for the message.
PiecesAreTheMessage == phase = "cut" /\ (pad = 1 \/ end) => c = Std
\* C05: what has been decrypted so far is the beginning of the message (then the padding).
RoundTrip == phase = "cut" /\ (pad = 1 \/ end) => Take(PP, n) = r
\* C04, C06: the published register and counter.
Register == phase = "cut" /\ ~end /\ mode \in {"cbc", "cfb"} /\ c # <<>> => MIv(e) = Tail_(c, BLK)
Counter == mode = "ctr" =>
    MCounter(e) = AddBE(<<200>> \o Zeros(BLK \div 2), IF phase = "cut" THEN NumBlocks(p, BLK) ELSE Len(gam))
\* C07: the j-th piece of gamma is a beginning of the j-th block of the key stream (OFB, CTR) ...
KeyBlock(j) == IF mode = "ofb" THEN StdOfbGamma(K, Iv(mode, z), j) ELSE E2(K, AddBE(<<200>> \o Zeros(BLK \div 2), j - 1))
GammaOnce == phase = "rag" /\ mode # "cfb" =>
    \A j \in 1..Len(gam) : gam[j] = Take(KeyBlock(j), Len(gam[j]))
\* ... and no two blocks of it are the same (the inputs of the cipher are different).
Distinct == phase = "rag" => \A j, l \in 1..Len(gam) :
    j # l /\ Len(gam[j]) = BLK /\ Len(gam[l]) = BLK => gam[j] # gam[l]
\* Pieces start with different inputs of the cipher, whatever the pieces before them looked like (CFB too).
FreshInputs == \A j, l \in 1..Len(ins) : j # l => ins[j] # ins[l]
\* Padding 2 can be taken off again, whatever the data; padding 1 adds as little as possible.
Unpad2(x) == LET k == CHOOSE k \in 1..Len(x) : x[k] = 128 /\ \A j \in (k + 1)..Len(x) : x[j] = 0 IN Take(x, k - 1)
Short == UNION {[1..m -> {0, 1, 128}] : m \in 0..5}
ASSUME \A x \in Short : /\ Len(Pad2(x, 2)) % 2 = 0 /\ Len(Pad2(x, 2)) \in {Len(x) + 1, Len(x) + 2}
                       /\ Pad2(x, 2) # x /\ Unpad2(Pad2(x, 2)) = x
                       /\ Len(Pad1(x, 2)) % 2 = 0 /\ Len(Pad1(x, 2)) - Len(x) \in {0, 1} /\ Take(Pad1(x, 2), Len(x)) = x
\* What the library does instead (pad2, known deviation) can be taken off as well.
ASSUME \A x \in Short : Unpad2(Pad2Long(x, 2)) = x
\* The counter runs through all its values before it repeats.
CtrSeq == FoldLeft(LAMBDA acc, i : Append(acc, IncBE(acc[Len(acc)])), <<<<200, 0>>>>, [i \in 1..300 |-> i])
ASSUME Cardinality({CtrSeq[i] : i \in 1..301}) = 301
ASSUME IncBE(<<255, 255>>) = <<0, 0>> /\ IncBE(<<0, 255>>) = <<1, 0>>
=============================================================================

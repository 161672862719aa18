------------------------------- MODULE Pbkdf --------------------------------
(* PBKDF2 of R 50.1.111-2016 over any keyed function Prf(password, data) with HL-byte results.  *)
EXTENDS Bytes
CONSTANTS HL, Prf(_, _)
BE4(i) == <<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>
\* T_i = U_1 xor ... xor U_c
PBlock(pw, salt, c, i) ==
    LET u1 == TLCEval(Prf(pw, salt \o BE4(i)))
    IN FoldLeft(LAMBDA st, j : LET u == TLCEval(Prf(pw, st[1])) IN TLCEval(<<u, XorSeq(st[2], u)>>),
                <<u1, u1>>, [j \in 1..(c - 1) |-> j])[2]
PDerive(pw, salt, c, n) ==
    TLCEval(Take(FlattenB([i \in 1..((n + HL - 1) \div HL) |-> PBlock(pw, salt, c, i)]), n))
\* Blocks from..to only (to compare samples of very long keys).
PDeriveBlocks(pw, salt, c, from, to) == FlattenB([i \in 1..(to - from + 1) |-> PBlock(pw, salt, c, from + i - 1)])
============================================================================

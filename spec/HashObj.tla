------------------------------ MODULE HashObj -------------------------------
(* The hashing procedure of GOST R 34.11-2012 over any block size and compression function:    *)
(* once as the standard writes it (StdHash) and once as the incremental object of the library  *)
(* (HInit, HUpdate, HDigest).  MC_Hash checks that both agree for every history.               *)
EXTENDS Bytes
CONSTANTS HBS,          \* block size in bytes
          HIV(_),       \* initial chaining value for an output size
          HG(_, _, _),  \* compression function g_N(h, m)
          HAdd(_, _),   \* addition modulo 2^n of length counters / checksums
          HZero,        \* the zero vector
          HBits(_),     \* number of bits of a (partial) block as a vector
          HNum(_),      \* a block as a vector
          HOut(_, _)    \* digest of a given size from the final value

\* As in the standard, section 8: h, N, Sigma evolve over the message.
HPadTo(m) == m \o <<1>> \o Zeros(HBS - 1 - Len(m))
RECURSIVE StdStage(_, _, _, _)
StdStage(h, n, sigma, msg) ==
    IF Len(msg) >= HBS
    THEN LET m == Take(msg, HBS)
         IN StdStage(HG(h, n, m), HAdd(n, HBits(8 * HBS)), HAdd(sigma, HNum(m)), Drop(msg, HBS))
    ELSE LET m == HPadTo(msg)
         IN HG(HG(HG(h, n, m), HZero, HAdd(n, HBits(8 * Len(msg)))), HZero, HAdd(sigma, HNum(m)))
StdHash(size, msg) == HOut(StdStage(HIV(size), HZero, HZero, msg), size)

\* The object: chaining value, length counter, checksum, pending bytes (fewer than a block).
HInit(size) == [size |-> size, h |-> HIV(size), n |-> HZero, sig |-> HZero, buf |-> <<>>]
HBlock(st, m) == [st EXCEPT !.h = HG(st.h, st.n, m), !.n = HAdd(st.n, HBits(8 * HBS)),
                            !.sig = HAdd(st.sig, HNum(m))]
HUpdate(st, data) ==
    LET all == TLCEval(st.buf \o data)
        nb == Len(all) \div HBS
        st2 == FoldLeft(LAMBDA s, i : TLCEval(HBlock(s, SubSeq(all, HBS * (i - 1) + 1, HBS * i))), st,
                        [i \in 1..nb |-> i])
    IN [st2 EXCEPT !.buf = TLCEval(Drop(all, HBS * nb))]
HFinal(st) ==
    LET m == HPadTo(st.buf)
        h1 == HG(st.h, st.n, m)
        n1 == HAdd(st.n, HBits(8 * Len(st.buf)))
        s1 == HAdd(st.sig, HNum(m))
    IN HG(HG(h1, HZero, n1), HZero, s1)
HDigest(st) == HOut(HFinal(st), st.size)
HReset(st) == HInit(st.size)
Hash(size, msg) == HDigest(HUpdate(HInit(size), msg))
============================================================================

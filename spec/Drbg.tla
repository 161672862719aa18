-------------------------------- MODULE Drbg --------------------------------
(* The generator of R 1323565.1.006-2017: U_i = U_{i-1} + 1 mod 2^(8 UL), output H(U_i).        *)
(* The low UL - size_s bytes of U start at zero and are the counter; when it has taken its last *)
(* value the generator is exhausted.                                                           *)
EXTENDS Bytes
CONSTANTS UL,            \* length of U in bytes: hash block size - 1 (63)
          DHL,           \* digest length (64)
          DHash(_)       \* the hash
GSeed(seed) == [u |-> seed \o Zeros(UL - Len(seed)), size |-> Len(seed)]
GDead(size) == [u |-> Zeros(UL), size |-> size]
GZero(o) == IsZero(Take(o.u, o.size))
GLast(o) == \A i \in (o.size + 1)..UL : o.u[i] = 255
\* One digest: <<object, digest>> for a generator that is neither zero nor exhausted.
GStep(o) == LET u == TLCEval(IncBE(o.u)) IN <<[o EXCEPT !.u = u], TLCEval(DHash(u))>>
\* n bytes: <<object, status, bytes>>, status "ok", "zero" or "limit".
GBlocks(o, n) ==
    LET nb == (n + DHL - 1) \div DHL
        r == FoldLeft(LAMBDA acc, i :
                 IF acc[2] # "ok" THEN acc
                 ELSE IF GLast(acc[1]) THEN <<GDead(o.size), "limit", <<>>>>
                 ELSE LET s == GStep(acc[1])
                      IN <<s[1], "ok", Append(acc[3], IF i = nb THEN Tail_(s[2], n - DHL * (nb - 1)) ELSE s[2])>>,
                 <<o, "ok", <<>>>>, [i \in 1..nb |-> i])
    IN <<r[1], r[2], TLCEval(FlattenB(r[3]))>>
GRandom(o, n) == IF GZero(o) THEN <<o, "zero", <<>>>> ELSE GBlocks(o, n)
============================================================================

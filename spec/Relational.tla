----------------------------- MODULE Relational -----------------------------
(* Properties that relate results of the real code to each other.  The primitives are left      *)
(* uninterpreted: what a trace shows of a function is remembered in "known", and a second        *)
(* observation that contradicts the first is a violation.  A trace is cut into scenarios; heap    *)
(* and known start empty in each.                                                                *)
EXTENDS Objects, FiniteSets, Json, IOUtils

RStart == [heap |-> <<>>, known |-> <<>>]
\* Observation of an uninterpreted function at a key: <<known', consistent>>.
See(known, key, val) ==
    IF key \in DOMAIN known THEN <<known, known[key] = val>> ELSE <<TLCEval((key :> val) @@ known), TRUE>>
RPut(s, id, o) == [s EXCEPT !.heap = Put(s.heap, id, o)]
RForget(s, ev) == IF "id" \in DOMAIN ev /\ ev.id \in DOMAIN s.heap THEN [s EXCEPT !.heap = Drop1(s.heap, ev.id)] ELSE s
UnHexDigit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 16
IsHex(t) == Len(t) % 2 = 0 /\ \A j \in 1..Len(t) : UnHexDigit(t[j]) < 16
UnHex(t) == TLCEval([j \in 1..(Len(t) \div 2) |-> 16 * UnHexDigit(t[2 * j - 1]) + UnHexDigit(t[2 * j])])
\* A result with the types of byte objects left out.
NormOut(out) == IF out.t = "bytes" THEN [t |-> "bytes", v |-> out.v] ELSE out
NormVal(v) == IF DOMAIN v # {} /\ "t" \in DOMAIN v /\ IsB(v) THEN [t |-> "bytes", v |-> Val(v)] ELSE v
BytesOf(out, hex) == IF hex THEN (IF out.t = "str" /\ IsHex(out.v) THEN <<UnHex(out.v)>> ELSE <<>>)
                     ELSE (IF out.t = "bytes" THEN <<out.v>> ELSE <<>>)
Missing(s, ev) == ev.id \notin DOMAIN s.heap \/ ev.out.t = "noobj"
----------------------------------------------------------------------------
\* C02 (and the same for HMAC, MAC): an object stands for the concatenation of its data.
\* Object: [c |-> what it was made of, d |-> data].
IncNew(ev) ==
    [c |-> CASE ev.op = "h.new" -> <<"hash", ev.name>>
             [] ev.op = "m.new" -> <<"hmac", ev.name, KPad(Val(ev.key))>>
             [] ev.op = "c.new" -> <<"mac", ev.alg, Val(ev.key)>>,
     d |-> IF Has(ev, "data") THEN Val(ev.data) ELSE <<>>]
\* A digest (or hexdigest) of n leading bytes of the value at <<c, d>>; n = 0: all of it.
IncSee(s, o, ev, hex) ==
    LET b == BytesOf(ev.out, hex)
        n == Get(ev, "n", 0)
    IN IF b = <<>> THEN <<s, "digest of the data so far: " \o Describe(ev.out)>>
       ELSE LET r == See(s.known, <<o.c, o.d, n>>, b[1])
            IN <<[s EXCEPT !.known = r[1]], IF r[2] THEN "ok" ELSE "digest differs from another digest of the same data">>
StepInc(s, ev) ==
    IF ev.op \in {"h.new", "m.new", "c.new"}
    THEN IF ev.out.t = "obj" THEN <<RPut(s, ev.id, IncNew(ev)), "ok">> ELSE <<s, "object is created: " \o Describe(ev.out)>>
    ELSE IF ev.op = "free" THEN <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
    ELSE IF Missing(s, ev) THEN <<s, "skip">>
    ELSE LET o == s.heap[ev.id]
         IN CASE ev.op \in {"h.update", "m.update", "c.update"} ->
                    IF ~IsB(ev.data) THEN <<s, IF ev.out.t = "err" THEN "ok" ELSE "bad data is refused: " \o Describe(ev.out)>>
                    ELSE <<RPut(s, ev.id, [o EXCEPT !.d = TLCEval(o.d \o Val(ev.data))]), V(NoneIs(ev.out), "update", ev.out)>>
              [] ev.op \in {"h.digest", "m.digest", "c.digest"} -> IncSee(s, o, ev, FALSE)
              [] ev.op \in {"h.hexdigest", "m.hexdigest", "c.hexdigest"} -> IncSee(s, o, ev, TRUE)
              [] ev.op \in {"h.reset", "m.reset"} -> <<RPut(s, ev.id, [o EXCEPT !.d = <<>>]), V(NoneIs(ev.out), "reset", ev.out)>>
              [] ev.op \in {"h.copy", "m.copy"} ->
                    IF ev.out.t = "obj" THEN <<RPut(s, ev.to, o), "ok">> ELSE <<s, "copy: " \o Describe(ev.out)>>
              [] OTHER -> <<s, "ok">>
----------------------------------------------------------------------------
\* C16: errors for invalid arguments; refused updates of hashes and HMACs change nothing.
\* Correct calls are followed but not judged.
StepErr(s, ev) ==
    IF ev.op = "free" THEN <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
    ELSE IF IsNew(ev)
    THEN LET fs == Faults(<<>>, ev)
         IN IF fs # {} THEN <<s, V(OutErrIn(ev.out, fs), "invalid argument raises the documented error", ev.out)>>
            ELSE IF ev.out.t # "obj" THEN <<s, "skip">>
            ELSE <<RPut(s, ev.id, NewObj(ev) @@ [inc |-> IF ev.op \in {"h.new", "m.new"} THEN IncNew(ev) ELSE <<>>]), "ok">>
    ELSE IF Missing(s, ev) THEN <<s, "skip">>
    ELSE LET o == s.heap[ev.id]
             fs == Faults(o, ev)
         IN IF fs # {}
            THEN <<IF ev.op \in {"h.update", "m.update"} THEN s ELSE RPut(s, ev.id, Refused(o, ev)),
                   V(OutErrIn(ev.out, fs), "invalid argument raises the documented error", ev.out)>>
            ELSE CASE ev.op \in {"h.update", "m.update"} -> <<RPut(s, ev.id, [o EXCEPT !.inc.d = TLCEval(@ \o Val(ev.data))]), "ok">>
                   [] ev.op \in {"h.digest", "m.digest"} -> IncSee(s, o.inc, ev, FALSE)
                   [] ev.op \in {"o.octet"} ->
                        <<s, IF ValidOid(o.t) THEN "skip" ELSE V(OutErrIn(ev.out, OidErrs), "invalid text raises the documented error", ev.out)>>
                   [] ev.op \in {"o.digit"} ->
                        <<s, IF Numeric(o.t) THEN "skip" ELSE V(OutErrIn(ev.out, OidErrs), "invalid text raises the documented error", ev.out)>>
                   [] ev.op = "s.sign" /\ Has(ev, "expectfault") ->
                        <<s, V(OutErrIn(ev.out, SE("invalid random value")), "random value that gives no signature is refused", ev.out)>>
                   [] ev.op = "r.random" /\ o.st # <<>> ->
                        LET r == GRandom(o.st[1], o.n)
                        IN <<RPut(s, ev.id, [o EXCEPT !.st = <<r[1]>>, !.dead = r[2] # "ok"]),
                             IF o.dead THEN V(o.n = 0 \/ (ev.out.t = "err" /\ ev.out.cls = "GOSTRandomError"), "no output after exhaustion", ev.out)
                             ELSE CASE r[2] = "ok" -> "skip"
                               [] r[2] = "zero" -> V(OutErrIn(ev.out, RE("the seed value is zero")), "zero seed is refused", ev.out)
                               [] r[2] = "limit" -> V(OutErrIn(ev.out, RE("exceeded the limit value of the counter")), "exhausted generator is refused", ev.out)>>
                   [] ev.op \in {"r.clear", "r.reset"} -> <<RPut(s, ev.id, Calls(o, ev)[1]), "ok">>
                   [] OTHER -> <<s, "skip">>
----------------------------------------------------------------------------
\* C05, C06, C07: cipher objects as functions of the data they have been given.
\* Object: ctor |-> parameters, dir |-> "enc" / "dec" / "" (not used yet) / "both",
\* i / o |-> input and output so far, rag |-> a ragged piece has been processed,
\* nb |-> number of gamma blocks consumed, pieces |-> sequence of <<gamma piece>> per block.
StrBS(o) == BSize(o.ctor.alg)
StreamMode(o) == o.ctor.mode \in {"cfb", "ofb", "ctr"}
StrNew(ev) ==
    [ctor |-> [alg |-> ev.alg, key |-> Val(ev.key), mode |-> ev.mode, pad |-> Get(ev, "pad", 1),
               iv |-> IF ev.mode = "ecb" THEN <<>> ELSE IF Has(ev, "iv") THEN Val(ev.iv) ELSE DefaultIv(ev.alg, ev.mode)],
     dir |-> "", i |-> <<>>, o |-> <<>>, rag |-> FALSE, nb |-> 0, gam |-> {}, part |-> {}, rest |-> {}]
\* Number of leading bytes on which outputs for inputs a and b must agree.
\* (by bisection: the first lo elements agree, the first hi do not)
RECURSIVE CommonR(_, _, _, _)
CommonR(a, b, lo, hi) ==
    IF hi = lo + 1 THEN lo
    ELSE LET m == (lo + hi) \div 2 IN IF SubSeq(a, 1, m) = SubSeq(b, 1, m) THEN CommonR(a, b, m, hi) ELSE CommonR(a, b, lo, m)
Common(a, b) == LET n == Min2(Len(a), Len(b)) IN IF SubSeq(a, 1, n) = SubSeq(b, 1, n) THEN n ELSE CommonR(a, b, 0, n)
Whole(n, bs) == (n \div bs) * bs
Agree(o, x1, y1, x2, y2) ==
    IF x1 = x2 THEN y1 = y2
    ELSE LET c == Common(x1, x2)
             l == IF StreamMode(o) THEN c ELSE Whole(c, StrBS(o))
         IN SubSeq(y1, 1, Min2(l, Len(y1))) = SubSeq(y2, 1, Min2(l, Len(y2)))
            /\ Len(y1) >= l /\ Len(y2) >= l
StrRun(s, ev, dir) ==
    LET o == s.heap[ev.id]
        bs == StrBS(o)
        d == Val(ev.data)
        y == ev.out.v
        \* ECB and CBC with padding 2 pad every piece: only a first piece is comparable.
        piecewise == dir = "dec" \/ StreamMode(o) \/ o.ctor.pad = 1
        pure == o.dir \in {"", dir} /\ ~o.rag /\ (piecewise \/ o.i = <<>>)
        o1 == [o EXCEPT !.dir = IF o.dir \in {"", dir} THEN dir ELSE "both",
                        !.i = TLCEval(o.i \o d), !.o = TLCEval(o.o \o y),
                        !.rag = o.rag \/ Len(d) % bs # 0 \/ ~piecewise,
                        !.nb = o.nb + NumBlocks(d, bs)]
        key == <<o.ctor, dir>>
        kn == IF key \in DOMAIN s.known THEN s.known[key] ELSE <<>>
        \* Remember every observed run of this construction that is not a prefix of another.
        kn1 == IF pure THEN <<<<o1.i, o1.o>>>> \o SelectSeq(kn, LAMBDA e : ~(Len(e[1]) < Len(o1.i) /\ e[1] = Take(o1.i, Len(e[1])))) ELSE kn
        agree == ~pure \/ \A j \in 1..Len(kn) : Agree(o, o1.i, o1.o, kn[j][1], kn[j][2])
        expLen == IF StreamMode(o) THEN Len(d)
                  ELSE IF dir = "dec" THEN Whole(Len(d), bs)
                  ELSE IF o.ctor.pad = 1 THEN Len(d) + ((bs - (Len(d) % bs)) % bs)
                  ELSE Len(y)
    IN IF ev.out.t # "bytes" THEN <<s, dir \o ": " \o Describe(ev.out)>>
       ELSE <<[heap |-> Put(s.heap, ev.id, o1), known |-> IF key \in DOMAIN s.known THEN [s.known EXCEPT ![key] = kn1] ELSE (key :> kn1) @@ s.known],
              IF Len(y) # expLen THEN "output has the right length"
              ELSE IF agree THEN "ok" ELSE "pieces give what one call gives">>
StrIv(o) ==     \* expected iv, or <<>> when nothing is claimed
    LET bs == StrBS(o)
        n == Len(o.i)
        c == IF o.dir = "dec" THEN o.i ELSE o.o
    IN IF o.rag \/ o.dir = "both" THEN <<>>
       ELSE IF n = 0 /\ o.o = <<>> THEN Tail_(o.ctor.iv, bs)
       ELSE IF o.ctor.mode = "ofb" THEN XorSeq(Tail_(o.i, bs), Tail_(o.o, bs))
       ELSE Tail_(c, bs)
StrNewSt(s, ev) == IF ev.out.t = "obj" THEN <<RPut(s, ev.id, StrNew(ev)), "ok">> ELSE <<s, "object is created: " \o Describe(ev.out)>>
StepStream(s, ev) ==
    CASE ev.op = "c.new" -> StrNewSt(s, ev)
      [] ev.op = "free" -> <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
      [] ev.op = "check.rt" ->
            IF ev.enc \notin DOMAIN s.heap \/ ev.dec \notin DOMAIN s.heap THEN <<s, "skip">>
            ELSE LET e == s.heap[ev.enc]
                     d == s.heap[ev.dec]
                     pad == Drop(d.o, Len(e.i))
                 IN IF d.i # e.o \/ d.ctor # e.ctor THEN <<s, "driver: no round trip">>
                    ELSE <<s, IF /\ Len(d.o) >= Len(e.i) /\ Take(d.o, Len(e.i)) = e.i
                                 /\ IF StreamMode(e) THEN pad = <<>>
                                    ELSE IF e.ctor.pad = 1 THEN IsZero(pad) /\ Len(pad) < StrBS(e)
                                    ELSE pad # <<>> /\ pad[1] = 128 /\ IsZero(Tail(pad)) /\ Len(pad) <= 2 * StrBS(e)
                              THEN "ok" ELSE "decryption recovers the plaintext">>
      [] OTHER ->
            IF Missing(s, ev) THEN <<s, "skip">>
            ELSE CASE ev.op = "c.enc" -> StrRun(s, ev, "enc")
                   [] ev.op = "c.dec" -> StrRun(s, ev, "dec")
                   [] ev.op = "c.iv" -> LET e == StrIv(s.heap[ev.id])
                                        IN <<s, V(e = <<>> \/ (ev.out.t = "bytes" /\ ev.out.v = e), "iv is the block last shifted into the register", ev.out)>>
                   [] ev.op = "c.counter" ->
                        LET o == s.heap[ev.id]
                        IN <<s, V(ev.out.t = "bytes" /\ ev.out.v = AddBE(o.ctor.iv \o Zeros(StrBS(o) \div 2), o.nb),
                                  "counter is the initial counter plus the gamma blocks consumed", ev.out)>>
                   [] OTHER -> <<s, "ok">>
\* C07.  Gamma pieces applied by an object must be pairwise distinct, and the unused rest of the
\* gamma of a ragged piece must not be applied either.  The whole gamma block behind a ragged
\* piece is shown by another object of the scenario that was given the same data and more
\* ("ref": the reference run in st.known, longest first).  Pieces shorter than MinG bytes say nothing.
MinG == 6
GamPieces(o, d, y) ==
    LET bs == StrBS(o)
        g == XorSeq(d, y)
    IN [j \in 1..NumBlocks(d, bs) |-> TLCEval(Block(g, bs, j))]
\* Prefixes of two pieces coincide on at least MinG bytes.
Reused(a, b) == LET n == Min2(Len(a), Len(b)) IN n >= MinG /\ Take(a, n) = Take(b, n)
RefGamma(s, o, dir, i1) ==  \* gamma bytes of the reference run behind the input i1, up to the block end
    LET key == <<"ref", dir, o.ctor>>
        r == IF key \in DOMAIN s.known THEN SelectSeq(s.known[key], LAMBDA e : Len(e[1]) > Len(i1) /\ Take(e[1], Len(i1)) = i1) ELSE <<>>
        bs == StrBS(o)
        to == ((Len(i1) + bs - 1) \div bs) * bs
    IN IF r = <<>> THEN <<>> ELSE SubSeq(XorSeq(r[1][1], r[1][2]), Len(i1) + 1, Min2(to, Len(r[1][1])))
GamRun(s, ev, dir) ==
    LET o == s.heap[ev.id]
        bs == StrBS(o)
        d == Val(ev.data)
        y == ev.out.v
        ps == TLCEval(GamPieces(o, d, y))
        full == {ps[j] : j \in {k \in 1..Len(ps) : Len(ps[k]) = bs}}
        nfull == Len(d) \div bs
        prt == {ps[j] : j \in {k \in 1..Len(ps) : Len(ps[k]) < bs}}
        i1 == TLCEval(o.i \o d)
        first == o.i = <<>>
        rest == IF Len(d) % bs # 0 /\ first THEN {RefGamma(s, o, dir, i1)} ELSE {}
        dup == \/ Cardinality(full) # nfull
               \/ full \cap o.gam # {}
               \/ \E a \in prt, b \in o.gam \cup o.part \cup full : Reused(a, b)
               \/ \E a \in full, b \in o.part : Reused(a, b)
               \/ \E a \in o.rest, b \in full \cup prt : Reused(a, b)
        o1 == [o EXCEPT !.i = i1, !.gam = TLCEval(full \cup o.gam), !.part = prt \cup o.part, !.rest = rest \cup o.rest]
        key == <<"ref", dir, o.ctor>>
        kn == IF first THEN TLCEval((key :> ((IF key \in DOMAIN s.known THEN s.known[key] ELSE <<>>) \o <<<<d, y>>>>)) @@ s.known) ELSE s.known
    IN IF ev.out.t # "bytes" \/ Len(y) # Len(d) THEN <<s, dir \o ": " \o Describe(ev.out)>>
       ELSE <<[heap |-> Put(s.heap, ev.id, o1), known |-> IF Len(d) > 4096 THEN s.known ELSE kn],
              IF dup THEN "gamma is not applied twice" ELSE "ok">>
StepGamma(s, ev) ==
    CASE ev.op = "c.new" -> StrNewSt(s, ev)
      [] ev.op = "free" -> <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
      [] OTHER -> IF Missing(s, ev) THEN <<s, "skip">>
                  ELSE CASE ev.op = "c.enc" -> GamRun(s, ev, "enc")
                         [] ev.op = "c.dec" -> GamRun(s, ev, "dec")
                         [] ev.op = "c.counter" ->      \* counter blocks shown between calls are distinct unless nothing was consumed
                              LET o == s.heap[ev.id]
                                  r == See(s.known, <<"ctr", ToString(ev.id), ev.out>>, Len(o.i))
                              IN <<[s EXCEPT !.known = r[1]], IF r[2] THEN "ok" ELSE "counter does not repeat">>
                         [] OTHER -> <<s, "ok">>
----------------------------------------------------------------------------
\* C17: the result of a call is a function of the object's own history (constructor arguments
\* and calls, without the types of byte objects); no argument is modified.
IsoArgs(ev) == [f \in DOMAIN ev \ {"id", "to", "out", "op", "argsok", "proc"} |->
                  IF f \in {"data", "key", "iv", "password", "salt", "seed", "digest", "k", "pub", "sig"} THEN NormVal(ev[f]) ELSE ev[f]]
IsoCall(ev) == <<ev.op, IsoArgs(ev)>>
IsoOut(out) == NormOut(out)
ArgV(ev, v) == IF ~Get(ev, "argsok", TRUE) THEN "a buffer passed to the call was modified" ELSE v
StepIso(s, ev) ==
    IF ev.op = "free" THEN <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
    ELSE IF ~IsNew(ev) /\ Missing(s, ev) THEN <<s, "skip">>
    ELSE LET h0 == IF IsNew(ev) THEN <<>> ELSE s.heap[ev.id]
             h1 == TLCEval(Append(h0, IsoCall(ev)))
             r == See(s.known, h1, IsoOut(ev.out))
             s1 == [heap |-> Put(s.heap, ev.id, h1), known |-> r[1]]
             s2 == IF ev.op \in {"h.copy", "m.copy"} THEN RPut(s1, ev.to, h1) ELSE s1
         IN <<s2, ArgV(ev, IF r[2] THEN "ok" ELSE "same calls on another object gave another result")>>
----------------------------------------------------------------------------
\* C22: a call that is refused because of its arguments leaves everything as it was.  Objects of which
\* no call was refused show what a history gives; an object with refused calls must agree with them on
\* the history without these.  A cipher or MAC object may also have cleared itself when it refused data:
\* cs is the set of histories that explain the object so far (MC_Refuse).  ev.bad: the arguments are invalid.
RefClr(h) == IF h[Len(h)] = <<"c.clear">> THEN h ELSE Append(h, <<"c.clear">>)
RefCall(ev) == IF ev.op = "c.clear" THEN <<"c.clear">> ELSE IsoCall(ev)
RefApp(h, c) == IF c = <<"c.clear">> THEN RefClr(h) ELSE Append(h, c)
StepRef(s, ev) ==
    IF ev.op = "free" THEN <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
    ELSE IF IsNew(ev)
    THEN <<IF ev.out.t = "obj" THEN RPut(s, ev.id, [cs |-> {<<IsoCall(ev)>>}, pure |-> TRUE]) ELSE s,
           ArgV(ev, IF ev.out.t = "obj" \/ Has(ev, "bad") THEN "ok" ELSE "a correct constructor call is refused")>>
    ELSE IF Missing(s, ev) THEN <<s, "skip">>
    ELSE LET o == s.heap[ev.id]
             c == RefCall(ev)
             err == ev.out.t = "err"
             val == IsoOut(ev.out)
             next(H) == IF err THEN H ELSE {RefApp(h, c) : h \in H}
         IN IF Has(ev, "bad")
            THEN IF ~err THEN <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "skip">>
                 ELSE <<RPut(s, ev.id, [cs |-> TLCEval(o.cs \cup (IF ev.op \in {"c.enc", "c.dec", "c.update"} THEN {RefClr(h) : h \in o.cs} ELSE {})),
                                        pure |-> FALSE]), ArgV(ev, "ok")>>
            ELSE IF o.pure
            THEN LET h == CHOOSE x \in o.cs : TRUE
                     r == See(s.known, <<h, c>>, val)
                     s1 == [heap |-> Put(s.heap, ev.id, [o EXCEPT !.cs = TLCEval(next({h}))]), known |-> r[1]]
                 IN <<IF ev.op \in {"h.copy", "m.copy"} THEN RPut(s1, ev.to, [o EXCEPT !.cs = TLCEval(next({h}))]) ELSE s1,
                      ArgV(ev, IF r[2] THEN "ok" ELSE "same calls on another object gave another result")>>
            ELSE LET H == {h \in o.cs : <<h, c>> \notin DOMAIN s.known \/ s.known[<<h, c>>] = val}
                     o1 == [o EXCEPT !.cs = TLCEval(next(H))]
                     s1 == RPut(s, ev.id, o1)
                 IN <<IF ev.op \in {"h.copy", "m.copy"} THEN RPut(s1, ev.to, o1) ELSE s1,
                      ArgV(ev, IF H = {} THEN "a refused call changed a later result"
                               ELSE IF \E h \in H : <<h, c>> \in DOMAIN s.known THEN "ok" ELSE "skip")>>
----------------------------------------------------------------------------
\* C18: after clear() results are a function of the history without the secret.  An object of
\* role "live" has the same constructor arguments and calls as a cleared one of the same secret but
\* is not cleared: results of at least 8 bytes must differ from it.
\* hist: calls without the secret; outputs of calls before clear() that are kept in the register
\* (CBC, CFB and OFB encryption) are part of it, as they have been returned.
SecretArgs == {"key", "password", "seed"}
PubArgs(ev) == [f \in DOMAIN ev \ ({"id", "to", "out", "op", "argsok", "role", "cmp"} \cup (IF IsNew(ev) \/ ev.op = "r.reset" THEN SecretArgs ELSE {})) |->
                  IF f \in {"data", "iv", "salt"} THEN NormVal(ev[f]) ELSE ev[f]]
ClrLeaky(o, ev) == ev.op \in {"c.enc", "c.dec"} /\ o.mode \in {"cbc", "cfb", "ofb"}
StepClear(s, ev) ==
    IF ev.op = "free" THEN <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
    ELSE IF IsNew(ev)
    THEN <<IF ev.out.t = "obj"
           THEN RPut(s, ev.id, [h |-> <<<<ev.op, PubArgs(ev)>>>>, c |-> FALSE, role |-> ev.role, mode |-> Get(ev, "mode", "")]) ELSE s, "ok">>
    ELSE IF Missing(s, ev) THEN <<s, "skip">>
    ELSE LET o == s.heap[ev.id]
             clr == ev.op \in {"c.clear", "b.clear", "m.clear", "p.clear", "r.clear"}
             h1 == TLCEval(Append(o.h, <<ev.op, PubArgs(ev)>> \o (IF ClrLeaky(o, ev) /\ ~o.c /\ ~(ev.op = "c.dec" /\ o.mode # "ofb") THEN <<ev.out>> ELSE <<>>)))
             o1 == [o EXCEPT !.h = h1, !.c = o.c \/ clr]
             reseed == ev.op = "r.reset"
         IN IF clr THEN <<RPut(s, ev.id, [o1 EXCEPT !.h = IF o.c THEN o.h ELSE h1]), V(NoneIs(ev.out), "clear raises no error", ev.out)>>
            ELSE IF o.role = "live"
            THEN <<[heap |-> Put(s.heap, ev.id, o1), known |-> TLCEval((<<"live", ev.cmp>> :> NormOut(ev.out)) @@ s.known)], "ok">>
            ELSE IF ~o.c \/ reseed THEN <<RPut(s, ev.id, [o1 EXCEPT !.c = @ /\ ~reseed]), "ok">>
            ELSE LET r == See(s.known, <<"cleared", [j \in 1..Len(h1) |-> h1[j]]>>, NormOut(ev.out))
                     lk == <<"live", Get(ev, "cmp", "")>>
                     same == /\ lk \in DOMAIN s.known /\ s.known[lk] = NormOut(ev.out)
                             /\ ev.op \notin {"p.salt", "c.iv", "c.counter"}
                             /\ ev.out.t \in {"bytes", "str"} /\ Len(ev.out.v) >= 8
                 IN <<[heap |-> Put(s.heap, ev.id, o1), known |-> r[1]],
                      IF same THEN "result after clear is that of the uncleared secret"
                      ELSE IF r[2] THEN "ok" ELSE "result after clear depends on the secret">>
----------------------------------------------------------------------------
\* C20.  ev.draws: what the system source delivered during the call.
\* st.known: "seen" -> set of values generated so far, and the bits seen set / clear.
Seen(s, k) == IF k \in DOMAIN s.known THEN s.known[k] ELSE {}
AddSeen(s, k, x) == [s EXCEPT !.known = TLCEval((k :> (Seen(s, k) \cup {x})) @@ s.known)]
Chunks(b) == {SubSeq(b, 8 * j - 7, 8 * j) : j \in 1..(Len(b) \div 8)}
\* A generated byte string: new, and no 8-byte chunk of it used before or twice.
Fresh(s, k, b) == b \notin Seen(s, <<k, "">>) /\ Cardinality(Chunks(b)) = Len(b) \div 8 /\ Chunks(b) \cap Seen(s, <<k, "chunks">>) = {}
AddFresh(s, k, b) == LET s1 == AddSeen(s, <<k, "">>, b)
                     IN [s1 EXCEPT !.known = TLCEval((<<k, "chunks">> :> (Seen(s, <<k, "chunks">>) \cup Chunks(b))) @@ s1.known)]
\* Every bit from the given number of leading bits on has been seen clear and set.
BitsVary(S, n, top) == \A j \in 1..n, b \in 0..7 : (j = 1 /\ b >= top) \/
    (/\ \E x \in S : (x[j] \div (2 ^ b)) % 2 = 0
     /\ \E x \in S : (x[j] \div (2 ^ b)) % 2 = 1)
\* A value of n bytes taken from the source: one draw, or all draws put together.
FromSource(draws, v) == v = FlattenB(draws) \/ \E j \in 1..Len(draws) : draws[j] = v
\* Values recorded in another process (ext) are checked for freshness only.
Ext(ev) == Has(ev, "ext")
\* Nonces by rejection (MC_Rng: uniform): the first value of the source that gives a signature,
\* where a value is a draw, its top bits (as many as q has), or these plus one.
NHalf(n) == TLCEval(NNorm([j \in 1..Len(n) |-> (n[j] \div 2) + (IF j > 1 THEN 128 * (n[j - 1] % 2) ELSE 0)]))
TopBits(d, n) == FoldLeft(LAMBDA a, j : NHalf(a), NNorm(d), [j \in 1..(8 * Len(d) - n) |-> j])
NonceOfDraws(o, ev, f(_)) ==
    LET usable == SelectSeq(ev.draws, LAMBDA d : LET k == f(d) IN
                      k # <<>> /\ NLt(k, o.c.q) /\ SignK(o.c, Val(ev.key), Val(ev.digest), k) # <<>>)
    IN IF usable = <<>> THEN <<>> ELSE f(usable[1])
FirstUsable(o, ev, k) ==
    LET n == NBits(o.c.q)
        lv(d) == IF Len(d) = o.c.size THEN NNorm(d) ELSE <<>>
        lt(d) == IF Len(d) = (n + 7) \div 8 THEN TopBits(d, n) ELSE <<>>
        lp(d) == IF Len(d) = (n + 7) \div 8 THEN NAdd(TopBits(d, n), NOne) ELSE <<>>
    IN NonceOfDraws(o, ev, lv) = k \/ NonceOfDraws(o, ev, lt) = k \/ NonceOfDraws(o, ev, lp) = k
FreshSign(s, o, ev) ==
    IF ev.out.t # "bytes" \/ Len(ev.out.v) # 2 * o.c.size THEN <<s, "signature: " \o Describe(ev.out)>>
    ELSE LET k == NonceOf(o.c, Val(ev.key), Val(ev.digest), ev.out.v)
             okk == k # <<>> /\ SignK(o.c, Val(ev.key), Val(ev.digest), k) = ev.out.v
             kb == NFix(k, o.c.size)
             fs == IF Has(ev, "scripted") THEN TRUE ELSE Fresh(s, "nonce", kb)
         IN IF ~okk THEN <<s, "nonce is between 1 and q - 1">>
            ELSE <<IF Has(ev, "scripted") THEN s ELSE AddFresh(AddSeen(s, <<"bits", ToString(o.c.size)>>, kb), "nonce", kb),
                   IF ~fs THEN "nonces do not coincide"
                   ELSE IF ~Ext(ev) /\ ~FirstUsable(o, ev, k) THEN "nonce is the first usable full-size value of the system source"
                   ELSE "ok">>
StepFresh(s, ev) ==
    CASE ev.op = "free" -> <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
      [] ev.op = "check.bits" -> <<s, IF BitsVary(Seen(s, <<ev.set, "">>), ev.n, 8) THEN "ok" ELSE "every bit of the generated values varies">>
      [] ev.op = "check.nonces" ->
            <<s, IF BitsVary(Seen(s, <<"bits", ToString(ev.n)>>), ev.n, ev.top) THEN "ok" ELSE "every bit of the nonces varies">>
      [] ev.op = "s.new" -> IF ev.out.t = "obj" THEN <<RPut(s, ev.id, NewObj(ev)), "ok">> ELSE <<s, "object is created: " \o Describe(ev.out)>>
      [] ev.op = "p.new" -> IF ev.out.t = "obj" THEN <<RPut(s, ev.id, [kind |-> "pbkdf", salt |-> <<>>, cand |-> ev.draws]), "ok">>
                            ELSE <<s, "object is created: " \o Describe(ev.out)>>
      [] ev.op = "r.new" ->
            IF ev.out.t # "obj" THEN <<s, "object is created: " \o Describe(ev.out)>>
            ELSE <<RPut(s, ev.id, [NewObj(ev) EXCEPT !.st = <<ev.draws, <<>>>>]), "ok">>
      [] OTHER ->
            IF Missing(s, ev) THEN <<s, "skip">>
            ELSE LET o == s.heap[ev.id]
                 IN CASE ev.op = "s.sign" -> FreshSign(s, o, ev)
                      [] ev.op = "p.salt" ->
                            LET cand == o.cand \o Get(ev, "draws", <<>>)
                            IN IF ev.out.t # "bytes" \/ Len(ev.out.v) # 32 THEN <<s, "salt has 32 bytes: " \o Describe(ev.out)>>
                            ELSE IF o.salt # <<>> THEN <<s, IF o.salt[1] = ev.out.v THEN "ok" ELSE "salt of an object is constant">>
                            ELSE <<AddFresh(AddSeen(RPut(s, ev.id, [o EXCEPT !.salt = <<ev.out.v>>]), <<"saltbits", "">>, ev.out.v), "salt", ev.out.v),
                                   IF ~Fresh(s, "salt", ev.out.v) THEN "salts do not coincide"
                                   ELSE IF ~Ext(ev) /\ ~FromSource(cand, ev.out.v) THEN "salt is a full-size value of the system source"
                                   ELSE "ok">>
                      [] ev.op = "r.reset" ->
                            IF ev.out.t # "none" THEN <<s, "reset: " \o Describe(ev.out)>>
                            ELSE <<RPut(s, ev.id, [o EXCEPT !.st = <<ev.draws, <<>>>>]), "ok">>
                      [] ev.op = "r.random" ->
                            \* st: <<what the source has delivered, generator states that explain the output so far>>
                            LET cand == o.st[1] \o Get(ev, "draws", <<>>)
                                seeds == {b \in {cand[j] : j \in 1..Len(cand)} \cup {FlattenB(cand)} : Len(b) = o.size_s /\ ~IsZero(b)}
                                gens == IF o.st[2] = <<>> THEN {GSeed(b) : b \in seeds} ELSE {o.st[2][1]}
                                right == {g \in gens : GRandom(g, o.n)[3] = ev.out.v}
                            IN IF ev.out.t # "bytes" \/ Len(ev.out.v) # o.n THEN <<s, "output: " \o Describe(ev.out)>>
                               ELSE <<IF right = {} THEN AddFresh(s, "rand", ev.out.v)
                                      ELSE AddFresh(RPut(s, ev.id, [o EXCEPT !.st = <<o.st[1], <<GRandom(CHOOSE g \in right : TRUE, o.n)[1]>>>>]), "rand", ev.out.v),
                                      IF ~Fresh(s, "rand", ev.out.v) THEN "generators made without a seed do not coincide"
                                      ELSE IF ~Ext(ev) /\ right = {} THEN "seed is a fresh full-size value of the system source"
                                      ELSE "ok">>
                      [] OTHER -> <<s, "ok">>
----------------------------------------------------------------------------
\* C21: published attributes, sizes and hexadecimal forms.
\* Object: [at |-> expected attributes, size |-> result size (0: any), cur |-> results at the present state].
IntAttr(n) == "int " \o ToString(n)
AtOf(ev) ==
    CASE ev.op = "h.new" -> [digest_size |-> IntAttr(HashSize(ev.name)), block_size |-> IntAttr(64), name |-> "str " \o ev.name, size |-> HashSize(ev.name),
                             oid |-> IF ev.name = "streebog256" THEN "1.2.643.7.1.1.2.2" ELSE "1.2.643.7.1.1.2.3"]
      [] ev.op = "m.new" -> [digest_size |-> IntAttr(HashSize(ev.name)), block_size |-> IntAttr(64), name |-> "str " \o ev.name, size |-> HashSize(ev.name),
                             oid |-> IF HashSize(ev.name) = 32 THEN "1.2.643.7.1.1.4.1" ELSE "1.2.643.7.1.1.4.2"]
      [] ev.op \in {"c.new", "b.new"} -> [block_size |-> IntAttr(BSize(ev.alg)), key_size |-> IntAttr(32), size |-> BSize(ev.alg),
                             oid |-> IF ev.alg = "kuznechik" THEN "1.2.643.7.1.1.5.2" ELSE "1.2.643.7.1.1.5.1"]
      [] ev.op = "s.new" -> [oid |-> IF ev.mode = 1 THEN "1.2.643.7.1.1.1.1" ELSE "1.2.643.7.1.1.1.2"]
      [] OTHER -> [none |-> 0]
AttrOk(o, ev) ==
    LET e == o.at[ev.attr]
    IN IF ev.attr = "oid"
       THEN ev.out.t = "oid" /\ ev.out.s = e /\ ev.out.name = NameOf(e) /\ ev.out.digit = Components(ev.out.text) /\ ev.out.octet = DerOid(Components(ev.out.text))
       ELSE ev.out.t = "attr" /\ ev.out.s = e
AttrResult(s, o, ev, n, hex) ==
    LET b == BytesOf(ev.out, hex)
        key == IF Has(ev, "n") THEN ev.n ELSE 0
    IN IF b = <<>> THEN <<s, "result of " \o ev.op \o ": " \o Describe(ev.out)>>
       ELSE LET r == See(o.cur, key, b[1])
            IN <<RPut(s, ev.id, [o EXCEPT !.cur = r[1]]),
                 IF Len(b[1]) # n THEN "result has the published size"
                 ELSE IF r[2] THEN "ok" ELSE "hexadecimal form is that of the binary result">>
StepAttr(s, ev) ==
    IF ev.op = "free" THEN <<[s EXCEPT !.heap = Drop1(s.heap, ev.id)], "ok">>
    ELSE IF IsNew(ev)
    THEN IF ev.out.t # "obj" THEN <<s, "object is created: " \o Describe(ev.out)>>
         ELSE <<RPut(s, ev.id, [at |-> AtOf(ev), cur |-> <<>>, op |-> ev.op, n |-> Get(ev, "rand_size", 0),
                               sz |-> IF ev.op = "s.new" THEN 32 * ev.mode ELSE 0]), "ok">>
    ELSE IF Missing(s, ev) THEN <<s, "skip">>
    ELSE LET o == s.heap[ev.id]
         IN CASE ev.op = "attr" -> <<s, V(AttrOk(o, ev), "attribute " \o ev.attr \o " is that of the algorithm", ev.out)>>
              [] ev.op \in {"h.digest", "m.digest"} -> AttrResult(s, o, ev, o.at.size, FALSE)
              [] ev.op \in {"h.hexdigest", "m.hexdigest"} -> AttrResult(s, o, ev, o.at.size, TRUE)
              [] ev.op = "c.digest" -> AttrResult(s, o, ev, ev.n, FALSE)
              [] ev.op = "c.hexdigest" -> AttrResult(s, o, ev, ev.n, TRUE)
              [] ev.op = "p.derive" -> AttrResult(s, o, ev, ev.n, FALSE)
              [] ev.op = "p.hexderive" -> AttrResult(s, o, ev, ev.n, TRUE)
              [] ev.op = "r.random" -> <<s, V(ev.out.t = "bytes" /\ Len(ev.out.v) = o.n, "output has the requested size", ev.out)>>
              [] ev.op = "s.sign" -> <<s, V(ev.out.t = "bytes" /\ Len(ev.out.v) = 2 * o.sz, "signature has the published size", ev.out)>>
              [] ev.op = "s.pub" -> <<s, V(ev.out.t = "bytes" /\ Len(ev.out.v) = 2 * o.sz, "public key has the published size", ev.out)>>
              [] ev.op \in {"b.enc", "b.dec"} -> <<s, V(ev.out.t = "bytes" /\ Len(ev.out.v) = o.at.size, "block has the published size", ev.out)>>
              [] ev.op \in {"h.copy", "m.copy"} ->
                    IF ev.out.t = "obj" THEN <<RPut(s, ev.to, o), "ok">> ELSE <<s, "copy: " \o Describe(ev.out)>>
              [] ev.op \in {"h.update", "h.reset", "m.update", "m.reset", "m.clear", "c.update", "c.clear", "p.clear"} ->
                    <<RPut(s, ev.id, [o EXCEPT !.cur = <<>>]), "ok">>
              [] OTHER -> <<s, "ok">>
----------------------------------------------------------------------------
VARIABLES i, st, nbad, nknown
Kind == IOEnv.KIND
StepRel(s, ev) ==
    CASE Kind = "inc" -> StepInc(s, ev)
      [] Kind = "err" -> StepErr(s, ev)
      [] Kind = "stream" -> StepStream(s, ev)
      [] Kind = "gamma" -> StepGamma(s, ev)
      [] Kind = "iso" -> StepIso(s, ev)
      [] Kind = "clear" -> StepClear(s, ev)
      [] Kind = "fresh" -> StepFresh(s, ev)
      [] Kind = "attr" -> StepAttr(s, ev)
      [] Kind = "refuse" -> StepRef(s, ev)
\* A constant of the root module: read once.
TheTrace == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceRun WITH Trace <- TheTrace, Step <- StepRel, Start <- RStart, Forget <- RForget
============================================================================

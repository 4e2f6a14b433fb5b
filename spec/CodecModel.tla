----------------------------- MODULE CodecModel -----------------------------
(***************************************************************************)
(* All values of small schemas, encoded, decoded again, and decoded after  *)
(* being cut short, by the machine of Codec.  The stages of a run are      *)
(*   "pick"   the schema, the type, the value and the start position are   *)
(*            chosen; the value is printed, so that the real code can do    *)
(*            the same with it                                              *)
(*   "enc"    the value is encoded                                          *)
(*   "dec"    what was written is decoded                                   *)
(*   "cut"    what was written is decoded without its last bytes            *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

VARIABLES stage, M, val, bits, start
vars == <<mvars, stage, M, val, bits, start>>

-----------------------------------------------------------------------------
(* All values of a type, with a few representatives of the larger ones *)

WordsOf(w) == {FromInt(i) : i \in 0..(Pow2(w) - 1)}
AllOnes(w) == FromBits([i \in 1..64 |-> IF i > 64 - w THEN 1 ELSE 0])
TopBit(w) == FromBits([i \in 1..64 |-> IF i = 65 - w THEN 1 ELSE 0])
PrimVals(b) ==
    CASE b.k = "uint" -> (IF b.w <= 2 THEN WordsOf(b.w) ELSE {Zero, One, AllOnes(b.w), TopBit(b.w)})
      [] b.k = "int" -> {Zero, SubW(Zero, One), AllOnes(b.w - 1), SubW(Zero, TopBit(b.w))}
      [] b.k = "varu" -> {Zero, FromInt(127), FromInt(128)} \cup (IF b.n = 2 THEN {FromInt(32767)} ELSE {FromInt(16384)})
      [] b.k = "vars" -> {Zero, FromInt(63), FromInt(64), SubW(Zero, FromInt(64))}
      [] b.k = "size" -> {Zero, FromInt(128)}
      [] b.k = "bool" -> {TRUE, FALSE}
      [] b.k = "str" -> {<<>>, <<65>>}
      [] b.k = "bytes" -> {[b |-> <<>>, n |-> 0], [b |-> <<165>>, n |-> 1]}
      [] b.k = "ext" -> {[b |-> <<>>, n |-> 0], [b |-> <<160>>, n |-> 3], [b |-> <<255, 128>>, n |-> 9]}
      [] b.k \in {"f16", "f32"} -> {Zero, <<0, 0, 16256, 0>>}
      [] b.k = "f64" -> {Zero, <<16368, 0, 0, 0>>}

RECURSIVE ValsC(_, _), ValsF(_, _, _), ValsT(_, _), ValsS(_, _, _)
\* of a compound type with parameters par
ValsC(n, par) ==
    LET d == Def(n)
    IN CASE d.k = "struct" -> ValsF(d.f, par, 1)
         [] d.k = "choice" -> ValsF(ChoiceFields(d, Env(par, 0)), par, 1)
         [] d.k = "union" -> UNION {ValsF(<<d.f[t]>>, Bind(par, "UnionChoice", FromInt(t)), 1) : t \in 1..Len(d.f)}
\* of the fields from the i-th one on, after the others got the values in v
ValsF(fl, v, i) ==
    IF i > Len(fl) THEN {v}
    ELSE LET fd == fl[i]
             e == Env(v, 0)
             len == IF fd.r = <<>> THEN {} ELSE IF fd.r[1].l = <<>> THEN 0..(IF fd.r[1].p THEN 3 ELSE 2) ELSE {Nat30(fd.r[1].l[1], e)}
             content == IF fd.r = <<>> THEN ValsT(fd.t, e) ELSE UNION {ValsS(fd.t, e, k) : k \in len}
             all == IF fd.o THEN {<<x>> : x \in content} \cup {<<>>} ELSE content
         IN IF ~Wanted(fd, e) THEN ValsF(fl, v, i + 1)
            ELSE UNION {ValsF(fl, Bind(v, fd.n, x), i + 1) : x \in all}
ValsT(t, e) == LET b == Base(t) IN IF IsCompound(b) THEN ValsC(b.n, Pars(Def(b.n), b.a, e)) ELSE PrimVals(Sized(b, e))
ValsS(t, e, k) == IF k = 0 THEN {<<>>} ELSE {Append(p[1], p[2]) : p \in ValsS(t, e, k - 1) \X ValsT(t, [e EXCEPT !.idx = k - 1])}

\* of the parameters of the outermost type
RECURSIVE ParVals(_, _, _)
ParVals(d, i, v) == IF i > Len(d.p) THEN {v}
                    ELSE UNION {ParVals(d, i + 1, Bind(v, d.p[i].n, x)) : x \in PrimVals(Base(d.p[i].t))}
TopVals(n) == UNION {ValsC(n, p) : p \in ParVals(Def(n), 1, NoVal)}

-----------------------------------------------------------------------------

RECURSIVE BytesOf(_)
Byte(b) == LET B(i) == IF i <= Len(b) THEN b[i] ELSE 0
           IN 128 * B(1) + 64 * B(2) + 32 * B(3) + 16 * B(4) + 8 * B(5) + 4 * B(6) + 2 * B(7) + B(8)
BytesOf(b) == IF b = <<>> THEN <<>> ELSE <<Byte(b)>> \o (IF Len(b) <= 8 THEN <<>> ELSE BytesOf(SubSeq(b, 9, Len(b))))

MInit == /\ M = ndJsonDeserialize(IOEnv.MODEL)      \* records [sch, t, st]
         /\ stage = "pick" /\ ph = "pick" /\ val = <<>> /\ bits = <<>> /\ start = 0
         /\ sch = <<>> /\ top = "" /\ mode = "" /\ src = <<>> /\ inp = <<>> /\ pos = 0 /\ out = <<>> /\ stk = <<>> /\ ctxs = <<>> /\ ret = <<>>

PickSchema == /\ stage = "pick" /\ ph = "pick"
              /\ \E i \in 1..Len(M) : /\ sch' = M[i].sch /\ top' = M[i].t /\ M' = [i |-> i, st |-> M[i].st]
              /\ ph' = "value"
              /\ UNCHANGED <<mode, src, inp, pos, out, stk, ctxs, ret, stage, val, bits, start>>
PickValue == /\ stage = "pick" /\ ph = "value"
             /\ \E v \in TopVals(top), s \in {M.st[i] : i \in 1..Len(M.st)} :
                   /\ src' = v /\ start' = s /\ pos' = s
                   /\ PrintT("VALUE" \o ToJson([i |-> M.i, st |-> s, v |-> v]))
                   /\ stk' = StartStack(top, "enc", v)
             /\ mode' = "enc" /\ stage' = "enc" /\ ph' = "run"
             /\ UNCHANGED <<sch, top, inp, out, ctxs, ret, M, val, bits>>
Run == Step /\ UNCHANGED <<stage, M, val, bits, start>>

Restart(input) == /\ inp' = input /\ pos' = start /\ mode' = "dec" /\ ph' = "run" /\ stk' = StartStack(top, "dec", src)
                  /\ ctxs' = <<>> /\ out' = <<>> /\ ret' = <<>>
                  /\ UNCHANGED <<sch, top, src, M, start>>
Turn == /\ stage = "enc" /\ ph = "ok"
        /\ bits' = out /\ val' = ret /\ stage' = "dec"
        /\ Restart(BytesOf(Zeros(start) \o out))
Cut == /\ stage = "dec" /\ ph = "ok" /\ bits # <<>>
       /\ stage' = "cut" /\ UNCHANGED <<val, bits>>
       /\ \E n \in ((start + 7) \div 8)..(Len(inp) - 1) : Restart(SubSeq(inp, 1, n))
MNext == PickSchema \/ PickValue \/ Run \/ Turn \/ Cut
MSpec == MInit /\ [][MNext]_vars

-----------------------------------------------------------------------------

\* every value is encoded, and decoding what was written gives it back
Accepted == stage \in {"enc", "dec"} => ph \notin {"err", "huge"}
RoundTrip == stage = "dec" /\ ph = "ok" => ret = val /\ pos = start + Len(bits)
\* nothing that is cut short is taken for complete
CutFails == stage = "cut" => ph # "ok"
\* encoding writes what it announces, and a run ends with nothing left to do
Written == stage = "enc" /\ ph = "run" => pos = start + Len(out)
Finished == stage \in {"enc", "dec", "cut"} => (ph = "run" <=> stk # <<>>) \/ ph \in {"err", "huge"}
Balanced == stage \in {"enc", "dec"} => (ph = "ok" => ctxs = <<>>) /\ Len(ctxs) <= Len(stk)
\* reading never goes backwards or past the end
Forward == [][stage' = stage /\ ph = "run" => pos' >= pos]_vars
Inside == stage \in {"dec", "cut"} => pos <= 8 * Len(inp)
=============================================================================

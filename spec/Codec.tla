------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The zserio encoder and decoder as a state machine that walks a schema.  *)
(*                                                                         *)
(* One run of the machine marshals (mode "enc") a value or unmarshals      *)
(* (mode "dec") a byte sequence.  It keeps a stack of frames, one per      *)
(* compound or array being visited; every step handles one field or one    *)
(* array element of the top frame, producing or consuming its bits.        *)
(*                                                                         *)
(*   mode   "enc" or "dec"                                                 *)
(*   src    enc: the value to write                                        *)
(*   inp    dec: the bytes to read                                         *)
(*   pos    bits written or read so far (including the start offset)       *)
(*   out    enc: the bits written since the start                          *)
(*   stk    stack of frames, top first                                     *)
(*   ctxs   stack of packing contexts, one per open packed array, top      *)
(*          first: path of the leaf in the element -> delta context        *)
(*   ph     "run", "ok", "err" (refused) or "huge" (the machine gives up:  *)
(*          the input announces more elements than it wants to visit, or   *)
(*          an expression has no meaningful value)                         *)
(*   ret    the last completed value (a whole value when ph = "ok")        *)
(*                                                                         *)
(*   sch    the schema, a function from type names to definitions          *)
(*   top    the type of the object                                         *)
(***************************************************************************)
EXTENDS Wire, Exprs, TLC

VARIABLES sch, top, mode, src, inp, pos, out, stk, ctxs, ph, ret
mvars == <<sch, top, mode, src, inp, pos, out, stk, ctxs, ph, ret>>

MaxElems == 3000     \* decoder bound, see ph = "huge"

Def(n) == sch[n]
NoVal == [x \in {} |-> 0]

-----------------------------------------------------------------------------
(* Types *)

\* follow subtypes, enums and bitmasks; compounds stay references
RECURSIVE Base(_)
Base(t) ==
    IF t.k # "ref" THEN t
    ELSE LET d == Def(t.n)
         IN CASE d.k = "sub" -> (IF d.t.k = "ref" /\ t.a # <<>> THEN Base([d.t EXCEPT !.a = t.a]) ELSE Base(d.t))
              [] d.k \in {"enum", "mask"} -> Base(d.t)
              [] OTHER -> t

IsCompound(b) == b.k = "ref"
\* give a bit field of computed width its width
Sized(b, e) == CASE b.k = "bitd" -> [k |-> IF b.s THEN "int" ELSE "uint", w |-> Nat30(b.e, e)]
                 [] OTHER -> b
\* a bit field of computed width must get a width of at most 64
WidthOk(sb) == sb.k \in {"uint", "int"} => sb.w \in 0..64
Packable(b) == b.k \in {"uint", "int", "varu", "vars", "size", "bitd"}

\* every element takes at least so many bits
MinBits(b) == IF b.k \in {"ref", "bitd"} THEN 0 ELSE IF b.k \in {"uint", "int"} THEN b.w ELSE 1

Env(val, i) == [val |-> val, idx |-> i, sch |-> sch]

\* a parameter holds a word or a BOOLEAN, depending on its declared kind
ParVal(p, v) == IF p.y \in {"i", "u"} THEN WWord(v) ELSE v
Pars(d, args, e) == [n \in {d.p[i].n : i \in 1..Len(d.p)} |->
                        LET i == CHOOSE j \in 1..Len(d.p) : d.p[j].n = n
                        IN ParVal(d.p[i], Ev(args[i], e))]
\* An argument that is no value of the parameter's type has no meaning.
ParFits(p, v) ==
    IF p.y \notin {"i", "u"} THEN TRUE
    ELSE LET b == Base(p.t)
         IN /\ v = (IF IsSigned(b) THEN WS(WWord(v)) ELSE WU(WWord(v)))
            /\ Fits(b, WWord(v))
ParsOk(d, args, e) == \A i \in 1..Len(d.p) : ParFits(d.p[i], Ev(args[i], e))
\* the parameters of the outermost object are part of the value given
TopPars(d, v) == [n \in {d.p[i].n : i \in 1..Len(d.p)} |-> v[n]]

-----------------------------------------------------------------------------
(* Compounds: which fields are visited *)

ChoiceFields(d, e) ==
    LET s == Ev(d.sel, e)
        hit == {i \in 1..Len(d.c) : \E j \in 1..Len(d.c[i].l) : Ev(d.c[i].l[j], e) = s}
    IN IF hit # {} THEN d.c[CHOOSE i \in hit : \A j \in hit : i <= j].f ELSE d.d

UnionTag(v) == LET w == v["UnionChoice"] IN IF Small(w) THEN ToInt(w) ELSE -1

\* a frame for a value v of compound type n with parameters par
Frame(n, v, par, pk, path) ==
    LET d == Def(n)
    IN [k |-> "S", n |-> n, v |-> v, val |-> par, i |-> 1, pk |-> pk, path |-> path,
        tag |-> d.k = "union",
        fl |-> CASE d.k = "struct" -> d.f
                 [] d.k = "choice" -> ChoiceFields(d, Env(par, 0))
                 [] d.k = "union" -> <<>>]

FieldEnv(fr) == Env(fr.val, 0)
SubPath(p, n) == p \o "." \o n
UnionPath(p) == p \o "."       \* context of the tag

-----------------------------------------------------------------------------
(* Delta packing: what the initialisation pass over all elements decides *)

Diff(b, x, y) == IF (IF IsSigned(b) THEN SLt(x, y) ELSE ULt(x, y)) THEN SubW(y, x) ELSE SubW(x, y)

\* over the elements i..j of s; halved, as the arrays can be long
RECURSIVE MaxDelta(_, _, _), SumSize(_, _, _)
MaxDelta(s, i, j) == IF i > j THEN 0
                     ELSE IF i = j THEN BitLenW(Diff(s[i][1], s[i][2], s[i-1][2]))
                     ELSE LET h == (i + j) \div 2 IN Max2(MaxDelta(s, i, h), MaxDelta(s, h + 1, j))
SumSize(s, i, j) == IF i > j THEN 0
                    ELSE IF i = j THEN PrimSize(s[i][1], s[i][2])
                    ELSE LET h == (i + j) \div 2 IN SumSize(s, i, h) + SumSize(s, h + 1, j)

\* s: the sequence of <<type, word>> that one leaf takes in the array
NewCtx(s) ==
    LET m == MaxDelta(s, 2, Len(s))
        d == IF m = 0 THEN 0 ELSE m + 1
        packed == /\ Len(s) >= 2
                  /\ m <= 62
                  /\ 1 + 6 + PrimSize(s[1][1], s[1][2]) + (Len(s) - 1) * d < 1 + SumSize(s, 1, Len(s))
    IN [packed |-> packed, m |-> IF packed THEN m ELSE 0, prev |-> Zero, started |-> FALSE]

Bind(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Append2(f, n, v) == Bind(f, n, IF n \in DOMAIN f THEN Append(f[n], v) ELSE <<v>>)

\* Is a field visited?  Only fields without condition or whose condition holds.
Wanted(fd, e) == IF fd.c = <<>> THEN TRUE ELSE Ev(fd.c[1], e)
FieldVal(fd, v) == IF fd.o THEN v[fd.n][1] ELSE v[fd.n]
IsSet(fd, v) == IF fd.o THEN v[fd.n] # <<>> ELSE TRUE

\* acc: path -> sequence of <<type, word>>, extended by all leaves of v
RECURSIVE Leaves(_, _, _, _, _), LeavesF(_, _, _, _, _, _)
Leaves(acc, n, v, par, path) ==
    LET d == Def(n)
    IN CASE d.k = "struct" -> LeavesF(acc, d.f, v, par, path, 1)
         [] d.k = "choice" -> LeavesF(acc, ChoiceFields(d, Env(par, 0)), v, par, path, 1)
         [] d.k = "union" ->
              LET t == UnionTag(v)
                  a2 == Append2(acc, UnionPath(path), <<[k |-> "size"], FromInt(t)>>)
              IN IF t \in 1..Len(d.f) THEN LeavesF(a2, <<d.f[t]>>, v, par, path, 1) ELSE acc
LeavesF(acc, fl, v, val, path, i) ==
    IF i > Len(fl) THEN acc
    ELSE LET fd == fl[i]
             e == Env(val, 0)
             want == Wanted(fd, e)
         IN IF ~want THEN LeavesF(acc, fl, v, val, path, i + 1)
            ELSE IF ~IsSet(fd, v) THEN LeavesF(acc, fl, v, Bind(val, fd.n, <<>>), path, i + 1)
            ELSE LET x == FieldVal(fd, v)
                     b == Base(fd.t)
                     v2 == Bind(val, fd.n, v[fd.n])
                     a2 == IF fd.r # <<>> THEN acc
                           ELSE IF IsCompound(b)
                                THEN Leaves(acc, b.n, x, Pars(Def(b.n), b.a, e), SubPath(path, fd.n))
                           ELSE IF Packable(b)
                                THEN Append2(acc, SubPath(path, fd.n), <<Sized(b, e), x>>)
                           ELSE acc
                 IN LeavesF(a2, fl, v, v2, path, i + 1)

RECURSIVE LeavesA(_, _, _, _, _)
LeavesA(acc, b, s, e, i) ==    \* elements of an array of compound type b
    IF i > Len(s) THEN acc
    ELSE LET ei == [e EXCEPT !.idx = i - 1]
         IN LeavesA(Leaves(acc, b.n, s[i], Pars(Def(b.n), b.a, ei), ""), b, s, e, i + 1)

NewCtxs(b, s, e) == LET l == IF IsCompound(b) THEN LeavesA(NoVal, b, s, e, 1)
                             ELSE IF Len(s) = 0 THEN NoVal
                             ELSE ("" :> LET z == Sized(b, e) IN TLCEval([i \in 1..Len(s) |-> <<z, s[i]>>])) IN [p \in DOMAIN l |-> NewCtx(l[p])]

-----------------------------------------------------------------------------
(* Delivering a completed value to the frame below.  "rest" is the stack    *)
(* without the frame that completed.                                        *)

Deliver(rest, v) ==
    IF rest = <<>> THEN <<>>
    ELSE LET fr == rest[1]
             f2 == IF fr.k = "S" THEN [fr EXCEPT !.val = Bind(@, fr.fl[fr.i].n, IF fr.fl[fr.i].o THEN <<v>> ELSE v), !.i = @ + 1]
                   ELSE [fr EXCEPT !.val = Append(@, v), !.i = @ + 1]
         IN <<f2>> \o Tail(rest)

Emit(bits) == /\ out' = out \o bits
              /\ pos' = pos + Len(bits)
Skip(n) == /\ pos' = pos + n
           /\ UNCHANGED out

Fail == /\ ph' = "err"
        /\ UNCHANGED <<sch, top, mode, src, inp, pos, out, stk, ctxs, ret>>
Huge == /\ ph' = "huge"
        /\ UNCHANGED <<sch, top, mode, src, inp, pos, out, stk, ctxs, ret>>
Same == UNCHANGED <<sch, top, mode, src, inp>>

\* the top frame fr is complete with value v
Complete(v, pops) ==
    /\ stk' = Deliver(Tail(stk), v)
    /\ ret' = v
    /\ ph' = IF Len(stk) = 1 THEN "ok" ELSE "run"
    /\ ctxs' = IF pops THEN Tail(ctxs) ELSE ctxs
    /\ UNCHANGED <<pos, out>> /\ Same

-----------------------------------------------------------------------------
(* Leaves.  pre: bits that come before the value (alignment, presence bit);  *)
(* in decoding, pre is the number of bits already inspected.                 *)

\* what the value's bits are, given its delta context (if packed)
CtxBits(cx, b, v) ==
    IF ~cx.started
    THEN (IF cx.packed THEN <<1>> \o LowBits(FromInt(cx.m), 6) ELSE <<0>>) \o PrimBits(b, v)
    ELSE IF ~cx.packed THEN PrimBits(b, v)
    ELSE IF cx.m = 0 THEN <<>>
    ELSE LowBits(SubW(v, cx.prev), cx.m + 1)

\* write leaf v of base type b; path = <<>> when it is not packed
EncLeaf(pre, b, path, v) ==
    LET packed == path # <<>> /\ Packable(b)
        direct == path = <<>> \/ ~Packable(b)
    IN IF direct
       THEN IF ~Fits(b, v) THEN Fail
            ELSE /\ Emit(pre \o PrimBits(b, v))
                 /\ stk' = Deliver(stk, v)
                 /\ UNCHANGED <<ctxs, ph, ret>> /\ Same
       ELSE LET cx == ctxs[1][path[1]]
            IN IF ~Fits(b, v) THEN Fail
               ELSE /\ Emit(pre \o CtxBits(cx, b, v))
                    /\ stk' = Deliver(stk, v)
                    /\ ctxs' = <<Bind(ctxs[1], path[1], [cx EXCEPT !.started = TRUE, !.prev = v])>> \o Tail(ctxs)
                    /\ UNCHANGED <<ph, ret>> /\ Same

DecLeaf(pre, b, path) ==
    LET p == pos + pre
    IN IF path = <<>> \/ ~Packable(b)
       THEN LET r == DecPrim(b, inp, p)
            IN IF ~r.ok THEN Fail
               ELSE /\ Skip(pre + r.n)
                    /\ stk' = Deliver(stk, r.v)
                    /\ UNCHANGED <<ctxs, ph, ret>> /\ Same
       ELSE LET known == path[1] \in DOMAIN ctxs[1]
                hasD == Have(inp, p, 1)
                flag == hasD /\ BitAt(inp, p + 1) = 1
                hlen == IF flag THEN 7 ELSE 1
            IN IF ~known
               THEN IF ~hasD \/ ~Have(inp, p, hlen) THEN Fail
                    ELSE LET m == IF flag THEN ToInt(FromBits(Take(inp, p + 1, 6))) ELSE 0
                             r == DecPrim(b, inp, p + hlen)
                         IN IF ~r.ok THEN Fail
                            ELSE /\ Skip(pre + hlen + r.n)
                                 /\ stk' = Deliver(stk, r.v)
                                 /\ ctxs' = <<Bind(ctxs[1], path[1], [packed |-> flag, m |-> m, prev |-> r.v, started |-> TRUE])>> \o Tail(ctxs)
                                 /\ UNCHANGED <<ph, ret>> /\ Same
               ELSE LET cx == ctxs[1][path[1]]
                    IN IF ~cx.packed
                       THEN LET r == DecPrim(b, inp, p)
                            IN IF ~r.ok THEN Fail
                               ELSE /\ Skip(pre + r.n)
                                    /\ stk' = Deliver(stk, r.v)
                                    /\ UNCHANGED <<ctxs, ph, ret>> /\ Same
                       ELSE LET n == IF cx.m = 0 THEN 0 ELSE cx.m + 1
                                v == AddW(cx.prev, SignExt(Take(inp, p, n)))
                            IN IF ~Have(inp, p, n) THEN Fail
                               ELSE IF ~Fits(b, v) THEN Huge   \* no valid stream: any result goes
                               ELSE /\ Skip(pre + n)
                                    /\ stk' = Deliver(stk, v)
                                    /\ ctxs' = <<Bind(ctxs[1], path[1], [cx EXCEPT !.prev = v])>> \o Tail(ctxs)
                                    /\ UNCHANGED <<ph, ret>> /\ Same

\* A bit field whose computed width is not 0..64 can be neither written nor
\* read; only deltas are read without the width.
BadWidth(path) ==
    IF mode = "dec" /\ path # <<>> /\ path[1] \in DOMAIN ctxs[1] /\ ctxs[1][path[1]].packed
    THEN Huge ELSE Fail

-----------------------------------------------------------------------------
(* Steps *)

AlignGap(p, a) == IF a <= 1 \/ p % a = 0 THEN 0 ELSE a - (p % a)

\* a field that is not part of the value leaves nothing, an absent optional field <<>>
SkipField(pre, absent) ==
    /\ stk' = <<[stk[1] EXCEPT !.i = @ + 1, !.val = IF absent THEN Bind(@, stk[1].fl[stk[1].i].n, <<>>) ELSE @]>> \o Tail(stk)
    /\ IF mode = "enc" THEN Emit(pre) ELSE Skip(Len(pre))
    /\ UNCHANGED <<ctxs, ph, ret>> /\ Same

\* open an array of n elements
ArrayFrame(b, n, s, pkd, fr) ==
    [k |-> "A", n |-> "", v |-> s, val |-> <<>>, i |-> 1, pk |-> pkd, path |-> "",
     tag |-> FALSE, fl |-> <<>>, b |-> b, cnt |-> n, env |-> FieldEnv(fr)]

\* A field whose presence is settled.  pre: the bits before its content.
Content(fr, fd, pre) ==
    LET e == FieldEnv(fr)
        b == Base(fd.t)
    IN IF fd.r # <<>>
       THEN \* array
            LET len == fd.r[1].l
                auto == len = <<>>
                want == IF auto THEN 0 ELSE Nat30(len[1], e)
                pkd == (fd.r[1].p \/ fr.pk) /\ (IsCompound(b) \/ Packable(b))
            IN IF mode = "enc"
               THEN LET s == FieldVal(fd, fr.v)
                    IN IF ~auto /\ Len(s) # want THEN Fail
                       ELSE /\ Emit(pre \o (IF auto THEN SizeBits(Len(s)) ELSE <<>>))
                            /\ stk' = <<ArrayFrame(b, Len(s), s, pkd, fr)>> \o stk
                            /\ ctxs' = IF pkd THEN <<NewCtxs(b, s, e)>> \o ctxs ELSE ctxs
                            /\ UNCHANGED <<ph, ret>> /\ Same
               ELSE LET h == IF auto THEN DecSize(inp, pos + Len(pre)) ELSE Got(FromInt(want), 0)
                    IN IF ~h.ok THEN Fail
                       ELSE IF want >= 0 /\ ~pkd /\ MinBits(b) > 0 /\ (~Small(h.v) \/ ToInt(h.v) > 8 * Len(inp) - pos) THEN Fail
                       ELSE IF want < 0 \/ ~Small(h.v) \/ ToInt(h.v) > MaxElems THEN Huge
                       ELSE /\ Skip(Len(pre) + h.n)
                            /\ stk' = <<ArrayFrame(b, ToInt(h.v), <<>>, pkd, fr)>> \o stk
                            /\ ctxs' = IF pkd THEN <<NoVal>> \o ctxs ELSE ctxs
                            /\ UNCHANGED <<ph, ret>> /\ Same
       ELSE IF IsCompound(b)
       THEN IF ~ParsOk(Def(b.n), b.a, e) THEN Huge ELSE
            /\ stk' = <<Frame(b.n, IF mode = "enc" THEN FieldVal(fd, fr.v) ELSE NoVal,
                              Pars(Def(b.n), b.a, e), fr.pk, SubPath(fr.path, fd.n))>> \o stk
            /\ IF mode = "enc" THEN Emit(pre) ELSE Skip(Len(pre))
            /\ UNCHANGED <<ctxs, ph, ret>> /\ Same
       ELSE LET path == IF fr.pk THEN <<SubPath(fr.path, fd.n)>> ELSE <<>>
                sb == Sized(b, e)
            IN IF ~WidthOk(sb) THEN BadWidth(path)
               ELSE IF mode = "enc" THEN EncLeaf(pre, sb, path, FieldVal(fd, fr.v))
               ELSE DecLeaf(Len(pre), sb, path)

FieldStep(fr) ==
    LET fd == fr.fl[fr.i]
        e == FieldEnv(fr)
        \* unpacked: align, then presence bit; packed: presence bit, then align
        ob == IF fd.o THEN 1 ELSE 0
        gap == IF fr.pk THEN 0 ELSE AlignGap(pos, fd.al)
        here == pos + gap
    IN IF ~Wanted(fd, e) THEN SkipField(<<>>, FALSE)
       ELSE IF mode = "dec" /\ ~Have(inp, pos, gap + ob) THEN Fail
       ELSE LET set == IF mode = "enc" THEN IsSet(fd, fr.v)
                       ELSE ~fd.o \/ BitAt(inp, here + 1) = 1
                bits == Zeros(gap) \o (IF fd.o THEN <<IF set THEN 1 ELSE 0>> ELSE <<>>)
                gap2 == IF fr.pk THEN AlignGap(here + ob, fd.al) ELSE 0
            IN IF ~set THEN SkipField(bits, TRUE)
               ELSE IF mode = "dec" /\ ~Have(inp, pos, gap + ob + gap2) THEN Fail
               ELSE Content(fr, fd, bits \o Zeros(gap2))

TagStep(fr) ==
    LET d == Def(fr.n)
        tt == [k |-> "size"]
        Open(t) == [fr EXCEPT !.tag = FALSE, !.fl = <<d.f[t]>>, !.val = Bind(@, "UnionChoice", FromInt(t))]
        path == UnionPath(fr.path)
    IN IF mode = "enc"
       THEN LET t == UnionTag(fr.v)
                cx == IF fr.pk THEN ctxs[1][path] ELSE [started |-> FALSE]
            IN IF t \notin 1..Len(d.f) THEN Fail
               ELSE /\ Emit(IF fr.pk THEN CtxBits(cx, tt, FromInt(t)) ELSE SizeBits(t))
                    /\ stk' = <<Open(t)>> \o Tail(stk)
                    /\ ctxs' = IF fr.pk THEN <<Bind(ctxs[1], path, [cx EXCEPT !.started = TRUE, !.prev = FromInt(t)])>> \o Tail(ctxs)
                               ELSE ctxs
                    /\ UNCHANGED <<ph, ret>> /\ Same
       ELSE \* the same three forms as a packed leaf
            LET cxs == IF fr.pk THEN ctxs[1] ELSE NoVal
                known == path \in DOMAIN cxs
                flag == fr.pk /\ ~known /\ Have(inp, pos, 1) /\ BitAt(inp, pos + 1) = 1
                hlen == IF fr.pk /\ ~known THEN (IF flag THEN 7 ELSE 1) ELSE 0
                delta == fr.pk /\ known /\ cxs[path].packed
                dn == IF delta THEN (IF cxs[path].m = 0 THEN 0 ELSE cxs[path].m + 1) ELSE 0
                r == IF ~Have(inp, pos, hlen) THEN Bad
                     ELSE IF delta
                     THEN (IF Have(inp, pos, dn) THEN Got(AddW(cxs[path].prev, SignExt(Take(inp, pos, dn))), dn) ELSE Bad)
                     ELSE DecSize(inp, pos + hlen)
                m == IF flag THEN ToInt(FromBits(Take(inp, pos + 1, 6))) ELSE 0
            IN IF ~r.ok THEN Fail
               ELSE IF ~(Small(r.v) /\ ToInt(r.v) \in 1..Len(d.f)) THEN Fail
               ELSE /\ Skip(hlen + r.n)
                    /\ stk' = <<Open(ToInt(r.v))>> \o Tail(stk)
                    /\ ctxs' = IF ~fr.pk THEN ctxs
                               ELSE <<Bind(cxs, path,
                                        IF known THEN [cxs[path] EXCEPT !.prev = r.v]
                                        ELSE [packed |-> flag, m |-> m, prev |-> r.v, started |-> TRUE])>> \o Tail(ctxs)
                    /\ UNCHANGED <<ph, ret>> /\ Same

ElemStep(fr) ==
    LET b == fr.b
        ei == [fr.env EXCEPT !.idx = fr.i - 1]
    IN IF IsCompound(b)
       THEN IF ~ParsOk(Def(b.n), b.a, ei) THEN Huge ELSE
            /\ stk' = <<Frame(b.n, IF mode = "enc" THEN fr.v[fr.i] ELSE NoVal,
                              Pars(Def(b.n), b.a, ei), fr.pk, "")>> \o stk
            /\ UNCHANGED <<pos, out, ctxs, ph, ret>> /\ Same
       ELSE LET path == IF fr.pk THEN <<"">> ELSE <<>>
                sb == Sized(b, fr.env)
            IN IF ~WidthOk(sb) THEN BadWidth(path)
               ELSE IF mode = "enc" THEN EncLeaf(<<>>, sb, path, fr.v[fr.i])
               ELSE DecLeaf(0, sb, path)

Step ==
    /\ ph = "run"
    /\ LET fr == stk[1]
       IN IF fr.k = "A"
          THEN IF fr.i > fr.cnt THEN Complete(fr.val, fr.pk) ELSE ElemStep(fr)
          ELSE IF fr.tag THEN TagStep(fr)
          ELSE IF fr.i > Len(fr.fl) THEN Complete(fr.val, FALSE)
          ELSE FieldStep(fr)

\* the initial machine state, as assignments of the primed or unprimed variables
StartStack(t, m, v) == <<Frame(t, IF m = "enc" THEN v ELSE NoVal, TopPars(Def(t), v), FALSE, "")>>

-----------------------------------------------------------------------------
(* Comparing a value v of the machine with an object g of the               *)
(* implementation, which has every field of the type: absent optional       *)
(* fields as <<>>, present ones as <<x>>; fields that are not part of the   *)
(* value have arbitrary content.  rnd: v was not encoded yet, so its        *)
(* half-precision fields are still to be rounded.                           *)
RECURSIVE Match(_, _, _, _), MatchC(_, _, _, _)
Match(t, v, g, rnd) ==
    LET b == Base(t)
    IN IF IsCompound(b) THEN MatchC(b.n, v, g, rnd)
       ELSE IF b.k = "bitd" THEN v = g
       ELSE IF b.k = "ext" THEN v.n = g.n /\ v.n <= 8 * Len(g.b) /\ SubSeq(ByteBits(v.b), 1, v.n) = SubSeq(ByteBits(g.b), 1, v.n)
       ELSE IF b.k = "f16" /\ rnd THEN (IF F32IsNaN(v) THEN F32IsNaN(g) ELSE g = HalfToF32(F32ToHalf(v)))
       ELSE SameValue(b, v, g)
MatchC(n, v, g, rnd) ==
    LET d == Def(n)
        fl == CASE d.k = "struct" -> d.f
                [] d.k = "choice" -> ChoiceFields(d, Env(v, 0))
                [] d.k = "union" -> <<d.f[UnionTag(v)]>>
    IN /\ \A i \in 1..Len(d.p) : d.p[i].y = "x" \/ v[d.p[i].n] = g[d.p[i].n]
       /\ d.k = "union" => v["UnionChoice"] = g["UnionChoice"]
       /\ \A i \in 1..Len(fl) :
            LET fd == fl[i]
            IN IF fd.n \notin DOMAIN v THEN TRUE
               ELSE LET a == IF fd.o THEN v[fd.n] ELSE <<v[fd.n]>>
                        x == IF fd.o THEN g[fd.n] ELSE <<g[fd.n]>>
                    IN IF a = <<>> THEN x = <<>>
                       ELSE /\ x # <<>>
                            /\ IF fd.r # <<>>
                               THEN /\ Len(a[1]) = Len(x[1])
                                    /\ \A j \in 1..Len(x[1]) : Match(fd.t, a[1][j], x[1][j], rnd)
                               ELSE Match(fd.t, a[1], x[1], rnd)
=============================================================================

------------------------------ MODULE FnTrace ------------------------------
(***************************************************************************)
(* Conformance of the functions of generated types with the meaning of     *)
(* their expressions.  An expression is defined on an operand when every   *)
(* intermediate result fits the 64-bit integers it is computed with        *)
(* (unsigned ones if a 64-bit unsigned operand takes part, signed ones      *)
(* otherwise), nothing is divided by zero and shift counts are 0..63.       *)
(* Floating-point results must be exact (module Dyadic).                    *)
(* Every state of this machine judges one table of calls:                   *)
(*   i   table number     sch  the schema        t  the compound type       *)
(*   ft  return types of the functions                                      *)
(*   rows [v, f]: the object, and for each function its outcome and result  *)
(***************************************************************************)
EXTENDS Exprs, Dyadic, TLC, Json, IOUtils, FiniteSets

VARIABLES ph, C
FInit == ph = "pick" /\ C = ndJsonDeserialize(IOEnv.CASES)
Pick == /\ ph = "pick"
        /\ \E i \in 1..Len(C) : C' = C[i]
        /\ ph' = "judge"

\* no operand that is not constant
RECURSIVE Const(_)
Const(x) == CASE x.o = "n" -> TRUE
              [] x.o = "fl" -> TRUE
              [] x.o \in {"f", "at", "idx", "len", "call"} -> FALSE
              [] x.o = "?" -> Const(x.a) /\ Const(x.b) /\ Const(x.c)
              [] "b" \in DOMAIN x -> Const(x.a) /\ Const(x.b)
              [] OTHER -> Const(x.a)
\* the expression has a floating-point value
IsFl(x) == \/ x.o = "fl"
           \/ x.o \in {"f", "at"} /\ x.y \in {"d", "s"}
           \/ x.o = "call" /\ x.rt.k \in {"f64", "f32"}
           \/ x.o \in {"+", "-", "*", "/", "neg", "?"} /\ "y" \in DOMAIN x /\ x.y = "fl"
\* a 64-bit unsigned operand takes part
RECURSIVE Big(_)
Big(x) == CASE IsFl(x) -> FALSE
            [] x.o = "n" -> "y" \in DOMAIN x /\ x.y = "u"
            [] x.o \in {"f", "at"} -> x.y = "u"
            [] x.o = "call" -> x.y = "u"
            [] x.o \in {"idx", "len", "nb", "!", "&&", "||", "==", "!=", "<", "<=", ">", ">=", "isset"} -> FALSE
            [] x.o = "mc" -> ~Const(x)
            [] x.o = "?" -> Big(x.b) \/ Big(x.c)
            [] x.o \in {"<<", ">>"} -> Big(x.a)
            [] "b" \in DOMAIN x -> Big(x.a) \/ Big(x.b)
            [] OTHER -> Big(x.a)

In64s(w) == w[1] = (IF w[2] >= 32768 THEN 65535 ELSE 0)
In64u(w) == w[1] = 0
Und == [d |-> FALSE, v |-> WZero]
Def(v) == [d |-> TRUE, v |-> v]
\* floating-point numbers; not-a-number is left out
LeafD(y, w) == CASE y = "d" -> (IF D64NaN(w) THEN Und ELSE Def(D64(w)))
                 [] y = "s" -> (IF D32NaN(w) THEN Und ELSE Def(D32(w)))
                 [] OTHER -> Def(Leaf(y, w))

\* single precision takes part in it
RECURSIVE Single(_)
Single(x) == CASE ~IsFl(x) -> FALSE
               [] x.o = "fl" -> x.p = 24
               [] x.o \in {"f", "at"} -> x.y = "s"
               [] x.o = "call" -> x.rt.k = "f32"
               [] x.o = "?" -> Single(x.b) \/ Single(x.c)
               [] x.o = "neg" -> Single(x.a)
               [] OTHER -> Single(x.a) \/ Single(x.b)
\* so does double precision, which the result has then
RECURSIVE Double(_)
Double(x) == CASE ~IsFl(x) -> FALSE
               [] x.o = "fl" -> FALSE
               [] x.o \in {"f", "at"} -> x.y = "d"
               [] x.o = "call" -> x.rt.k = "f64"
               [] x.o = "?" -> Double(x.b) \/ Double(x.c)
               [] x.o = "neg" -> Double(x.a)
               [] OTHER -> Double(x.a) \/ Double(x.b)
Precision(x) == IF Single(x) /\ ~Double(x) THEN 24 ELSE 53

\* what an expression sees of a field that is absent
Absent(y) == CASE y \in {"i", "u", "d", "s"} -> FromInt(0) [] y = "r" -> <<>> [] y = "b" -> FALSE

Arith == {"+", "-", "*", "/", "%", "&", "|", "^"}
Compare == {"==", "!=", "<", "<=", ">", ">="}

\* the result as a value of the return type
FitsRet(t, v) == CASE t.k = "int" -> (IF In64s(v) THEN WBitLen(IF WNegative(v) THEN WNot(v) ELSE v) < t.w ELSE FALSE)
                   [] t.k = "uint" -> In64u(v) /\ WBitLen(v) <= t.w
                   [] t.k = "f64" -> DExact(v, 53)
                   [] t.k = "f32" -> DExact(v, 24)
                   [] OTHER -> TRUE

\* floating-point operators; a number among the operands can be an integer
FlArg(x, A) == IF IsFl(x) THEN A.v ELSE DInt(A.v)
FlResult(x, r) == IF r = <<>> THEN Und ELSE IF DExact(r[1], Precision(x)) THEN Def(r[1]) ELSE Und
EvFl(x, A, B) ==
    IF ~(A.d /\ B.d) THEN Und
    ELSE LET a == FlArg(x.a, A)
             b == FlArg(x.b, B)
         IN IF x.o \in Compare
            \* integers are compared as floating-point numbers: those that have an exact form
            THEN (IF (IsFl(x.a) \/ DExact(a, 53)) /\ (IsFl(x.b) \/ DExact(b, 53))
                  THEN Def(CASE x.o = "==" -> a = b [] x.o = "!=" -> a # b [] x.o = "<" -> DLt(a, b) [] x.o = ">" -> DLt(b, a)
                             [] x.o = "<=" -> ~DLt(b, a) [] x.o = ">=" -> ~DLt(a, b)) ELSE Und)
            ELSE IF ~DExact(a, Precision(x)) \/ ~DExact(b, Precision(x)) THEN Und
            ELSE CASE x.o = "+" -> FlResult(x, DSum(a, b))
                   [] x.o = "-" -> FlResult(x, DSum(a, DNeg(b)))
                   [] x.o = "*" -> FlResult(x, DProduct(a, b))
                   [] x.o = "/" -> FlResult(x, DQuotient(a, b))
FlNeg(x, A) == IF A.d THEN Def(DNeg(A.v)) ELSE Und
FlCond(x, A, B, c) ==
    IF ~(A.d /\ B.d) THEN Und ELSE IF ~c.d THEN Und
    ELSE LET b == FlArg(x.b, B)
             z == FlArg(x.c, c)
         IN IF (IsFl(x.b) \/ DExact(b, 53)) /\ (IsFl(x.c) \/ DExact(z, 53)) THEN Def(IF A.v THEN b ELSE z) ELSE Und

\* the operators on evaluated operands
EvOp(x, A, B, c) ==
    LET In(big, w) == IF big THEN In64u(w) ELSE In64s(w)
        \* a negative constant has no unsigned form
        neg == (A.d /\ Const(x.a) /\ WNegative(A.v)) \/ (B.d /\ Const(x.b) /\ WNegative(B.v))
    IN
    CASE "y" \in DOMAIN x /\ x.y = "fl" ->
            (CASE x.o = "?" -> FlCond(x, A, B, c) [] x.o = "neg" -> FlNeg(x, A) [] OTHER -> EvFl(x, A, B))
      [] x.o = "?" -> IF ~(A.d /\ B.d) THEN Und
                      ELSE IF ~c.d THEN Und
                              ELSE IF "y" \in DOMAIN x
                                   THEN (IF In(Big(x), B.v) /\ In(Big(x), c.v) THEN Def(IF A.v THEN B.v ELSE c.v) ELSE Und)
                                   ELSE Def(IF A.v THEN B.v ELSE c.v)
      [] x.o \in {"!", "()", "vo"} -> IF A.d THEN Def(Op1(x.o, A.v)) ELSE Und
      [] x.o = "nb" -> IF A.d /\ In64u(A.v) THEN Def(NumBitsOf(A.v)) ELSE Und
      [] x.o = "neg" -> IF A.d /\ ~Big(x.a) /\ In64s(A.v) /\ In64s(WNeg(A.v)) THEN Def(WNeg(A.v)) ELSE Und
      [] x.o = "~" -> IF A.d /\ ~Big(x.a) /\ In64s(A.v) THEN Def(WNot(A.v)) ELSE Und
      [] x.o = "mc" -> IF A.d /\ In64u(A.v) THEN Def(WXor(A.v, Ones(x.w))) ELSE Und
      [] x.o \in {"&&", "||"} -> IF A.d /\ B.d THEN Def(Op2(x.o, A.v, B.v)) ELSE Und
      [] x.o = "isset" -> IF A.d /\ B.d /\ In64u(A.v) /\ In64u(B.v) THEN Def(WAnd(A.v, B.v) = B.v) ELSE Und
      [] x.o \in {"<<", ">>"} ->
            IF A.d /\ B.d /\ WTiny(B.v) /\ ~WNegative(B.v) /\ WInt(B.v) < 64
               /\ In(Big(x.a), A.v)
               /\ (x.o = "<<" => WBitLen(WAbs(A.v)) + WInt(B.v) <= 66)
            THEN LET r == Op2(x.o, A.v, B.v) IN (IF In(Big(x.a), r) THEN Def(r) ELSE Und)
            ELSE Und
      [] x.o \in Arith ->
            IF ~(A.d /\ B.d) THEN Und
            ELSE LET u == (Big(x.a) \/ Big(x.b)) /\ ~neg
                 IN IF /\ In(u, A.v) /\ In(u, B.v)
                       /\ (IF x.o \in {"/", "%"} THEN B.v # WZero ELSE TRUE)
                       /\ (IF x.o = "*" THEN WBitLen(WAbs(A.v)) + WBitLen(WAbs(B.v)) <= 66 ELSE TRUE)
                    THEN LET r == Op2(x.o, A.v, B.v) IN (IF In(u, r) THEN Def(r) ELSE Und)
                    ELSE Und
      \* comparisons of integers; of anything else (y = "c") there is no range to observe
      [] x.o \in Compare ->
            IF ~(A.d /\ B.d) THEN Und
            ELSE IF "y" \in DOMAIN x THEN Def(Op2(x.o, A.v, B.v))
            ELSE LET u == (Big(x.a) \/ Big(x.b)) /\ ~neg
                 IN IF In(u, A.v) /\ In(u, B.v) THEN Def(Op2(x.o, A.v, B.v)) ELSE Und

\* integers become floating-point results
ToRet(t, x, D) == IF D.d /\ t.k \in {"f64", "f32"} /\ ~IsFl(x) THEN Def(DInt(D.v)) ELSE D

\* The bound variables make TLC evaluate every operand once.
RECURSIVE EvD(_, _)
EvD(x, e) ==
    CASE x.o = "n" -> Def(x.v)
      [] x.o = "fl" -> Def(D64(x.v))
      [] x.o = "f" -> LET r == OptPath(e.val, x) IN IF r = <<>> THEN LeafD(x.y, Absent(x.y)) ELSE LeafD(x.y, r[1])
      [] x.o = "at" -> LET i == EvD(x.i, e)
                           l == Path(e.val, x.p)
                       IN IF i.d /\ WTiny(i.v) /\ ~WNegative(i.v) /\ WInt(i.v) < Len(l)
                          THEN LeafD(x.y, Path(l[WInt(i.v) + 1], x.q)) ELSE Und
      [] x.o = "len" -> LET r == OptPath(e.val, x) IN Def(IF r = <<>> THEN WZero ELSE WFrom(Len(r[1])))
      [] x.o = "call" -> LET r == ToRet(x.rt, e.sch[x.t].fn[x.f], EvD(e.sch[x.t].fn[x.f], [e EXCEPT !.val = Path(e.val, x.p)]))
                         IN IF ~r.d THEN Und ELSE IF FitsRet(x.rt, r.v) THEN r ELSE Und
      [] x.o = "?" -> CHOOSE r \in {EvOp(x, A, B, c) : A \in {EvD(x.a, e)}, B \in {EvD(x.b, e)}, c \in {EvD(x.c, e)}} : TRUE
      [] "b" \notin DOMAIN x -> CHOOSE r \in {EvOp(x, A, Und, Und) : A \in {EvD(x.a, e)}} : TRUE
      [] OTHER -> CHOOSE r \in {EvOp(x, A, B, Und) : A \in {EvD(x.a, e)}, B \in {EvD(x.b, e)}} : TRUE

Ret(t, v) == IF t.k \in {"int", "uint"} THEN WWord(v) ELSE v
Same(t, v, got) == CASE t.k = "f64" -> ~D64NaN(got) /\ D64(got) = v
                     [] t.k = "f32" -> ~D32NaN(got) /\ D32(got) = v
                     [] OTHER -> got = Ret(t, v)

Judge1(q) ==
    LET e == [val |-> q.v, idx |-> 0, sch |-> C.sch]
        fs == DOMAIN q.f
        W(n) == LET d == ToRet(C.ft[n], C.sch[C.t].fn[n], EvD(C.sch[C.t].fn[n], e))
                    g == q.f[n]
                IN IF ~d.d THEN "undefined"
                   ELSE IF ~FitsRet(C.ft[n], d.v) THEN "undefined"
                   ELSE IF g.r # "ok" THEN "panic"
                   ELSE IF Same(C.ft[n], d.v, g.v) THEN "" ELSE "value"
    IN [n \in fs |-> W(n)]

Judge == /\ ph = "judge"
         /\ LET ws == [k \in 1..Len(C.rows) |-> Judge1(C.rows[k])]
                bad == {x \in {[k |-> k, f |-> n, w |-> ws[k][n]] : k \in 1..Len(ws), n \in DOMAIN C.rows[1].f} : x.w \notin {"", "undefined"}}
                und == Cardinality({<<k, n>> \in (1..Len(ws)) \X DOMAIN C.rows[1].f : ws[k][n] = "undefined"})
            IN PrintT("VERDICT" \o ToJson([i |-> C.i, und |-> und, n |-> Len(ws) * Cardinality(DOMAIN C.rows[1].f), bad |-> bad]))
         /\ ph' = "done" /\ UNCHANGED C

FSpec == FInit /\ [][Pick \/ Judge]_<<ph, C>>
FView == IF ph = "pick" THEN <<-1, ph>> ELSE <<C.i, ph>>
=============================================================================

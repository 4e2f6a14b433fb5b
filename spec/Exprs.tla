------------------------------- MODULE Exprs -------------------------------
(***************************************************************************)
(* Meaning of schema expressions.  An environment e is a record            *)
(*   val : the fields and parameters of the enclosing compound known so far *)
(*   idx : the value of @index                                              *)
(*   sch : the schema; the functions of a compound type t are sch[t].fn     *)
(* Integer leaves are words; results are wide integers (module Wide) or     *)
(* BOOLEANs.  Division truncates toward zero, shifts are arithmetic.        *)
(***************************************************************************)
EXTENDS Wide

\* bits needed for n different values: the numbits operator
NumBitsOf(n) == IF n = WZero \/ WNegative(n) THEN WZero
                ELSE IF n = WOne THEN WOne ELSE WFrom(WBitLen(WSub(n, WOne)))

RECURSIVE Path(_, _)
Path(v, p) == IF p = <<>> THEN v ELSE Path(v[p[1]], Tail(p))
\* The members of the path at the positions x.z are optional: <<value>> or <<>>.
\* The result is <<>> if one of them is absent.
OptPath(v, x) ==
    LET z == IF "z" \in DOMAIN x THEN {x.z[i] : i \in 1..Len(x.z)} ELSE {}
        RECURSIVE Go(_, _)
        Go(w, i) == IF i > Len(x.p) THEN <<w>>
                    ELSE LET m == w[x.p[i]]
                         IN IF i \notin z THEN Go(m, i + 1)
                            ELSE IF m = <<>> THEN <<>> ELSE Go(m[1], i + 1)
    IN Go(v, 1)

\* the bits of a bitmask type of w bits; "~" of a bitmask ("mc") complements those
Ones(w) == WSub(WShl(WOne, w), WOne)

\* the meaning of the operators; "isset" asks for all the bits of the second operand
Op1(o, A) ==
    CASE o = "nb" -> NumBitsOf(A)
      [] o = "()" -> A
      [] o = "vo" -> A
      [] o = "neg" -> WNeg(A)
      [] o = "!" -> ~A
      [] o = "~" -> WNot(A)
Op2(o, A, C) ==
    CASE o = "+" -> WAdd(A, C)
      [] o = "-" -> WSub(A, C)
      [] o = "*" -> WMul(A, C)
      [] o = "/" -> WDiv(A, C)
      [] o = "%" -> WMod(A, C)
      [] o = "<<" -> WShl(A, WInt(C))
      [] o = ">>" -> WShr(A, WInt(C))
      [] o = "&" -> WAnd(A, C)
      [] o = "|" -> WOr(A, C)
      [] o = "^" -> WXor(A, C)
      [] o = "==" -> A = C
      [] o = "!=" -> A # C
      [] o = "<" -> WLt(A, C)
      [] o = "<=" -> ~WLt(C, A)
      [] o = ">" -> WLt(C, A)
      [] o = ">=" -> ~WLt(A, C)
      [] o = "&&" -> A /\ C
      [] o = "||" -> A \/ C
      [] o = "cat" -> A \o C
      [] o = "isset" -> WAnd(A, C) = C

\* the characters a string literal stands for, as UTF-8; s: the bytes between the quotes
HexDigit(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Octal(c) == c \in 48..55
RECURSIVE Digits(_, _, _, _), Unescape(_)
Digits(s, i, n, b) == IF n = 0 THEN 0 ELSE Digits(s, i, n - 1, b) * b + HexDigit(s[i + n - 1])
Unescape(s) ==
    IF s = <<>> THEN <<>>
    ELSE IF s[1] # 92 THEN <<s[1]>> \o Unescape(Tail(s))
    ELSE LET From(i) == SubSeq(s, i, Len(s))
             c == s[2]
             o3 == IF Len(s) >= 5 THEN (IF s[3] \in 48..51 THEN Octal(s[4]) /\ Octal(s[5]) ELSE FALSE) ELSE FALSE
             o2 == IF Len(s) >= 4 THEN Octal(s[3]) /\ Octal(s[4]) ELSE FALSE
             n == IF o3 THEN 3 ELSE IF o2 THEN 2 ELSE 1
         IN CASE c \in {34, 92} -> <<c>> \o Unescape(From(3))
              [] c = 114 -> <<13>> \o Unescape(From(3))
              [] c = 110 -> <<10>> \o Unescape(From(3))
              [] c = 102 -> <<12>> \o Unescape(From(3))
              [] c = 116 -> <<9>> \o Unescape(From(3))
              [] c = 117 -> Utf8(Digits(s, 3, 4, 16)) \o Unescape(From(7))
              [] c = 120 -> Utf8(Digits(s, 3, 2, 16)) \o Unescape(From(5))
              [] c = 48 -> Utf8(Digits(s, 3, n, 8)) \o Unescape(From(3 + n))

\* what an expression sees of a field that is absent
AbsentValue(y) == CASE y \in {"i", "u"} -> WZero [] y = "b" -> FALSE [] OTHER -> <<>>
Leaf(y, w) == CASE y = "i" -> WS(w) [] y = "u" -> WU(w) [] OTHER -> w

RECURSIVE Ev(_, _)
Ev(x, e) ==
    CASE x.o \in {"n", "str"} -> x.v
      [] x.o = "lit" -> Unescape(x.v)
      [] x.o = "f" -> LET r == OptPath(e.val, x) IN IF r = <<>> THEN AbsentValue(x.y) ELSE Leaf(x.y, r[1])
      [] x.o = "at" -> Leaf(x.y, Path(Path(e.val, x.p)[WInt(Ev(x.i, e)) + 1], x.q))
      [] x.o = "idx" -> WFrom(e.idx)
      [] x.o = "len" -> LET r == OptPath(e.val, x) IN IF r = <<>> THEN WZero ELSE WFrom(Len(r[1]))
      [] x.o = "call" -> Ev(e.sch[x.t].fn[x.f], [e EXCEPT !.val = Path(e.val, x.p)])
      [] x.o = "?" -> IF Ev(x.a, e) THEN Ev(x.b, e) ELSE Ev(x.c, e)
      [] x.o = "mc" -> WXor(Ev(x.a, e), Ones(x.w))
      [] "b" \notin DOMAIN x -> Op1(x.o, Ev(x.a, e))
      [] OTHER -> Op2(x.o, Ev(x.a, e), Ev(x.b, e))

\* an expression that must denote a small natural number (a length or a width); -1 if it does not
Nat30(x, e) == LET w == Ev(x, e) IN IF WTiny(w) /\ ~WNegative(w) THEN WInt(w) ELSE -1
=============================================================================

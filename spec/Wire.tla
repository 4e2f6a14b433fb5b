-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire form of the primitive types.  A primitive type is a record     *)
(* with field k:                                                           *)
(*   "uint"/"int" with width w        fixed-width and bit-field integers    *)
(*   "varu"/"vars" with n             variable-length, at most n bytes      *)
(*   "size"                           varsize                               *)
(*   "bool" "f16" "f32" "f64" "str" "bytes" "ext"                           *)
(* Values: words for integers and float bit patterns (f16 values are held   *)
(* as float32 patterns), BOOLEAN, byte sequences for str, [b, n] for bytes  *)
(* (n = declared byte size) and ext (n = declared bit size).                *)
(***************************************************************************)
EXTENDS Words

-----------------------------------------------------------------------------
(* Variable-length integers *)

\* payload bits of an encoding of k bytes out of at most n
UCap(n, k) == IF k = n THEN 7 * (n - 1) + 8 ELSE 7 * k
SCap(n, k) == UCap(n, k) - 1

\* the least number of bytes whose payload holds b bits; n + 1 if none does
RECURSIVE LeastU(_, _, _), LeastS(_, _, _)
LeastU(n, b, k) == IF k > n THEN k ELSE IF b <= UCap(n, k) THEN k ELSE LeastU(n, b, k + 1)
LeastS(n, b, k) == IF k > n THEN k ELSE IF b <= SCap(n, k) THEN k ELSE LeastS(n, b, k + 1)

MaxVarsize == <<0, 0, 32767, 65535>>

\* byte i of k (at most n): a continuation bit unless it is the n-th byte,
\* the sign bit in front when sgn # <<>>, and the next payload bits
RECURSIVE VarBytes(_, _, _, _, _)
VarBytes(n, k, i, sgn, mag) ==
    IF i > k THEN <<>>
    ELSE LET head == (IF i = 1 THEN sgn ELSE <<>>)
                     \o (IF i = n THEN <<>> ELSE <<IF i < k THEN 1 ELSE 0>>)
             m == 8 - Len(head)
         IN head \o SubSeq(mag, 1, m) \o VarBytes(n, k, i + 1, sgn, SubSeq(mag, m + 1, Len(mag)))

VarUBits(n, v) == LET k == LeastU(n, BitLenW(v), 1)
                  IN VarBytes(n, k, 1, <<>>, LowBits(v, Min2(64, UCap(n, k))))
VarSBits(n, v) ==
    IF n = 9 /\ v = MinW THEN <<1, 0, 0, 0, 0, 0, 0, 0>>
    ELSE LET m == AbsW(v)
             k == LeastS(n, BitLenW(m), 1)
         IN VarBytes(n, k, 1, <<IF IsNeg(v) THEN 1 ELSE 0>>, LowBits(m, SCap(n, k)))

FitsVarU(n, v) == LeastU(n, BitLenW(v), 1) <= n
FitsVarS(n, v) == (n = 9 /\ v = MinW) \/ LeastS(n, BitLenW(AbsW(v)), 1) <= n
FitsSize(v) == ~ULt(MaxVarsize, v)

-----------------------------------------------------------------------------
(* Half precision.  The memory value is a float32 pattern.                  *)

F32Exp(v) == (v[3] \div 128) % 256
F32Man(v) == (v[3] % 128) * 65536 + v[4]
F32Sign(v) == v[3] \div 32768
F32IsNaN(v) == F32Exp(v) = 255 /\ F32Man(v) # 0
HalfIsNaN(h) == (h \div 1024) % 32 = 31 /\ h % 1024 # 0

\* m * 2^-s rounded to nearest, ties to even (0 <= s)
RoundShift(m, s) ==
    IF s > 25 THEN 0
    ELSE LET q == m \div Pow2(s)
             r == m % Pow2(s)
             half == IF s = 0 THEN 1 ELSE Pow2(s) \div 2
         IN IF s = 0 THEN m
            ELSE IF r > half \/ (r = half /\ q % 2 = 1) THEN q + 1 ELSE q

\* the half-precision pattern of a float32 pattern that is not NaN
F32ToHalf(v) ==
    LET e == F32Exp(v)
        m == F32Man(v)
        s == F32Sign(v) * 32768
        x == e - 127            \* unbiased exponent
    IN IF e = 255 THEN s + 31744
       ELSE IF e = 0 THEN s
       ELSE IF x > 15 THEN s + 31744
       ELSE IF x >= -14 THEN
                \* normal: adding the rounded mantissa may carry into the exponent
                s + (x + 15) * 1024 + RoundShift(8388608 + m, 13) - 1024
       ELSE \* subnormal half: unit 2^-24
            s + RoundShift(8388608 + m, Min2(30, 13 + (-14 - x)))

RECURSIVE NormHalf(_, _)
NormHalf(m, e) == IF m >= 1024 THEN <<m, e>> ELSE NormHalf(m * 2, e - 1)

\* the float32 pattern that equals a half-precision pattern that is not NaN
HalfToF32(h) ==
    LET s == h \div 32768
        e == (h \div 1024) % 32
        m == h % 1024
        Mk(ex, ma) == <<0, 0, s * 32768 + ex * 128 + ma \div 65536, ma % 65536>>
    IN IF e = 31 THEN Mk(255, 0)
       ELSE IF e = 0 /\ m = 0 THEN Mk(0, 0)
       ELSE IF e = 0 THEN LET nm == NormHalf(m, 1)
                          IN Mk(nm[2] - 15 + 127, (nm[1] - 1024) * 8192)
       ELSE Mk(e - 15 + 127, m * 8192)

\* Any payload will do for a NaN: 2 stands for a bit of either value.
HalfNaN(sgn) == <<sgn, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2>>

-----------------------------------------------------------------------------
(* Encoding *)

IsInt(t) == t.k \in {"uint", "int", "varu", "vars", "size"}
IsSigned(t) == t.k \in {"int", "vars"}

\* can the wire type represent the value?
Fits(t, v) ==
    CASE t.k = "uint" -> FitsU(v, t.w)
      [] t.k = "int"  -> FitsS(v, t.w)
      [] t.k = "varu" -> FitsVarU(t.n, v)
      [] t.k = "vars" -> FitsVarS(t.n, v)
      [] t.k = "size" -> FitsSize(v)
      [] t.k = "bytes" -> v.n = Len(v.b)
      [] t.k = "ext"  -> v.n <= 8 * Len(v.b)
      [] OTHER -> TRUE

SizeBits(n) == VarUBits(5, FromInt(n))

PrimBits(t, v) ==
    CASE t.k = "uint" -> LowBits(v, t.w)
      [] t.k = "int"  -> LowBits(v, t.w)
      [] t.k = "varu" -> VarUBits(t.n, v)
      [] t.k = "vars" -> VarSBits(t.n, v)
      [] t.k = "size" -> VarUBits(5, v)
      [] t.k = "bool" -> <<IF v THEN 1 ELSE 0>>
      [] t.k = "f16"  -> IF F32IsNaN(v) THEN HalfNaN(F32Sign(v)) ELSE LowBits(FromInt(F32ToHalf(v)), 16)
      [] t.k = "f32"  -> LowBits(v, 32)
      [] t.k = "f64"  -> LowBits(v, 64)
      [] t.k = "str"  -> SizeBits(Len(v)) \o ByteBits(v)
      [] t.k = "bytes" -> SizeBits(v.n) \o ByteBits(v.b)
      [] t.k = "ext"  -> SizeBits(v.n) \o SubSeq(ByteBits(v.b), 1, v.n)

\* size in bits of a value, without building it
PrimSize(t, v) ==
    CASE t.k \in {"uint", "int"} -> t.w
      [] t.k = "varu" -> 8 * LeastU(t.n, BitLenW(v), 1)
      [] t.k = "vars" -> IF t.n = 9 /\ v = MinW THEN 8 ELSE 8 * LeastS(t.n, BitLenW(AbsW(v)), 1)
      [] t.k = "size" -> 8 * LeastU(5, BitLenW(v), 1)
      [] t.k = "bool" -> 1
      [] t.k = "f16"  -> 16
      [] t.k = "f32"  -> 32
      [] t.k = "f64"  -> 64
      [] t.k = "str"  -> 8 * LeastU(5, BitLen(Len(v)), 1) + 8 * Len(v)
      [] t.k = "bytes" -> 8 * LeastU(5, BitLen(v.n), 1) + 8 * v.n
      [] t.k = "ext"  -> 8 * LeastU(5, BitLen(v.n), 1) + v.n

-----------------------------------------------------------------------------
(* Decoding from the bits of a byte sequence, starting after pos bits.      *)
(* Result: [ok, v, n] with n the bits consumed; ok = FALSE when the input   *)
(* ends too early or the bits denote no value.                              *)

Have(inp, pos, n) == n <= 8 * Len(inp) - pos
Take(inp, pos, n) == [i \in 1..n |-> BitAt(inp, pos + i)]
Bad == [ok |-> FALSE, v |-> Zero, n |-> 0]
Got(v, n) == [ok |-> TRUE, v |-> v, n |-> n]

\* payload of a variable-length integer: <<>> if the input ends, else <<bits, number of bytes>>
RECURSIVE VarRead(_, _, _, _, _, _)
VarRead(inp, pos, n, i, sgn, acc) ==
    IF ~Have(inp, pos, 8) THEN <<>>
    ELSE LET b == Take(inp, pos, 8)
             drop == IF i = 1 /\ sgn THEN 1 ELSE 0
             cont == i < n /\ b[1 + drop] = 1
             pay == SubSeq(b, 1 + drop + (IF i < n THEN 1 ELSE 0), 8)
         IN IF cont THEN VarRead(inp, pos + 8, n, i + 1, sgn, acc \o pay)
            ELSE <<acc \o pay, i>>

\* at most 64 payload bits are significant; varsize has 36 of which 31 may be used
LastBits(p, n) == IF Len(p) <= n THEN p ELSE SubSeq(p, Len(p) - n + 1, Len(p))

DecVarU(inp, pos, n) == LET r == VarRead(inp, pos, n, 1, FALSE, <<>>)
                        IN IF r = <<>> THEN Bad ELSE Got(FromBits(LastBits(r[1], 64)), 8 * r[2])
DecVarS(inp, pos, n) ==
    LET r == VarRead(inp, pos, n, 1, TRUE, <<>>)
    IN IF r = <<>> THEN Bad
       ELSE LET m == FromBits(r[1])
                neg == BitAt(inp, pos + 1) = 1
            IN IF neg /\ m = Zero
               THEN (IF n = 9 /\ r[2] = 1 THEN Got(MinW, 8) ELSE Got(Zero, 8 * r[2]))
               ELSE Got(IF neg THEN NegW(m) ELSE m, 8 * r[2])
DecSize(inp, pos) ==
    LET r == DecVarU(inp, pos, 5)
    IN IF r.ok /\ FitsSize(r.v) THEN r ELSE Bad

DecPrim(t, inp, pos) ==
    CASE t.k = "uint" -> IF Have(inp, pos, t.w) THEN Got(FromBits(Take(inp, pos, t.w)), t.w) ELSE Bad
      [] t.k = "int"  -> IF Have(inp, pos, t.w) THEN Got(SignExt(Take(inp, pos, t.w)), t.w) ELSE Bad
      [] t.k = "varu" -> DecVarU(inp, pos, t.n)
      [] t.k = "vars" -> DecVarS(inp, pos, t.n)
      [] t.k = "size" -> DecSize(inp, pos)
      [] t.k = "bool" -> IF Have(inp, pos, 1) THEN Got(BitAt(inp, pos + 1) = 1, 1) ELSE Bad
      [] t.k = "f16"  -> IF Have(inp, pos, 16)
                         THEN LET h == FromBits(Take(inp, pos, 16))[4]
                              IN Got(IF HalfIsNaN(h) THEN <<0, 0, (h \div 32768) * 32768 + 32704, 0>> ELSE HalfToF32(h), 16)
                         ELSE Bad
      [] t.k = "f32"  -> IF Have(inp, pos, 32) THEN Got(FromBits(Take(inp, pos, 32)), 32) ELSE Bad
      [] t.k = "f64"  -> IF Have(inp, pos, 64) THEN Got(FromBits(Take(inp, pos, 64)), 64) ELSE Bad
      [] t.k \in {"str", "bytes"} ->
            LET h == DecSize(inp, pos)
            IN IF ~h.ok THEN Bad
               ELSE LET n == ToInt(h.v)
                    IN IF n > (8 * Len(inp) - pos - h.n) \div 8 THEN Bad
                       ELSE LET b == PadBytes(Take(inp, pos + h.n, 8 * n))
                            IN Got(IF t.k = "str" THEN b ELSE [b |-> b, n |-> n], h.n + 8 * n)
      [] t.k = "ext" ->
            LET h == DecSize(inp, pos)
            IN IF ~h.ok THEN Bad
               ELSE LET n == ToInt(h.v)
                    IN IF ~Have(inp, pos + h.n, n) THEN Bad
                       ELSE Got([b |-> PadBytes(Take(inp, pos + h.n, n)), n |-> n], h.n + n)

\* equality of values of a primitive type (a half-precision NaN has no pattern of its own)
SameValue(t, a, b) ==
    CASE t.k = "f16" -> a = b \/ (F32IsNaN(a) /\ F32IsNaN(b))
      [] OTHER -> a = b
=============================================================================

------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Floating-point numbers of schema expressions as exact numbers            *)
(* (-1)^n * m * 2^e: m is a wide natural number that is odd, or zero.       *)
(* Infinities are numbers with an exponent out of reach; the zeros are one  *)
(* number.  An operation has an exact result or none: whenever a result is  *)
(* exactly representable with the precision it is computed with, IEEE 754   *)
(* arithmetic yields it, whatever the order and the widths of the steps.    *)
(***************************************************************************)
EXTENDS Wide

DZero == [n |-> FALSE, m |-> WZero, e |-> 0]
Dy(n, m, e) ==
    IF m = WZero THEN DZero
    ELSE CHOOSE d \in {[n |-> n, m |-> WShr(m, z), e |-> e + z] : z \in {WBitLen(WAnd(m, WNeg(m))) - 1}} : TRUE
DInt(w) == Dy(WNegative(w), WAbs(w), 0)

\* the numbers of the bit patterns of double and single precision
D64NaN(w) == (w[1] % 32768) \div 16 = 2047 /\ (w[1] % 16 # 0 \/ w[2] # 0 \/ w[3] # 0 \/ w[4] # 0)
D32NaN(w) == (w[3] % 32768) \div 128 = 255 /\ (w[3] % 128 # 0 \/ w[4] # 0)
Far == 5000
D64(w) == LET x == (w[1] % 32768) \div 16
              f == <<0, w[1] % 16, w[2], w[3], w[4]>>
              n == w[1] >= 32768
          IN IF x = 2047 THEN Dy(n, WOne, Far)
             ELSE IF x = 0 THEN Dy(n, f, -1074) ELSE Dy(n, WAdd(f, WShl(WOne, 52)), x - 1075)
D32(w) == LET x == (w[3] % 32768) \div 128
              f == <<0, 0, 0, w[3] % 128, w[4]>>
              n == w[3] >= 32768
          IN IF x = 255 THEN Dy(n, WOne, Far)
             ELSE IF x = 0 THEN Dy(n, f, -149) ELSE Dy(n, WAdd(f, WShl(WOne, 23)), x - 150)

\* d is a number of p significant bits, in the middle of the range of exponents
DExact(d, p) == d.m = WZero \/ (WBitLen(d.m) <= p /\ d.e \in -90..90)

DNeg(a) == IF a.m = WZero THEN a ELSE [a EXCEPT !.n = ~@]
\* <<sum>>, or <<>> if it has too many digits
DSum(a, b) ==
    IF a.m = WZero THEN <<b>> ELSE IF b.m = WZero THEN <<a>>
    ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e
             S(x) == LET w == WShl(x.m, x.e - e) IN IF x.n THEN WNeg(w) ELSE w
         IN IF WBitLen(a.m) + a.e - e > 76 \/ WBitLen(b.m) + b.e - e > 76 THEN <<>>
            ELSE CHOOSE r \in {<<Dy(WNegative(w), WAbs(w), e)>> : w \in {WAdd(S(a), S(b))}} : TRUE
DProduct(a, b) ==
    IF WBitLen(a.m) + WBitLen(b.m) > 76 THEN <<>> ELSE <<Dy(a.n # b.n, WMul(a.m, b.m), a.e + b.e)>>
\* quotients that have finitely many binary digits
DQuotient(a, b) ==
    IF b.m = WZero THEN <<>> ELSE IF a.m = WZero THEN <<a>>
    ELSE IF WMod(a.m, b.m) # WZero THEN <<>> ELSE <<Dy(a.n # b.n, WDiv(a.m, b.m), a.e - b.e)>>
DLt(a, b) ==
    LET An == a.n /\ a.m # WZero
        Bn == b.n /\ b.m # WZero
        \* of absolute values
        Lt(x, y) == IF y.m = WZero THEN FALSE ELSE IF x.m = WZero THEN TRUE
                    ELSE LET p == WBitLen(x.m) + x.e
                             q == WBitLen(y.m) + y.e
                         IN IF p # q THEN p < q
                            ELSE LET e == IF x.e < y.e THEN x.e ELSE y.e
                                 IN WLt(WShl(x.m, x.e - e), WShl(y.m, y.e - e))
    IN IF An # Bn THEN An ELSE IF An THEN Lt(b, a) ELSE Lt(a, b)
=============================================================================

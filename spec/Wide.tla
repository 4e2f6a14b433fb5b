-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Integers of schema expressions: 80-bit two's complement numbers as       *)
(* 5-tuples of 16-bit limbs, most significant first.  They hold every       *)
(* signed and unsigned 64-bit value, so the mathematical result of one      *)
(* operation on machine words is exact (products: see WMul).                *)
(***************************************************************************)
EXTENDS Words, Bitwise, SequencesExt

WZero == <<0, 0, 0, 0, 0>>
WOne == <<0, 0, 0, 0, 1>>
WMinus == <<65535, 65535, 65535, 65535, 65535>>
WNegative(x) == x[1] >= 32768
\* sign- or zero-extend a word
WS(w) == <<IF w[1] >= 32768 THEN 65535 ELSE 0, w[1], w[2], w[3], w[4]>>
WU(w) == <<0, w[1], w[2], w[3], w[4]>>
\* the low 64 bits
WWord(x) == <<x[2], x[3], x[4], x[5]>>

\* |x| < 2^30: arithmetic on TLC integers is safe (sums, and products of half that size)
WTiny(x) == \/ x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] < 16384
            \/ x[1] = 65535 /\ x[2] = 65535 /\ x[3] = 65535 /\ x[4] >= 49152
WInt(x) == IF WNegative(x) THEN -((65535 - x[4]) * 65536 + (65535 - x[5])) - 1 ELSE x[4] * 65536 + x[5]
WFrom(i) == IF i >= 0 THEN <<0, 0, 0, i \div 65536, i % 65536>>
            ELSE LET j == -(i + 1) IN <<65535, 65535, 65535, 65535 - (j \div 65536), 65535 - (j % 65536)>>

WNot(x) == <<65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4], 65535 - x[5]>>
WAdd(x, y) ==
    LET e == x[5] + y[5]
        d == x[4] + y[4] + e \div 65536
        c == x[3] + y[3] + d \div 65536
        b == x[2] + y[2] + c \div 65536
        a == x[1] + y[1] + b \div 65536
    IN <<a % 65536, b % 65536, c % 65536, d % 65536, e % 65536>>
WNeg(x) == WAdd(WNot(x), WOne)
WSub(x, y) == WAdd(x, WNeg(y))
WAbs(x) == IF WNegative(x) THEN WNeg(x) ELSE x

RECURSIVE LexLt(_, _, _)
LexLt(x, y, i) == IF i > 5 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LexLt(x, y, i + 1)
WLt(x, y) == IF WNegative(x) # WNegative(y) THEN WNegative(x) ELSE LexLt(x, y, 1)

\* x * 2^n (modulo 2^80), x div 2^n rounded down (0 <= n <= 79)
WShl(x, n) ==
    LET q == n \div 16
        s == n % 16
        At(i) == IF i > 5 THEN 0 ELSE x[i]
    IN IF n = 0 THEN x ELSE IF n > 79 THEN WZero
       ELSE <<(At(1 + q) % P2[17 - s]) * P2[s + 1] + At(2 + q) \div P2[17 - s],
              (At(2 + q) % P2[17 - s]) * P2[s + 1] + At(3 + q) \div P2[17 - s],
              (At(3 + q) % P2[17 - s]) * P2[s + 1] + At(4 + q) \div P2[17 - s],
              (At(4 + q) % P2[17 - s]) * P2[s + 1] + At(5 + q) \div P2[17 - s],
              (At(5 + q) % P2[17 - s]) * P2[s + 1] + At(6 + q) \div P2[17 - s]>>
WShr(x, n) ==
    LET q == n \div 16
        s == n % 16
        At(i) == IF i < 1 THEN (IF x[1] >= 32768 THEN 65535 ELSE 0) ELSE x[i]
        L(i) == At(i - q) \div P2[s + 1] + (At(i - q - 1) % P2[s + 1]) * P2[17 - s]
    IN IF n = 0 THEN x ELSE <<L(1), L(2), L(3), L(4), L(5)>>

\* products modulo 2^80, with digits of 8 bits
WMul(x, y) ==
    LET a == <<x[5] % 256, x[5] \div 256, x[4] % 256, x[4] \div 256, x[3] % 256, x[3] \div 256, x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>>
        b == <<y[5] % 256, y[5] \div 256, y[4] % 256, y[4] \div 256, y[3] % 256, y[3] \div 256, y[2] % 256, y[2] \div 256, y[1] % 256, y[1] \div 256>>
        D(k) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[k + 1 - i], 0, [i \in 1..k |-> i])
        d == FoldLeft(LAMBDA acc, k : LET t == acc[1] + D(k) IN <<t \div 256, Append(acc[2], t % 256)>>, <<0, <<>>>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)[2]
    IN <<d[10] * 256 + d[9], d[8] * 256 + d[7], d[6] * 256 + d[5], d[4] * 256 + d[3], d[2] * 256 + d[1]>>

\* long division of non-negative numbers: <<quotient, remainder>>
LOCAL WBits(x) == [i \in 1..80 |-> (x[(i - 1) \div 16 + 1] \div P2[16 - ((i - 1) % 16)]) % 2]
LOCAL Divide(x, y) ==
    FoldLeft(LAMBDA acc, bit : LET r == WAdd(WAdd(acc[2], acc[2]), IF bit = 1 THEN WOne ELSE WZero)
                                   q == WAdd(acc[1], acc[1])
                               IN IF WLt(r, y) THEN <<q, r>> ELSE <<WAdd(q, WOne), WSub(r, y)>>,
             <<WZero, WZero>>, WBits(x))
LOCAL UDiv(x, y) == IF WTiny(x) /\ WTiny(y) THEN <<WFrom(WInt(x) \div WInt(y)), WFrom(WInt(x) % WInt(y))>> ELSE Divide(x, y)
\* division truncates toward zero
WDiv(x, y) == LET q == UDiv(WAbs(x), WAbs(y))[1] IN IF WNegative(x) = WNegative(y) THEN q ELSE WNeg(q)
WMod(x, y) == LET r == UDiv(WAbs(x), WAbs(y))[2] IN IF WNegative(x) THEN WNeg(r) ELSE r

WAnd(x, y) == [i \in 1..5 |-> x[i] & y[i]]
WOr(x, y) == [i \in 1..5 |-> x[i] | y[i]]
WXor(x, y) == [i \in 1..5 |-> (x[i] | y[i]) - (x[i] & y[i])]

WBitLen(x) == IF x[1] # 0 THEN 64 + BitLen(x[1]) ELSE BitLenW(WWord(x))
=============================================================================

------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* 64-bit machine words.  TLC integers are 32 bits wide, so a word is a    *)
(* 4-tuple of 16-bit limbs, most significant limb first.  Signed values    *)
(* are in two's complement, sign-extended to 64 bits.                      *)
(* Bit strings are sequences over {0,1}, most significant bit first.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
        32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
        8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
        536870912, 1073741824>>
Pow2(n) == P2[n + 1]            \* 0 <= n <= 30

Zero == <<0, 0, 0, 0>>
One  == <<0, 0, 0, 1>>
MinW == <<32768, 0, 0, 0>>      \* the most negative signed word

BitsOf(w) == [i \in 1..64 |-> (w[(i - 1) \div 16 + 1] \div P2[16 - ((i - 1) % 16)]) % 2]

\* the n low bits of w, most significant first (0 <= n <= 64)
LowBits(w, n) == [i \in 1..n |->
    LET j == 64 - n + i IN (w[(j - 1) \div 16 + 1] \div P2[16 - ((j - 1) % 16)]) % 2]

LOCAL B(p, i) == IF i < 1 THEN 0 ELSE p[i]
LOCAL Limb(p, e) ==  \* 16 bits of p ending at index e; indices below 1 are 0
    IF e < 1 THEN 0 ELSE
      B(p, e) + 2 * B(p, e-1) + 4 * B(p, e-2) + 8 * B(p, e-3)
    + 16 * B(p, e-4) + 32 * B(p, e-5) + 64 * B(p, e-6) + 128 * B(p, e-7)
    + 256 * B(p, e-8) + 512 * B(p, e-9) + 1024 * B(p, e-10) + 2048 * B(p, e-11)
    + 4096 * B(p, e-12) + 8192 * B(p, e-13) + 16384 * B(p, e-14) + 32768 * B(p, e-15)

\* unsigned value of a bit string of at most 64 bits
FromBits(p) == LET n == Len(p) IN <<Limb(p, n-48), Limb(p, n-32), Limb(p, n-16), Limb(p, n)>>

AddW(x, y) ==
    LET d == x[4] + y[4]
        c == x[3] + y[3] + d \div 65536
        b == x[2] + y[2] + c \div 65536
        a == x[1] + y[1] + b \div 65536
    IN <<a % 65536, b % 65536, c % 65536, d % 65536>>
NotW(x) == <<65535 - x[1], 65535 - x[2], 65535 - x[3], 65535 - x[4]>>
NegW(x) == AddW(NotW(x), One)
SubW(x, y) == AddW(x, NegW(y))
IsNeg(x) == x[1] >= 32768
AbsW(x) == IF IsNeg(x) THEN NegW(x) ELSE x

ULt(x, y) == \/ x[1] < y[1]
             \/ x[1] = y[1] /\ (\/ x[2] < y[2]
                                \/ x[2] = y[2] /\ (\/ x[3] < y[3]
                                                   \/ x[3] = y[3] /\ x[4] < y[4]))
SLt(x, y) == IF IsNeg(x) = IsNeg(y) THEN ULt(x, y) ELSE IsNeg(x)

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)

BitLenW(x) == IF x[1] # 0 THEN 48 + BitLen(x[1])
         ELSE IF x[2] # 0 THEN 32 + BitLen(x[2])
         ELSE IF x[3] # 0 THEN 16 + BitLen(x[3])
         ELSE BitLen(x[4])

FitsU(x, n) == BitLenW(x) <= n
FitsS(x, n) == IF IsNeg(x) THEN BitLenW(NotW(x)) <= n - 1 ELSE BitLenW(x) <= n - 1

\* sign extension of a bit string
SignExt(p) == IF p = <<>> \/ p[1] = 0 THEN FromBits(p)
              ELSE LET n == Len(p) IN FromBits([i \in 1..64 |-> IF i <= 64 - n THEN 1 ELSE p[i - 64 + n]])

FromInt(i) == IF i >= 0 THEN <<0, 0, i \div 65536, i % 65536>>
              ELSE NegW(<<0, 0, (-i) \div 65536, (-i) % 65536>>)
\* is the word a TLC integer?
Small(x) == \/ x[1] = 0 /\ x[2] = 0 /\ x[3] < 32768
            \/ x[1] = 65535 /\ x[2] = 65535 /\ x[3] >= 32768 /\ x # <<65535, 65535, 32768, 0>>
ToInt(x) == IF IsNeg(x) THEN LET m == NegW(x) IN -(m[3] * 65536 + m[4])
            ELSE x[3] * 65536 + x[4]

\* bits of a byte sequence
ByteBits(b) == [i \in 1..(8 * Len(b)) |-> (b[(i - 1) \div 8 + 1] \div P2[8 - ((i - 1) % 8)]) % 2]
\* bit i (1-based) of a byte sequence
BitAt(b, i) == (b[(i - 1) \div 8 + 1] \div P2[8 - ((i - 1) % 8)]) % 2
\* bytes of a bit string, zero-padded to a byte boundary
PadBytes(p) ==
    LET n == (Len(p) + 7) \div 8
        G(i) == IF i <= Len(p) THEN p[i] ELSE 0
    IN [k \in 1..n |-> 128 * G(8*k-7) + 64 * G(8*k-6) + 32 * G(8*k-5) + 16 * G(8*k-4)
                       + 8 * G(8*k-3) + 4 * G(8*k-2) + 2 * G(8*k-1) + G(8*k)]
Zeros(n) == [i \in 1..n |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================

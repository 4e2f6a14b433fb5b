----------------------------- MODULE BitStream -----------------------------
(***************************************************************************)
(* The bit writer and the bit reader.  A stream is a sequence of bits; the *)
(* writer appends, the reader takes from the front.  Operations:           *)
(*   [o |-> "bits",  v, n]   the n low bits of word v (0..64)              *)
(*   [o |-> "raw",   v, n]   the same for a v that has no other bits       *)
(*   [o |-> "bool",  v]      one bit, v[4] odd                             *)
(*   [o |-> "byte",  v]      the low byte of v                             *)
(*   [o |-> "slice", b]      the bytes of b                                *)
(*   [o |-> "align", n]      zeros up to a multiple of n (1..255)          *)
(* The writer's state is what it has written, the reader's its position.   *)
(***************************************************************************)
EXTENDS Words

Gap(p, n) == IF p % n = 0 THEN 0 ELSE n - (p % n)

\* the bits an operation writes at position p
OpBits(op, p) ==
    CASE op.o \in {"bits", "raw"} -> LowBits(op.v, op.n)
      [] op.o = "bool" -> <<op.v[4] % 2>>
      [] op.o = "byte" -> LowBits(op.v, 8)
      [] op.o = "slice" -> ByteBits(op.b)
      [] op.o = "align" -> Zeros(Gap(p, op.n))
OpLen(op, p) ==
    CASE op.o \in {"bits", "raw"} -> op.n
      [] op.o = "bool" -> 1
      [] op.o = "byte" -> 8
      [] op.o = "slice" -> 8 * Len(op.b)
      [] op.o = "align" -> Gap(p, op.n)

\* the value an operation reads from the bits x it takes
OpValue(op, x) ==
    CASE op.o \in {"bits", "raw"} -> FromBits(x)
      [] op.o = "bool" -> FromBits(x)
      [] op.o = "byte" -> FromBits(x)
      [] OTHER -> Zero
\* and the bytes
OpBytes(op, x) == IF op.o = "slice" THEN PadBytes(x) ELSE <<>>
=============================================================================

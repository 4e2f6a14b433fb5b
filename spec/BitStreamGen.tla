---------------------------- MODULE BitStreamGen ----------------------------
(* Random behaviours of a writer, printed for replaying with the real code. *)
EXTENDS BitStream, TLC, Json
CONSTANT L
VARIABLES out, hist
vars == <<out, hist>>
RW(n) == LET m == RandomElement({"any", "zero", "ones", "top", "low"})
         IN CASE m = "zero" -> Zero
              [] m = "ones" -> <<65535, 65535, 65535, 65535>>
              [] m = "top" -> FromBits([i \in 1..64 |-> IF i = 65 - n THEN 1 ELSE 0])
              [] m = "low" -> One
              [] OTHER -> <<RandomElement(0..65535), RandomElement(0..65535), RandomElement(0..65535), RandomElement(0..65535)>>
RN(o) == RandomElement(0..9) + RandomElement({0, 0, 8, 16, 24, 27, 32, 48, 55})
RL(o) == RandomElement({0, 1, 2, 3, 5, 8, 9, 17})
Op(o) ==
    LET n == RN(o)
        w == RW(n)
        l == RL(o)
    IN [o |-> o,
        n |-> CASE o = "align" -> RandomElement({1, 2, 3, 4, 7, 8, 8, 16, 24, 32, 33, 63, 64, 65, 128, 255, RandomElement(1..255)})
                [] o \in {"bits", "raw"} -> n
                [] OTHER -> 0,
        v |-> IF o \in {"raw"} THEN FromBits(LowBits(w, n)) ELSE w,
        b |-> IF o = "slice" THEN [i \in 1..l |-> RandomElement(0..255)] ELSE <<>>]
GInit == out = <<>> /\ hist = <<>>
Next1 == /\ Len(hist) < L
         /\ \E o \in {"bits", "raw", "bool", "byte", "slice", "align", "bits"} :
              \E op \in {Op(o)} :
                 /\ out' = out \o OpBits(op, Len(out))
                 /\ hist' = Append(hist, op)
Show == Len(hist) = L /\ PrintT("SCRIPT" \o ToJson(hist)) /\ UNCHANGED vars
GNext == Next1 \/ Show
GSpec == GInit /\ [][GNext]_vars

\* aligning ends at a multiple, with less than n bits more
AlignOK == [][LET op == hist'[Len(hist')]
              IN op.o = "align" => Len(out') % op.n = 0 /\ Len(out') - Len(out) < op.n]_vars
\* nothing that has been written changes
AppendOnly == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
=============================================================================

--------------------------- MODULE BitStreamTrace ---------------------------
(***************************************************************************)
(* Recorded runs of the writer and of the reader, checked step by step.    *)
(*   i, m "w"/"r"; ops: sequence of [op, r, p, v, b]: outcome, position    *)
(*   afterwards, what was read; fin: the bytes of the stream; c: how       *)
(*   closing ended.                                                        *)
(*   m "a": the table of align(n): rows [n, k, p, fin, r]: after k bits    *)
(*   that are one, aligning went to position p; then a one was written     *)
(***************************************************************************)
EXTENDS BitStream, TLC, Json, IOUtils
VARIABLES C, k, out, bad
vars == <<C, k, out, bad>>
TInit == C = ndJsonDeserialize(IOEnv.CASES) /\ k = -1 /\ out = <<>> /\ bad = <<>>
Pick == /\ k = -1 /\ \E i \in 1..Len(C) : C' = C[i]
        /\ k' = 0 /\ UNCHANGED <<out, bad>>

Wr == LET q == C.ops[k + 1]
          o == out \o OpBits(q.op, Len(out))
      IN /\ out' = o
         /\ bad' = IF q.r # "ok" THEN <<q.r>>
                   ELSE (IF q.p # Len(o) THEN <<"position">> ELSE <<>>)
                     \o (IF k + 1 = Len(C.ops)
                         THEN (IF C.c # "ok" THEN <<"close">> ELSE IF PadBytes(o) # C.fin THEN <<"bits">> ELSE <<>>)
                         ELSE <<>>)

\* out: as many zeros as bits have been taken (only its length counts)
Rd == LET q == C.ops[k + 1]
          p == Len(out)
          n == OpLen(q.op, p)
          have == n <= 8 * Len(C.fin) - p
          x == [i \in 1..n |-> BitAt(C.fin, p + i)]
      IN /\ out' = IF have THEN out \o Zeros(n) ELSE out
         /\ bad' = IF ~have THEN (IF q.r = "err" THEN <<>> ELSE <<"accepted">>)
                   ELSE IF q.r # "ok" THEN <<q.r>>
                   ELSE (IF q.p # p + n THEN <<"position">> ELSE <<>>)
                     \o (IF q.v # OpValue(q.op, x) \/ q.b # OpBytes(q.op, x) THEN <<"value">> ELSE <<>>)

AlignRow(q) == LET p == q.k + Gap(q.k, q.n)
                   bits == [i \in 1..(p + 1) |-> IF i <= q.k \/ i = p + 1 THEN 1 ELSE 0]
               IN q.r = "ok" /\ q.p = p /\ q.fin = PadBytes(bits) /\ q.rp = p
Al == /\ bad' = (IF AlignRow(C.ops[k + 1]) THEN <<>> ELSE <<"align">>)
      /\ UNCHANGED out

Step == /\ k >= 0 /\ bad = <<>> /\ k < Len(C.ops)
        /\ CASE C.m = "w" -> Wr [] C.m = "r" -> Rd [] C.m = "a" -> Al
        /\ k' = k + 1
        /\ IF bad' # <<>> THEN PrintT("VERDICT" \o ToJson([i |-> C.i, k |-> k', w |-> bad']))
           ELSE IF k' < Len(C.ops) THEN TRUE ELSE PrintT("VERDICT" \o ToJson([i |-> C.i, k |-> 0, w |-> <<>>]))
        /\ UNCHANGED C
TSpec == TInit /\ [][Pick \/ Step]_vars
TView == IF k = -1 THEN <<-1, k>> ELSE <<C.i, k>>
=============================================================================

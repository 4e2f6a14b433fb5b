----------------------------- MODULE PrimTrace -----------------------------
(***************************************************************************)
(* Conformance of the implementation with Wire, one primitive value at a   *)
(* time and in bulk: tables of marshalled and unmarshalled single-field    *)
(* objects.  Every state of this machine judges one table.                 *)
(*   i  table number       t  primitive type       st  start offset        *)
(*   m  "enc" or "dec"     rows:                                           *)
(*   enc  [v, r, e, b, z, rr, re, g]: value, outcome, end position, bytes  *)
(*        of the stream, reported size, outcome/end/value of decoding b    *)
(*   dec  [b, r, e, g]: input, outcome, end position, value                *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils, FiniteSets

VARIABLES ph, C
PInit == ph = "pick" /\ C = ndJsonDeserialize(IOEnv.CASES)
Pick == /\ ph = "pick"
        /\ \E i \in 1..Len(C) : C' = C[i]
        /\ ph' = "judge"

BitOk(x, b, i) == i <= 8 * Len(b) /\ (x = 2 \/ BitAt(b, i) = x)

\* the real code may come up with fewer bytes than bits
SameExt(v, g) == v.n = g.n /\ v.n <= 8 * Len(g.b) /\ SubSeq(ByteBits(g.b), 1, v.n) = SubSeq(ByteBits(v.b), 1, v.n)

WrongEnc(t, st, q) ==
    IF q.r = "panic" THEN <<"panic">>
    ELSE IF ~Fits(t, q.v) THEN (IF q.r = "err" THEN <<>> ELSE <<"accepted">>)
    ELSE IF q.r # "ok" THEN <<"refused">>
    ELSE LET o == PrimBits(t, q.v)
             end == st + Len(o)
         IN (IF \A i \in 1..Len(o) : BitOk(o[i], q.b, st + i) THEN <<>> ELSE <<"bits">>)
         \o (IF q.e = end THEN <<>> ELSE <<"length">>)
         \o (IF Len(q.b) = (end + 7) \div 8 /\ \A i \in (end + 1)..(8 * Len(q.b)) : BitAt(q.b, i) = 0 THEN <<>> ELSE <<"padding">>)
         \o (IF q.z = Len(o) /\ PrimSize(t, q.v) = Len(o) THEN <<>> ELSE <<"size">>)
         \o (IF q.rr # "ok" THEN <<"rt-refused">>
             ELSE (IF q.re = end THEN <<>> ELSE <<"rt-length">>)
               \o (IF (IF t.k = "f16" THEN (IF F32IsNaN(q.v) THEN F32IsNaN(q.g) ELSE q.g = HalfToF32(F32ToHalf(q.v)))
                       ELSE IF t.k = "ext" THEN SameExt(q.v, q.g)
                       ELSE q.g = q.v) THEN <<>> ELSE <<"rt-value">>))

WrongDec(t, st, q) ==
    IF q.r = "panic" THEN <<"panic">>
    ELSE LET d == DecPrim(t, q.b, st)
         IN IF ~d.ok THEN (IF q.r = "err" THEN <<>> ELSE <<"accepted">>)
            ELSE IF q.r # "ok" THEN <<"refused">>
            ELSE (IF q.e = st + d.n THEN <<>> ELSE <<"length">>)
              \o (IF (IF t.k = "ext" THEN SameExt(d.v, q.g)
                      ELSE SameValue(t, d.v, q.g)) THEN <<>> ELSE <<"value">>)

Wrong(q) == IF C.m = "enc" THEN WrongEnc(C.t, C.st, q) ELSE WrongDec(C.t, C.st, q)

Judge == /\ ph = "judge"
         /\ LET ws == [k \in 1..Len(C.rows) |-> Wrong(C.rows[k])]
                bad == SelectSeq([k \in 1..Len(ws) |-> [k |-> k, w |-> ws[k]]], LAMBDA x : x.w # <<>>)
                nok == Cardinality({k \in 1..Len(ws) : IF C.m = "enc" THEN Fits(C.t, C.rows[k].v) ELSE DecPrim(C.t, C.rows[k].b, C.st).ok})
            IN PrintT("VERDICT" \o ToJson([i |-> C.i, ok |-> nok, bad |-> bad]))
         /\ ph' = "done" /\ UNCHANGED C

PSpec == PInit /\ [][Pick \/ Judge]_<<ph, C>>
PView == IF ph = "pick" THEN <<-1, ph>> ELSE <<C.i, ph>>
=============================================================================

----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the implementation with Codec.          *)
(* Every case is one call of MarshalZserio or UnmarshalZserio:             *)
(*   i   case number            s  schema          t   type                *)
(*   m   "enc" or "dec"         st start position in bits                  *)
(*   src enc: the value; dec: a record with the parameters of the type     *)
(*   b   enc: the bytes of the whole stream; dec: the input                *)
(*   r   "ok", "err" or "panic": how the call ended                        *)
(*   e   the position in bits after the call                               *)
(*   z   enc: the size reported for this start position (-1: an error)     *)
(*   g   dec: the object afterwards                                        *)
(*   rt  enc: <<>> or <<[r, e, g]>>, how decoding the bytes went           *)
(*   sk  enc: runs of the same object with a sink that fails: [max, got, r,  *)
(*       c, x]: bytes the sink takes before it fails, bytes it took, how    *)
(*       marshalling and closing ended, whether the failure was described   *)
(*   sf  dec: <<>> or <<x>> for a source that fails with its own error at    *)
(*       the end of b; x: the error that was returned describes it          *)
(*   last enc: nothing was written after this object                       *)
(* TLC runs the machine on every case and prints a verdict for each.       *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

VARIABLES C,     \* the case; to begin with, all schemas and cases
          n      \* the number of steps taken

TInit == /\ C = [schemas |-> ndJsonDeserialize(IOEnv.SCHEMAS), cases |-> ndJsonDeserialize(IOEnv.CASES)]
         /\ n = 0
         /\ sch = <<>> /\ top = "" /\ mode = "" /\ src = <<>> /\ inp = <<>> /\ pos = 0 /\ out = <<>>
         /\ ctxs = <<>> /\ ph = "pick" /\ ret = <<>> /\ stk = <<>>

Pick == /\ ph = "pick"
        /\ \E i \in 1..Len(C.cases) :
             LET c == C.cases[i]
             IN /\ C' = c
                /\ sch' = C.schemas[c.s]
                /\ top' = c.t
                /\ mode' = c.m
                /\ inp' = c.b
                /\ pos' = c.st
                /\ ph' = "boot"
                /\ UNCHANGED <<src, out, stk, ctxs, ret>>

Boot == /\ ph = "boot"
        /\ stk' = StartStack(top, mode, C.src)
        /\ ph' = "run"
        /\ UNCHANGED <<sch, top, mode, src, inp, pos, out, ctxs, ret, C>>

Run == /\ Step
       /\ UNCHANGED C

SameBit(x, y) == x = y \/ x = 2
RecBit(i) == IF C.st + i <= 8 * Len(C.b) THEN BitAt(C.b, C.st + i) ELSE 3

\* position of the first bit that differs, 0 if none
FirstDiff == LET D == {i \in 1..Len(out) : ~SameBit(out[i], RecBit(i))}
             IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j

\* what is wrong with the recorded call, <<>> if nothing
WrongEnc ==
    IF ph = "huge" THEN <<>>
    ELSE IF ph = "err" THEN (IF C.r # "err" THEN <<"accepted">> ELSE <<>>)
    ELSE IF C.r # "ok" THEN <<"refused">>
    ELSE (IF FirstDiff # 0 THEN <<"bits">> ELSE <<>>)
      \o (IF C.e # pos THEN <<"length">> ELSE <<>>)
      \o (IF C.last /\ (Len(C.b) # (C.e + 7) \div 8
                        \/ \E i \in (C.e + 1)..(8 * Len(C.b)) : BitAt(C.b, i) # 0) THEN <<"padding">> ELSE <<>>)
      \o (IF C.z # Len(out) THEN <<"size">> ELSE <<>>)
      \o (IF C.rt = <<>> THEN <<>>
          ELSE LET t == C.rt[1]
               IN IF t.r # "ok" THEN <<"rt-refused">>
                  ELSE (IF t.e # C.e THEN <<"rt-length">> ELSE <<>>)
                    \o (IF ~MatchC(top, ret, t.g, TRUE) THEN <<"rt-value">> ELSE <<>>))
\* A sink that fails: either everything was taken, or the failure is reported.
WrongSink(q) ==
    LET all == q.max >= Len(C.b) \/ q.max < 0
    IN IF q.r = "panic" \/ q.c = "panic" THEN <<"sink-panic">>
       ELSE IF all THEN (IF q.r = "ok" /\ q.c = "ok" /\ q.got = C.b THEN <<>> ELSE <<"sink-refused">>)
       ELSE (IF q.r = "ok" /\ q.c = "ok" THEN <<"sink-silent">> ELSE IF ~q.x THEN <<"sink-other">> ELSE <<>>)
         \o (IF \A i \in 1..Min2(Len(q.got), q.max) : q.got[i] = C.b[i] THEN <<>> ELSE <<"sink-prefix">>)
RECURSIVE WrongSinks(_)
WrongSinks(k) == IF k > Len(C.sk) THEN <<>>
                 ELSE LET w == WrongSink(C.sk[k]) IN IF w # <<>> THEN w ELSE WrongSinks(k + 1)
WrongSource == IF C.r = "err" /\ C.sf # <<>> /\ ph = "err" /\ ~C.sf[1] THEN <<"source-other">> ELSE <<>>

WrongDec ==
    IF ph = "huge" THEN (IF C.r = "panic" THEN <<"panic">> ELSE <<>>)
    ELSE IF ph = "err" THEN (IF C.r = "err" THEN <<>> ELSE <<"accepted">>)
    ELSE IF C.r # "ok" THEN <<"refused">>
    ELSE (IF ~MatchC(top, ret, C.g, FALSE) THEN <<"value">> ELSE <<>>)
      \o (IF C.e # pos THEN <<"length">> ELSE <<>>)

Wrong == IF C.r = "panic" THEN <<"panic">>
         ELSE IF mode = "enc" THEN WrongEnc \o (IF ph = "ok" /\ C.r = "ok" THEN WrongSinks(1) ELSE <<>>)
         ELSE WrongDec \o WrongSource

Judge == /\ ph \in {"ok", "err", "huge"}
         /\ LET w == Wrong
            IN PrintT("VERDICT" \o ToJson(
                 [i |-> C.i, ph |-> ph, w |-> w, e |-> pos,
                  d |-> IF mode = "enc" /\ ph = "ok" /\ C.r = "ok" THEN FirstDiff ELSE 0,
                  x |-> IF w = <<>> THEN <<>>
                        ELSE IF mode = "enc" THEN <<[bits |-> out]>>
                        ELSE IF ph = "ok" THEN <<[val |-> ret]>> ELSE <<>>]))
         /\ ph' = "done"
         /\ stk' = <<>> /\ out' = <<>> /\ ret' = <<>> /\ ctxs' = <<>> /\ inp' = <<>>
         /\ UNCHANGED <<sch, top, mode, src, pos, C>>

TNext == (Pick \/ Boot \/ Run \/ Judge) /\ n' = n + 1
TSpec == TInit /\ [][TNext]_<<mvars, C, n>>

\* every case is a chain of states, so this tells them apart
TView == IF ph = "pick" THEN <<-1, n>> ELSE <<C.i, n>>

\* the machine moves forward only, one frame at a time
StackSane == ph = "run" => Len(stk) >= 1
CtxSane == Len(ctxs) <= Len(stk)
=============================================================================

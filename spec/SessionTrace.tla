---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded sessions: every step of the implementation must be the step of *)
(* Session for the operation, with the observations it calls for.          *)
(*   i, streams (bytes of each content), sizes (bits of each content),     *)
(*   ext[s][j]: [b, z] stream and size of content j after the offset       *)
(*   steps: [o, s, j, r, b, z, ch, can]  ch: slots whose fields changed,   *)
(*          can: the stream was long enough to be cut                      *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils
VARIABLES C, k, bad
vars == <<holds, C, k, bad>>
TInit == SInit /\ C = ndJsonDeserialize(IOEnv.CASES) /\ k = -1 /\ bad = <<>>
Pick == /\ k = -1 /\ \E i \in 1..Len(C) : C' = C[i]
        /\ k' = 0 /\ UNCHANGED <<holds, bad>>
Ch(q) == {q.ch[x] : x \in 1..Len(q.ch)}
Obs(q, op) ==
    CASE op.o = "marshal" -> (IF q.r # "ok" THEN <<"refused">> ELSE IF q.b # C.streams[holds[op.s]] THEN <<"bytes">> ELSE <<>>)
                             \o (IF Ch(q) # {} THEN <<"changed">> ELSE <<>>)
      [] op.o = "size" -> (IF q.z # C.sizes[holds[op.s]] THEN <<"size">> ELSE <<>>)
                          \o (IF Ch(q) # {} THEN <<"changed">> ELSE <<>>)
      [] op.o = "failm" -> (IF q.r # "err" /\ q.can THEN <<"accepted">> ELSE <<>>)
                           \o (IF Ch(q) # {} THEN <<"changed">> ELSE <<>>)
      [] op.o = "unm" -> (IF q.r # "ok" THEN <<"refused">> ELSE <<>>)
                         \o (IF Ch(q) \subseteq {op.s} THEN <<>> ELSE <<"changed">>)
      [] op.o = "funm" -> (IF q.r # "err" /\ q.can THEN <<"accepted">> ELSE <<>>)
                          \o (IF Ch(q) \subseteq {op.s} THEN <<>> ELSE <<"changed">>)
Step == /\ k >= 0 /\ bad = <<>> /\ k < Len(C.steps)
        /\ LET q == C.steps[k + 1]
               op == [o |-> q.o, s |-> q.s, j |-> q.j]
           IN /\ op \in Ops
              /\ Do(op)
              /\ bad' = IF q.r = "panic" THEN <<"panic">> ELSE Obs(q, op)
              /\ k' = k + 1
              /\ IF bad' # <<>> THEN PrintT("VERDICT" \o ToJson([i |-> C.i, k |-> k', w |-> bad']))
                 ELSE IF k' < Len(C.steps) THEN TRUE ELSE PrintT("VERDICT" \o ToJson([i |-> C.i, k |-> 0, w |-> <<>>]))
        /\ UNCHANGED C
TSpec == TInit /\ [][Pick \/ Step]_vars
TView == IF k = -1 THEN <<-1, k>> ELSE <<C.i, k>>
=============================================================================

------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* What a user does with a few objects of one type over time.  Every       *)
(* object ("slot") holds one of K contents; marshalling and sizing show    *)
(* the content and leave everything as it is, unmarshalling stream j makes *)
(* the slot hold content j, whatever it held before, and touches no other  *)
(* slot.  A failed unmarshalling leaves the slot with unknown content (0), *)
(* which only a successful unmarshalling ends.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots, K
VARIABLES holds

Ops == [o : {"marshal", "size", "failm"}, s : Slots, j : {0}]
       \cup [o : {"unm", "funm"}, s : Slots, j : 1..K]

Can(op) == op.o \in {"marshal", "size", "failm"} => holds[op.s] # 0
Do(op) ==
    /\ Can(op)
    /\ holds' = CASE op.o = "unm" -> [holds EXCEPT ![op.s] = op.j]
                  [] op.o = "funm" -> [holds EXCEPT ![op.s] = 0]
                  [] OTHER -> holds

SInit == holds = [s \in Slots |-> s]

TypeOK == holds \in [Slots -> 0..K]
\* what an operation does depends on nothing but the slot it is applied to,
\* and all others keep their content
Local(op) == \A t \in Slots \ {op.s} : holds'[t] = holds[t]
=============================================================================

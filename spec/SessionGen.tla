----------------------------- MODULE SessionGen -----------------------------
(* Every history of L operations (or, simulated, random longer ones),       *)
(* printed for replaying with the real code.                                *)
EXTENDS Session, TLC, Json, IOUtils
CONSTANT L
VARIABLES hist
GInit == SInit /\ hist = <<>>
GNext == /\ Len(hist) < L
         /\ \E op \in Ops : Do(op) /\ hist' = Append(hist, op)
Show == Len(hist) = L /\ PrintT("SCRIPT" \o ToJson(hist)) /\ UNCHANGED <<holds, hist>>
GSpec == GInit /\ [][GNext \/ Show]_<<holds, hist>>
LocalOK == [][Len(hist') > Len(hist) => Local(hist'[Len(hist')])]_<<holds, hist>>
=============================================================================

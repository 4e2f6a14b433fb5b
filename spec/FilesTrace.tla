---------------------------- MODULE FilesTrace -----------------------------
(***************************************************************************)
(* Judges runs of the generator over trees of files.  Records: i, tree,     *)
(* args, st: the exit status, pk: the packages that were emitted.           *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils, TLC

VARIABLES C
TInit == C = ndJsonDeserialize(IOEnv.RUNS) /\ out = "pick" /\ tree = <<>> /\ args = <<>> /\ walk = {} /\ todo = <<>> /\ seen = {} /\ pkgs = {}
Pick == /\ out = "pick"
        /\ \E i \in 1..Len(C) : C' = C[i] /\ tree' = C[i].tree /\ args' = C[i].args
        /\ out' = "run" /\ UNCHANGED <<walk, todo, seen, pkgs>>
Wrong == IF out = "err" THEN (IF C.st = 0 THEN <<"accepted">> ELSE IF C.pk # <<>> THEN <<"emitted">> ELSE <<>>)
         ELSE IF C.st # 0 THEN <<"refused">>
         ELSE IF Range(C.pk) # pkgs THEN <<"packages">> ELSE <<>>
Judge == /\ out \in {"err", "ok"}
         /\ PrintT("VERDICT" \o ToJson([i |-> C.i, w |-> Wrong, out |-> out]))
         /\ out' = "done" /\ UNCHANGED <<C, tree, args, walk, todo, seen, pkgs>>
TNext == Pick \/ (FStep /\ UNCHANGED C) \/ Judge
\* no file is read twice, and only a run without mistakes ends well
Ended == out = "ok" => \A p \in seen : Exists(p) /\ Node(p).ok
=============================================================================

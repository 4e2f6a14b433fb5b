---------------------------- MODULE GrammarTrace ----------------------------
(***************************************************************************)
(* Judges which files the generator takes.  Records: i, t: the tokens of    *)
(* a file.  The verdict says whether it is one.                             *)
(***************************************************************************)
EXTENDS Grammar, Json, IOUtils, TLC

VARIABLES ph, C
GInit == ph = "pick" /\ C = ndJsonDeserialize(IOEnv.FILES)
Pick == ph = "pick" /\ ph' = "work" /\ \E i \in 1..Len(C) : C' = C[i]
Work == /\ ph = "work"
        /\ PrintT("VERDICT" \o ToJson([i |-> C.i, ok |-> Sentence(C.t)]))
        /\ ph' = "done" /\ UNCHANGED C
GNext == Pick \/ Work
=============================================================================

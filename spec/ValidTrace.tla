----------------------------- MODULE ValidTrace -----------------------------
(* Judges worlds: one verdict [i, m] per record [i, w], see Valid.          *)
EXTENDS Valid, Json, IOUtils, SequencesExt

VARIABLES ph, C
VInit == ph = "pick" /\ C = ndJsonDeserialize(IOEnv.WORLDS)
Pick == /\ ph = "pick"
        /\ \E i \in 1..Len(C) : C' = C[i]
        /\ ph' = "work"
Judge == /\ ph = "work"
         /\ \E m \in {Mistakes(C.w)} : PrintT("VERDICT" \o ToJson([i |-> C.i, m |-> SetToSeq(m)]))
         /\ ph' = "done" /\ UNCHANGED C
VView == IF ph = "pick" THEN <<-1, ph>> ELSE <<C.i, ph>>
VSpec == VInit /\ [][Pick \/ Judge]_<<ph, C>>
=============================================================================

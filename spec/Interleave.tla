----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Several operations at the same time.  Each process works through its     *)
(* own stream, one input or output call per step; the steps of the          *)
(* processes interleave in every way.  Nothing is shared: a process'        *)
(* progress and result do not depend on the others.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Procs, Len0, L
VARIABLES done,   \* done[p]: number of units process p has handled
          seen,   \* what process p has written or read so far
          sched   \* the interleaving
vars == <<done, seen, sched>>
Unit(p, i) == <<p, i>>          \* the i-th unit of p's own stream
Init == /\ done = [p \in Procs |-> 0] /\ seen = [p \in Procs |-> <<>>] /\ sched = <<>>
Step(p) == /\ done[p] < Len0
           /\ done' = [done EXCEPT ![p] = @ + 1]
           /\ seen' = [seen EXCEPT ![p] = Append(@, Unit(p, done[p] + 1))]
           /\ sched' = Append(sched, p)
Show == Len(sched) = L /\ PrintT("SCRIPT" \o ToJson(sched)) /\ UNCHANGED vars
Next == (Len(sched) < L /\ \E p \in Procs : Step(p)) \/ Show
Spec == Init /\ [][Next]_vars
\* each process has seen exactly what it would have seen alone
Alone == \A p \in Procs : seen[p] = [i \in 1..done[p] |-> Unit(p, i)]
=============================================================================

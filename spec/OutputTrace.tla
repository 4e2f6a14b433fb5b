---------------------------- MODULE OutputTrace ----------------------------
(***************************************************************************)
(* Histories of generator runs, checked against Output.  Every record of   *)
(* the input is one history:                                               *)
(*   w     the world                                                        *)
(*   dir   package -> directory of its files                                *)
(*   ev    the events, in order                                             *)
(*     [e "put", o, f, c]            somebody writes a file                 *)
(*     [e "run", o, ps, opt, ok, fs] a run on packages ps into the output   *)
(*                                   directory o; fs: its files afterwards  *)
(*     [e "stdout", p, ps, opt, ok, c]  a run that prints package p         *)
(*     [e "decls", p, own, lim, l, len, dirs]  the declarations in the      *)
(*         files emitted for a package: l, a sequence of [k, n, m, f], f:   *)
(*         the file, and k "other" for what has no name in the schema;      *)
(*         own: whether every type has its own file; lim: the maximal       *)
(*         length of a path (0: none), len: the longest one                 *)
(* fs is the state of the output directories, em what has been seen to be  *)
(* emitted for [p, cl, opt].  The verdict lists what went wrong.           *)
(***************************************************************************)
EXTENDS Output, Json, IOUtils

VARIABLES ph, C, k, fs, em, bad
vars == <<ph, C, k, fs, em, bad>>

Init == /\ ph = "pick" /\ C = ndJsonDeserialize(IOEnv.HISTORIES)
        /\ k = 1 /\ fs = NoEnv /\ em = NoEnv /\ bad = <<>>
Pick == /\ ph = "pick"
        /\ \E i \in 1..Len(C) : C' = C[i]
        /\ ph' = "work" /\ UNCHANGED <<k, fs, em, bad>>

E == C.ev[k]
Dir(o) == IF o \in DOMAIN fs THEN fs[o] ELSE NoEnv
Key(p, opt) == <<p, Closure(C.w, p), opt>>
AllFiles(m, s) == FoldLeft(LAMBDA acc, p : m[p] @@ acc, NoEnv, s)
Wrong(what, more) == [k |-> k, w |-> what, x |-> more]

Put == /\ E.e = "put"
       /\ fs' = (E.o :> ((E.f :> E.c) @@ Dir(E.o))) @@ fs
       /\ UNCHANGED <<em, bad>>

\* Packages seen before with the same key must be emitted alike; the others are new.
Run == /\ E.e = "run"
       /\ LET old == {p \in {E.ps[i] : i \in 1..Len(E.ps)} : Key(p, E.opt) \in DOMAIN em}
              new == {E.ps[i] : i \in 1..Len(E.ps)} \ old
              was == Dir(E.o)
              oldFiles == UNION {DOMAIN em[Key(p, E.opt)] : p \in old}
              newFiles == {f \in DOMAIN E.fs \ oldFiles : \E p \in new : E.in[f] = C.dir[p]}
              differ == {f \in oldFiles : IF f \in DOMAIN E.fs THEN \E p \in old : f \in DOMAIN em[Key(p, E.opt)] /\ em[Key(p, E.opt)][f] # E.fs[f] ELSE TRUE}
              rest == DOMAIN E.fs \ (oldFiles \cup newFiles)
              spoilt == {f \in (DOMAIN was \cup rest) \ (oldFiles \cup newFiles) :
                           IF f \in DOMAIN was /\ f \in DOMAIN E.fs THEN was[f] # E.fs[f] ELSE TRUE}
              empty == {p \in new : \A f \in newFiles : E.in[f] # C.dir[p]}
          IN /\ bad' = bad \o (IF E.ok THEN <<>> ELSE <<Wrong("refused", {})>>)
                           \o (IF ~E.ok \/ differ = {} THEN <<>> ELSE <<Wrong("differs", differ)>>)
                           \o (IF ~E.ok \/ spoilt = {} THEN <<>> ELSE <<Wrong("spoils", spoilt)>>)
                           \o (IF ~E.ok \/ empty = {} THEN <<>> ELSE <<Wrong("nothing", empty)>>)
             /\ em' = IF E.ok THEN em @@ [x \in {Key(p, E.opt) : p \in new} |-> Restrict(E.fs, {f \in newFiles : E.in[f] = C.dir[x[1]]})] ELSE em
             /\ fs' = (E.o :> E.fs) @@ fs

Stdout == /\ E.e = "stdout"
          /\ LET key == Key(E.p, E.opt \o " -")
             IN /\ bad' = bad \o (IF ~E.ok THEN <<Wrong("refused", {})>>
                                  ELSE IF key \notin DOMAIN em THEN <<>>
                                  ELSE IF em[key].out = E.c THEN <<>> ELSE <<Wrong("differs", {E.p})>>)
                /\ em' = IF E.ok THEN em @@ (key :> [out |-> E.c]) ELSE em
          /\ UNCHANGED fs

\* l is seen once
Times(x, l) == Cardinality({i \in 1..Len(l) : l[i].k = x.k /\ l[i].n = x.n /\ l[i].m = x.m})
Decs == /\ E.e = "decls"
        /\ LET want == Named(C.w, E.p)
               lost == {x \in want : Times(x, E.l) # 1}
               types == {i \in 1..Len(E.l) : E.l[i].k = "type"}
               shared == {E.l[i].f : i \in {j \in types : \E h \in types : h # j /\ E.l[h].f = E.l[j].f}}
           IN bad' = bad \o (IF lost = {} THEN <<>> ELSE <<Wrong("lost", lost)>>)
                         \o (IF Cardinality(types) >= LeastTypes(C.w, E.p) /\ Cardinality(types) <= MostTypes(C.w, E.p) THEN <<>>
                             ELSE <<Wrong("types", {<<Cardinality(types), LeastTypes(C.w, E.p), MostTypes(C.w, E.p)>>} )>>)
                         \o (IF ~E.own \/ shared = {} THEN <<>> ELSE <<Wrong("shared", shared)>>)
                         \o (IF E.lim = 0 \/ E.len <= E.lim THEN <<>> ELSE <<Wrong("long", {E.len})>>)
        /\ UNCHANGED <<fs, em>>

Step == /\ ph = "work" /\ k <= Len(C.ev)
        /\ (Put \/ Run \/ Stdout \/ Decs)
        /\ k' = k + 1 /\ UNCHANGED <<ph, C>>
Done == /\ ph = "work" /\ k = Len(C.ev) + 1
        /\ PrintT("VERDICT" \o ToJson([i |-> C.i, bad |-> bad, packages |-> Cardinality(DOMAIN em)]))
        /\ ph' = "done" /\ UNCHANGED <<C, k, fs, em, bad>>

OSpec == Init /\ [][Pick \/ Step \/ Done]_vars
OView == IF ph = "pick" THEN <<-1, ph, 0>> ELSE <<C.i, ph, k>>
=============================================================================

------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Which files a run of the generator reads, and what becomes of them.      *)
(*                                                                         *)
(* A tree is a sequence of nodes                                            *)
(*   p     the names on the way to it from the working directory            *)
(*   k     "dir" or "file"                                                  *)
(*   h, x  whether its name starts with a dot, and its extension            *)
(*   ok    (files) whether it is a valid schema by itself                   *)
(*   pkg   (files) the package it declares                                  *)
(* The arguments are paths, that may contain "." and "..".                  *)
(*                                                                         *)
(* One argument is searched for schemas, with everything below it; of       *)
(* several arguments each one names a schema.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

VARIABLES tree,     \* the nodes
          args,     \* the arguments that are left
          walk,     \* nodes that are still to be searched
          todo,     \* the files to be read
          seen,     \* the files that were read
          pkgs,     \* the packages that were found
          out       \* "run", "err" or "ok"
fvars == <<tree, args, walk, todo, seen, pkgs, out>>

\* a path without its detours
Clean(path) == FoldLeft(LAMBDA q, s : IF s = "." THEN q ELSE IF s = ".." /\ q # <<>> THEN Front(q) ELSE Append(q, s), <<>>, path)
At(path) == SelectSeq(tree, LAMBDA n : n.p = Clean(path))
Exists(path) == At(path) # <<>>
Node(path) == At(path)[1]
Below(n) == {m \in Range(tree) : Len(m.p) = Len(n.p) + 1 /\ SubSeq(m.p, 1, Len(n.p)) = n.p}
Schema(n) == n.k = "file" /\ ~n.h /\ n.x \in {"zs", "zserio"}

Start(t, a) == /\ tree = t /\ walk = {} /\ seen = {} /\ pkgs = {} /\ todo = <<>> /\ args = a /\ out = "run"

\* the only argument is where the search begins
Search == /\ out = "run" /\ Len(args) = 1 /\ seen = {} /\ todo = <<>> /\ walk = {}
          /\ args' = <<>>
          /\ IF Exists(args[1]) THEN walk' = {Node(args[1])} /\ out' = out ELSE walk' = walk /\ out' = "err"
          /\ UNCHANGED <<tree, todo, seen, pkgs>>
Descend == /\ out = "run" /\ args = <<>> /\ walk # {}
           /\ LET n == CHOOSE m \in walk : TRUE
              IN /\ walk' = (walk \ {n}) \cup {m \in Below(n) : m.k = "file" \/ ~m.h}
                 /\ todo' = IF Schema(n) THEN Append(todo, n.p) ELSE todo
           /\ UNCHANGED <<tree, args, seen, pkgs, out>>
\* each of several arguments is a file
Name == /\ out = "run" /\ Len(args) > 1 /\ todo = <<>> /\ seen = {}
        /\ todo' = args /\ args' = <<>>
        /\ UNCHANGED <<tree, walk, seen, pkgs, out>>
Read == /\ out = "run" /\ args = <<>> /\ walk = {} /\ todo # <<>>
        /\ todo' = Tail(todo)
        /\ LET p == Clean(Head(todo))
           IN IF p \in seen THEN UNCHANGED <<seen, pkgs, out>>
              ELSE /\ seen' = seen \cup {p}
                   /\ IF ~Exists(p) THEN out' = "err" /\ pkgs' = pkgs
                      ELSE IF Node(p).k = "dir" \/ ~Node(p).ok \/ Node(p).pkg \in pkgs THEN out' = "err" /\ pkgs' = pkgs
                      ELSE out' = out /\ pkgs' = pkgs \cup {Node(p).pkg}
        /\ UNCHANGED <<tree, args, walk>>
Finish == /\ out = "run" /\ args = <<>> /\ walk = {} /\ todo = <<>>
          /\ out' = "ok" /\ UNCHANGED <<tree, args, walk, todo, seen, pkgs>>
FStep == Search \/ Descend \/ Name \/ Read \/ Finish
=============================================================================

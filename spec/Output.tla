------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* What a run of the generator leaves in the output directory.  A run is a *)
(* transition of the directory fs (file name -> content): the files of the *)
(* packages it was given replace those of the same name, and nothing else  *)
(* changes.  What is emitted for a package is a function of the package,   *)
(* of the packages it imports, directly or not, and of the options.        *)
(*                                                                         *)
(* The declarations the emitted files must hold follow from the schema:    *)
(* one per declared constant, type, enum item, bitmask value and function, *)
(* and one type per template and list of arguments that a package uses.    *)
(***************************************************************************)
EXTENDS World

-----------------------------------------------------------------------------
(* The packages a package depends on *)

ImportsOf(W, p) == {W.pk[p].imp[i].p : i \in 1..Len(W.pk[p].imp)} \cap DOMAIN W.pk
RECURSIVE Reach(_, _)
Reach(W, s) == LET n == s \cup UNION {ImportsOf(W, p) : p \in s} IN IF n = s THEN s ELSE Reach(W, n)
Closure(W, p) == Reach(W, {p})

-----------------------------------------------------------------------------
(* Runs *)

\* the directory fs after a run that emits the files em
AfterRun(fs, em) == em @@ fs

-----------------------------------------------------------------------------
(* Declarations *)

IsTemplate(d) == IF "tp" \in DOMAIN d THEN d.tp # <<>> ELSE FALSE
IsCompound(d) == d.k \in {"struct", "choice", "union"}

\* the types a declaration mentions
SeqTypes(l) == {l[i].t : i \in 1..Len(l)}
Mentions(d) == CASE d.k \in {"const", "sub", "inst", "enum", "mask"} -> {d.t}
                 [] OTHER -> SeqTypes(AllFields(d)) \cup SeqTypes(d.p)

\* the template instances that a type mentioned in package p stands for
RECURSIVE InstOf(_, _, _, _)
InstOf(W, p, env, t) ==
    IF t.k # "nm" THEN {}
    ELSE IF t.ta = <<>> THEN {}
    ELSE {ElabT(W, p, env, Bare(t)).id} \cup UNION {InstOf(W, p, env, t.ta[i]) : i \in 1..Len(t.ta)}
EnvOf(d, args) == [Top EXCEPT !.t = [n \in {d.tp[i] : i \in 1..Len(d.tp)} |-> args[CHOOSE i \in 1..Len(d.tp) : d.tp[i] = n]]]
\* those that the template of an instance uses in turn
InstIn(W, id) == LET d == Decl(W, id[1], id[2])
                 IN UNION {InstOf(W, id[1], EnvOf(d, id[3]), t) : t \in Mentions(d)}
RECURSIVE InstClose(_, _)
InstClose(W, s) == LET n == s \cup UNION {InstIn(W, id) : id \in s} IN IF n = s THEN s ELSE InstClose(W, n)
Plain(W, p) == {n \in DOMAIN Decls(W, p) : ~IsTemplate(Decl(W, p, n))}
Instances(W, p) == InstClose(W, UNION {UNION {InstOf(W, p, Top, t) : t \in Mentions(Decl(W, p, n))} : n \in Plain(W, p)})

\* The same with subtypes told apart from what they stand for: <<package, name, arguments>>,
\* with <<text>> for built-in types and <<package, name>> for the others.
RECURSIVE RawT(_, _, _, _), RawOf(_, _, _, _)
RawT(W, p, env, t) ==
    IF t.k # "nm" THEN <<t.zs>>
    ELSE IF t.q = "" /\ t.n \in DOMAIN env THEN env[t.n]
    ELSE IF t.ta = <<>> THEN <<Where(W, p, t.q, t.n), t.n>>
    ELSE <<Where(W, p, t.q, t.n), t.n, [i \in 1..Len(t.ta) |-> RawT(W, p, env, t.ta[i])]>>
RawOf(W, p, env, t) ==
    IF t.k # "nm" THEN {}
    ELSE IF t.ta = <<>> THEN {}
    ELSE {RawT(W, p, env, t)} \cup UNION {RawOf(W, p, env, t.ta[i]) : i \in 1..Len(t.ta)}
RawIn(W, id) == LET d == Decl(W, id[1], id[2])
                IN UNION {RawOf(W, id[1], [n \in {d.tp[i] : i \in 1..Len(d.tp)} |-> id[3][CHOOSE i \in 1..Len(d.tp) : d.tp[i] = n]], t) : t \in Mentions(d)}
RECURSIVE RawClose(_, _)
RawClose(W, s) == LET n == s \cup UNION {RawIn(W, id) : id \in s} IN IF n = s THEN s ELSE RawClose(W, n)
RawInstances(W, p) == RawClose(W, UNION {UNION {RawOf(W, p, NoEnv, t) : t \in Mentions(Decl(W, p, n))} : n \in Plain(W, p)})

\* the named declarations of a package: [k, n] and [k, n, m] for what belongs to a type
Named(W, p) ==
    LET D(n) == Decl(W, p, n)
    IN {[k |-> IF D(n).k = "const" THEN "const" ELSE IF D(n).k = "sub" THEN "alias" ELSE "type", n |-> n, m |-> ""] : n \in Plain(W, p)}
       \cup UNION {{[k |-> "const", n |-> n, m |-> D(n).it[i].n] : i \in 1..Len(D(n).it)} : n \in {x \in Plain(W, p) : D(x).k \in {"enum", "mask"}}}
       \cup UNION {{[k |-> "func", n |-> n, m |-> f] : f \in DOMAIN D(n).fn} : n \in {x \in Plain(W, p) : IF IsCompound(D(x)) THEN "fn" \in DOMAIN D(x) ELSE FALSE}}
\* the number of types, each of which has its own file
OwnTypes(W, p) == {n \in Plain(W, p) : IsCompound(Decl(W, p, n)) \/ Decl(W, p, n).k \in {"enum", "mask"}}
\* One instance per list of arguments; subtypes may or may not count as what they stand for.
LeastTypes(W, p) == Cardinality(OwnTypes(W, p)) + Cardinality({SameKeyOf(id) : id \in Instances(W, p)})
Declared(W, p) == {n \in Plain(W, p) : Decl(W, p, n).k = "inst"}
MostTypes(W, p) == Cardinality(OwnTypes(W, p)) + Cardinality(Declared(W, p))
                 + Cardinality(RawInstances(W, p) \ {RawT(W, p, NoEnv, Decl(W, p, n).t) : n \in Declared(W, p)})
=============================================================================

------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* Schemas of several packages: what every name denotes, what constant     *)
(* expressions evaluate to, how enum items and bitmask values are numbered, *)
(* and what templates and subtypes stand for.  A world is a record          *)
(*   pk   package name -> [imp, d]                                          *)
(*        imp  sequence of [p, s]: package and symbol ("*": all of them)    *)
(*        d    name -> declaration                                          *)
(* Declarations: const [t, x], enum [t, it], mask [t, it], sub [t], inst    *)
(* [t], and struct, choice and union as in module Codec, which may have     *)
(* template parameters tp.  Types are those of Codec, except that names are *)
(*   [k "nm", q, n, ta, a]   q: package or "", ta: template arguments       *)
(* and expressions may have                                                 *)
(*   [o "id", q, n]      a constant                                         *)
(*   [o "it", q, n, i]   an enum item or bitmask value                      *)
(* Elab turns the types of a world into one schema of Codec in which names, *)
(* constants, subtypes and templates are gone.                              *)
(***************************************************************************)
EXTENDS Exprs, TLC, FiniteSets

NoEnv == [x \in {} |-> 0]
\* What names denote inside a declaration: t: template parameters -> elaborated types,
\* l: fields, parameters and items in scope -> expressions
Top == [t |-> NoEnv, l |-> NoEnv]
Decls(W, p) == W.pk[p].d

-----------------------------------------------------------------------------
(* Names *)

\* the packages in which an unqualified name may be found when package p has none
Found(W, p, n) == {W.pk[p].imp[i].p : i \in {j \in 1..Len(W.pk[p].imp) :
                      /\ W.pk[p].imp[j].s \in {"*", n}
                      /\ W.pk[p].imp[j].p \in DOMAIN W.pk
                      /\ n \in DOMAIN Decls(W, W.pk[p].imp[j].p)}}
\* the package that declares the name, "" if there is none, "?" if there are several
Where(W, p, q, n) ==
    IF q # "" THEN (IF q \in DOMAIN W.pk THEN (IF n \in DOMAIN Decls(W, q) THEN q ELSE "") ELSE "")
    ELSE IF n \in DOMAIN Decls(W, p) THEN p
    ELSE LET s == Found(W, p, n)
         IN IF s = {} THEN "" ELSE IF Cardinality(s) > 1 THEN "?" ELSE CHOOSE x \in s : TRUE
Decl(W, p, n) == Decls(W, p)[n]

-----------------------------------------------------------------------------
(* Constant expressions, enums and bitmasks *)

\* the lowest bit above the highest bit of x
NextBit(x) == WShl(WOne, WBitLen(x))

\* whether a type is string, perhaps by another name
RECURSIVE IsString(_, _, _)
IsString(W, p, t) == CASE t.k = "str" -> TRUE
                       [] t.k = "nm" -> LET w == Where(W, p, t.q, t.n)
                                            d == Decl(W, w, t.n)
                                        IN IF d.k = "sub" THEN IsString(W, w, d.t) ELSE FALSE
                       [] OTHER -> FALSE

RECURSIVE Fold(_, _, _), ConstVal(_, _, _), ItemVal(_, _, _, _)
\* an expression without names of constants and items
Fold(W, p, x) ==
    CASE x.o = "id" -> LET w == Where(W, p, x.q, x.n)
                       IN [o |-> IF IsString(W, w, Decl(W, w, x.n).t) THEN "str" ELSE "n", v |-> ConstVal(W, w, x.n)]
      [] x.o = "it" -> LET w == Where(W, p, x.q, x.n)
                           d == Decl(W, w, x.n)
                       IN IF d.k = "sub"
                          THEN Fold(W, w, [x EXCEPT !.q = d.t.q, !.n = d.t.n])
                          ELSE LET k == CHOOSE i \in 1..Len(d.it) : d.it[i].n = x.i
                               IN [o |-> "n", v |-> ItemVal(W, w, x.n, k)]
      [] x.o \in {"n", "f", "idx", "len", "str", "lit", "call"} -> x
      [] x.o = "at" -> [x EXCEPT !.i = Fold(W, p, x.i)]
      [] x.o = "?" -> [x EXCEPT !.a = Fold(W, p, x.a), !.b = Fold(W, p, x.b), !.c = Fold(W, p, x.c)]
      [] "b" \notin DOMAIN x -> [x EXCEPT !.a = Fold(W, p, x.a)]
      [] OTHER -> [x EXCEPT !.a = Fold(W, p, x.a), !.b = Fold(W, p, x.b)]

\* an expression with unqualified names replaced by what m says
RECURSIVE Sub(_, _)
Sub(x, m) ==
    CASE x.o = "id" -> (IF x.q = "" /\ x.n \in DOMAIN m THEN m[x.n] ELSE x)
      [] x.o \in {"n", "f", "idx", "len", "str", "lit", "it", "call", "at"} -> x
      [] x.o = "?" -> [x EXCEPT !.a = Sub(x.a, m), !.b = Sub(x.b, m), !.c = Sub(x.c, m)]
      [] "b" \notin DOMAIN x -> [x EXCEPT !.a = Sub(x.a, m)]
      [] OTHER -> [x EXCEPT !.a = Sub(x.a, m), !.b = Sub(x.b, m)]
\* the items of an enum or bitmask n of package p, by their names
ItemNames(W, p, n) == LET d == Decl(W, p, n)
                      IN [i \in {d.it[k].n : k \in 1..Len(d.it)} |-> [o |-> "it", q |-> p, n |-> n, i |-> i]]

\* Strings are sequences of bytes, floating-point numbers wide integers in units of 2^-16.
Constant(W, p, x) == CHOOSE v \in {Ev(y, NoEnv) : y \in {Fold(W, p, x)}} : TRUE
ConstVal(W, p, n) == Constant(W, p, Decl(W, p, n).x)

\* the value of the k-th item of an enum or bitmask
ItemVal(W, p, n, k) ==
    LET d == Decl(W, p, n)
        it == d.it[k]
    IN CHOOSE v \in {IF it.x # <<>> THEN Constant(W, p, Sub(it.x[1], ItemNames(W, p, n)))
                     ELSE IF k = 1 THEN (IF d.k = "enum" THEN WZero ELSE WOne)
                     ELSE CHOOSE v \in {IF d.k = "enum" THEN WAdd(x, WOne) ELSE NextBit(x) : x \in {ItemVal(W, p, n, k - 1)}} : TRUE} : TRUE
Items(W, p, n) == [i \in 1..Len(Decl(W, p, n).it) |-> ItemVal(W, p, n, i)]

-----------------------------------------------------------------------------
(* Elaboration of types *)

\* id: <<package, name, elaborated template arguments>>
RECURSIVE KeyOf(_), KeysOf(_, _)
TypeKey(t) == IF t.k = "ref" THEN KeyOf(t.id) ELSE t.zs
KeysOf(ts, i) == IF i > Len(ts) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o TypeKey(ts[i]) \o KeysOf(ts, i + 1)
KeyOf(id) == id[1] \o ":" \o id[2] \o (IF id[3] = <<>> THEN "" ELSE "<" \o KeysOf(id[3], 1) \o ">")

\* The same up to the spelling of built-in types (bit:64 and uint64)
RECURSIVE SameKeyOf(_), SameKeys(_, _)
SameKey(t) == IF t.k = "ref" THEN SameKeyOf(t.id) ELSE IF t.k \in {"uint", "int"} THEN t.k \o ToString(t.w) ELSE t.zs
SameKeys(ts, i) == IF i > Len(ts) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o SameKey(ts[i]) \o SameKeys(ts, i + 1)
SameKeyOf(id) == id[1] \o ":" \o id[2] \o (IF id[3] = <<>> THEN "" ELSE "<" \o SameKeys(id[3], 1) \o ">")

WithArgs(t, a) == IF t.k = "ref" /\ a # <<>> THEN [t EXCEPT !.a = a] ELSE t

RECURSIVE ElabT(_, _, _, _), ElabX(_, _, _, _)
ElabXs(W, p, env, l) == [i \in 1..Len(l) |-> ElabX(W, p, env, l[i])]
ElabT(W, p, env, t) ==
    CASE t.k = "nm" ->
           (IF t.q = "" /\ t.n \in DOMAIN env.t THEN WithArgs(env.t[t.n], ElabXs(W, p, env, t.a))
            ELSE LET w == Where(W, p, t.q, t.n)
                     d == Decl(W, w, t.n)
                     a == ElabXs(W, p, env, t.a)
                 IN IF d.k \in {"sub", "inst"} THEN WithArgs(ElabT(W, w, Top, d.t), a)
                    ELSE LET id == <<w, t.n, [i \in 1..Len(t.ta) |-> ElabT(W, p, env, t.ta[i])]>>
                         IN [k |-> "ref", n |-> KeyOf(id), a |-> a, id |-> id])
      [] t.k = "bitd" -> [t EXCEPT !.e = ElabX(W, p, env, t.e)]
      [] OTHER -> t
ElabX(W, p, env, x) ==
    LET S(y) == ElabX(W, p, env, y)
    IN CASE x.o = "id" -> (IF x.q = "" /\ x.n \in DOMAIN env.l THEN env.l[x.n] ELSE Fold(W, p, x))
         [] x.o = "it" -> (IF x.q = "" /\ x.n \in DOMAIN env.t
                           THEN Fold(W, p, [x EXCEPT !.q = env.t[x.n].id[1], !.n = env.t[x.n].id[2]])
                           ELSE Fold(W, p, x))
         [] x.o = "call" -> [x EXCEPT !.t = ElabT(W, p, env, x.t).n]
         [] x.o \in {"n", "f", "idx", "len", "str", "lit"} -> x
         [] x.o = "at" -> [x EXCEPT !.i = S(x.i)]
         [] x.o = "?" -> [x EXCEPT !.a = S(x.a), !.b = S(x.b), !.c = S(x.c)]
         [] "b" \notin DOMAIN x -> [x EXCEPT !.a = S(x.a)]
         [] OTHER -> [x EXCEPT !.a = S(x.a), !.b = S(x.b)]

ElabF(W, p, env, f) ==
    [f EXCEPT !.t = ElabT(W, p, env, f.t), !.c = ElabXs(W, p, env, f.c),
              !.r = [i \in 1..Len(f.r) |-> [f.r[i] EXCEPT !.l = ElabXs(W, p, env, f.r[i].l)]]]
ElabFs(W, p, env, l) == [i \in 1..Len(l) |-> ElabF(W, p, env, l[i])]

\* the type at the end of a chain of subtypes and enums
RECURSIVE BaseOf(_, _)
BaseOf(W, t) == IF t.k # "ref" THEN t
                ELSE LET d == Decl(W, t.id[1], t.id[2])
                     IN IF d.k \in {"enum", "mask"} THEN BaseOf(W, ElabT(W, t.id[1], Top, d.t)) ELSE t
\* how a value of an elaborated type is read in an expression
Sort(W, t) == LET b == BaseOf(W, t)
              IN CASE b.k = "uint" -> (IF b.w = 64 THEN "u" ELSE "i")
                   [] b.k = "varu" -> (IF b.n = 9 THEN "u" ELSE "i")
                   [] b.k \in {"int", "vars", "size", "bitd"} -> "i"
                   [] b.k = "bool" -> "b"
                   [] b.k = "ref" -> "x"
                   [] OTHER -> "r"

AllFields(d) == IF d.k = "choice" THEN FoldLeft(LAMBDA acc, c : acc \o c.f, <<>>, d.c) \o d.d ELSE d.f
\* the parameters and fields of a compound, as expressions; a field hides a constant
Bare(t) == IF t.k = "nm" THEN [t EXCEPT !.a = <<>>] ELSE t
Locals(W, p, te, d) ==
    LET l == d.p \o AllFields(d)
    IN [n \in {l[i].n : i \in 1..Len(l)} |->
          LET x == l[CHOOSE i \in 1..Len(l) : l[i].n = n]
          IN [o |-> "f", p |-> <<n>>, y |-> Sort(W, IF x.t.k = "bitd" THEN x.t ELSE ElabT(W, p, te, Bare(x.t)))]]
\* the labels of a choice may be items of the type of its selector
Labels(W, p, te, d) ==
    IF d.k # "choice" THEN NoEnv
    ELSE IF d.sel.o = "f" /\ \E i \in 1..Len(d.p) : <<d.p[i].n>> = d.sel.p
         THEN LET t == ElabT(W, p, te, d.p[CHOOSE i \in 1..Len(d.p) : <<d.p[i].n>> = d.sel.p].t)
              IN IF t.k # "ref" THEN NoEnv
                 ELSE IF Decl(W, t.id[1], t.id[2]).k \in {"enum", "mask"} THEN ItemNames(W, t.id[1], t.id[2]) ELSE NoEnv
         ELSE NoEnv

ElabDef(W, id) ==
    LET p == id[1]
        d == Decl(W, p, id[2])
        te == IF "tp" \notin DOMAIN d THEN Top
              ELSE [Top EXCEPT !.t = [n \in {d.tp[i] : i \in 1..Len(d.tp)} |-> id[3][CHOOSE i \in 1..Len(d.tp) : d.tp[i] = n]]]
        env == IF d.k \in {"enum", "mask"} THEN Top ELSE [te EXCEPT !.l = Locals(W, p, te, d)]
        le == [env EXCEPT !.l = Labels(W, p, te, d) @@ @]
        ps == [i \in 1..Len(d.p) |-> [d.p[i] EXCEPT !.t = ElabT(W, p, env, d.p[i].t), !.y = Sort(W, ElabT(W, p, env, d.p[i].t))]]
        fn == IF "fn" \in DOMAIN d THEN [n \in DOMAIN d.fn |-> ElabX(W, p, env, d.fn[n])] ELSE NoEnv
    IN CASE d.k \in {"enum", "mask"} -> [k |-> d.k, t |-> ElabT(W, p, Top, d.t), iv |-> Items(W, p, id[2])]
         [] d.k \in {"struct", "union"} -> [k |-> d.k, p |-> ps, f |-> ElabFs(W, p, env, d.f), fn |-> fn]
         [] d.k = "choice" -> [k |-> d.k, p |-> ps, sel |-> ElabX(W, p, env, d.sel), fn |-> fn,
                               c |-> [i \in 1..Len(d.c) |-> [l |-> [j \in 1..Len(d.c[i].l) |-> Fold(W, p, ElabX(W, p, le, d.c[i].l[j]))], f |-> ElabFs(W, p, env, d.c[i].f)]],
                               d |-> ElabFs(W, p, env, d.d)]

\* the declarations an elaborated one refers to
RECURSIVE TypeIds(_)
TypeIds(t) == IF t.k = "ref" THEN {t.id} ELSE {}
FieldIds(l) == UNION {TypeIds(l[i].t) : i \in 1..Len(l)}
Refs(d) ==
    CASE d.k \in {"enum", "mask"} -> TypeIds(d.t)
      [] d.k = "choice" -> UNION {FieldIds(d.c[i].f) : i \in 1..Len(d.c)} \cup FieldIds(d.d) \cup FieldIds(d.p)
      [] OTHER -> FieldIds(d.f) \cup FieldIds(d.p)

RECURSIVE Close(_, _, _)
Close(W, todo, done) ==
    IF todo = {} THEN done
    ELSE LET id == CHOOSE x \in todo : TRUE
         IN IF KeyOf(id) \in DOMAIN done THEN Close(W, todo \ {id}, done)
            ELSE CHOOSE r \in {Close(W, (todo \cup Refs(d)) \ {id}, done @@ (KeyOf(id) :> d)) : d \in {ElabDef(W, id)}} : TRUE

\* the schema of the named types tops, a sequence of <<package, name>>
TopId(W, t) == LET d == Decl(W, t[1], t[2])
               IN IF d.k \in {"inst", "sub"} THEN ElabT(W, t[1], Top, d.t).id ELSE <<t[1], t[2], <<>>>>
Elab(W, tops) ==
    LET ids == [i \in 1..Len(tops) |-> TopId(W, tops[i])]
        s == Close(W, {ids[i] : i \in 1..Len(ids)}, NoEnv)
    IN [n \in DOMAIN s \cup {tops[i][1] \o ":" \o tops[i][2] : i \in 1..Len(tops)} |->
          IF n \in DOMAIN s THEN s[n]
          ELSE s[KeyOf(ids[CHOOSE i \in 1..Len(tops) : tops[i][1] \o ":" \o tops[i][2] = n])]]
=============================================================================

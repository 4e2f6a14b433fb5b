------------------------------- MODULE Valid -------------------------------
(***************************************************************************)
(* Which worlds (see World) are valid schemas.  Mistakes(W) is the set of   *)
(* the kinds of mistakes in a world: a world is valid when it is empty.     *)
(* "?" stands for what is not decided here: uses that the documentation     *)
(* does not settle, such as numbers in place of enum items.  Every other    *)
(* mistake has to be reported.                                              *)
(*                                                                          *)
(* Besides what module World says, worlds have                              *)
(*   more   declarations whose names are taken: sequence of [p, n]          *)
(*   go     name -> what it is called in Go                                 *)
(* and the functions of compounds have types, ft: name -> type.             *)
(***************************************************************************)
EXTENDS World

Mist(b, s) == IF b THEN {s} ELSE {}
RangeOf(l) == {l[i] : i \in 1..Len(l)}
Has(r, f) == f \in DOMAIN r
Params(d) == IF Has(d, "tp") THEN d.tp ELSE <<>>
Compound(d) == d.k \in {"struct", "choice", "union"}
AllDecls(W) == UNION {{<<p, n>> : n \in DOMAIN Decls(W, p)} : p \in DOMAIN W.pk}
Fns(d) == IF Has(d, "ft") THEN d.ft ELSE NoEnv

-----------------------------------------------------------------------------
(* Names of types *)

\* full: type arguments and computed widths can be written here
\* lax: for parameters and results, where no number of bits is needed
RECURSIVE TypeM(_, _, _, _, _, _)
TypeM(W, p, tp, t, full, lax) ==
    CASE t.k = "nm" ->
           LET w == Where(W, p, t.q, t.n)
               args == UNION {TypeM(W, p, tp, t.ta[i], FALSE, FALSE) : i \in 1..Len(t.ta)}
           IN Mist(~full /\ t.a # <<>>, "syntax") \cup
              (IF t.q = "" /\ t.n \in tp THEN Mist(t.ta # <<>>, "?")
               ELSE IF w = "" THEN {"unknown-type"}
               ELSE IF w = "?" THEN {"?"}
               ELSE LET d == Decl(W, w, t.n)
                    IN args \cup Mist(d.k = "const", "not-a-type")
                       \cup Mist(d.k # "const" /\ Len(Params(d)) # Len(t.ta), "template-arguments")
                       \cup Mist(t.q \notin {"", p} /\ t.q \notin {W.pk[p].imp[i].p : i \in 1..Len(W.pk[p].imp)}, "?"))
      [] t.k = "bitd" -> Mist(~full, "syntax")
      [] t.k \in {"uint", "int"} -> Mist(t.w \notin 1..64, IF t.w = 0 /\ lax THEN "?" ELSE "width")
      [] OTHER -> {}

DeclTypes(d) ==     \* <<type, full, lax>>
    CASE d.k \in {"const", "enum", "mask"} -> {<<d.t, TRUE, d.k = "const">>}
      [] d.k \in {"sub", "inst"} -> {<<d.t, FALSE, d.k = "sub">>}
      [] OTHER -> {<<f.t, TRUE, FALSE>> : f \in RangeOf(AllFields(d))} \cup {<<q.t, FALSE, TRUE>> : q \in RangeOf(d.p)}
                  \cup {<<Fns(d)[n], FALSE, TRUE>> : n \in DOMAIN Fns(d)}

Twice(l) == \E i, j \in 1..Len(l) : i < j /\ l[i] = l[j]
FnNames(d) == IF Has(d, "fl") THEN d.fl ELSE <<>>
MemberNames(W, d) == LET l == d.p \o AllFields(d) IN [i \in 1..Len(l) |-> W.go[l[i].n]] \o [i \in 1..Len(FnNames(d)) |-> W.go[FnNames(d)[i]]]

DeclNames(W, id) ==
    LET d == Decl(W, id[1], id[2])
        tp == RangeOf(Params(d))
    IN UNION {TypeM(W, id[1], tp, x[1], x[2], x[3]) : x \in DeclTypes(d)}
       \cup Mist(Twice(Params(d)), "duplicate")
       \cup (IF Compound(d) THEN Mist(Twice(MemberNames(W, d)), "duplicate")
             ELSE IF d.k \in {"enum", "mask"} THEN Mist(Twice([i \in 1..Len(d.it) |-> d.it[i].n]), "duplicate")
             ELSE {})
       \cup (IF d.k # "inst" THEN {} ELSE IF d.t.k # "nm" THEN {"instance"} ELSE Mist(d.t.ta = <<>>, "instance"))

ImportM(W, p) == UNION {LET m == W.pk[p].imp[i]
                        IN IF m.p \notin DOMAIN W.pk THEN {"import"}
                           ELSE Mist(m.s # "*" /\ m.s \notin DOMAIN Decls(W, m.p), "import") : i \in 1..Len(W.pk[p].imp)}

\* the declarations whose types a type mentions
RECURSIVE Mentions(_, _, _)
Mentions(W, p, t) == IF t.k # "nm" THEN {}
                     ELSE LET w == Where(W, p, t.q, t.n)
                          IN (IF w \in {"", "?"} THEN {} ELSE {<<w, t.n>>}) \cup UNION {Mentions(W, p, t.ta[i]) : i \in 1..Len(t.ta)}
RECURSIVE Reach(_, _, _)
Reach(G, todo, done) == IF todo = {} THEN done
                        ELSE LET next == UNION {G[x] : x \in todo \cap DOMAIN G} \ done
                             IN Reach(G, next, done \cup next)
\* Templates that nothing uses are not looked at closely
Used(W) == LET G == [id \in AllDecls(W) |-> UNION {Mentions(W, id[1], x[1]) : x \in DeclTypes(Decl(W, id[1], id[2]))}]
               roots == {id \in AllDecls(W) : Params(Decl(W, id[1], id[2])) = <<>>}
           IN roots \cup Reach(G, roots, {})

NameMistakes(W) ==
    LET used == Used(W)
    IN Mist(W.more # <<>>, "duplicate")
       \cup UNION {ImportM(W, p) : p \in DOMAIN W.pk}
       \cup UNION {LET m == DeclNames(W, id) IN IF id \in used \/ m = {} THEN m ELSE {"?"} : id \in AllDecls(W)}

-----------------------------------------------------------------------------
(* Cycles *)

Cyclic(G) == \E x \in DOMAIN G : x \in Reach(G, {x}, {})

\* what subtypes and instances are other names of, with the arguments of templates
SubGraph(W) ==
    LET S == {id \in AllDecls(W) : Decl(W, id[1], id[2]).k \in {"sub", "inst"}}
    IN [id \in S |-> Mentions(W, id[1], Decl(W, id[1], id[2]).t)]

\* the enum or bitmask that a name stands for, <<>> if it is none
RECURSIVE ItemType(_, _, _, _)
ItemType(W, p, q, n) ==
    LET w == Where(W, p, q, n)
    IN IF w \in {"", "?"} THEN <<>>
       ELSE LET d == Decl(W, w, n)
            IN IF d.k \in {"enum", "mask"} THEN <<w, n>>
               ELSE IF d.k = "sub" /\ d.t.k = "nm" THEN ItemType(W, w, d.t.q, d.t.n) ELSE <<>>
ItemSet(W, id) == LET d == Decl(W, id[1], id[2]) IN {d.it[i].n : i \in 1..Len(d.it)}

\* what an expression refers to: <<package, constant, "">> and <<package, enum, item>>
RECURSIVE Uses(_, _, _, _)
Uses(W, p, own, x) ==
    LET S(y) == Uses(W, p, own, y)
    IN CASE x.o = "id" -> (IF own # <<>> /\ x.q = "" /\ (IF own = <<>> THEN FALSE ELSE x.n \in ItemSet(W, own)) THEN {<<own[1], own[2], x.n>>}
                           ELSE {<<Where(W, p, x.q, x.n), x.n, "">>})
         [] x.o = "it" -> LET e == ItemType(W, p, x.q, x.n) IN IF e = <<>> THEN {} ELSE {<<e[1], e[2], x.i>>}
         [] x.o \in {"n", "f", "idx", "len", "str", "lit", "call", "dec"} -> {}
         [] x.o = "at" -> S(x.i)
         [] x.o = "?" -> S(x.a) \cup S(x.b) \cup S(x.c)
         [] "b" \notin DOMAIN x -> S(x.a)
         [] OTHER -> S(x.a) \cup S(x.b)
WidthUses(W, p, t) == IF t.k = "bitd" THEN Uses(W, p, <<>>, t.e) ELSE {}

ConstGraph(W) ==
    LET cs == {<<id[1], id[2], "">> : id \in {i \in AllDecls(W) : Decl(W, i[1], i[2]).k = "const"}}
        es == UNION {{<<id[1], id[2], i>> : i \in ItemSet(W, id)} : id \in {i \in AllDecls(W) : Decl(W, i[1], i[2]).k \in {"enum", "mask"}}}
    IN [c \in cs \cup es |->
          LET d == Decl(W, c[1], c[2])
          IN IF d.k = "const" THEN Uses(W, c[1], <<>>, d.x) \cup WidthUses(W, c[1], d.t)
             ELSE LET i == CHOOSE k \in 1..Len(d.it) : d.it[k].n = c[3]
                  IN IF d.it[i].x # <<>> THEN Uses(W, c[1], <<c[1], c[2]>>, d.it[i].x[1])
                     ELSE IF i = 1 THEN {} ELSE {<<c[1], c[2], d.it[i - 1].n>>}]

CycleMistakes(W) == IF Cyclic(SubGraph(W)) THEN {"cycle"} ELSE Mist(Cyclic(ConstGraph(W)), "cycle")

-----------------------------------------------------------------------------
(* Sorts of types.  te: template parameter -> sort *)

RECURSIVE SortT(_, _, _, _)
SortT(W, p, te, t) ==
    CASE t.k \in {"uint", "int"} -> [s |-> "int", k |-> t.k, w |-> t.w]
      [] t.k \in {"varu", "vars"} -> [s |-> "int", k |-> t.k, w |-> t.n]
      [] t.k = "size" -> [s |-> "int", k |-> "size", w |-> 0]
      [] t.k = "bitd" -> [s |-> "int", k |-> "bitd", w |-> 0]
      [] t.k \in {"bool", "str"} -> [s |-> t.k]
      [] t.k \in {"f16", "f32", "f64"} -> [s |-> "flt"]
      [] t.k \in {"bytes", "ext"} -> [s |-> "blob"]
      [] t.k = "nm" ->
           (IF t.q = "" /\ t.n \in DOMAIN te THEN te[t.n]
            ELSE LET w == Where(W, p, t.q, t.n)
                     d == Decl(W, w, t.n)
                 IN CASE d.k \in {"sub", "inst"} -> SortT(W, w, NoEnv, d.t)
                      [] d.k \in {"enum", "mask"} -> [s |-> d.k, id |-> <<w, t.n>>]
                      [] Compound(d) -> [s |-> "obj", id |-> <<w, t.n>>,
                                         te |-> [x \in RangeOf(Params(d)) |-> SortT(W, p, te, t.ta[CHOOSE i \in 1..Len(d.tp) : d.tp[i] = x])]])
RECURSIVE Depth(_)
Depth(s) == IF s.s # "obj" THEN 0
            ELSE IF s.te = NoEnv THEN 1
            ELSE 1 + CHOOSE m \in {Depth(s.te[x]) : x \in DOMAIN s.te} : \A x \in DOMAIN s.te : Depth(s.te[x]) <= m
DeclOf(W, o) == Decl(W, o.id[1], o.id[2])
MemberList(d) == d.p \o AllFields(d)
IsMember(W, o, n) == \E i \in 1..Len(MemberList(DeclOf(W, o))) : MemberList(DeclOf(W, o))[i].n = n
Member(W, o, n) == LET l == MemberList(DeclOf(W, o)) IN l[CHOOSE i \in 1..Len(l) : l[i].n = n /\ \A j \in 1..(i - 1) : l[j].n # n]
SortOf(W, o, f) == SortT(W, o.id[1], o.te, f.t)
MemberSort(W, o, n) == LET f == Member(W, o, n)
                       IN IF Has(f, "r") /\ (IF Has(f, "r") THEN f.r # <<>> ELSE FALSE) THEN [s |-> "arr", e |-> SortOf(W, o, f)] ELSE SortOf(W, o, f)

\* all compound types, with the arguments they are used with
PartSorts(W, o) == LET d == DeclOf(W, o)
                   IN {s \in {SortOf(W, o, f) : f \in RangeOf(MemberList(d))} \cup {SortT(W, o.id[1], o.te, Fns(d)[n]) : n \in DOMAIN Fns(d)} : s.s = "obj"}
RECURSIVE Grow(_, _, _)
Grow(W, todo, done) ==
    IF todo = {} THEN done
    ELSE LET next == (UNION {PartSorts(W, o) : o \in {x \in todo : Depth(x) <= 4}}) \ (done \cup todo)
         IN Grow(W, next, done \cup todo)
Roots(W) ==
    {s \in {IF Compound(Decl(W, id[1], id[2])) THEN [s |-> "obj", id |-> id, te |-> NoEnv] ELSE SortT(W, id[1], NoEnv, Decl(W, id[1], id[2]).t) :
            id \in {i \in AllDecls(W) : LET d == Decl(W, i[1], i[2]) IN Params(d) = <<>> /\ d.k \notin {"const", "enum", "mask"}}} : s.s = "obj"}
Objects(W) == Grow(W, Roots(W), {})

\* what values of o are made of: recursive types need optional fields or arrays
Inside(W, o) == LET d == DeclOf(W, o)
                IN {s \in {SortOf(W, o, f) : f \in {g \in RangeOf(AllFields(d)) : ~g.o /\ g.r = <<>>} \cup RangeOf(d.p)} : s.s = "obj"}

-----------------------------------------------------------------------------
(* Expressions.  An environment is a record                                *)
(*   p   the package                                                        *)
(*   c   the compound type around, <<>> or <<sort>>                         *)
(*   it  an enum or bitmask whose items can be used by their names, or <<>> *)
(*   own whether it is being defined, so that its items are integers        *)
(*   ix  whether there is @index                                            *)
(*   at  the number of the field that the expression belongs to, or 0       *)
(* The result has a sort s and mistakes m.                                  *)

R(s) == [s |-> [s |-> s], m |-> {}]
Err(k) == [s |-> [s |-> "any"], m |-> {k}]
With(r, m) == [r EXCEPT !.m = @ \cup m]

InScope(W, e, n) == IF e.c = <<>> THEN FALSE ELSE IsMember(W, e.c[1], n)
IsItem(W, e, n) == IF e.it = <<>> THEN FALSE ELSE n \in ItemSet(W, e.it)

\* whether member n is decided before the expression is needed
Later(W, e, n) ==
    IF e.at = 0 THEN {}
    ELSE LET d == DeclOf(W, e.c[1])
         IN IF \E i \in 1..Len(d.p) : d.p[i].n = n THEN {}
            ELSE Mist(\E i \in e.at..Len(AllFields(d)) : AllFields(d)[i].n = n, "?")

\* a path from sort s
RECURSIVE Walk(_, _, _)
Walk(W, s, path) ==
    IF path = <<>> THEN [s |-> s, m |-> {}]
    ELSE IF s.s = "any" THEN [s |-> s, m |-> {}]
    ELSE IF s.s # "obj" THEN Err("member")
    ELSE IF ~IsMember(W, s, path[1]) THEN Err("member")
    ELSE Walk(W, MemberSort(W, s, path[1]), Tail(path))
\* whether n is an item of some enum of the package and those it imports
AnyItem(W, p, n) == \E q \in {p} \cup ({W.pk[p].imp[i].p : i \in 1..Len(W.pk[p].imp)} \cap DOMAIN W.pk) :
                      \E m \in DOMAIN Decls(W, q) : Decl(W, q, m).k \in {"enum", "mask"} /\ (IF Decl(W, q, m).k \in {"enum", "mask"} THEN n \in ItemSet(W, <<q, m>>) ELSE FALSE)
PathR(W, e, path) ==
    IF path = <<>> THEN (IF e.c = <<>> THEN Err("member") ELSE [s |-> e.c[1], m |-> {}])
    ELSE IF ~InScope(W, e, path[1])
    THEN (IF Len(path) = 1 /\ (IsItem(W, e, path[1]) \/ AnyItem(W, e.p, path[1]) \/ Where(W, e.p, "", path[1]) # "") THEN Err("?")
          ELSE IF Len(path) > 1 /\ (Where(W, e.p, "", path[1]) # "" \/ \E q \in DOMAIN W.pk : TRUE) THEN Err(IF Where(W, e.p, "", path[1]) # "" THEN "?" ELSE "unknown-name")
          ELSE Err("unknown-name"))
    ELSE With(Walk(W, MemberSort(W, e.c[1], path[1]), Tail(path)), Later(W, e, path[1]))
\* an array is no value
Value(r) == IF r.s.s = "arr" THEN [Err("array") EXCEPT !.m = @ \cup r.m] ELSE r

NameR(W, e, q, n) ==
    IF q = "" /\ InScope(W, e, n) THEN Value(With([s |-> MemberSort(W, e.c[1], n), m |-> {}], Later(W, e, n)))
    ELSE IF q = "" /\ IsItem(W, e, n) THEN (IF e.own THEN R("int") ELSE [s |-> [s |-> Decl(W, e.it[1], e.it[2]).k, id |-> e.it], m |-> {}])
    ELSE LET w == Where(W, e.p, q, n)
         IN IF w = "" THEN (IF q = "" /\ (IF e.c = <<>> THEN FALSE ELSE n \in DOMAIN e.c[1].te) THEN Err("not-a-value")
                            ELSE IF (IF q = "" THEN AnyItem(W, e.p, n) ELSE IF q \in DOMAIN W.pk THEN AnyItem(W, q, n) ELSE FALSE) THEN Err("?") ELSE Err("unknown-name"))
            ELSE IF w = "?" THEN Err("?")
            ELSE LET d == Decl(W, w, n)
                 IN IF d.k # "const" THEN Err("not-a-value")
                    ELSE LET s == SortT(W, w, NoEnv, d.t) IN [s |-> IF s.s = "int" THEN [s |-> "int"] ELSE s, m |-> {}]

ItemR(W, e, q, n, i) ==
    IF q = "" /\ InScope(W, e, n) THEN Err("?")
    ELSE LET id == IF q = "" /\ (IF e.c = <<>> THEN FALSE ELSE n \in DOMAIN e.c[1].te)
                   THEN (IF e.c[1].te[n].s \in {"enum", "mask"} THEN e.c[1].te[n].id ELSE <<>>)
                   ELSE ItemType(W, e.p, q, n)
         IN IF id = <<>> THEN (IF q = "" /\ Where(W, e.p, q, n) = "?" THEN Err("?") ELSE Err("unknown-name"))
            ELSE IF i \notin ItemSet(W, id) THEN Err("unknown-name")
            ELSE [s |-> [s |-> Decl(W, id[1], id[2]).k, id |-> id], m |-> {}]

Num(s) == s.s \in {"int", "flt"}
Nom(s) == s.s \in {"enum", "mask"}
\* numbers and items side by side
Loose(a, b) == (Num(a) /\ Nom(b)) \/ (Nom(a) /\ Num(b))
IntR == [s |-> "int"]
BoolR == [s |-> "bool"]

BinarySort(o, a, b) ==      \* <<sort, mistakes>>
    CASE a.s = "any" \/ b.s = "any" -> <<[s |-> IF o \in {"==", "!=", "<", "<=", ">", ">=", "&&", "||", "isset"} THEN "bool" ELSE "any"], {}>>
      [] o \in {"+", "cat"} /\ a.s = "str" /\ b.s = "str" -> <<a, {}>>
      [] o \in {"+", "-", "*", "/", "%", "cat"} ->
           (IF a.s = "int" /\ b.s = "int" THEN <<IntR, {}>>
            ELSE IF Num(a) /\ Num(b) THEN <<[s |-> "flt"], Mist(o = "%", "operand")>>
            ELSE IF (Num(a) \/ Nom(a)) /\ (Num(b) \/ Nom(b)) THEN <<[s |-> "any"], {"?"}>>
            ELSE <<[s |-> "any"], {"operand"}>>)
      [] o \in {"&", "|", "^"} ->
           (IF a.s = "int" /\ b.s = "int" THEN <<IntR, {}>>
            ELSE IF a.s = "mask" /\ b.s = "mask" THEN <<a, Mist(a # b, "?")>>
            ELSE IF (a.s = "int" \/ Nom(a)) /\ (b.s = "int" \/ Nom(b)) THEN <<[s |-> "any"], {"?"}>>
            ELSE <<[s |-> "any"], {"operand"}>>)
      [] o \in {"<<", ">>"} ->
           (IF a.s = "int" /\ b.s = "int" THEN <<IntR, {}>>
            ELSE IF (a.s = "int" \/ Nom(a)) /\ (b.s = "int" \/ Nom(b)) THEN <<[s |-> "any"], {"?"}>>
            ELSE <<[s |-> "any"], {"operand"}>>)
      [] o \in {"==", "!="} ->
           <<BoolR, IF Num(a) /\ Num(b) THEN {}
                    ELSE IF a.s \in {"obj", "blob", "arr"} \/ b.s \in {"obj", "blob", "arr"} THEN {"operand"}
                    ELSE IF Nom(a) /\ Nom(b) THEN Mist(a # b, "operand")
                    ELSE IF Loose(a, b) THEN {"?"}
                    ELSE Mist(a.s # b.s, "operand")>>
      [] o \in {"<", "<=", ">", ">="} ->
           <<BoolR, IF Num(a) /\ Num(b) THEN {}
                    ELSE IF (Num(a) \/ Nom(a)) /\ (Num(b) \/ Nom(b)) THEN {"?"}
                    ELSE {"operand"}>>
      [] o \in {"&&", "||"} -> <<BoolR, Mist(a.s # "bool" \/ b.s # "bool", "operand")>>
      [] o = "isset" -> <<BoolR, IF a.s = "mask" /\ b.s = "mask" THEN Mist(a # b, "operand") ELSE {"operand"}>>
UnarySort(o, a) ==
    CASE a.s = "any" -> <<[s |-> IF o = "!" THEN "bool" ELSE IF o \in {"vo", "nb"} THEN "int" ELSE "any"], {}>>
      [] o = "()" -> <<a, {}>>
      [] o = "vo" -> <<IntR, Mist(~Nom(a), "operand")>>
      [] o = "nb" -> <<IntR, IF a.s = "int" THEN {} ELSE IF Nom(a) THEN {"?"} ELSE {"operand"}>>
      [] o = "neg" -> (IF Num(a) THEN <<a, {}>> ELSE IF Nom(a) THEN <<[s |-> "any"], {"?"}>> ELSE <<[s |-> "any"], {"operand"}>>)
      [] o = "!" -> <<BoolR, Mist(a.s # "bool", "operand")>>
      [] o \in {"~", "mc"} -> (IF a.s \in {"int", "mask"} THEN <<a, {}>> ELSE IF Nom(a) THEN <<[s |-> "any"], {"?"}>> ELSE <<[s |-> "any"], {"operand"}>>)
Either(a, b) ==
    CASE a.s = "any" \/ b.s = "any" -> <<[s |-> "any"], {}>>
      [] a.s = "int" /\ b.s = "int" -> <<IntR, {}>>
      [] Num(a) /\ Num(b) -> <<[s |-> "any"], IF a = b THEN {} ELSE {"?"}>>
      [] Nom(a) /\ Nom(b) -> <<[s |-> "any"], Mist(a # b, "?")>> \* either a or b
      [] Loose(a, b) -> <<[s |-> "any"], {"?"}>>
      [] a.s = b.s -> <<a, Mist(a.s \in {"obj", "blob"}, "?")>>
      [] OTHER -> <<[s |-> "any"], {"operand"}>>

RECURSIVE ExprR(_, _, _)
ExprR(W, e, x) ==
    LET S(y) == ExprR(W, e, y)
    IN CASE x.o = "n" -> R(IF Has(x, "tf") THEN "bool" ELSE "int")
         [] x.o \in {"str", "lit"} -> R("str")
         [] x.o \in {"dec", "fx"} -> R("flt")
         [] x.o = "idx" -> (IF e.ix THEN R("int") ELSE Err("index"))
         [] x.o = "id" -> NameR(W, e, x.q, x.n)
         [] x.o = "it" -> ItemR(W, e, x.q, x.n, x.i)
         [] x.o = "f" -> Value(PathR(W, e, x.p))
         [] x.o = "len" -> LET r == PathR(W, e, x.p)
                           IN IF r.s.s \in {"arr", "any"} THEN [s |-> IntR, m |-> r.m] ELSE [Err("operand") EXCEPT !.m = @ \cup r.m]
         [] x.o = "at" -> LET r == PathR(W, e, x.p)
                              i == S(x.i)
                              v == IF r.s.s = "any" THEN r ELSE IF r.s.s # "arr" THEN [Err("operand") EXCEPT !.m = @ \cup r.m]
                                   ELSE With(Walk(W, r.s.e, x.q), r.m)
                          IN With(Value(v), i.m \cup Mist(i.s.s \notin {"int", "any"}, IF Nom(i.s) THEN "?" ELSE "operand"))
         [] x.o = "call" -> LET r == PathR(W, e, x.p)
                            IN IF r.s.s = "any" THEN r
                               ELSE IF r.s.s # "obj" THEN [Err("member") EXCEPT !.m = @ \cup r.m]
                               ELSE IF x.f \notin DOMAIN Fns(DeclOf(W, r.s)) THEN [Err("member") EXCEPT !.m = @ \cup r.m]
                               ELSE [s |-> LET s == SortT(W, r.s.id[1], r.s.te, Fns(DeclOf(W, r.s))[x.f]) IN IF s.s = "int" THEN IntR ELSE s, m |-> r.m]
         [] x.o = "?" -> LET a == S(x.a)
                             b == S(x.b)
                             c == S(x.c)
                             z == Either(b.s, c.s)
                         IN [s |-> z[1], m |-> a.m \cup b.m \cup c.m \cup z[2] \cup Mist(a.s.s \notin {"bool", "any"}, "operand")]
         [] "b" \notin DOMAIN x -> LET a == S(x.a)
                                       z == UnarySort(x.o, a.s)
                                   IN [s |-> z[1], m |-> a.m \cup z[2]]
         [] OTHER -> LET a == S(x.a)
                         b == S(x.b)
                         z == BinarySort(x.o, a.s, b.s)
                     IN [s |-> z[1], m |-> a.m \cup b.m \cup z[2]]

\* the result r used as a value of sort t
AssignM(t, r) ==
    r.m \cup (CASE r.s.s = "any" -> {}
                [] t.s \in {"int", "flt"} /\ r.s.s = "int" -> {}
                [] Num(t) /\ Nom(r.s) -> {"?"}
                [] Nom(t) /\ r.s.s = "int" -> {"?"}
                [] Nom(t) /\ Nom(r.s) -> Mist(t # r.s, "value")
                [] t.s = "blob" /\ r.s.s = "blob" -> {"?"}
                [] t.s = "obj" /\ r.s.s = "obj" -> (IF t.id = r.s.id THEN Mist(t # r.s, "?") ELSE {"value"})
                [] t.s = r.s.s -> {}
                [] OTHER -> {"value"})
MustBe(k, r, what) == r.m \cup Mist(r.s.s \notin {k, "any"}, IF k = "int" /\ Nom(r.s) THEN "?" ELSE what)

\* an expression without fields, @index and calls
RECURSIVE IsConst(_, _, _)
IsConst(W, e, x) ==
    CASE x.o = "id" -> ~(x.q = "" /\ InScope(W, e, x.n))
      [] x.o \in {"n", "str", "lit", "it", "dec", "fx"} -> TRUE
      [] x.o \in {"f", "idx", "len", "call", "at"} -> FALSE
      [] x.o = "?" -> IsConst(W, e, x.a) /\ IsConst(W, e, x.b) /\ IsConst(W, e, x.c)
      [] "b" \notin DOMAIN x -> IsConst(W, e, x.a)
      [] OTHER -> IsConst(W, e, x.a) /\ IsConst(W, e, x.b)
ConstM(W, e, x) == Mist(~IsConst(W, e, x), "not-constant")

Outside(p) == [p |-> p, c |-> <<>>, it |-> <<>>, own |-> FALSE, ix |-> FALSE, at |-> 0]
Within(o) == [Outside(o.id[1]) EXCEPT !.c = <<o>>]

WidthM(W, e, t) == IF t.k = "bitd" THEN MustBe("int", ExprR(W, e, t.e), "width") ELSE {}
FixedWidthM(W, p, t) == IF t.k = "bitd" THEN WidthM(W, Outside(p), t) \cup ConstM(W, Outside(p), t.e) ELSE {}

SimpleM(W, id) ==
    LET p == id[1]
        d == Decl(W, p, id[2])
        t == SortT(W, p, NoEnv, d.t)
        e == IF d.k = "const" THEN Outside(p) ELSE [Outside(p) EXCEPT !.it = id, !.own = TRUE]
    IN FixedWidthM(W, p, d.t) \cup (IF d.t.k = "nm" THEN Mist(d.t.a # <<>>, "arguments") ELSE {}) \cup
       (IF d.k = "const"
        THEN IF t.s \in {"obj", "blob"} THEN {"const-type"} ELSE LET m == AssignM(t, ExprR(W, e, d.x))
                 \* constants of one enum in place of another
             IN (IF Nom(t) /\ d.x.o # "it" /\ "value" \in m THEN {"?"} ELSE m) \cup ConstM(W, e, d.x)
        ELSE Mist(t.s # "int", "enum-type")
             \cup UNION {IF d.it[i].x = <<>> THEN {} ELSE MustBe("int", ExprR(W, e, d.it[i].x[1]), "value") \cup ConstM(W, e, d.it[i].x[1]) : i \in 1..Len(d.it)})

ArgsM(W, o, f, k) ==
    LET t == SortOf(W, o, f)
        e == [Within(o) EXCEPT !.ix = f.r # <<>>, !.at = k]
        a == IF f.t.k = "nm" THEN f.t.a ELSE <<>>
    IN IF t.s # "obj" THEN Mist(a # <<>>, "arguments")
       ELSE LET ps == DeclOf(W, t).p
            IN IF Len(ps) # Len(a) THEN {"arguments"}
               ELSE UNION {AssignM(SortOf(W, t, ps[i]), ExprR(W, e, a[i])) : i \in 1..Len(a)}
FieldM(W, o, f, k) ==
    LET t == SortOf(W, o, f)
        e == [Within(o) EXCEPT !.at = k]
    IN ArgsM(W, o, f, k) \cup WidthM(W, e, f.t)
       \cup (IF f.c = <<>> THEN {} ELSE MustBe("bool", ExprR(W, e, f.c[1]), "condition"))
       \cup (IF f.r = <<>> THEN {} ELSE IF f.r[1].l = <<>> THEN {} ELSE MustBe("int", ExprR(W, e, f.r[1].l[1]), "length"))
       \cup (IF ~Has(f, "ini") THEN {}
             ELSE IF f.r # <<>> \/ t.s \in {"obj", "blob"} THEN {"initial-value"}
             ELSE AssignM(t, ExprR(W, Within(o), f.ini)) \cup ConstM(W, Within(o), f.ini))
LabelEnv(W, o) == LET s == ExprR(W, Within(o), DeclOf(W, o).sel).s IN [Within(o) EXCEPT !.it = IF Nom(s) THEN s.id ELSE <<>>]
CasesM(W, o) ==
    LET d == DeclOf(W, o)
        s == ExprR(W, Within(o), d.sel)
        e == LabelEnv(W, o)
    IN s.m \cup Mist(s.s.s \notin {"int", "bool", "enum", "mask", "any"}, "selector")
       \cup UNION {UNION {AssignM(s.s, ExprR(W, e, d.c[i].l[j])) \cup ConstM(W, e, d.c[i].l[j]) : j \in 1..Len(d.c[i].l)} : i \in 1..Len(d.c)}
ObjectM(W, o) ==
    LET d == DeclOf(W, o)
        l == AllFields(d)
    IN UNION {FieldM(W, o, l[i], IF d.k = "struct" THEN i ELSE 1) : i \in 1..Len(l)}
       \cup (IF d.k = "choice" THEN CasesM(W, o) ELSE {})
       \cup UNION {AssignM(SortT(W, o.id[1], o.te, Fns(d)[n]), ExprR(W, Within(o), d.fn[n])) : n \in DOMAIN Fns(d)}

TypeMistakes(W) ==
    LET all == Objects(W)
        simple == {id \in AllDecls(W) : Decl(W, id[1], id[2]).k \in {"const", "enum", "mask"}}
    IN UNION {SimpleM(W, id) : id \in simple}
       \cup (IF \E o \in all : Depth(o) > 4 THEN {"?"}
             ELSE UNION {ObjectM(W, o) : o \in all} \cup Mist(Cyclic([o \in all |-> Inside(W, o)]), "recursive"))

-----------------------------------------------------------------------------
(* Values *)

Max64 == WSub(WShl(WOne, 63), WOne)
InRange(s, v) ==
    LET neg == WNegative(v)
        Below(n) == IF n >= 79 THEN TRUE ELSE WLt(v, WShl(WOne, n))
    IN CASE s.k = "uint" -> ~neg /\ Below(s.w)
         [] s.k = "int" -> ~WLt(v, WNeg(WShl(WOne, s.w - 1))) /\ Below(s.w - 1)
         [] s.k = "varu" -> ~neg /\ Below(CASE s.w = 2 -> 15 [] s.w = 4 -> 29 [] s.w = 8 -> 57 [] s.w = 9 -> 64)
         [] s.k = "vars" -> (IF s.w = 9 THEN ~WLt(v, WNeg(WShl(WOne, 63))) /\ Below(63)
                             ELSE LET n == CASE s.w = 2 -> 14 [] s.w = 4 -> 28 [] s.w = 8 -> 56
                                  IN WLt(WAbs(v), WShl(WOne, n)))
         [] s.k = "size" -> ~neg /\ Below(31)
         [] OTHER -> TRUE
Fits64(v) == ~WLt(Max64, v) /\ ~WLt(v, WNeg(Max64))

\* whether floating-point numbers take part in a constant expression
RECURSIVE HasFloat(_, _, _)
HasFloat(W, p, x) ==
    CASE x.o \in {"dec", "fx"} -> TRUE
      [] x.o = "id" -> LET w == Where(W, p, x.q, x.n)
                       IN IF w \in {"", "?"} THEN FALSE
                          ELSE LET d == Decl(W, w, x.n)
                               IN IF d.k # "const" THEN FALSE ELSE d.t.k \in {"f16", "f32", "f64"} \/ HasFloat(W, w, d.x)
      [] x.o \in {"n", "f", "idx", "len", "str", "lit", "it", "call"} -> FALSE
      [] x.o = "at" -> HasFloat(W, p, x.i)
      [] x.o = "?" -> HasFloat(W, p, x.a) \/ HasFloat(W, p, x.b) \/ HasFloat(W, p, x.c)
      [] "b" \notin DOMAIN x -> HasFloat(W, p, x.a)
      [] OTHER -> HasFloat(W, p, x.a) \/ HasFloat(W, p, x.b)

\* the mistakes in the values of an expression, e.g. divisions by zero, bottom up
RECURSIVE ValueM(_, _, _)
HasParamItem(W, e, x) == FALSE
ValueM(W, e, x) ==
    LET S(y) == ValueM(W, e, y)
        N == IF e.it = <<>> THEN NoEnv ELSE ItemNames(W, e.it[1], e.it[2])
        Val(y) == Constant(W, e.p, Sub(y, N))
        IsInt(y) == ExprR(W, e, y).s.s = "int"
        parts == CASE x.o \in {"n", "id", "it", "f", "idx", "len", "str", "lit", "call", "dec", "fx"} -> {}
                   [] x.o = "at" -> S(x.i)
                   [] x.o = "?" -> S(x.a) \cup S(x.b) \cup S(x.c)
                   [] "b" \notin DOMAIN x -> S(x.a)
                   [] OTHER -> S(x.a) \cup S(x.b)
    IN IF x.o = "it" /\ (IF e.c = <<>> THEN FALSE ELSE x.n \in DOMAIN e.c[1].te) THEN {"?"}   \* the parameter of a template
       ELSE IF parts # {} THEN parts
       ELSE IF HasFloat(W, e.p, x) /\ ExprR(W, e, x).s.s # "flt" THEN {"?"}
       ELSE IF x.o = "at" THEN Mist(IF IsConst(W, e, x.i) /\ IsInt(x.i) THEN WNegative(Val(x.i)) ELSE FALSE, "index")
       ELSE IF x.o = "n" THEN (IF Has(x, "tf") THEN {} ELSE Mist(~Fits64(x.v), "?"))
       ELSE IF x.o \in {"f", "idx", "len", "str", "lit", "call", "at", "dec", "fx", "id", "it"} THEN {}
       ELSE IF x.o = "nb" THEN Mist(IF IsConst(W, e, x.a) THEN WNegative(Val(x.a)) ELSE FALSE, "?")
       ELSE IF "b" \notin DOMAIN x THEN {}
       ELSE IF x.o = "?" THEN {}
       ELSE LET kb == IsConst(W, e, x.b)
                k == kb /\ IsConst(W, e, x.a)
            IN IF x.o \in {"/", "%"} /\ kb
               THEN (IF IsInt(x.b) THEN (IF Val(x.b) = WZero THEN {IF k THEN "zero" ELSE "?"} ELSE {}) ELSE {"?"})
               ELSE IF x.o \in {"<<", ">>"} /\ kb
               THEN LET b == Val(x.b)
                    IN IF WNegative(b) THEN {"shift"} \* before a, which may be data
                       ELSE IF ~WLt(b, WFrom(64)) THEN {"?"}
                       ELSE IF k THEN Mist(WBitLen(WAbs(Val(x.a))) + (IF x.o = "<<" THEN WInt(b) ELSE 0) > 63, "?") ELSE {}
               ELSE IF x.o = "*" /\ k /\ IsInt(x.a) /\ IsInt(x.b) THEN Mist(WBitLen(WAbs(Val(x.a))) + WBitLen(WAbs(Val(x.b))) > 63, "?")
               ELSE IF x.o \in {"+", "-"} /\ k /\ IsInt(x.a) /\ IsInt(x.b) THEN Mist(~Fits64(WAdd(Val(x.a), IF x.o = "-" THEN WNeg(Val(x.b)) ELSE Val(x.b))), "?")
               ELSE {}
\* the value of x, once ValueM is empty
ValOf(W, e, x) == Constant(W, e.p, Sub(x, IF e.it = <<>> THEN NoEnv ELSE ItemNames(W, e.it[1], e.it[2])))
RangeM(W, e, t, x) == IF t.s = "int" /\ IsConst(W, e, x)
                      THEN (IF ValueM(W, e, x) # {} THEN ValueM(W, e, x) ELSE Mist(~InRange(t, ValOf(W, e, x)), "range"))
                      ELSE ValueM(W, e, x)
BitsM(W, e, t) == IF t.k # "bitd" THEN {}
                  ELSE IF ~IsConst(W, e, t.e) THEN ValueM(W, e, t.e)
                  ELSE RangeM(W, e, [s |-> "int", k |-> "uint", w |-> 64], t.e)
                       \cup (IF ValueM(W, e, t.e) # {} THEN {} ELSE LET v == ValOf(W, e, t.e) IN Mist(WLt(v, WOne) \/ WLt(WFrom(64), v), "width"))
\* the sort of a type of known width
Known(W, e, t, s) == IF t.k # "bitd" THEN s
                     ELSE LET v == ValOf(W, e, t.e) IN [s |-> "int", k |-> IF t.s THEN "int" ELSE "uint", w |-> WInt(v)]

\* constants first: nothing else can be evaluated while these are wrong.
\* c: a constant or an item, as in ConstGraph; what it uses comes before it.
RECURSIVE NodeM(_, _, _)
NodeM(W, G, c) ==
    LET before == UNION {NodeM(W, G, x) : x \in G[c] \cap DOMAIN G}
        d == Decl(W, c[1], c[2])
        e == Outside(c[1])
    IN IF before # {} THEN before
       ELSE IF d.k = "const" THEN BitsM(W, e, d.t) \cup ValueM(W, e, d.x)
       ELSE LET k == CHOOSE i \in 1..Len(d.it) : d.it[i].n = c[3]
            IN IF d.it[k].x = <<>> THEN {}
               ELSE ValueM(W, [e EXCEPT !.it = <<c[1], c[2]>>, !.own = TRUE], d.it[k].x[1])
ConstValuesM(W) ==
    LET G == ConstGraph(W)
        a == UNION {NodeM(W, G, c) : c \in DOMAIN G}
    IN IF a # {} THEN a
       ELSE UNION {BitsM(W, Outside(id[1]), Decl(W, id[1], id[2]).t) :
                   id \in {i \in AllDecls(W) : Decl(W, i[1], i[2]).k \in {"enum", "mask"}}}
ConstRangeM(W, id) ==
    LET p == id[1]
        d == Decl(W, p, id[2])
        s == Known(W, Outside(p), d.t, SortT(W, p, NoEnv, d.t))
    IN IF d.k = "const" THEN RangeM(W, Outside(p), s, d.x)
       ELSE LET l == Items(W, p, id[2])
            IN Mist(\E i \in 1..Len(l) : ~InRange(s, l[i]) \/ (d.k = "mask" /\ WNegative(l[i])), "range")
               \cup Mist(Twice(l), IF d.k = "enum" THEN "duplicate-value" ELSE "?")

FieldValueM(W, o, f) ==
    LET e == Within(o)
        t == SortOf(W, o, f)
    IN BitsM(W, e, f.t)
       \cup (IF f.c = <<>> THEN {} ELSE ValueM(W, e, f.c[1]))
       \cup (IF f.r = <<>> THEN {} ELSE IF f.r[1].l = <<>> THEN {}
             ELSE LET x == f.r[1].l[1]
                      m == ValueM(W, e, x)
                  IN m \cup (IF m = {} /\ IsConst(W, e, x) THEN Mist(WNegative(ValOf(W, e, x)), "length") ELSE {}))
       \cup (IF ~Has(f, "ini") THEN {}
             ELSE IF BitsM(W, e, f.t) # {} THEN {}
             ELSE RangeM(W, e, IF f.t.k = "bitd" /\ (IF f.t.k = "bitd" THEN ~IsConst(W, e, f.t.e) ELSE FALSE) THEN t ELSE Known(W, e, f.t, t), f.ini))
       \cup (IF t.s # "obj" THEN {}
             ELSE LET ps == DeclOf(W, t).p
                  IN UNION {RangeM(W, e, SortOf(W, t, ps[i]), f.t.a[i]) : i \in 1..Len(f.t.a)})
LabelsM(W, o) ==
    LET d == DeclOf(W, o)
        s == ExprR(W, Within(o), d.sel).s
        e == LabelEnv(W, o)
        l == FoldLeft(LAMBDA acc, c : acc \o c.l, <<>>, d.c)
        m == UNION {ValueM(W, e, l[i]) : i \in 1..Len(l)}
        t == IF d.sel.o = "f" /\ s.s = "int" THEN s ELSE [s |-> "int", k |-> "uint", w |-> 7]
    IN ValueM(W, Within(o), d.sel) \cup m \cup
       (IF m # {} THEN {}
        ELSE Mist(Twice([i \in 1..Len(l) |-> ValOf(W, e, l[i])]), "duplicate-label")
             \cup (IF s.s # "int" THEN {} ELSE Mist(\E i \in 1..Len(l) : ~InRange(t, ValOf(W, e, l[i])), IF Has(t, "k") /\ t = s THEN "range" ELSE "?")))
ObjectValueM(W, o) ==
    LET d == DeclOf(W, o)
    IN UNION {FieldValueM(W, o, f) : f \in RangeOf(AllFields(d))}
       \cup (IF d.k = "choice" THEN LabelsM(W, o) ELSE {})
       \cup UNION {ValueM(W, Within(o), d.fn[n]) : n \in DOMAIN Fns(d)}
ValueMistakes(W) ==
    LET simple == {id \in AllDecls(W) : Decl(W, id[1], id[2]).k \in {"const", "enum", "mask"}}
        a == ConstValuesM(W)
        b == IF a # {} THEN a ELSE UNION {ConstRangeM(W, id) : id \in simple}
    IN IF b # {} THEN b ELSE UNION {ObjectValueM(W, o) : o \in Objects(W)}

-----------------------------------------------------------------------------
Mistakes(W) ==
    LET a == NameMistakes(W)
    IN IF a # {} THEN a
       ELSE LET b == CycleMistakes(W)
            IN IF b # {} THEN b
               ELSE LET c == TypeMistakes(W)
                    IN IF c # {} THEN c ELSE ValueMistakes(W)
=============================================================================

----------------------------- MODULE WorldTrace -----------------------------
(***************************************************************************)
(* What schemas of several packages mean (see World), worked out for the   *)
(* generated code, and what the generated code makes of them.  One state   *)
(* per record w of the input:                                              *)
(*   w     the world             tops  the types to elaborate               *)
(*   obs   what the generated code shows, a sequence of                     *)
(*     [q "const", p, n, v]           the value of a constant               *)
(*     [q "items", p, n, vs, ...]     an enum, see Enum                     *)
(*     [q "mask", p, n, vs]           the values of a bitmask, in order     *)
(*     [q "same", a, b, v]            the types of two fields of type a, b   *)
(*                                    [p, t] are the same type              *)
(*     [q "default", p, n, v]         an object with loaded defaults        *)
(* The verdict lists the numbers of the observations that are wrong; when   *)
(* there are none to judge, it is the elaborated schema.                    *)
(***************************************************************************)
EXTENDS World, Json, IOUtils

VARIABLES ph, C
WInit == ph = "pick" /\ C = ndJsonDeserialize(IOEnv.WORLDS)
Pick == /\ ph = "pick"
        /\ \E i \in 1..Len(C) : C' = C[i]
        /\ ph' = "work"

Ground(p, t) == ElabT(C.w, p, Top, t)
BaseType(p, t) == BaseOf(C.w, Ground(p, t))

\* A value as the Go program reports it: integers as the low 64 bits, floating-point numbers by their bits
IntLike(t) == t.k \in {"uint", "int", "varu", "vars", "size", "bitd"}

\* the binary64 number x / 2^16 for a wide x # 0 of less than 2^53
F64Of(x) == IF x = WZero THEN Zero
            ELSE LET m == WAbs(x)
                     n == WBitLen(m)                   \* m in [2^(n-1), 2^n)
                     f == WShl(m, 53 - n)              \* 53 bits, the first one set
                     e == n - 1 - 16 + 1023
                     lo == WWord(WSub(f, WShl(WOne, 52)))
                 IN [lo EXCEPT ![1] = @ + 16 * e + (IF WNegative(x) THEN 32768 ELSE 0)]
F32Of(x) == IF x = WZero THEN Zero
            ELSE LET m == WAbs(x)
                     n == WBitLen(m)
                     f == IF n <= 24 THEN WShl(m, 24 - n) ELSE WShr(m, n - 24)
                     e == n - 1 - 16 + 127
                     r == WAdd(WSub(f, WShl(WOne, 23)), WShl(WFrom(e + (IF WNegative(x) THEN 256 ELSE 0)), 23))
                 IN WWord(r)
ValueIs(t, v, g) ==
    CASE IntLike(t) -> g = WWord(v)
      [] t.k = "f64" -> g = F64Of(v)
      [] t.k \in {"f16", "f32"} -> g = F32Of(v)
      [] OTHER -> g = v

\* g is the number of the format closest to (-1)^x.s * x.m * 10^-x.j.  A number of the format is
\* M * 2^E; x.m and 10^x.j are small enough for wide integers to hold both sides times 10^x.j * 2^-E.
RECURSIVE Ten(_)
Ten(j) == IF j = 0 THEN WOne ELSE WMul(Ten(j - 1), WFrom(10))
Nearest(t, x, g) ==
    LET d == t.k = "f64"
        hi == IF d THEN g[1] ELSE g[3]
        neg == hi >= 32768
        e == IF d THEN (hi % 32768) \div 16 ELSE (hi % 32768) \div 128
        fr == IF d THEN <<0, hi % 16, g[2], g[3], g[4]>> ELSE <<0, 0, 0, hi % 128, g[4]>>
        M == WAdd(fr, WShl(WOne, IF d THEN 52 ELSE 23))
        k == IF d THEN 1075 - e ELSE 150 - e                     \* -E
        A == IF k >= 0 THEN WShl(x.m, k) ELSE x.m                \* x.m * 10^-x.j * 10^x.j * 2^-E
        B == IF k >= 0 THEN WMul(M, Ten(x.j)) ELSE WShl(WMul(M, Ten(x.j)), -k)
        half == WShl(WAbs(WSub(A, B)), 1)
        ulp == IF k >= 0 THEN Ten(x.j) ELSE WShl(Ten(x.j), -k)
    IN /\ neg = x.s
       /\ (IF d THEN TRUE ELSE g[1] = 0 /\ g[2] = 0)
       /\ (WLt(half, ulp) \/ (half = ulp /\ M[5] % 2 = 0))

\* the object g holds the value of the expression x
Holds(p, t, x, g) == IF x.o = "dec" THEN Nearest(t, x, g) ELSE ValueIs(t, Constant(C.w, p, x), g)

ConstOk(o) == LET d == Decl(C.w, o.p, o.n)
              IN Holds(o.p, BaseType(o.p, d.t), d.x, o.v)

\* An enum: its items in order [vs: values, ns: names, str: what String gives for each],
\* from: [s, ok, v] conversions of names; other: [v, s] what String gives for other values;
\* sql: [s, ok, v]: what Scan makes of a database value; val: database values of the items.
EnumOk(o) ==
    LET d == Decl(C.w, o.p, o.n)
        l == Items(C.w, o.p, o.n)
        ns == [i \in 1..Len(d.it) |-> d.it[i].s]
        Conv(c) == LET ks == {i \in 1..Len(l) : ns[i] = c.s}
                   IN IF ks = {} THEN ~c.ok ELSE IF c.ok THEN \E i \in ks : c.v = WWord(l[i]) ELSE FALSE
        Names(v) == {ns[i] : i \in {j \in 1..Len(l) : WWord(l[j]) = v}}
    IN (IF o.vs = [i \in 1..Len(l) |-> WWord(l[i])] THEN <<>> ELSE <<"values">>)
    \o (IF o.ns = ns THEN <<>> ELSE <<"names">>)
    \o (IF o.str = ns THEN <<>> ELSE <<"string">>)
    \o (IF \A i \in 1..Len(o.from) : Conv(o.from[i]) THEN <<>> ELSE <<"from-name">>)
    \o (IF \A i \in 1..Len(o.other) : (IF Names(o.other[i].v) = {} THEN o.other[i].s \notin {ns[k] : k \in 1..Len(ns)}
                                       ELSE o.other[i].s \in Names(o.other[i].v)) THEN <<>> ELSE <<"unknown">>)
    \o (IF \A i \in 1..Len(o.sql) : Conv(o.sql[i]) THEN <<>> ELSE <<"scan">>)
    \o (IF o.val = <<>> \/ o.val = ns THEN <<>> ELSE <<"sql-value">>)

MaskOk(o) == LET l == Items(C.w, o.p, o.n) IN o.vs = [i \in 1..Len(l) |-> WWord(l[i])]

\* bit:64 and uint64 may or may not be the same to the generated code
SameOk(o) == LET a == Ground(o.a.p, o.a.t)
                 b == Ground(o.b.p, o.b.t)
             IN o.v = (a = b) \/ (a # b /\ SameKey(a) = SameKey(b))

\* loaded defaults: of a type p, n; v is what the object holds
RECURSIVE DefaultOk(_, _, _, _), FieldDefault(_, _, _, _)
FieldDefault(p, env, f, v) ==
    LET t == ElabT(C.w, p, env, f.t)
        b == BaseOf(C.w, t)
    IN IF f.o \/ f.r # <<>> THEN TRUE
       ELSE IF "ini" \in DOMAIN f THEN Holds(p, b, f.ini, v)
       ELSE IF b.k # "ref" THEN TRUE
       ELSE DefaultOk(b.id[1], b.id[2], b.id[3], v)
DefaultOk(p, n, ta, v) ==
    LET d == Decl(C.w, p, n)
        env == IF "tp" \notin DOMAIN d THEN Top
               ELSE [Top EXCEPT !.t = [x \in {d.tp[i] : i \in 1..Len(d.tp)} |-> ta[CHOOSE i \in 1..Len(d.tp) : d.tp[i] = x]]]
    IN IF d.k # "struct" THEN TRUE
       ELSE \A i \in 1..Len(d.f) : FieldDefault(p, env, d.f[i], v[d.f[i].n])

Wrong(o) == CASE o.q = "const" -> (IF ConstOk(o) THEN <<>> ELSE <<"constant">>)
              [] o.q = "items" -> EnumOk(o)
              [] o.q = "mask" -> (IF MaskOk(o) THEN <<>> ELSE <<"values">>)
              [] o.q = "same" -> (IF SameOk(o) THEN <<>> ELSE <<"identity">>)
              [] o.q = "default" -> (IF DefaultOk(o.p, o.n, <<>>, o.v) THEN <<>> ELSE <<"default">>)

Work == /\ ph = "work"
        /\ IF C.obs = <<>> THEN PrintT("VERDICT" \o ToJson([i |-> C.i, sch |-> Elab(C.w, C.tops)]))
           ELSE LET bad == SelectSeq([k \in 1..Len(C.obs) |-> [k |-> k, w |-> Wrong(C.obs[k])]], LAMBDA x : x.w # <<>>)
                IN PrintT("VERDICT" \o ToJson([i |-> C.i, bad |-> bad]))
        /\ ph' = "done" /\ UNCHANGED C

WSpec == WInit /\ [][Pick \/ Work]_<<ph, C>>
WView == IF ph = "pick" THEN <<-1, ph>> ELSE <<C.i, ph>>
=============================================================================

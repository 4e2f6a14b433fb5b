"""Checks of what expressions, constants and numbered items mean."""
import struct as struct_

from .. import core, flow, harness, values, world
from ..core import THOROUGH, log, Infra
from ..codec import short
from ..schema import *
from ..values import limbs
from .codec import go, scaled

BIGU = {"uint64", "varuint", "varuint64", "bit:64"}
I64 = (-(1 << 63), (1 << 63) - 1)


def y_of(t):
    return "u" if t.get("zs") in BIGU else {"bool": "b", "str": "r", "f64": "d", "f32": "s", "f16": "s"}.get(t["k"], "i")


class Bad(Exception):
    pass


def is_const(x):
    o = x["o"]
    if o in ("n", "fl"): return True
    if o in ("f", "at", "idx", "len", "call"): return False
    return all(is_const(x[k]) for k in ("a", "b", "c") if k in x)


def cost(x, s):
    """Nodes to evaluate, through calls."""
    n = 1 + sum(cost(x[k], s) for k in ("a", "b", "c", "i") if k in x)
    return n + cost(s.defs[x["t"]]["fn"][x["f"]], s) if x["o"] == "call" else n


class ExprGen:
    """Random typed expressions over a set of operands.
    leafs: {"int": [...], "bool": [...], "str": [...], "f64": ..., "f32": ..., "E:name": ..., "M:name": ...}"""

    mw = {}         # kind of a bitmask -> its number of bits

    def __init__(self, rnd, leafs, sch, deep=4):
        self.r, self.l, self.sch, self.deep = rnd, leafs, sch, deep

    def ok(self, x):
        """Constant parts must have a value the generator can fold."""
        for k in ("a", "b", "c", "i"):
            if k in x: self.ok(x[k])
        if is_const(x) and x["o"] not in ("n", "fl"):
            try:
                v = values.ev(x, {}, self.sch)
            except (ZeroDivisionError, ValueError, OverflowError, MemoryError):
                raise Bad()
            if isinstance(v, int) and not isinstance(v, bool) and not I64[0] <= v <= I64[1] and x["o"] not in ("mc", "&", "|", "^"): raise Bad()
        if x["o"] in ("<<", ">>") and is_const(x["b"]) and not 0 <= values.ev(x["b"], {}, self.sch) <= 62: raise Bad()
        if x["o"] in ("/", "%") and is_const(x["b"]) and (x["b"]["v"] == [0, 0, 0, 0] if x["b"]["o"] == "fl" else values.ev(x["b"], {}, self.sch) == 0): raise Bad()

    def const(self):
        r = self.r
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 100, 127, 128, 255, 256, 65535, r.randint(0, 300)] if r.random() < 0.8
                     else [1 << r.randint(0, 62), (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, r.getrandbits(r.randint(1, 62))])
        z = r.random()
        zs = "0x%x" % v if z < 0.12 else "0%o" % v if z < 0.2 and v else "%sb" % bin(v)[2:] if z < 0.28 else None
        return N(v, zs)

    def leaf(self, kind):
        l = self.l.get(kind) or []
        if not l: raise Bad()
        return dict(self.r.choice(l))

    def integer(self, d):
        r = self.r
        m = r.random()
        if d <= 0 or m < 0.12:
            return self.const() if r.random() < 0.3 else self.leaf("int")
        if m < 0.60:
            o = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "+", "-"])
            return B(o, self.integer(d - 1), self.integer(d - 1))
        if m < 0.70:
            n = N(r.choice([0, 1, 2, 3, 7, 8, 15, 31, 32, 40])) if r.random() < 0.6 else B("%", self.leaf("int"), N(r.choice([5, 8, 16, 32]))) if r.random() < 0.5 else self.leaf("small")
            return B(r.choice(["<<", ">>"]), self.integer(d - 1), n)
        if m < 0.75: return U("neg", self.integer(d - 1))
        if m < 0.79: return U("~", self.integer(d - 1))
        if m < 0.82: return U("nb", self.integer(d - 1))
        if m < 0.90: return dict(COND(self.boolean(d - 1), self.integer(d - 1), self.integer(d - 1)), y="n")
        ks = [k for k in self.l if k[:2] in ("E:", "M:")]
        return U("vo", self.enumlike(r.choice(ks), d - 1)) if ks else self.leaf("int")

    def enumlike(self, k, d):
        r = self.r
        if k[:2] == "M:" and d > 0 and r.random() < 0.3:
            return B(r.choice("&|^"), self.enumlike(k, d - 1), self.enumlike(k, d - 1))
        if k[:2] == "M:" and d > 0 and r.random() < 0.25:
            return MC(self.enumlike(k, d - 1), self.mw[k])
        return self.leaf(k)

    def boolean(self, d):
        r = self.r
        m = r.random()
        if d <= 0: return self.leaf("bool") if r.random() < 0.8 else N(r.random() < 0.5)
        if m < 0.40: return B(r.choice(["==", "!=", "<", "<=", ">", ">="]), self.integer(d - 1), self.integer(d - 1))
        if m < 0.60: return B(r.choice(["&&", "||"]), self.boolean(d - 1), self.boolean(d - 1))
        if m < 0.68: return U("!", self.boolean(d - 1))
        if m < 0.73: return COND(self.boolean(d - 1), self.boolean(d - 1), self.boolean(d - 1))
        es = [k for k in self.l if k[:2] == "E:"]
        ms = [k for k in self.l if k[:2] == "M:"]
        if m < 0.80 and es:
            k = r.choice(es)
            return B(r.choice(["==", "!="]), self.enumlike(k, 0), self.enumlike(k, 0))
        if m < 0.90 and ms:
            k = r.choice(ms)
            if r.random() < 0.6: return ISSET(self.enumlike(k, 0), self.enumlike(k, d - 1))
            return B(r.choice(["==", "!="]), self.enumlike(k, d - 1), self.enumlike(k, d - 1))
        if m < 0.96 and self.l.get("flt"):
            a, b = self.floating(min(d - 1, 2)), self.floating(min(d - 1, 1)) if r.random() < 0.7 else self.integer(0)
            if is_const(a) and is_const(b): raise Bad()
            if r.random() < 0.5: a, b = b, a
            return dict(B(r.choice(["==", "!=", "<", "<=", ">", ">="]), a, b), y="fl")
        if self.l.get("str"):
            return dict(B(r.choice(["==", "!="]), self.string(d - 1), self.string(0)), y="c")
        return self.leaf("bool")

    def floating(self, d):
        """Floating-point arithmetic, also with integers."""
        r = self.r
        m = r.random()
        if d <= 0 or m < 0.15: return fl_lit(r) if r.random() < 0.2 else self.leaf("flt")
        if m < 0.25: x = dict(U("neg", self.floating(d - 1)), y="fl")
        else:
            a = self.floating(d - 1)
            z = r.random()
            b = self.floating(d - 1) if z < 0.55 else N(r.choice([0, 1, 2, 3, 4, 8, 10])) if z < 0.7 else self.leaf("small") if z < 0.85 else self.integer(min(1, d - 1))
            o = r.choice(["+", "-", "*", "/", "+", "*"])
            if m < 0.42: x = dict(COND(self.boolean(d - 1), *((a, b) if r.random() < 0.5 else (b, a))), y="fl")
            elif o == "/" and r.random() < 0.7: x = dict(B("/", a, r.choice([N(2), N(4), N(5), fl_lit(r, [0.5, 2.0, 0.25])])), y="fl")
            else: x = dict(B(o, *((a, b) if r.random() < 0.5 else (b, a))), y="fl")
        if is_const(x): raise Bad()
        return x

    def string(self, d):
        if d > 0 and self.r.random() < 0.3: return COND(self.boolean(d - 1), self.string(d - 1), self.string(d - 1))
        return self.leaf("str")

    def of(self, kind, d=None):
        for _ in range(400):
            try:
                k = self.r.randint(1, self.deep) if d is None else d
                x = {"int": self.integer, "bool": self.boolean, "str": self.string, "flt": self.floating}[kind](k) if kind in ("int", "bool", "str", "flt") else self.enumlike(kind, k)
                self.ok(x)
                return x
            except Bad:
                pass
        raise Infra("no expression of kind " + kind)


def MC(a, w):
    """The complement of a bitmask of w bits."""
    return dict(o="mc", a=a, w=w)


def mask_bits(t):
    return {"varu": {2: 15, 4: 29, 8: 57, 9: 64}.get(t.get("n"))}.get(t["k"]) or t["w"]


def fl_lit(r, of=(0.5, 1.5, 2.0, 0.25, 3.0, 100.0, 0.0, 1.0, 65536.0, 0.1, 1e10, 0.30000000000000004, 1.0000000000000002, 123456789.12345679)):
    """A floating-point literal: of single precision with an f."""
    v = r.choice(of)
    p = 24 if r.random() < 0.4 else 53
    if p == 24: v = struct_.unpack("<f", struct_.pack("<f", v))[0]
    zs = {0.1: "0.1", 1e10: "1e10", 65536.0: "6.5536e4", 0.5: r.choice(["0.5", ".5", "5e-1"])}.get(v, "%s" % v)
    if abs(v - 0.1) < 1e-5: zs = "0.1"
    return dict(o="fl", v=limbs(struct_.unpack("<Q", struct_.pack("<d", v))[0]), p=p, zs=zs + ("f" if p == 24 else ""))


def str_lit(s):
    return dict(o="n", v=list(s.encode()), zs='"%s"' % s, lit=1)


LEAFT = [uint(8), uint(16), uint(32), uint(64), sint(8), sint(16), sint(32), sint(64), bit(5), bit(13), bit(33), bit(64), intb(7), intb(40),
         varu(2), varu(4), varu(8), varu(9), vars_(2), vars_(4), vars_(8), vars_(9), SIZE]

RET = {"int64": dict(k="int", w=64), "uint64": dict(k="uint", w=64), "int32": dict(k="int", w=32), "uint8": dict(k="uint", w=8), "uint16": dict(k="uint", w=16),
       "int:40": dict(k="int", w=64), "bit:7": dict(k="uint", w=8), "varint": dict(k="int", w=64), "varuint32": dict(k="uint", w=32), "bool": dict(k="bool"), "string": dict(k="str"),
       "float64": dict(k="f64"), "float32": dict(k="f32")}


def fn_schema(i, r, nfn, deep):
    """A schema whose types have many functions over many kinds of operands."""
    d = {}
    et, mt = r.choice([uint(8), sint(16), bit(4), sint(64), varu(2)]), r.choice([uint(8), uint(16), bit(9), uint(64), varu(4)])
    d["Col"] = enum(et, [("RED",), ("GREEN", r.randint(2, 4)), ("BLUE_X",)] + ([("NEG", -3)] if et["k"] == "int" else []))
    d["Flg"] = mask(mt, [("AA",), ("BB",), ("CC", 0x80 if mt.get("zs") != "uint64" else 1 << r.choice([40, 62])), ("NN", 0)])
    d["SubI"] = sub(r.choice([uint(32), sint(8), uint(64)]))
    d["SubC"] = sub(ref("Col"))

    def leafs_of(fields, pre=()):
        l = {"int": [], "bool": [], "str": [], "flt": [], "E:Col": [], "M:Flg": [], "small": []}
        for f in fields:
            t, p = f["t"], list(pre) + ["?" * f["o"] + f["n"]]
            opt = any(x[0] == "?" for x in p)
            if t["k"] == "ref" and t["n"] in ("Inner", "Leaf"): continue
            kind = "E:Col" if t["k"] == "ref" and t["n"] in ("Col", "SubC") else "M:Flg" if t["k"] == "ref" and t["n"] == "Flg" else None
            b = mt if kind == "M:Flg" else et if kind else (d[t["n"]]["t"] if t["k"] == "ref" else t)
            y = y_of(b)
            kind = kind or {"bool": "bool", "str": "str", "f64": "flt", "f32": "flt", "f16": "flt"}.get(b["k"], "int")
            if f.get("r"):
                l["int"].append(LEN(*p))
                if opt: continue
                l[kind].append(AT(p, N(r.randint(0, 1)), y=y))
                if not pre: l[kind].append(AT(p, F("ix"), y=y))
                if not pre and r.random() < 0.5: l[kind].append(AT(p, B("-", LEN(*p), N(1)), y=y))
            else:
                l[kind].append(F(*p, y=y))
                if f["n"] in ("ix", "sh"): l["small"].append(F(*p, y=y))
        return l

    def merge(*ls):
        return {k: [x for l in ls for x in l.get(k, [])] for k in ls[0]}

    consts = {"int": [], "bool": [], "str": [str_lit("abc"), str_lit("")], "flt": [], "small": [],
              "E:Col": [N(v, "Col.%s" % it[0]) for v, it in zip(values.item_values(d["Col"]), d["Col"]["items"])],
              "M:Flg": [N(v, "Flg.%s" % it[0]) for v, it in zip(values.item_values(d["Flg"]), d["Flg"]["items"])]}

    def functions(owner, fields, leafs, n, deep, known=()):
        g = ExprGen(r, leafs, s, deep)
        g.mw = {"M:Flg": mask_bits(mt)}
        fn, fnt = {}, {}
        for k in range(n):
            kind = r.choice(["int"] * 5 + ["bool"] * 3 + ["flt"] * (2 if leafs["flt"] else 0) + ["str", "E:Col", "M:Flg"])
            if kind == "flt" and not any(y["o"] in ("f", "at") for y in leafs["flt"]): kind = "int"
            name = "f%s%d" % ("d" if kind == "flt" else kind[0].lower() if kind[1] != ":" else kind[2].lower(), k)
            fn[name] = g.of(kind)
            rt = {"int": r.choice(["int64"] * 5 + ["uint64", "uint64", "int32", "uint8", "uint16", "int:40", "bit:7", "varint", "varuint32", "SubI"]),
                  "bool": "bool", "str": "string", "flt": r.choice(["float64", "float64", "float32"]), "E:Col": r.choice(["Col", "SubC"]), "M:Flg": "Flg"}[kind]
            fnt[name] = rt
            y = {"int": "u" if rt == "uint64" or (rt == "SubI" and d["SubI"]["t"]["zs"] == "uint64") else "i", "bool": "b", "str": "r", "flt": "d" if rt == "float64" else "s", "E:Col": y_of(et), "M:Flg": y_of(mt)}[kind]
            # later functions call earlier ones
            d[owner]["fn"] = fn
            if r.random() < 0.5 and cost(fn[name], s) < 60: leafs[kind].append(dict(CALL(owner, name), y=y, rt=ret_type(s, rt)))
        return fn, fnt

    s = Schema(d, pkg="x%d" % i, note="functions")
    lf = [fld(r.choice(LEAFT), "v"), fld(BOOL, "w")]
    d["Leaf"] = struct(lf)
    d["Leaf"]["fn"], d["Leaf"]["fnt"] = functions("Leaf", lf, merge(leafs_of(lf), consts), 2, 2)
    nf = [fld(r.choice(LEAFT), "na"), fld(F32, "nd"), fld(BOOL, "nb"), fld(ref("Leaf"), "leaf"), fld(ref("Col"), "nc"), fld(ref("Flg"), "nm")]
    d["Inner"] = struct(nf)

    def calls(typ, *p):
        l = {"int": [], "bool": [], "str": [], "flt": [], "E:Col": [], "M:Flg": []}
        for n, rt in d[typ]["fnt"].items():
            k = {"b": "bool", "s": "str", "d": "flt", "c": "E:Col", "f": "M:Flg"}.get(n[1], "int")
            y = {"int": "u" if rt == "uint64" or (rt == "SubI" and d["SubI"]["t"]["zs"] == "uint64") else "i", "bool": "b", "str": "r", "flt": "d" if rt == "float64" else "s", "E:Col": y_of(et), "M:Flg": y_of(mt)}[k]
            l[k].append(dict(CALL(typ, n, *p), y=y, rt=ret_type(s, rt)))
        return l

    d["Inner"]["fn"], d["Inner"]["fnt"] = functions("Inner", nf, merge(leafs_of(nf), consts, leafs_of(lf, ("leaf",)), calls("Leaf", "leaf")), 3, 2)
    fields = [fld(uint(8), "ix"), fld(bit(5), "sh"), fld(BOOL, "b0"), fld(BOOL, "b1"), fld(STR, "s0"), fld(STR, "s1"), fld(ref("Col"), "c0"), fld(ref("SubC"), "c1"),
              fld(ref("Flg"), "m0"), fld(ref("Flg"), "m1"), fld(F64, "d0"), fld(F64, "d1"), fld(F32, "g0"), fld(F32, "g1"), fld(F16, "h0"), fld(F64, "darr", arr=[]), fld(F32, "og", opt=True), fld(ref("SubI"), "su")]
    for k, t in enumerate(r.sample(LEAFT, 9)): fields.append(fld(t, "i%d" % k))
    fields += [fld(r.choice(LEAFT), "arr", arr=[]), fld(BOOL, "barr", arr=[]), fld(ref("Inner"), "inn")]
    fields += [fld(r.choice(LEAFT), "oi", opt=True), fld(r.choice(LEAFT), "oj", opt=True), fld(BOOL, "ob", opt=True), fld(STR, "os", opt=True), fld(ref("Col"), "oc", opt=True), fld(ref("Flg"), "om", opt=True),
               fld(F64, "od", opt=True), fld(uint(8), "oa", opt=True, arr=[]), fld(ref("Leaf"), "ol", opt=True)]
    ps = [par("p0", uint(16)), par("p1", r.choice([sint(32), uint(64)]))] if r.random() < 0.5 else []
    for p in ps: p["y"] = y_of(p["t"])
    d["Top"] = struct(fields, ps)
    pl = {"int": [F(p["n"], y=p["y"]) for p in ps]}
    leafs = merge(leafs_of(fields), consts, leafs_of(nf, ("inn",)), leafs_of(lf, ("inn", "leaf")), leafs_of(lf, ("?ol",)), pl, calls("Inner", "inn"), calls("Leaf", "inn", "leaf"))
    d["Top"]["fn"], d["Top"]["fnt"] = functions("Top", fields, leafs, nfn, deep)
    if r.random() < 0.5:
        q = core.rng("paren", i)
        d["Top"]["paren"] = lambda: q.random() < 0.3
    # choices and unions have functions too: over their parameters
    us = [par("q%d" % k, t) for k, t in enumerate([uint(8), r.choice([sint(32), uint(64), intb(17)]), BOOL, ref("Col"), ref("Flg"), ref("SubI")])]
    for u in us: u["y"] = y_of(s.base(u["t"]) if u["t"]["k"] != "ref" or u["t"]["n"] == "SubI" else d[u["t"]["n"]]["t"])
    own = {k: [] for k in consts}
    for u, k in zip(us, ["int", "int", "bool", "E:Col", "M:Flg", "int"]): own[k].append(F(u["n"], y=u["y"]))
    own["int"].append(N(r.randint(0, 300)))
    d["Ch"] = choice(us, F("q0"), [([N(1), N(2)], fld(uint(16), "ca")), ([N(3)], None)], fld(STR, "cd") if r.random() < 0.5 else None)
    d["Un"] = union([fld(uint(16), "ua"), fld(STR, "ub")], us)
    for t in ("Ch", "Un"): d[t]["fn"], d[t]["fnt"] = functions(t, [], merge(own, consts), 8, 3)
    s.tops = ["Top", "Ch", "Un"]
    return s


BIG = [uint(64), bit(64), varu(9), varu(8), sint(64), vars_(9), intb(64)]


def table_schema(i, r, types, share):
    """Every operation on operands of every type, where its result can be seen: values of 64 bits, divided, compared and shifted."""
    fields = [fld(uint(8), "d"), fld(sint(16), "c"), fld(bit(3), "sh"), fld(BOOL, "q"), fld(uint(64), "w")]
    fn, fnt = {}, {}
    D, C, SH, Q, W = F("d"), F("c"), F("sh"), F("q", y="b"), F("w", y="u")
    for j, t in enumerate(types):
        y = y_of(t)
        fields += [fld(t, "a%d" % j), fld(t, "b%d" % j), fld(t, "o%d" % j, opt=True), fld(t, "r%d" % j, arr=[])]
        a, b, o, e = F("a%d" % j, y=y), F("b%d" % j, y=y), F("?o%d" % j, y=y), AT(["r%d" % j], N(0), y=y)
        tern = lambda x, z: dict(COND(Q, x, z), y="n")
        def src():
            x = r.choice([a, a, a, o, e])
            return [x, x, tern(x, C), tern(C, x), tern(x, N(5)), tern(N(7), x), B("+", x, D), B("-", x, D), B("*", x, N(2)), B("<<", x, N(1)), B(">>", x, SH), B("<<", D, N(40)),
                    B("&", x, b), B("|", x, D), B("^", x, N(255)), U("~", x), U("neg", x), B("/", x, D), B("%", x, N(1000)), tern(tern(x, b), D), U("nb", x), B("|", D, x), B("+", N(1), x)]
        for k in range(len(src())):
            for m in range(9):
                if r.random() > share: continue
                x = src()[k]
                f, rt = [(B("/", x, N(3)), r.choice(["int64", "uint64"])), (B("%", x, N(7)), "int64"), (B(r.choice([">", "<", ">=", "<="]), x, b), "bool"),
                         (B(r.choice([">", "<="]), x, N(1000)), "bool"), (B(">>", x, N(2)), r.choice(["int64", "uint64"])), (B(r.choice(["==", "!="]), x, b), "bool"),
                         (x, r.choice(["int64", "uint64", "uint16", "int32"])), (B(r.choice(["<", ">="]), x, W), "bool"), (dict(B("*", x, dict(o="fl", v=limbs(0x3fe0000000000000), p=53, zs="0.5")), y="fl"), "float64")][m]
                n = "f%s%d" % ({"bool": "b", "float64": "d"}.get(rt, "i"), len(fn))
                fn[n], fnt[n] = f, rt
    d = {"Top": struct(fields)}
    d["Top"]["fn"], d["Top"]["fnt"] = fn, fnt
    return Schema(d, pkg="y%d" % i, note="operations", tops=["Top"])


def table_values(s, r, n):
    out = []
    for _ in range(n):
        v = {}
        for f in s.defs["Top"]["f"]:
            t = f["t"]
            if t["k"] == "bool": one = lambda: r.random() < 0.5
            else:
                lo, hi = int_range(t)
                def one():
                    x = r.choice([lo, lo + 1, hi, hi - 1, hi // 2, hi // 2 + 1, hi // 2 + 2, 0, 1, 2, 3, 1000, 1001, r.randint(lo, hi), r.randint(hi // 4 + 1, hi // 2), r.randint(hi // 4 + 1, hi // 2), hi // 3, hi - r.randint(0, 99)])
                    return limbs(min(max(x, lo), hi))
            v[f["n"]] = [one()] if f["o"] else [one(), one()] if f["r"] else one()
        for f in s.defs["Top"]["f"]:
            if f["n"][0] == "b" and r.random() < 0.3: v[f["n"]] = v["a" + f["n"][1:]]
        out.append(("Top", v))
    return out


def float_schema(i):
    """Comparisons and arithmetic of all pairs of numbers of different kinds."""
    ts = [("e", F64, "d"), ("g", F32, "s"), ("h", F16, "s"), ("n", sint(64), "i"), ("u", uint(64), "u"), ("m", sint(16), "i")]
    fields = [fld(t, "%s%d" % (n, k)) for n, t, _ in ts for k in (0, 1)]
    fn, fnt = {}, {}
    for n, t, y in ts:
        for n2, t2, y2 in ts:
            if n in "num" and n2 in "num": continue
            for o in ["<", "<=", ">", ">=", "==", "!=", "+", "-", "*"]:
                rt = "float64" if o in "+-*" else "bool"
                k = "f%s%d" % ("d" if rt != "bool" else "b", len(fn))
                fn[k], fnt[k] = dict(B(o, F(n + "0", y=y), F(n2 + "1", y=y2)), y="fl"), rt
    d = {"Top": struct(fields)}
    d["Top"]["fn"], d["Top"]["fnt"] = fn, fnt
    return Schema(d, pkg="z%d" % i, note="floats", tops=["Top"])


def float_values(s, r, n):
    """Numbers that are equal, or nearly so."""
    out = []
    for _ in range(n):
        base = r.choice([r.randint(1, 9), r.randint(1, 2000), r.getrandbits(11) | 1, r.getrandbits(24) | 1, r.getrandbits(50) | 1, 1 << r.randint(0, 30)])
        sg, z = r.choice([1, 1, -1]), {}
        for n in ("e", "g", "h", "n", "u", "m"):
            for k in (0, 1):
                x = base
                if n in ("g",): x >>= max(0, x.bit_length() - 24)
                if n in ("h",): x >>= max(0, x.bit_length() - 11)
                if n == "m": x &= 0x7fff
                x = x + r.choice([0, 0, 0, 1, -1])
                y = float(sg * x)
                if n == "e":
                    w = struct_.unpack("<Q", struct_.pack("<d", y))[0]
                    if r.random() < 0.4 and x: w += r.choice([1, 2, 1 << 20, 1 << 28])
                    v = limbs(w)
                elif n in ("g", "h"):
                    if n == "h": y = float(sg * min(x, 2047))
                    w = struct_.unpack("<I", struct_.pack("<f", y))[0]
                    if n == "g" and r.random() < 0.3 and x: w += 1
                    v = limbs(w)
                else: v = limbs((sg if n != "u" else 1) * max(0, x))
                z["%s%d" % (n, k)] = v
        out.append(("Top", z))
    return out


def fn_values(s, r, n):
    """Objects: mostly edge values, every array with two elements or more."""
    out = []
    for _ in range(n):
        mode = r.random()
        g = values.Gen(s, r, wild=1.0 if mode < 0.6 else 0.3)
        def fill(name):
            d, v = s.defs[name], {}
            for p in d.get("p", []): v[p["n"]] = limbs(g.integer(p["t"]))
            for f in d["f"]:
                t = f["t"]
                def one():
                    b = s.base(t)
                    if b["k"] == "ref": return fill(b["n"])
                    if t["k"] == "ref" and s.defs[t["n"]]["k"] in ("enum", "mask"): return limbs(g.enumval(t))
                    if t["k"] == "ref" and t["n"] == "SubC": return limbs(g.enumval(ref("Col")))
                    if b["k"] == "str" and r.random() < 0.4: return list(r.choice([b"abc", b"", b"x"]))
                    if b["k"] in ("f16", "f32", "f64") and r.random() < 0.85:
                        x = r.choice([1, -1]) * r.choice([0, 1, 1, 2, 3, 5, 7, 10, r.randint(0, 1 << 10), r.getrandbits(22), r.getrandbits(40 if b["k"] == "f64" else 11)]) * 2.0 ** r.choice([0, 0, 0, -1, -2, -3, 1, 4, r.randint(-9, 9)])
                        return limbs(struct_.unpack("<I", struct_.pack("<f", x))[0] if b["k"] != "f64" else struct_.unpack("<Q", struct_.pack("<d", x))[0])
                    return g.leaf(b)
                if f["o"] and r.random() < 0.4: v[f["n"]] = []
                elif f["o"]: v[f["n"]] = [[one() for _ in range(r.randint(0, 3))] if f["r"] else one()]
                elif f["r"]: v[f["n"]] = [one() for _ in range(r.randint(2, 4))]
                elif f["n"] == "ix": v["ix"] = limbs(r.randint(0, 1))
                else: v[f["n"]] = one()
            return v
        out.append(("Top", fill("Top")))
    for _ in range(n // 3):
        for t in s.tops[1:]:
            g = values.Gen(s, r, wild=0.6)
            pars = {}
            for p in s.defs[t]["p"]:
                if r.random() < 0.5 and p["y"] in ("i", "u") and (p["t"]["k"] != "ref" or p["t"]["n"] == "SubI") and p["n"] != "q0": pars[p["n"]] = limbs(g.integer(s.base(p["t"])))
            if "q0" in [p["n"] for p in s.defs[t]["p"]]: pars["q0"] = limbs(r.choice([0, 1, 2, 3, 3, 4, 200]) if s.defs[t].get("hasd") or t == "Un" else r.choice([1, 2, 3]))
            out.append((t, g.top(t, pars)))
    return out


def ret_type(s, rt):
    if rt in RET: return RET[rt]
    b = s.base(ref(rt))
    w, sg = storage(b)
    return dict(k="int" if sg else "uint", w=w)


def judge_functions(c, name, schemas, objs, sig):
    """objs: {schema index: [(type, value)]}"""
    b = harness.Batch(schemas, name)
    flow.schema_violations(c, b, sig)
    cmds, meta = [], []
    for i, vs in objs.items():
        if i not in b.alive: continue
        for t, v in vs:
            cmds.append({"op": "fns", "t": "%s.%s" % (schemas[i].pkg, t), "v": v, "f": list(schemas[i].defs[t]["fn"])})
            meta.append((i, t, v))
    res = b.run(cmds)
    rows = {}
    for (i, t, v), o, cmd in zip(meta, res, cmds):
        if "crash" in o:
            c.violation(sig + ":crash", "the process dies in a function: " + o["crash"][:300], cmd)
            continue
        rows.setdefault((i, t), []).append((v, o["f"]))
    cases, keys = [], []
    for (i, t), l in rows.items():
        s = schemas[i]
        cases.append(dict(i=len(keys), sch=s.tla(), t=t, ft={n: ret_type(s, rt) for n, rt in s.defs[t]["fnt"].items()},
                          rows=[dict(v=v, f={n: dict(r=x["r"], v=x["v"] if x["r"] == "ok" else 0) for n, x in f.items()}) for v, f in l]))
        keys.append((i, t))
    cp = core.write_ndjson(core.path(name, "cases.ndjson"), cases)
    r = core.tlc_ok("FnTrace", "FnTrace.cfg", env={"CASES": cp}, name=name)
    vs = r.records("VERDICT")
    if len(vs) != len(cases): raise Infra("%d tables, %d verdicts" % (len(cases), len(vs)))
    c.tlc(r)
    n, und = sum(v["n"] for v in vs), sum(v["und"] for v in vs)
    log("%s: %d calls judged by TLC in %.1fs, %d not defined" % (name, n, r.wall, und))
    c.add("traces_validated_against_impl", n - und)
    c.add("undefined_left_out", und)
    for v in vs:
        i, t = keys[v["i"]]
        s = schemas[i]
        for bad in v["bad"]:
            obj, f = rows[i, t][bad["k"] - 1]
            x = s.defs[t]["fn"][bad["f"]]
            c.violation("%s:%s" % (sig, bad["w"]), "function %s() { return %s; } of a %s returns %s %s" % (bad["f"], xs(x), s.defs[t]["k"], short(f[bad["f"]], 200), short(obj, 500)),
                        dict(schema=s.text(), type=t, function=bad["f"], object=obj, result=f[bad["f"]]))
    for i, t in list(rows)[:1]:
        n = next(iter(schemas[i].defs[t]["fn"]))
        c.sample("%s = %s" % (xs(schemas[i].defs[t]["fn"][n]), short(rows[i, t][0][1][n], 80)))


def c17(c):
    r = core.rng("C17")
    ss = [fn_schema(i, r, 40 if not THOROUGH else 60, 3 if i % 2 else 4) for i in range(scaled(8))]
    judge_functions(c, "c17", ss, {i: fn_values(s, r, scaled(30)) for i, s in enumerate(ss)}, "function")
    r = core.rng("C17t")
    rest = [t for t in LEAFT if t["zs"] not in [b["zs"] for b in BIG]]
    r.shuffle(rest)
    tys = [BIG[:3], BIG[3:5], BIG[5:]] + [rest[k::3] for k in range(3)]
    ts = [table_schema(k, r, t, 1.0 if THOROUGH else 0.4 if k < 3 else 0.1) for k, t in enumerate(tys)]
    fs = [float_schema(len(ts))]
    objs = {k: table_values(t, r, scaled(16)) for k, t in enumerate(ts)}
    objs[len(ts)] = float_values(fs[0], r, scaled(25))
    judge_functions(c, "c17t", ts + fs, objs, "operation")


# ---------------------------------------------------------------------------
# C16: enums and bitmasks

ENUM_BASES = [uint(8), uint(16), uint(32), uint(64), sint(8), sint(16), sint(32), sint(64), bit(3), bit(7), bit(17), bit(33), bit(64),
              intb(5), intb(12), intb(40), varu(2), varu(4), varu(8), varu(9), vars_(2), vars_(4), vars_(8), vars_(9), SIZE]
MASK_BASES = [uint(8), uint(16), uint(32), uint(64), bit(5), bit(12), bit(33), bit(64), varu(2), varu(4), varu(8), varu(9), SIZE]


def notation(r, v):
    """An integer literal in one of the notations of the language."""
    a = abs(v)
    m = r.randrange(5)
    if a > (1 << 63) - 1: return str(v)
    s = str(a) if m < 2 else "0x%x" % a if m == 2 else ("0%o" % a if a else "0") if m == 3 else "%sb" % bin(a)[2:]
    if m == 2 and r.random() < 0.5: s = "0X%X" % a
    if m == 4 and r.random() < 0.5: s = s[:-1] + "B" if False else s
    return ("-" if v < 0 else "") + s


def lit(r, v):
    return N(v, zs=notation(r, v)) if v >= 0 else U("neg", N(-v, zs=notation(r, -v)))


ITEM_STYLES = [lambda b, i: "%s_%d" % (b.upper(), i), lambda b, i: "%s%s" % (b.capitalize(), "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 26]),
               lambda b, i: b.lower() + "Item" + "QWERTZUIOPASDFGHJKLYXCVBNM"[i % 26].lower() * (1 + i // 26), lambda b, i: "%s_IT_%s" % (b, "abcdefghijklmnopqrstuvwxyz"[i % 26] * (1 + i // 26)),
               lambda b, i: "x%d_%s" % (i, b)]


def item_names(r, base, n):
    out, go_ = [], set()
    f = r.choice(ITEM_STYLES)
    for i in range(n):
        s = f(base, i) if r.random() < 0.8 else r.choice(ITEM_STYLES)(base, i)
        k = s.replace("_", "").lower()
        if k in go_ or s.lower() in go_: s = "U%dq%s" % (i, base)
        go_ |= {s.replace("_", "").lower(), s.lower()}
        out.append(s)
    return out


def numbered(r, kind, t, n, name, consts):
    """An enum or bitmask of about n entries whose values fit t."""
    lo, hi = int_range(t)
    lo, hi = max(lo, 1 - (1 << 63)), min(hi, (1 << 63) - 1)     # literals are signed 64-bit numbers
    items, vals = [], []
    for nm in item_names(r, name, n):
        if kind == "enum": auto = 0 if not vals else vals[-1] + 1
        else: auto = 1 if not vals else 1 << vals[-1].bit_length()
        if auto <= hi and auto not in vals and r.random() < 0.55:
            items.append((nm, None)); vals.append(auto)
            continue
        cand = [0, 1, 2, hi, lo, hi - 1, r.randint(0, min(hi, 300)), (1 << r.randint(0, hi.bit_length())) - 1, 1 << r.randint(0, max(0, hi.bit_length() - 1)),
                r.randint(lo, hi), r.randint(0, hi), auto + r.randint(1, 5), -r.randint(1, 9)]
        if kind == "mask": cand += [3, 5, 6, 1 << max(0, hi.bit_length() - 2)]
        cand = [v for v in cand if lo <= v <= hi and (v not in vals)]
        if not cand: break
        v = r.choice(cand)
        x = lit(r, v)
        usable = [(c, cv) for c, cv in consts.items() if abs(v - cv) < 1 << 40]
        if usable and r.random() < 0.3:
            c, cv = r.choice(usable)
            x = ID(c) if cv == v else B("+", ID(c), lit(r, v - cv)) if v > cv else B("-", ID(c), lit(r, cv - v))
        elif r.random() < 0.2 and 0 <= v < 1 << 60:
            x = r.choice([B("+", lit(r, v // 2), lit(r, v - v // 2)), B("|", lit(r, v & 0x5555555555555555), lit(r, v & 0xaaaaaaaaaaaaaaa)) if v < 1 << 59 else x,
                          B("-", lit(r, v + 3), lit(r, 3)), B("<<", lit(r, v // 4), lit(r, 2)) if v % 4 == 0 else x])
        items.append((nm, x)); vals.append(v)
    return dict(k=kind, t=t, items=items), vals


def c16(c):
    r = core.rng("C16")
    ws, known = [], {}
    for i in range(scaled(6)):
        pk, subs = {}, {}
        cs = {"C%d" % k: v for k, v in enumerate([0, 1, 7, 100, 255, 1000])}
        d = {n: world.const(uint(16), lit(r, v)) for n, v in cs.items()}
        d["SubA"] = sub(uint(16)); d["SubB"] = sub(NM("SubA")); d["SubC"] = sub(bit(9))
        names = []
        for k in range(14):
            kind = "enum" if k % 2 == 0 else "mask"
            t = r.choice(ENUM_BASES if kind == "enum" else MASK_BASES)
            if k in (10, 11): t2, t = NM(r.choice(["SubA", "SubB"])), uint(16)
            elif k in (12, 13): t2, t = NM("SubC"), bit(9)
            else: t2 = t
            n = "%s%d" % ("Enu" if kind == "enum" else "Mas", k)
            if k == 4: n = "lowerEnum"
            if k == 5: n = "lowerMask"
            df, vals = numbered(r, kind, t, r.randint(1, 9) if r.random() < 0.85 else r.randint(10, 40), n[0:3] + "abcdefghijklmnopq"[k], cs)
            df["t"] = t2
            d[n] = df
            known[i, n] = (t, vals)
            names.append(n)
        d["Top"] = struct([fld(NM(n), "f%d" % k, arr=[] if k % 3 == 1 else None, packed=k % 3 == 1) for k, n in enumerate(names)])
        ws.append(world.World({"p%d" % i if i % 2 else "some.pkg%d" % i: world.pkg(d)}, note="w%d" % i))
    b = world.WorldBatch(ws, "c16", gen_args=["--sql"])
    b.violations(c, "c16")

    def nm(i, p, n, d):
        its = [x[0] for x in d["items"]]
        out = list(its) + ["", "unknown(0)", n, "0", "1", its[0] + "_", its[0][:-1], " " + its[0]]
        for s in its: out += [s.lower(), s.upper(), s.capitalize(), s.swapcase(), n + s, n + "." + s, s[0].upper() + s[1:]]
        return sorted(set(out))

    def vl(i, p, n, d):
        t, vals = known[i, n]
        bits, sg = storage(t)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        l = {v + k for v in vals for k in (-1, 0, 1)} | {lo, hi, 0, 1, -1, 128, 255, 256, 65536} | {r.randint(lo, hi) for _ in range(5)}
        return [limbs(v) for v in sorted(l) if lo <= v <= hi]
    b.judge(c, "c16", nm, vl)
    # and on the wire
    f = flow.Flow(b.schemas, "c16w", batch=b)
    for i in b.alive:
        g = values.Gen(b.schemas[i], r, wild=0.3)
        for t in b.schemas[i].tops:
            for _ in range(scaled(12)): f.enc(i, [(t, g.top(t))], st=r.choice([0, 0, 3]))
    flow.report(c, f, f.go(c), {"enc": {"panic", "refused", "bits", "length", "rt-refused", "rt-value", "rt-length"}}, "c16w")


# ---------------------------------------------------------------------------
# C18: constants, widths and initial values

CONST_INTS = [uint(8), uint(16), uint(32), uint(64), sint(8), sint(16), sint(32), sint(64), bit(5), bit(11), bit(33), bit(64), intb(6), intb(40),
              varu(2), varu(4), varu(8), varu(9), vars_(2), vars_(4), vars_(8), vars_(9), SIZE]
ESCAPES = ["\\n", "\\t", "\\r", "\\f", "\\\"", "\\\\", "\\u0041", "\\u00e9", "\\u20AC", "\\x41", "\\x7e", "\\011", "\\0101", "\\07"]


class ConstGen:
    """Constant expressions with their values; env: kind -> [(expression, value)] of what can be named."""

    def __init__(self, r, env):
        self.r, self.env = r, env

    def named(self, kind):
        l = self.env.get(kind)
        if not l: raise Bad()
        return self.r.choice(l)

    def int_lit(self):
        r = self.r
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 63, 64, 100, 127, 128, 255, 256, 1000, 65535, r.randint(0, 300)] if r.random() < 0.8
                     else [1 << r.randint(0, 62), (1 << 31) - 1, (1 << 32) - 1, 1 << 32, I64[1], r.getrandbits(r.randint(1, 62))])
        s = notation(r, v)
        if s.endswith("b") and r.random() < 0.4: s = s[:-1] + "B"
        return N(v, zs=s), v

    def integer(self, d):
        r = self.r
        m = r.random()
        if d <= 0 or m < 0.15: return self.int_lit() if r.random() < 0.4 or not self.env.get("int") else self.named("int")
        if m < 0.62:
            o = r.choice("+ - * / % & | ^ << >> + -".split())
            x, a = self.integer(d - 1)
            y, b = self.integer(d - 1)
            if o in ("<<", ">>"):
                b = r.randint(0, 12) if r.random() < 0.8 else r.randint(0, 62)
                y = N(b)
            if o in "/%" and b == 0: raise Bad()
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if o in "/%" else 0
            v = {"+": a + b, "-": a - b, "*": a * b, "/": q, "%": a - q * b, "&": a & b, "|": a | b, "^": a ^ b,
                 "<<": a << min(abs(b), 80), ">>": a >> min(abs(b), 80)}[o]
            x = B(o, x, y)
        elif m < 0.70:
            x, v = self.integer(d - 1)
            o = r.choice(["neg", "~", "neg", "pos"])
            x, v = (U("~", x), ~v) if o == "~" else (U("neg", x), -v) if o == "neg" else (x, v)
        elif m < 0.76:
            x, v = self.integer(d - 1)
            if v < 0: raise Bad()
            x, v = dict(o="nb", a=x), values.ev(NB(N(v)), {}, None)
        elif m < 0.90:
            c, z = self.boolean(d - 1)
            (x, a), (y, b) = self.integer(d - 1), self.integer(d - 1)
            x, v = COND(c, x, y), a if z else b
        else:
            x, v = self.named("item")
            x = dict(o="vo", a=x)
        if not I64[0] < v <= I64[1]: raise Bad()
        return x, v

    def boolean(self, d):
        r = self.r
        m = r.random()
        if d <= 0 or m < 0.1:
            if self.env.get("bool") and r.random() < 0.6: return self.named("bool")
            v = r.random() < 0.5
            return N(v), v
        if m < 0.45:
            o = r.choice(["==", "!=", "<", "<=", ">", ">="])
            k = r.choice(["int", "int", "int", "flt", "flt", "bool", "str", "enum"])
            if k == "int":
                (x, a), (y, b) = self.integer(d - 1), self.integer(d - 1)
                if r.random() < 0.3: y, b = x, a
            elif k == "flt":
                (x, a), (y, b) = self.real(d - 1), self.real(d - 1)
                if r.random() < 0.3: y, b = x, a
                elif r.random() < 0.4:
                    b = r.choice([-3, 0, 1, 2, 7, 100, int(a >> 16)])
                    y, b = dict(o="fx", v=b << 16, zs=str(b)) if b >= 0 else U("neg", dict(o="fx", v=-b << 16, zs=str(-b))), b << 16
                    if r.random() < 0.5: (x, a), (y, b) = (y, b), (x, a)
            elif k == "enum":
                kind = r.choice([q for q in self.env if q[:2] == "E:"] or ["E:"])
                (x, a), (y, b) = self.named(kind), self.named(kind)
                o = r.choice(["==", "!="])
            else:
                (x, a), (y, b) = (self.boolean(d - 1), self.boolean(d - 1)) if k == "bool" else (self.string(d - 1), self.string(d - 1))
                o = r.choice(["==", "!="])
            return B(o, x, y), {"==": a == b, "!=": a != b}[o] if o in ("==", "!=") else {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if m < 0.75:
            (x, a), (y, b) = self.boolean(d - 1), self.boolean(d - 1)
            return (B("&&", x, y), a and b) if r.random() < 0.5 else (B("||", x, y), a or b)
        if m < 0.88:
            x, a = self.boolean(d - 1)
            return U("!", x), not a
        (c, z), (x, a), (y, b) = self.boolean(d - 1), self.boolean(d - 1), self.boolean(d - 1)
        return COND(c, x, y), a if z else b

    def string(self, d):
        r = self.r
        m = r.random()
        if d <= 0 or m < 0.45:
            if self.env.get("str") and r.random() < 0.5: return self.named("str")
            raw = "".join(r.choice(["a", "Bc", "0", " ", "%d", "'", "`", "//", "\u00e4", "$"] + ESCAPES * (r.random() < 0.6)) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))
            if r.random() < 0.2: raw = r.choice(["a", "Bc", "ab"])
            return LIT(raw), values.unescape(raw)
        if m < 0.8:
            (x, a), (y, b) = self.string(d - 1), self.string(d - 1)
            return B("cat", x, y), a + b
        (c, z), (x, a), (y, b) = self.boolean(d - 1), self.string(d - 1), self.string(d - 1)
        return COND(c, x, y), a if z else b

    def flt_lit(self):
        r = self.r
        k, s = r.choice([0, 1, 3, 5, 10, 100, r.randint(0, 2000), r.randint(0, 60000)]), r.choice([0, 0, 1, 2, 3, 8])
        v = k << (16 - s)
        q = v / 65536
        if r.random() < 0.2 and q == int(q) and q > 0:
            e = r.choice([1, 2])
            zs = "%s%s%d" % (repr(q / 10 ** e) if r.random() < 0.5 else "%d" % q, r.choice("eE"), 0)
            if float(zs) * 65536 != v: zs = "%de0" % q
        else:
            zs = repr(q)
            if zs.startswith("0.") and zs != "0.0" and r.random() < 0.4: zs = zs[1:]
            elif zs.endswith(".0") and r.random() < 0.4: zs = zs[:-1]
            elif r.random() < 0.3: zs = "%.10fe%s1" % (q / 10, r.choice(["", "+"])) if float("%.10f" % (q / 10)) * 10 == q else zs
            if float(zs) * 65536 != v: zs = repr(q)
        if k < 1 << 11 and r.random() < 0.3: zs += r.choice("fF")
        return dict(o="fx", v=v, zs=zs), v

    def real(self, d):
        r = self.r
        m = r.random()
        if d <= 0 or m < 0.25: return self.flt_lit() if r.random() < 0.6 or not self.env.get("flt") else self.named("flt")
        if m < 0.6:
            (x, a), (y, b) = self.real(d - 1), self.real(d - 1)
            if r.random() < 0.25:       # a sum of a number of either kind
                b = r.randint(0, 50)
                y, b = dict(o="fx", v=b << 16, zs=str(b)), b << 16
                if r.random() < 0.5: (x, a), (y, b) = (y, b), (x, a)
            x, v = (B("+", x, y), a + b) if r.random() < 0.5 else (B("-", x, y), a - b)
        elif m < 0.72:
            x, v = self.real(d - 1)
            x, v = U("neg", x), -v
        elif m < 0.82:
            (x, v), (y, b) = self.real(d - 1), self.integer(d - 2)
            if abs(b) > 1000: raise Bad()
            x, v = (B("*", x, y) if r.random() < 0.5 else B("*", y, x)), v * b
        elif m < 0.9:
            x, v = self.real(d - 1)
            k = r.choice([2, 4, 8])
            if v % k: raise Bad()
            x, v = B("/", x, N(k)), v // k
        else:
            (c, z), (x, a), (y, b) = self.boolean(d - 1), self.real(d - 1), self.real(d - 1)
            if r.random() < 0.35:       # values of either kind
                b = r.randint(0, 50)
                y, b = dict(o="fx", v=b << 16, zs=str(b)), b << 16
                if r.random() < 0.5: (x, a), (y, b) = (y, b), (x, a)
                if r.random() < 0.7:
                    cx = COND(c, x, y); cv = a if z else b
                    if cv % 4 == 0: x, v = B("/", cx, N(4)), cv // 4
                    else: x, v = B("*", cx, N(3)), cv * 3
                    if abs(v) >= 1 << 44: raise Bad()
                    return x, v
            x, v = COND(c, x, y), a if z else b
        if abs(v) >= 1 << 44: raise Bad()
        return x, v

    def of(self, kind, d):
        for _ in range(300):
            try:
                if kind == "int": return self.integer(d)
                if kind == "bool": return self.boolean(d)
                if kind == "str": return self.string(d)
                if kind == "flt": return self.real(d)
                if self.r.random() < 0.3:
                    (c, z), (x, a), (y, b) = self.boolean(1), self.named(kind), self.named(kind)
                    return COND(c, x, y), a if z else b
                if kind[0] == "M" and self.r.random() < 0.5:
                    (x, a), (y, b) = self.named(kind), self.named(kind)
                    if self.r.random() < 0.3:
                        w = self.mw[kind]
                        return B("&", x, MC(y, w)), a & ~b
                    return B("|", x, y), a | b
                if kind[0] == "M" and self.r.random() < 0.2:
                    (x, a), w = self.named(kind), self.mw[kind]
                    return MC(x, w), a ^ ((1 << w) - 1)
                return self.named(kind)
            except Bad:
                pass
        raise Infra("no expression of kind " + kind)

    def small(self, lo, hi, d=2):
        """An integer expression with a value between lo and hi."""
        r = self.r
        for _ in range(40):
            x, v = self.of("int", d)
            if lo <= v <= hi and "zs" not in x: return x, v
        w = r.randint(lo, hi)
        if abs(v) < 1 << 40: return (B("+", x, N(w - v)) if w >= v else B("-", x, N(v - w))), w
        return N(w), w


def decimal(r, t):
    """A literal that is not a number of its type: the closest one is meant."""
    while True:
        m, j = r.choice([1, 3, 7, 31, 333, 31415, 271828, r.randint(1, 999999)]), r.randint(1, 6)
        # as many digits as a double can tell apart
        long = t["k"] == "f64" and r.random() < 0.4
        if long: m, j = r.randint(10 ** 15, 1 << 57), r.randint(5, 7)
        if t["k"] != "f64" and m >= 1 << 20: continue
        if not long and (m / 10 ** j < 0.001 or m / 10 ** j > 5000): continue
        s = str(m).rjust(j + 1, "0")
        zs = s[:-j] + "." + s[-j:]
        z = r.random()
        if z < 0.3: zs = "%d%s-%d" % (m, r.choice("eE"), j)
        elif z < 0.4 and zs.startswith("0."): zs = zs[1:]
        if t["k"] == "f32" and r.random() < 0.5: zs += r.choice("fF")
        neg = r.random() < 0.3
        return dict(o="dec", m=m, j=j, s=neg, zs=("-" if neg else "") + zs)


def flt_fits(t, v):
    """If the number v / 2^16 is one of type t."""
    v = abs(v)
    if v == 0 or t["k"] == "f64": return True
    while v % 2 == 0: v //= 2
    return v.bit_length() <= (24 if t["k"] == "f32" else 11)


def const_world(i, r):
    """Constants of all kinds in packages that import each other, and what uses them."""
    names = ["base.lib%d" % i, "mid%d" % i, "top.use%d" % i]
    mws = {}
    pk, exported = {}, {}       # exported: package -> env
    for lvl, p in enumerate(names):
        d, env = {}, {}
        imps = names[:lvl] if lvl < 2 or r.random() < 0.7 else [names[1], names[0]]
        for q in imps:
            for k, l in exported[q].items(): env.setdefault(k, []).extend(l)
        et, mt = r.choice([uint(8), sint(16), uint(32), bit(7)]), r.choice([uint(8), uint(32), bit(12)])
        e, m = "Col%d" % lvl, "Flg%d" % lvl
        d[e] = enum(et, [("R_%d" % lvl, r.randint(0, 3)), ("GREEN",), ("bLue", 60)])
        d[m] = mask(mt, [("AA",), ("BB",), ("ccDd", 0x40)])
        own = {"item": []}
        for (n, df), kind in (((e, d[e]), "E:" + e), ((m, d[m]), "M:" + m)):
            own[kind] = [(IT(n, it[0]), v) for it, v in zip(df["items"], values.item_values(df))]
            own["item"] += own[kind]
        d["SubI%d" % lvl] = sub(r.choice([uint(16), sint(32), varu(4)]))
        d["SubE%d" % lvl] = sub(NM(e))
        for k, l in own.items(): env.setdefault(k, []).extend(l)
        g = ConstGen(r, env)
        mws["M:" + m] = mask_bits(mt)
        g.mw = mws
        consts = []
        for k in range(26 if lvl < 2 else 34):
            kind = r.choice(["int"] * 5 + ["bool"] * 2 + ["str"] * 2 + ["flt"] * 2 + ["E:" + e, "M:" + m, "dec"])
            n = r.choice(["CONST_%d_%d", "konst%dX%d", "C%dc%d", "Value_%d_%d"]) % (lvl, k)
            if kind == "dec":
                t = r.choice([F32, F64])
                consts.append((n, world.const(t, decimal(r, t))))
                continue
            if kind == "int":
                x, v = g.of("int", r.choice([1, 2, 3, 4]))
                ts = [(t, t) for t in CONST_INTS] + [(NM("SubI%d" % q), d["SubI%d" % q]["t"]) for q in (lvl,)]
                ts = [a for a, b in ts if int_range(b)[0] <= v <= int_range(b)[1]]
                if not ts: continue
                t = r.choice(ts)
            elif kind == "flt":
                x, v = g.of("flt", r.choice([0, 1, 2, 3]))
                if r.random() < 0.25:
                    # given by an integer, it is a floating-point number all the same
                    b = r.choice([-1001, -7, -5, -3, -1, 1, 3, 5, 9, 2001])
                    x, v = dict(o="fx", v=abs(b) << 16, zs=str(abs(b))), b << 16
                    if b < 0: x = U("neg", x)
                t = r.choice([F16, F32, F64])
                if not flt_fits(t, v) or (t is F16 and abs(v) > 60000 << 16): continue
            else:
                x, v = g.of(kind, r.choice([1, 2, 3]))
                t = {"bool": BOOL, "str": STR, "E": NM(r.choice([e, "SubE%d" % lvl])), "M": NM(m)}[kind if kind in ("bool", "str") else kind[0]]
            consts.append((n, world.const(t, x)))
            for l in (env, own): l.setdefault(kind, []).append((ID(n), v))
            if r.random() < 0.5 and kind == "int" and 1 <= v <= 40: env.setdefault("tiny", []).append((ID(n), v))
        r.shuffle(consts)           # constants may be used before they are declared
        items = list(d.items()) + consts
        if r.random() < 0.5: items = consts + list(d.items())
        d = dict(items)
        if lvl:
            fs, k = [fld(uint(8), "n"), fld(BOOL, "b")], 0
            for k in range(4):
                x, v = g.small(1, 64)
                fs.append(fld(bitd(x, r.random() < 0.4), "w%d" % k, arr=None if k else [], packed=k == 0 and r.random() < 0.5))
            for k in range(3):
                x, v = g.small(0, 9)
                fs.append(fld(r.choice([uint(8), varu(4), bit(5), STR, BOOL]), "a%d" % k, arr=[x]))
            x, v = g.small(0, 20)
            fs.append(fld(uint(16), "c0", cond=B(r.choice(["<", ">=", "!="]), F("n"), x)))
            x, v = g.of("bool", 3)
            fs.append(fld(uint(16), "c1", cond=x))
            x, v = g.of("bool", 2)
            fs.append(fld(uint(16), "c2", cond=B(r.choice(["&&", "||"]), F("b", y="b"), x)))
            labels, cases = set(), []
            for k in range(5):
                x, v = g.small(0, 30)
                if v in labels: continue
                labels.add(v)
                cases.append(([x], fld(uint(8 << (k % 3)), "q%d" % k)))
            d["Ch%d" % lvl] = choice([par("s", uint(8))], F("s"), cases, fld(STR, "other"))
            fs.append(fld(NM("Ch%d" % lvl, F("n")), "ch"))
            x, v = g.small(0, 20)
            d["Pa%d" % lvl] = struct([fld(uint(8), "z", arr=[F("s")])], [par("s", uint(8))])
            fs.append(fld(NM("Pa%d" % lvl, x), "pa"))
            d["Use%d" % lvl] = struct(fs)
        # initial values
        ini, ln = [], []
        for k in range(14):
            kind = r.choice(["int"] * 5 + ["bool", "str", "str", "flt", "flt", "E:" + e, "M:" + m, "none"])
            if kind == "none":
                t = r.choice([uint(8), F32, F64])
                ini.append(fld(t, "i%d" % k))
                if t["k"] != "uint": ini[-1]["ini"] = decimal(r, t)
                continue
            x, v = g.of(kind, r.choice([0, 1, 2, 3]))
            t = {"bool": BOOL, "str": STR, "E": NM(r.choice([e, "SubE%d" % lvl])), "M": NM(m)}.get(kind if kind in ("bool", "str") else kind[0])
            if kind == "int":
                ts = [a for a, b in [(t, t) for t in CONST_INTS] + [(NM("SubI%d" % lvl), d["SubI%d" % lvl]["t"])] if int_range(b)[0] <= v <= int_range(b)[1]]
                if not ts: continue
                t = r.choice(ts)
            elif kind == "flt":
                t = r.choice([F16, F32, F64])
                if not flt_fits(t, v) or (t is F16 and abs(v) > 60000 << 16): continue
            ini.append(dict(fld(t, "i%d" % k, opt=r.random() < 0.1), ini=x))
        d["Ini%d" % lvl] = struct(ini)
        d["Out%d" % lvl] = struct([fld(uint(8), "x"), fld(NM("Ini%d" % lvl), "y"), dict(fld(uint(8), "z"), ini=N(7))]
                                  + ([fld(NM("Ini%d" % (lvl - 1)), "below")] if lvl else []))
        pk[p] = world.pkg(d, [(q, "*") for q in imps])
        exported[p] = own
    order = list(names)
    r.shuffle(order)
    return world.World(pk, note="w%d" % i, order=order)


def c18(c):
    r = core.rng("C18")
    ws = [const_world(i, r) for i in range(scaled(8))]
    b = world.WorldBatch(ws, "c18")
    b.violations(c, "c18")
    b.judge(c, "c18", defaults=[(i, p, n) for i in b.alive for p, n in ws[i].tops if n[:3] in ("Ini", "Out")])
    f = flow.Flow(b.schemas, "c18w", batch=b)
    for i in b.alive:
        g = values.Gen(b.schemas[i], r, wild=0.3)
        for t in b.schemas[i].tops:
            if ":Use" in t or ":Ini" in t:
                for _ in range(scaled(20)): f.enc(i, [(t, g.top(t))], st=r.choice([0, 0, 3]))
    flow.report(c, f, f.go(c), {"enc": {"panic", "refused", "bits", "length", "rt-refused", "rt-value", "rt-length"}}, "c18w")

"""Mistakes in schemas: mutations of worlds (judged by Valid.tla) and of the tokens of files (judged by Grammar.tla)."""
import copy, re

from . import harness, schema
from .schema import *
from .world import World, const, inst, pkg


# ---------------------------------------------------------------------------
# Worlds as Valid.tla reads them

FNT = {"bool": BOOL, "int32": sint(32), "uint8": uint(8), "uint32": uint(32), "int64": sint(64), "uint64": uint(64), "string": STR}


def fn_types(d):
    """The types of the functions of a compound, as nodes."""
    res = {}
    for n, x in d.get("fn", {}).items():
        t = d.get("fnt", {}).get(n, "bool" if x.get("bool") else "int32")
        res[n] = FNT[t] if isinstance(t, str) else t
    return res


def settle(w):
    """Bring a world into the form that mutations and Valid.tla know: no texts, function types as nodes."""
    for p, x in w.pkgs.items():
        for n, d in x["d"].items():
            if d.get("fn"): d["fnt"] = fn_types(d)
    return w


def tla(w):
    names = set()

    def ty(t):
        k = t["k"]
        if k == "nm": return dict(k="nm", q=t["q"], n=t["n"], ta=[ty(x) for x in t["ta"]], a=[ex(a) for a in t["a"]])
        if k == "bitd": return dict(k="bitd", s=t["s"], e=ex(t["e"]))
        return {a: b for a, b in t.items() if a in ("k", "w", "n")}

    def ex(x):
        o = x["o"]
        if o == "n": return dict(o="n", v=x["v"], tf=True) if isinstance(x["v"], bool) else dict(o="n", v=wide(x["v"]))
        if o in ("fx", "dec"): return dict(o="dec")
        if o in ("str", "lit"): return dict(o=o)
        if o == "f": return dict(o="f", p=x["p"])
        if o == "at": return dict(o="at", p=x["p"], i=ex(x["i"]), q=x["q"])
        if o == "call": return dict(o="call", p=x["p"], f=x["f"])
        return {a: ex(b) if isinstance(b, dict) else b for a, b in x.items() if a in ("o", "a", "b", "c", "q", "n", "i", "p")}

    def field(f):
        names.add(f["n"])
        g = dict(n=f["n"], t=ty(f["t"]), o=f["o"], c=[ex(x) for x in f["c"]], r=[dict(p=x["p"], l=[ex(y) for y in x["l"]]) for x in f["r"]])
        if "ini" in f: g["ini"] = ex(f["ini"])
        return g

    def decl(d):
        k = d["k"]
        r = dict(k=k)
        if d.get("tp"): r["tp"] = d["tp"]
        if "t" in d: r["t"] = ty(d["t"])
        if k == "const": r["x"] = ex(d["x"])
        if k in ("enum", "mask"): r["it"] = [dict(n=i[0], x=[] if i[1] is None else [ex(i[1])]) for i in d["items"]]
        if k in ("struct", "choice", "union"):
            names.update(p["n"] for p in d["p"])
            r["p"] = [dict(n=p["n"], t=ty(p["t"])) for p in d["p"]]
            if d.get("fn"):
                names.update(d["fn"])
                r["fn"] = {n: ex(x) for n, x in d["fn"].items()}
                r["ft"] = {n: ty(t) for n, t in d["fnt"].items()}
                r["fl"] = list(d["fn"])
        if k == "choice":
            r["sel"] = ex(d["sel"])
            r["c"] = [dict(l=[ex(l) for l in c["l"]], f=[field(f) for f in c["f"]]) for c in d["c"]]
            r["d"] = [field(f) for f in d["d"]]
        elif k in ("struct", "union"):
            r["f"] = [field(f) for f in d["f"]]
        return r
    pk = {p: dict(imp=[dict(p=a, s=b) for a, b in x["imp"]], d={n: decl(d) for n, d in x["d"].items()}) for p, x in w.pkgs.items()}
    return dict(pk=pk, more=[dict(p=p, n=n) for p, n, _ in w.more], go={n: harness.go_name(n) for n in sorted(names | {"_"})})


# ---------------------------------------------------------------------------
# Places in a world

class Slot:
    def __init__(self, c, k, kind, p, d):
        self.c, self.k, self.kind, self.p, self.d = c, k, kind, p, d

    @property
    def v(self): return self.c[self.k]

    def set(self, v): self.c[self.k] = v


def fields(d):
    if d["k"] == "choice": return [f for c in d["c"] for f in c["f"]] + d["d"]
    return d.get("f", [])


def slots(w):
    """All types and expressions of a world.  Kinds: type (with arguments and widths), tref (without),
    const (an expression without fields), expr, path (of a call or lengthof)."""
    out = []

    def ty(c, k, kind, p, d):
        out.append(Slot(c, k, kind, p, d))
        t = c[k]
        if t["k"] == "nm":
            for i in range(len(t["ta"])): ty(t["ta"], i, "tref", p, d)
            for i in range(len(t["a"])): ex(t["a"], i, "expr", p, d)
        elif t["k"] == "bitd": ex(t, "e", "expr" if d["k"] in ("struct", "choice", "union") else "const", p, d)

    def ex(c, k, kind, p, d):
        out.append(Slot(c, k, kind, p, d))
        x = c[k]
        if x["o"] == "at": ex(x, "i", kind, p, d)
        for a in "abc":
            if isinstance(x.get(a), dict): ex(x, a, kind, p, d)

    for p, x in w.pkgs.items():
        for n, d in x["d"].items():
            if "t" in d: ty(d, "t", "type" if d["k"] in ("const", "enum", "mask") else "tref", p, d)
            if d["k"] == "const": ex(d, "x", "const", p, d)
            for it in d.get("items", []):
                if it[1] is not None: ex(it, 1, "const", p, d)
            for q in d.get("p", []): ty(q, "t", "tref", p, d)
            if d["k"] == "choice":
                ex(d, "sel", "expr", p, d)
                for c in d["c"]:
                    for j in range(len(c["l"])): ex(c["l"], j, "const", p, d)
            for f in fields(d):
                ty(f, "t", "type", p, d)
                if f["c"]: ex(f["c"], 0, "expr", p, d)
                if f["r"] and f["r"][0]["l"]: ex(f["r"][0]["l"], 0, "expr", p, d)
                if "ini" in f: ex(f, "ini", "const", p, d)
            for f in d.get("fn", {}):
                ex(d["fn"], f, "fn", p, d)
                ty(d["fnt"], f, "tref", p, d)
    return out


# ---------------------------------------------------------------------------
# Mutations

BOUND = [0, 1, -1, 2, 3, 5, 7, 8, 31, 32, 63, 64, 65, 127, 128, -128, -129, 255, 256, 65535, 65536, 1 << 31, 1 << 32, (1 << 63) - 1, -(1 << 62), -(1 << 63) + 1]
OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "!=", "<", "<=", ">", ">=", "&&", "||"]
BUILTIN = INTS + [BOOL, F16, F32, F64, STR, BYTES, EXT] + [bit(w) for w in (1, 3, 7, 33, 64)] + [intb(w) for w in (1, 5, 64)]


class Mutator:
    def __init__(self, w, r):
        self.w, self.r, self.what = w, r, []
        self.decls = [(p, n, d) for p, x in w.pkgs.items() for n, d in x["d"].items()]

    def pick(self, *kinds):
        l = [s for s in slots(self.w) if s.kind in kinds]
        return self.r.choice(l) if l else None

    # random material
    def typ(self, p, full, depth=0):
        r = self.r
        k = r.randrange(12)
        if k < 3: return dict(r.choice(BUILTIN))
        if k == 3 and full:
            e = self.expr(p, None, 0)
            return bitd(e if e["o"] in ("n", "id", "f", "str") else U("()", e), r.random() < 0.4)
        if k == 4: return NM("Unknown", q=r.choice(["", "", p]))
        if k == 5: return r.choice([P("uint", "bit:0", w=0), P("uint", "bit:65", w=65), P("int", "int:0", w=0), P("int", "int:65", w=65), P("uint", "bit:100", w=100)])
        q, n, d = r.choice(self.decls)
        ta = [self.typ(p, False, depth + 1) for _ in d.get("tp", [])] if depth < 2 and r.random() < 0.9 else []
        a = [self.expr(p, None, 1) for _ in d.get("p", [])] if full and r.random() < 0.8 else []
        if full and not a and r.random() < 0.04: a = [N(1)]
        return NM(n, *a, q="" if q == p and r.random() < 0.8 else r.choice([q, q, ""]), ta=ta)

    def members(self, d):
        return [] if d is None else [p["n"] for p in d.get("p", [])] + [f["n"] for f in fields(d)]

    def path(self, d):
        r = self.r
        l = self.members(d)
        p = [r.choice(l)] if l and r.random() < 0.9 else ["nope"]
        while r.random() < 0.25: p.append(r.choice([f["n"] for _, _, x in self.decls for f in fields(x)] or ["nope"]))
        return p

    def expr(self, p, d, depth):
        r = self.r
        k = r.randrange(16)
        if k < 3: return N(r.choice(BOUND[:12]))
        if k == 3: return N(r.choice(BOUND))
        if k == 4: return N(r.random() < 0.5)
        if k == 5: return r.choice([STRV("x"), dict(o="dec", m=15, j=1, s=False, zs="1.5"), LIT("\\n")])
        if k in (6, 7):
            l = [(q, n) for q, n, x in self.decls if x["k"] == "const" or r.random() < 0.1] or [(p, "nope")]
            q, n = r.choice(l)
            return ID(n if r.random() < 0.95 else "nope", "" if q == p else r.choice([q, q, ""]))
        if k in (8, 9):
            l = [(q, n, x) for q, n, x in self.decls if x["k"] in ("enum", "mask")]
            if l:
                q, n, x = r.choice(l)
                return IT(n, r.choice(x["items"])[0] if r.random() < 0.9 else "NOPE", "" if q == p else r.choice([q, q, ""]))
        if k in (10, 11, 12) and d is not None: return F(*self.path(d))
        if k == 13 and d is not None:
            y = r.randrange(4)
            if y == 0: return dict(IDX)
            if y == 1: return LEN(*self.path(d))
            if y == 2: return AT(self.path(d)[:1], self.expr(p, d, depth + 1), [] if r.random() < 0.6 else self.path(d)[:1])
            fs = [(x, f) for _, _, x in self.decls for f in x.get("fn", {})]
            if fs: return CALL("", r.choice(fs)[1], *(self.path(d)[:1] if r.random() < 0.6 else []))
        if depth < 2:
            y = r.randrange(8)
            if y == 0: return COND(self.expr(p, d, depth + 1), self.expr(p, d, depth + 1), self.expr(p, d, depth + 1))
            if y == 1: return U(r.choice(["neg", "!", "~", "()", "vo", "nb"]), self.expr(p, d, depth + 1))
            if y == 2: return ISSET(self.expr(p, d, depth + 1), self.expr(p, d, depth + 1))
            return B(r.choice(OPS), self.expr(p, d, depth + 1), self.expr(p, d, depth + 1))
        return N(r.choice(BOUND[:8]))

    # mutations: False if there is nothing to do
    def m_type(self):
        s = self.pick("type", "tref", "type")
        s.set(self.typ(s.p, s.kind == "type"))

    def m_typename(self):
        l = [s for s in slots(self.w) if s.kind in ("type", "tref") and s.v["k"] == "nm"]
        if not l: return False
        s = self.r.choice(l)
        k = self.r.randrange(6)
        if k == 0: s.v["n"] = self.r.choice(self.decls)[1]
        elif k == 1: s.v["q"] = self.r.choice(list(self.w.pkgs) + [""])
        elif k == 2: s.v["n"] += "x"
        elif k == 3: s.v["ta"] = s.v["ta"][:-1] if s.v["ta"] and self.r.random() < 0.5 else s.v["ta"] + [self.typ(s.p, False, 1)]
        elif s.kind == "type": s.v["a"] = s.v["a"][:-1] if s.v["a"] and self.r.random() < 0.4 else s.v["a"] + [self.expr(s.p, s.d, 1)]
        else: return False

    def m_expr(self):
        s = self.pick("expr", "const", "expr", "fn")
        if s is None: return False
        s.set(self.expr(s.p, s.d if s.kind != "fn" and s.d["k"] in ("struct", "union", "choice") else None, 0))

    def m_wrap(self):
        s = self.pick("expr", "const", "fn")
        if s is None: return False
        x, y = s.v, self.expr(s.p, s.d if s.kind == "expr" else None, 2)
        k = self.r.randrange(8)
        if k == 0: s.set(U(self.r.choice(["neg", "!", "~", "()", "vo", "nb"]), x))
        elif k == 1: s.set(COND(y, x, x))
        elif k == 2: s.set(COND(N(True), x, y))
        elif k < 6: s.set(B(self.r.choice(OPS), x, y))
        else: s.set(B(self.r.choice(OPS), y, x))

    def m_op(self):
        l = [s for s in slots(self.w) if s.kind in ("expr", "const", "fn") and "b" in s.v and s.v["o"] not in ("?", "isset")]
        if not l: return False
        s = self.r.choice(l)
        s.set(dict(s.v, o=self.r.choice(OPS)))

    def m_number(self):
        l = [s for s in slots(self.w) if s.kind in ("expr", "const", "fn") and s.v["o"] == "n" and not isinstance(s.v["v"], bool)]
        if not l: return False
        s = self.r.choice(l)
        v = s.v["v"]
        s.set(N(self.r.choice(BOUND + [v + 1, v - 1, -v, v * 2])))

    def m_name(self):
        l = [s for s in slots(self.w) if s.kind in ("expr", "const", "fn") and s.v["o"] in ("id", "it", "f", "len", "at", "call")]
        if not l: return False
        s = self.r.choice(l)
        x = copy.deepcopy(s.v)
        if x["o"] == "id": x[self.r.choice(["n", "q"])] = self.r.choice(["nope", "", self.r.choice(self.decls)[0], self.r.choice(self.decls)[1]])
        elif x["o"] == "it":
            k = self.r.choice("iinq")
            x[k] = dict(i=self.r.choice(["NOPE", x["i"].lower(), self.r.choice([i[0] for _, _, d in self.decls for i in d.get("items", [])])]), n=self.r.choice(self.decls)[1], q=self.r.choice(self.decls)[0])[k]
        elif x["o"] == "call" and self.r.random() < 0.5: x["f"] = self.r.choice(["nope"] + [f for _, _, d in self.decls for f in d.get("fn", {})])
        elif x["p"]: x["p"] = self.r.choice([self.path(s.d), x["p"][:-1] + ["nope"], x["p"] + ["nope"], x["p"] + self.path(s.d)])
        else: return False
        if x["o"] == "id" and not x["n"]: x["n"] = "nope"
        s.set(x)

    def m_import(self):
        r = self.r
        p = r.choice(list(self.w.pkgs))
        imp = self.w.pkgs[p]["imp"]
        q = r.choice(list(self.w.pkgs))
        k = r.randrange(6)
        if k < 2 and imp: imp.pop(r.randrange(len(imp)))
        elif k == 2: imp.append(("no.such", "*"))
        elif k == 3: imp.append((q, "Nope"))
        elif k == 4 and self.w.pkgs[q]["d"]: imp.append((q, r.choice(list(self.w.pkgs[q]["d"]))))
        else: imp.append((q, "*"))

    def compound(self, *kinds):
        l = [(p, n, d) for p, n, d in self.decls if d["k"] in (kinds or ("struct", "choice", "union"))]
        return self.r.choice(l) if l else (None, None, None)

    def m_field(self):
        """Change what a field is besides its type."""
        r = self.r
        p, n, d = self.compound()
        fs = fields(d) if d else []
        if not fs: return False
        f = r.choice(fs)
        k = r.randrange(7)
        if k == 0:
            f["r"] = [] if f["r"] else [dict(p=False, l=[self.expr(p, d, 1)] if r.random() < 0.5 else [])]
        elif k == 1 and d["k"] == "struct":
            f["c"] = [] if f["c"] and r.random() < 0.3 else [self.expr(p, d, 0)]
            if f["c"]: f["o"] = False
        elif k == 2 and d["k"] == "struct" and not f["c"]: f["o"] = not f["o"]
        elif k in (3, 4) and d["k"] == "struct":
            if "ini" in f and r.random() < 0.3: del f["ini"]
            else: f["ini"] = self.expr(p, d if r.random() < 0.3 else None, 0)
        elif k == 5 and f["r"]: f["r"][0]["l"] = [] if f["r"][0]["l"] else [self.expr(p, d, 0)]
        elif k == 6: f["n"] = r.choice(self.members(d) + ["another"])
        else: return False

    def m_member(self):
        """Duplicate, remove or move members."""
        r = self.r
        p, n, d = self.compound()
        if d is None: return False
        k = r.randrange(5)
        l = d["f"] if d["k"] != "choice" else None
        if k == 0 and l:
            f = copy.deepcopy(r.choice(l))
            if r.random() < 0.6: f["n"] += "2"
            l.insert(r.randrange(len(l) + 1), f)
        elif k == 1 and l: l.pop(r.randrange(len(l)))
        elif k == 2 and l and len(l) > 1: r.shuffle(l)
        elif k == 3:
            if d["p"] and r.random() < 0.5 and (d["k"] != "choice" or len(d["p"]) > 1): d["p"].pop()
            else: d["p"].append(par(r.choice(self.members(d) + ["surplus"]), self.typ(p, False)))
        elif k == 4 and d.get("fn"):
            f = r.choice(list(d["fn"]))
            if r.random() < 0.4:
                d["fn"].pop(f)
                d["fnt"].pop(f)
            elif l is not None:
                l.append(fld(uint(8), r.choice([f, "another"])))
        else: return False

    def m_case(self):
        r = self.r
        p, n, d = self.compound("choice")
        if d is None: return False
        k = r.randrange(5)
        cs = d["c"]
        if k == 0 and cs:
            c = r.choice(cs)
            c["l"].append(copy.deepcopy(r.choice(r.choice(cs)["l"])))
        elif k == 1 and cs: r.choice(cs)["l"].append(self.expr(p, d if r.random() < 0.2 else None, 0))
        elif k == 2 and len(cs) > 1: cs.pop(r.randrange(len(cs)))
        elif k == 3: d["sel"] = self.expr(p, d, 0)
        elif k == 4:
            l = [ID(i[0]) for _, _, x in self.decls for i in x.get("items", [])]
            if not l or not cs: return False
            c = r.choice(cs)
            c["l"][r.randrange(len(c["l"]))] = r.choice(l)

    def m_items(self):
        r = self.r
        l = [(p, d) for p, n, d in self.decls if d["k"] in ("enum", "mask")]
        if not l: return False
        p, d = r.choice(l)
        it = d["items"]
        k = r.randrange(6)
        if k == 0: it.append([r.choice(it)[0] if r.random() < 0.5 else "MORE", None])
        elif k == 1: it.append(["MORE", self.expr(p, None, 0)])
        elif k == 2: r.choice(it)[1] = N(r.choice(BOUND))
        elif k == 3: r.choice(it)[1] = ID(r.choice(it)[0])
        elif k == 4: r.choice(it)[1] = B(r.choice(OPS), ID(r.choice(it)[0]), N(r.choice(BOUND[:8])))
        elif len(it) > 1: it.pop(r.randrange(len(it)))
        else: return False

    def m_decl(self):
        r = self.r
        p, n, d = r.choice(self.decls)
        x = self.w.pkgs[p]["d"]
        k = r.randrange(6)
        if k == 0: self.w.more.append((p, n, copy.deepcopy(d) if r.random() < 0.4 else r.choice([struct([fld(uint(8), "a")]), sub(uint(8)), const(uint(8), N(1)), enum(uint(8), [["DUPA", None]])])))
        elif k == 1: x.pop(n, None)
        elif k == 2:
            x.pop(n, None)
            x[n + "Other"] = d
        elif k == 3:
            t = NM("Cyc2") if r.random() < 0.5 else self.typ(p, False)
            x["Cyc1"], x["Cyc2"] = sub(t), sub(NM("Cyc1"))
        elif k == 4:
            x["cyc1"] = const(uint(32), B("+", ID("cyc2"), N(1)))
            x["cyc2"] = const(uint(32), self.expr(p, None, 0) if r.random() < 0.6 else ID("cyc1"))
        else:
            if d.get("tp"):
                if r.random() < 0.5: d["tp"].append(r.choice(d["tp"] + ["Zz"]))
                else:
                    d["tp"].pop()
                    if not d["tp"]: d.pop("tp")
            elif d["k"] == "struct" and r.random() < 0.5: d["tp"] = ["Zz"]
            elif d["k"] == "const": x[n + "Copy"] = const(self.typ(p, True), ID(n))
            else: x["Inst"] = inst(self.typ(p, False))

    def m_recursive(self):
        r = self.r
        p, n, d = self.compound("struct", "union")
        if d is None or d.get("tp") or d["p"]: return False
        q, m, e = self.compound("struct", "union")
        if e is None: return False
        e["f"].append(fld(NM(n, q="" if p == q else p), "loop", arr=r.choice([None, None, None, []])))
        if r.random() < 0.5 and (p, n) != (q, m) and not e.get("tp") and not e["p"]: d["f"].append(fld(NM(m, q="" if p == q else q), "back"))

    OPSET = ["type"] * 4 + ["typename"] * 3 + ["expr"] * 5 + ["wrap"] * 3 + ["op"] * 2 + ["number"] * 3 + ["name"] * 3 + ["import", "import", "field", "field", "field", "member", "member", "member", "case", "case", "case", "items", "items", "decl", "decl", "recursive"]

    def mutate(self):
        for _ in range(50):
            m = self.r.choice(self.OPSET)
            if getattr(self, "m_" + m)() is not False:
                self.what.append(m)
                return


class Mutant(World):
    def __init__(self, base):
        super().__init__(copy.deepcopy(base.pkgs), tops=[], note=base.note, order=list(base.order), observe=False)
        self.more = []
        for x in self.pkgs.values():
            x["imp"] = list(x["imp"])
            for d in x["d"].values():
                if "items" in d: d["items"] = [[i[0], i[1] if len(i) > 1 and (i[1] is None or isinstance(i[1], dict)) else N(i[1]) if len(i) > 1 else None] for i in d["items"]]
                for f in fields(d):
                    f.pop("zinit", None)
                if d["k"] == "choice": d["hasd"] = d.get("hasd") or bool(d["d"])
        settle(self)

    def text(self, p):
        x = self.pkgs[p]
        t = self.head.get(p, "") + Schema(x["d"], tops=[], pkg=p, prelude="\n".join("import %s.%s;" % i for i in x["imp"])).text()
        for q, n, d in self.more:
            if q == p: t += Schema({n: settle(World({"z": pkg({n: d})})).pkgs["z"]["d"][n]}, pkg="z").text().split("\n", 2)[2]
        return t


def mutant(base, r, n=1):
    w = Mutant(base)
    m = Mutator(w, r)
    for _ in range(n): m.mutate()
    w.note = "%s:%s" % (base.note, "+".join(m.what))
    return w


# ---------------------------------------------------------------------------
# Tokens

KEYWORDS = set("""align bit bool bitmask bytes case choice const default enum explicit extend extern float16 float32 float64 function
 if implicit import instantiate int int16 int32 int64 int8 isset lengthof numbits on optional package packed pubsub publish return rule
 rule_group service sql sql_database sql_table sql_virtual sql_without_rowid string struct subscribe subtype topic uint16 uint32 uint64
 uint8 union using valueof varint varint16 varint32 varint64 varsize varuint varuint16 varuint32 varuint64 zserio_compatibility_version""".split())
TOKEN = re.compile(r'\s+|/\*.*?\*/|//[^\n]*|(@deprecated|@removed|@index|"(?:[^"\\\n]|\\.)*"|(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?f?|\d+[eE][+-]?\d+f?'
                   r'|0[xX][0-9a-fA-F]+|[01]+[bB]\b|\w+|==|!=|<=|>=|&&|\|\||<<|[-&=!:,/.{}<>\[\]()%*|+?;~^])', re.S)


def kind(x):
    """The class of a token as Grammar.tla names it."""
    if x in KEYWORDS or x in ("@deprecated", "@removed", "@index"): return x
    if x in ("true", "false"): return "LIT"
    if x[0] == '"': return "STR" if len(x) > 1 and x[-1] == '"' else "BAD"
    if re.fullmatch(r"0|[1-9]\d*", x): return "DEC"
    if re.fullmatch(r"[01]+[bB]|0[0-7]+|0[xX][0-9a-fA-F]+|((\d+\.\d*|\.\d+)([eE][+-]?\d+)?|\d+[eE][+-]?\d+)f?", x): return "LIT"
    if re.fullmatch(r"[A-Za-z_]\w*", x): return "ID"
    if re.fullmatch(r"\w+", x): return "BAD"
    if TOKEN.fullmatch(x): return x
    return "BAD"


def tokens(s):
    return [m.group(1) for m in TOKEN.finditer(s) if m.group(1) is not None]


def kinds(s):
    """The classes of the tokens of a text, with what is none as BAD."""
    out, p = [], 0
    while p < len(s):
        m = TOKEN.match(s, p)
        if not m:
            out.append("BAD")
            p += 1
            continue
        p = m.end()
        if m.group(1) is not None: out.append(kind(m.group(1)))
    return out


PIECES = ["ID"] * 4 + ["name", "Name", "1", "0", "007", "0x1F", "101b", "1.5", "2e3", ".5f", "true", '"text"', '""'] + sorted(KEYWORDS) + list("-&=!:,/.{}<>[]()%*|+?;~^") + ["==", "!=", "<=", ">=", "&&", "||", "<<", "@index", "@deprecated", "@removed"]
BROKEN = ["@", "$", "#", "'", "`", "\\", '"', '"open', "1abc", "12x", "0x", "0xg", "é", "\x00", "/*", "*/", "@nothing", "08", "2b", "1..2", "//"]


def spoil(text, r):
    """Change some tokens of a file; returns the new text and what was done."""
    ts = tokens(text)
    what = []
    for _ in range(r.choice([1, 1, 1, 1, 1, 2])):
        k = r.randrange(11)
        i = r.randrange(len(ts)) if ts else 0
        if not ts: break
        if k in (0, 1):
            what.append("without %s" % ts.pop(i))
        elif k == 2:
            ts.insert(i, ts[i])
            what.append("%s twice" % ts[i])
        elif k == 3:
            j = min(i + 1, len(ts) - 1)
            ts[i], ts[j] = ts[j], ts[i]
            what.append("%s and %s swapped" % (ts[j], ts[i]))
        elif k in (4, 5):
            x = r.choice(PIECES)
            what.append("%s becomes %s" % (ts[i], x))
            ts[i] = x
        elif k == 6:
            x = r.choice(PIECES)
            ts.insert(i, x)
            what.append("%s inserted" % x)
        elif k == 7:
            x = r.choice(BROKEN)
            ts.insert(i, x)
            what.append("%r inserted" % x)
        elif k == 8:
            if r.random() < 0.3:
                what.append("cut off")
                del ts[i:]
            else:
                j = min(len(ts), i + r.randint(2, 6))
                what.append("without " + " ".join(ts[i:j]))
                del ts[i:j]
        elif k == 9:
            l = [j for j, x in enumerate(ts) if x in "{}()[]<>;:,."]
            if l:
                j = r.choice(l)
                what.append("without %s" % ts[j])
                ts.pop(j)
        else:
            # a part of the file somewhere else
            j = min(len(ts), i + r.randint(1, 12))
            part = ts[i:j]
            at = r.randrange(len(ts) + 1)
            what.append("%s at another place" % " ".join(part)[:60])
            ts[at:at] = part
    return " ".join(x + ("\n" if x in (";", "{", "}", "//") else "") for x in ts) + "\n", "; ".join(what)


# what worlds do not have, though the grammar does
OTHER = """zserio_compatibility_version("2.11.0");
package %s;
import base.thing.*;

rule_group Rules { rule "r-1"; rule "r-2"; };
struct Blob<T, U>(uint8 n, bool b) {
  extend uint8 a = 3 if n > 2 && b : a < 7;
  align(8): offsets[@index]: optional packed T list[n * 2];
  implicit U rest[];
  bit<n + 1> w;
  Blob<uint8, base.thing.Foo>(n, explicit other, 2 + 3) sub;
  function uint8 f() { return isset(mask, Mask.A) ? lengthof(list) : numbits(valueof(kind)) - list[0].x.f(); }
};
choice Ch<T>(uint8 n) on n { case 1: case 2: T a; case 3: ; default: uint8 rest[]; function bool g() { return !true || ~n == -1; } };
union Un(Kind k) { T a; string b[3] : b != "x"; };
enum varuint32 Kind { A, @deprecated B = 0x10, @removed C = 7, };
bitmask bit:9 Mask { A, B = 1 << 3 };
sql_table Table<T> using fts5 { sql_virtual uint8 id sql "PRIMARY KEY"; T name; sql "UNIQUE(name)"; sql_without_rowid; };
sql_database Db { Table<uint8> t; Table<string> u; };
service Svc { Req call(Res); string ping(Empty); };
pubsub Ps { publish topic("a/b") Foo foo; subscribe topic("c") Bar bar; topic("d") Baz baz; };
instantiate Blob<uint8, string> BlobInst;
const float32 PI = 3.14f;
subtype int:7 Seven;
"""

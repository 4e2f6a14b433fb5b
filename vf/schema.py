"""Schemas: one description, rendered as zserio text and as the JSON Codec.tla reads."""

# ---------------------------------------------------------------------------
# types


def P(k, zs, **kw):
    return dict(k=k, zs=zs, **kw)


def uint(w): return P("uint", "uint%d" % w, w=w)
def sint(w): return P("int", "int%d" % w, w=w)
def bit(w): return P("uint", "bit:%d" % w, w=w)
def intb(w): return P("int", "int:%d" % w, w=w)


VARU = {2: "varuint16", 4: "varuint32", 8: "varuint64", 9: "varuint"}
VARS = {2: "varint16", 4: "varint32", 8: "varint64", 9: "varint"}


def varu(n): return P("varu", VARU[n], n=n)
def vars_(n): return P("vars", VARS[n], n=n)


SIZE = P("size", "varsize")
BOOL = P("bool", "bool")
F16, F32, F64 = P("f16", "float16"), P("f32", "float32"), P("f64", "float64")
STR, BYTES, EXT = P("str", "string"), P("bytes", "bytes"), P("ext", "extern")


def ref(n, *args): return dict(k="ref", n=n, a=list(args))
def bitd(e, s=False): return dict(k="bitd", s=s, e=e)


INTS = ([uint(w) for w in (8, 16, 32, 64)] + [sint(w) for w in (8, 16, 32, 64)]
        + [varu(n) for n in (2, 4, 8, 9)] + [vars_(n) for n in (2, 4, 8, 9)] + [SIZE])


def storage(t):
    """(bits, signed) of the Go type that holds values of an integer type."""
    k = t["k"]
    if k in ("uint", "int"):
        w = t["w"]
        return next(x for x in (8, 16, 32, 64) if w <= x), k == "int"
    if k == "varu": return {2: 16, 4: 32, 8: 64, 9: 64}[t["n"]], False
    if k == "vars": return {2: 16, 4: 32, 8: 64, 9: 64}[t["n"]], True
    if k == "size": return 64, False
    if k == "bitd": return 64, t["s"]
    raise KeyError(k)


def int_range(t, w=None):
    """Range of the wire type (w: the width of a bit field of computed width)."""
    k = t["k"]
    if k == "uint" or (k == "bitd" and not t["s"]):
        return 0, (1 << (t.get("w") if w is None else w)) - 1
    if k == "int" or k == "bitd":
        n = t.get("w") if w is None else w
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if n else (0, 0)
    if k == "varu":
        return 0, (1 << {2: 15, 4: 29, 8: 57, 9: 64}[t["n"]]) - 1
    if k == "vars":
        if t["n"] == 9: return -(1 << 63), (1 << 63) - 1
        m = (1 << {2: 14, 4: 28, 8: 56}[t["n"]]) - 1
        return -m, m
    if k == "size": return 0, (1 << 31) - 1
    raise KeyError(k)


# ---------------------------------------------------------------------------
# expressions

def N(v, zs=None):
    d = dict(o="n", v=v)
    if zs: d["zs"] = zs
    return d


def _path(p):
    """Members of a path; "?x" is an optional one."""
    z = [i + 1 for i, n in enumerate(p) if n[0] == "?"]
    return dict(p=[n.lstrip("?") for n in p], **(dict(z=z) if z else {}))
def F(*p, y="i"): return dict(o="f", y=y, **_path(p))
def AT(p, i, q=(), y="i"): return dict(o="at", p=list(p), i=i, q=list(q), y=y)
IDX = dict(o="idx")
def LEN(*p): return dict(o="len", **_path(p))
def NB(a): return dict(o="nb", a=a)
def CALL(t, f, *p): return dict(o="call", t=t, f=f, p=list(p))
def U(o, a): return dict(o=o, a=a)
def B(o, a, b): return dict(o=o, a=a, b=b)
def ID(n, q=""): return dict(o="id", q=q, n=n)
def IT(n, i, q=""): return dict(o="it", q=q, n=n, i=i)
def STRV(s): return dict(o="str", v=list(s.encode()), zs='"%s"' % s)
def LIT(raw): return dict(o="lit", v=list(raw.encode()), zs='"%s"' % raw)
def FX(x, zs): return dict(o="fx", v=int(x * 65536), zs=zs)
def NM(n, *args, q="", ta=()): return dict(k="nm", q=q, n=n, ta=list(ta), a=list(args))
def ISSET(a, b): return dict(o="isset", a=a, b=b)
def COND(a, b, c): return dict(o="?", a=a, b=b, c=c)


PREC = {"?": 1, "||": 2, "&&": 3, "|": 4, "^": 5, "&": 6, "==": 7, "!=": 7, "<": 8, "<=": 8, ">": 8, ">=": 8,
        "<<": 9, ">>": 9, "cat": 10, "+": 10, "-": 10, "*": 11, "/": 11, "%": 11}


def xs(x, paren=None, lvl=0):
    """zserio text of an expression with the parentheses it needs; paren(): add more."""
    o = x["o"]
    r = lambda y, l: xs(y, paren, l)
    if o == "n":
        if "zs" in x: return x["zs"]
        if x["v"] is True: return "true"
        if x["v"] is False: return "false"
        s, me = str(x["v"]), (12 if x["v"] < 0 else 20)
    elif o == "f": s, me = ".".join(x.get("zp", x["p"])), 20
    elif o == "at":
        s, me = "%s[%s]%s" % (".".join(x["p"]), r(x["i"], 0), "".join("." + q for q in x["q"])), 20
    elif o == "idx": s, me = "@index", 20
    elif o == "id": s, me = (x["q"] + "." if x["q"] else "") + x["n"], 20
    elif o == "it": s, me = (x["q"] + "." if x["q"] else "") + x["n"] + "." + x["i"], 20
    elif o in ("str", "fx", "lit", "dec", "fl"): s, me = x["zs"], 20
    elif o == "len": s, me = "lengthof(%s)" % ".".join(x["p"]), 20
    elif o == "vo": s, me = "valueof(%s)" % r(x["a"], 0), 20
    elif o == "nb": s, me = "numbits(%s)" % r(x["a"], 0), 20
    elif o == "call": s, me = "%s()" % ".".join(x["p"] + [x["f"]]), 20
    elif o == "()": s, me = "(%s)" % r(x["a"], 0), 20
    elif o == "isset": s, me = "isset(%s, %s)" % (r(x["a"], 0), r(x["b"], 0)), 20
    elif o == "neg": s, me = "-" + r(x["a"], 12), 12
    elif o == "mc": s, me = "~" + r(x["a"], 12), 12
    elif o in "!~": s, me = o + r(x["a"], 12), 12
    elif o == "?": s, me = "%s ? %s : %s" % (r(x["a"], 2), r(x["b"], 1), r(x["c"], 1)), 1
    else:
        me = PREC[o]
        s = "%s %s %s" % (r(x["a"], me), "+" if o == "cat" else o, r(x["b"], me + 1))
    if me < lvl or (paren and me < 20 and paren()):
        return "(" + s + ")"
    return s


# ---------------------------------------------------------------------------
# definitions

def fld(t, n, opt=False, cond=None, al=0, arr=None, packed=False, zinit=None):
    """arr: None (no array), [] (no declared length) or [expr]."""
    f = dict(n=n, t=t, o=opt, c=[] if cond is None else [cond], al=al,
             r=[] if arr is None else [dict(p=packed, l=list(arr))])
    if zinit is not None: f["zinit"] = zinit
    return f


def par(n, t, y="i"): return dict(n=n, t=t, y=y)
def struct(fields, params=(), fn=None): return dict(k="struct", p=list(params), f=list(fields), **({"fn": fn} if fn else {}))
def choice(params, sel, cases, default=None, fn=None):
    return dict(k="choice", p=list(params), sel=sel, c=[dict(l=list(l), f=[f] if f else []) for l, f in cases],
                d=[default] if default else [], hasd=default is not None, **({"fn": fn} if fn else {}))
def union(fields, params=(), fn=None): return dict(k="union", p=list(params), f=list(fields), **({"fn": fn} if fn else {}))
def enum(t, items): return dict(k="enum", t=t, items=items)      # items: [(name, value or None, text or None)]
def mask(t, items): return dict(k="mask", t=t, items=items)
def sub(t): return dict(k="sub", t=t)


def wide(i):
    """An integer as the wide integer of the specification."""
    u = i & ((1 << 80) - 1)
    return [(u >> s) & 0xffff for s in (64, 48, 32, 16, 0)]


class Schema:
    def __init__(self, defs, tops=None, pkg=None, prelude="", note=""):
        self.defs = defs            # name -> definition, in order
        self.tops = tops or [n for n, d in defs.items() if d["k"] in ("struct", "choice", "union")]
        self.pkg, self.prelude, self.note = pkg, prelude, note

    def tref(self, t):
        if t["k"] == "nm":
            return ((t["q"] + "." if t["q"] else "") + t["n"] + ("<%s>" % ", ".join(self.tref(x) for x in t["ta"]) if t["ta"] else "")
                    + ("(%s)" % ", ".join(xs(a) for a in t["a"]) if t["a"] else ""))
        if t["k"] == "ref":
            return t.get("zs", t["n"]) + ("(%s)" % ", ".join(xs(a) for a in t["a"]) if t["a"] else "")
        if t["k"] == "bitd":
            return "%s<%s>" % ("int" if t["s"] else "bit", xs(t["e"]))
        return t["zs"]

    def field(self, f):
        s = ""
        if f["al"]: s += "align(%d): " % f["al"]
        if f["o"]: s += "optional "
        if f["r"] and f["r"][0]["p"]: s += "packed "
        s += self.tref(f["t"]) + " " + f["n"]
        if f["r"]:
            l = f["r"][0]["l"]
            s += "[%s]" % (xs(l[0]) if l else "")
        if "zinit" in f: s += " = " + f["zinit"]
        if "ini" in f: s += " = " + xs(f["ini"])
        if f["c"]: s += " if " + xs(f["c"][0])
        return s + ";"

    def text(self):
        out = ["package %s;" % self.pkg, ""]
        if self.prelude: out += [self.prelude, ""]
        for n, d in self.defs.items():
            if d.get("hidden"): continue
            k = d["k"]
            if k == "const":
                out += ["const %s %s = %s;" % (self.tref(d["t"]), n, xs(d["x"])), ""]
                continue
            if k == "inst":
                out += ["instantiate %s %s;" % (self.tref(d["t"]), n), ""]
                continue
            n += "<%s>" % ", ".join(d["tp"]) if d.get("tp") else ""
            ps = "(%s)" % ", ".join("%s %s" % (self.tref(p["t"]), p["n"]) for p in d["p"]) if d.get("p") else ""
            if k == "sub":
                out += ["subtype %s %s;" % (self.tref(d["t"]), n), ""]
                continue
            if k in ("enum", "mask"):
                out.append("%s %s %s\n{" % ("enum" if k == "enum" else "bitmask", self.tref(d["t"]), n))
                out.append(",\n".join("    " + i[0] + ("" if len(i) < 2 or i[1] is None else " = %s" % (i[2] if len(i) > 2 else xs(i[1]) if isinstance(i[1], dict) else i[1])) for i in d["items"]))
                out += ["};", ""]
                continue
            if k == "struct":
                out.append("struct %s%s\n{" % (n, ps))
                out += ["    " + self.field(f) for f in d["f"]]
            elif k == "union":
                out.append("union %s%s\n{" % (n, ps))
                out += ["    " + self.field(f) for f in d["f"]]
            else:
                out.append("choice %s%s on %s\n{" % (n, ps, xs(d["sel"])))
                for c in d["c"]:
                    out += ["    case %s:" % xs(l) for l in c["l"]]
                    out.append("        " + (self.field(c["f"][0]) if c["f"] else ";"))
                if d.get("hasd") or d["d"]:
                    out += ["    default:", "        " + (self.field(d["d"][0]) if d["d"] else ";")]
            for fnn, x in d.get("fn", {}).items():
                rt = d.get("fnt", {}).get(fnn, "bool" if x.get("bool") else "int32")
                rt = rt if isinstance(rt, str) else self.tref(rt)
                out += ["    function %s %s()" % (rt, fnn), "    {", "        return %s;" % xs(x, d.get("paren")), "    }"]
            out += ["};", ""]
        return "\n".join(out) + "\n"

    def tla(self):
        def clean(x):
            if isinstance(x, dict):
                if x.get("o") == "n":
                    w = dict(o="n", v=x["v"] if isinstance(x["v"], (bool, list)) else wide(x["v"]))
                    return dict(w, y=x["y"]) if "y" in x else w
                return {k: clean(v) for k, v in x.items() if k not in ("zs", "zp", "zinit", "items", "hasd", "hidden", "paren", "fnt", "bool")}
            if isinstance(x, (list, tuple)):
                return [clean(v) for v in x]
            return x
        return {n: clean(d) for n, d in self.defs.items()}

    # -- helpers for generators ------------------------------------------------
    def base(self, t):
        while t["k"] == "ref":
            d = self.defs[t["n"]]
            if d["k"] == "sub":
                a = t["a"]
                t = dict(d["t"])
                if a and t["k"] == "ref": t["a"] = a
            elif d["k"] in ("enum", "mask"):
                t = d["t"]
            else:
                return t
        return t

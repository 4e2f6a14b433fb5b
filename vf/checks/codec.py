"""Checks of the generated codecs: runs of the real code judged by TLC against Codec.tla."""
from .. import core, flow, gen, harness, model, values
from ..core import THOROUGH, log
from ..schema import *

ENC = {"refused", "bits", "length", "padding", "size", "panic", "accepted", "rt-refused", "rt-length", "rt-value"}
RT = {"refused", "panic", "rt-refused", "rt-length", "rt-value"}
STARTS = [0, 0, 0, 1, 3, 5, 7, 8, 13, 31]


def rounds(n):
    return n if THOROUGH else 1


def scaled(n, k=4):
    return n * k if THOROUGH else n


def random_schemas(rnd, n, feat, need=None, **kw):
    """n random schemas; need(schema): only those that have what the property is about"""
    out = []
    for _ in range(n * 30):
        if len(out) == n: break
        s = gen.SchemaGen(rnd, feat, **kw).schema()
        if need is None or need(s): out.append(s)
    return out


def fill(f, rnd, nvals, bad=0.0, badshare=0.0, starts=STARTS, tops=None, multi=True, only=None, **kw):
    """Queue nvals random values (or value sequences) per schema."""
    n = 0
    for i in f.alive:
        if only is not None and i not in only: continue
        s = f.schemas[i]
        for k in range(nvals):
            b = bad if badshare and rnd.random() < badshare else 0.0
            for _try in range(4):
                g = values.Gen(s, rnd, bad=b, **kw)
                objs = []
                try:
                    for _ in range(rnd.choice([1, 1, 1, 2, 3]) if multi and not b else 1):
                        t = rnd.choice(tops or s.tops)
                        objs.append((t, g.top(t)))
                except values.Skip:
                    continue
                if b and not g.badcount: continue
                f.enc(i, objs, st=rnd.choice(starts))
                n += 1
                break
    return n


def fns_of(s):
    return [n for n, d in s.defs.items() if d["k"] in ("struct", "choice", "union")]


def has_kind(k):
    return lambda s: any(d["k"] == k for d in s.defs.values())


def fields_of(s):
    for d in s.defs.values():
        if d["k"] in ("struct", "union"):
            yield from d["f"]
        elif d["k"] == "choice":
            for c in d["c"]: yield from c["f"]
            yield from d["d"]


def go(c, name, schemas, fillers, kinds, sig=None, only=None, batch=None):
    f = flow.Flow(schemas, name, batch=batch)
    flow.schema_violations(c, f.batch, sig or name)
    for fn in fillers:
        fn(f)
    vs = f.go(c)
    cnt = flow.report(c, f, vs, kinds, sig or name, only)
    for cs, v, info in vs[:400:130]:
        c.sample(flow.describe(f, cs, v, info))
    c.add("schemas", len(schemas))
    return f, vs, cnt


def mutants(f, rnd, per, c, kinds, sig, sizes=False):
    """Decode damaged versions of what has just been encoded: truncated, bits flipped, random."""
    g = flow.Flow(f.schemas, f.name + "-mut", batch=f.batch)
    for (i, objs, st, rt, info, after), o in zip(f.encs, f.eres):
        if "crash" in o or o["close"] != "ok" or any(x["r"] != "ok" for x in o["res"]): continue
        t, v = objs[0]
        pars = f.params(i, t, v)
        end = o["res"][0]["e"]
        b = o["b"][:(end + 7) // 8]
        for _ in range(per):
            m = rnd.random()
            x = list(b)
            if m < 0.4 and len(x) > (st + 7) // 8: x = x[:rnd.randint((st + 7) // 8, len(x) - 1)]
            elif m < 0.85 and len(x) > st // 8:
                for _ in range(rnd.choice([1, 1, 2, 4])):
                    p = rnd.randint(st, 8 * len(x) - 1)
                    x[p // 8] ^= 128 >> (p % 8)
            else:
                x = x[:(st + 7) // 8] + [rnd.choice([0, 255, rnd.getrandbits(8), rnd.getrandbits(8)]) for _ in range(rnd.randint(0, 24))]
            g.dec(i, t, x, st=st, pars=pars)
    vs = g.go(c)
    flow.report(c, g, vs, kinds, sig + "-mut")
    return vs


# ---------------------------------------------------------------------------

def c01(c):
    for k in range(rounds(8)):
        r = core.rng("c01", k)
        ss = random_schemas(r, scaled(36, 2), None, depth=3 if k % 2 else 2)
        go(c, "c01-%d" % k, ss, [lambda f: fill(f, r, scaled(34))], {"enc": RT})
    exhaustive(c, "c01-all", {"enc": RT})


def c02(c):
    for k in range(rounds(8)):
        r = core.rng("c02", k)
        ss = random_schemas(r, scaled(30, 2), None) + layout_schemas() + large_schemas(r)
        f, vs, _ = go(c, "c02-%d" % k, ss, [lambda f: fill(f, r, scaled(30))],
                      {"enc": {"bits", "length", "padding", "refused", "panic"}})
        mutants(f, r, 1, c, {"dec": {"value", "length", "refused", "panic"}}, "c02-%d" % k)
    exhaustive(c, "c02-all", {"enc": {"bits", "length", "padding", "refused", "panic"}}, {"plain", "prim", "leaf"})


def exhaustive(c, name, kinds, about=None, decs=None):
    """All values of the small schemas of CodecModel: TLC checks the specification on them, and the real code has to do what it did."""
    ss, vals = model.explore(c, about)
    f = flow.Flow(ss, name)
    flow.schema_violations(c, f.batch, name)
    for i, t, st, v in sorted(vals, key=str):
        if f.ok(i): f.enc(i, [(t, v)], st=st)
    vs = f.go(c)
    flow.report(c, f, vs, kinds, name)
    if decs:        # everything cut short
        g = flow.Flow(f.schemas, name + "-cut", batch=f.batch)
        for (i, objs, st, rt, info, after), o in zip(f.encs, f.eres):
            if "crash" in o or o["close"] != "ok" or o["res"][0]["r"] != "ok": continue
            for n in range((st + 7) // 8, (o["res"][0]["e"] + 7) // 8):
                g.dec(i, objs[0][0], o["b"][:n], st=st, pars=f.params(i, *objs[0]))
        flow.report(c, g, g.go(c), decs, name + "-cut")


def layout_schemas():
    """One struct per wire type, the field between two odd-sized neighbours, alone, in arrays and packed arrays."""
    out = []
    leafs = INTS + [bit(w) for w in (1, 2, 7, 12, 31, 33, 63)] + [intb(w) for w in (1, 2, 5, 17, 33, 64)] + [BOOL, F16, F32, F64, STR, BYTES, EXT]
    per = 7
    for k in range(0, len(leafs), per):
        d = {}
        for j, t in enumerate(leafs[k:k + per]):
            d["T%d" % j] = struct([fld(bit(3), "a"), fld(t, "x"), fld(t, "o", opt=True), fld(bit(1), "z"),
                                   fld(t, "arr", arr=[]), fld(t, "fixed", arr=[N(2)]), fld(t, "pk", arr=[], packed=True)])
        out.append(Schema(d, note="layout-%d" % k))
    return out


def c04(c):
    only = lambda cs, v, info: v["ph"] == "err"
    for k in range(rounds(8)):
        r = core.rng("c04", k)
        ss = layout_schemas() + random_schemas(r, scaled(22, 2), {"struct", "choice", "union", "enum", "mask", "sub", "opt", "cond", "array",
                                               "packed", "fixed", "param", "bitd", "blob"})
        ss += range_schemas(r) + width_schemas()
        go(c, "c04-%d" % k, ss, [lambda f: fill(f, r, scaled(40), bad=0.25, badshare=1.0, multi=False), lambda f: wide(f, r)],
           {"enc": {"accepted", "panic"}}, only=only)


def range_schemas(r):
    out = []
    for k in range(4):
        ws = r.sample(range(1, 64), 7)
        d = {}
        for w in ws:
            d["U%d" % w] = struct([fld(bit(w), "x"), fld(bit(w), "p", arr=[], packed=True), fld(bit(w), "q", arr=[])])
            d["S%d" % w] = struct([fld(intb(w), "x"), fld(intb(w), "p", arr=[], packed=True), fld(intb(w), "q", arr=[])])
        d["D"] = struct([fld(bit(6), "w"), fld(bitd(F("w")), "x"), fld(bitd(B("+", F("w"), N(1)), True), "y"),
                         fld(bitd(B("+", F("w"), N(1))), "p", arr=[], packed=True)])
        out.append(Schema(d, note="ranges-%d" % k))
    return out


WIDTHS = [0, 1, 2, 7, 8, 31, 33, 63, 64, 65, 66, 70, 71, 72, 100, 127, 128, 129, 192, 254, 255, 256, 257, 260, 264, 320, 321, 512, 1000, 40000, 65535]


def width_schemas():
    """Bit fields whose widths are data, and may be too large."""
    n = F("n")
    d = {"A": struct([fld(uint(16), "n"), fld(bitd(n), "u", cond=B("==", B("%", n, N(2)), N(0))), fld(bitd(n, True), "s", cond=B("==", B("%", n, N(2)), N(1)))]),
         "B": struct([fld(uint(16), "n"), fld(bitd(n, True), "s", arr=[])]),
         "C": struct([fld(uint(16), "n"), fld(bitd(n), "u", arr=[], packed=True)]),
         "D": struct([fld(uint(16), "n"), fld(bitd(n, True), "s", opt=True)]),
         "E": struct([fld(uint(16), "n"), fld(bitd(n, True), "s", arr=[], packed=True)]),
         "P": struct([fld(bitd(n), "u"), fld(bitd(n, True), "s", opt=True)], [par("n", uint(16))]),
         "G": struct([fld(uint(16), "n"), fld(ref("P", n), "p")]),
         "H": struct([fld(uint(16), "n"), fld(ref("P", n), "p", arr=[], packed=True)]),
         "I": struct([fld(sint(32), "n"), fld(bitd(n), "u")]),
         "J": struct([fld(uint(16), "n"), fld(bitd(n), "u", arr=[])])}
    return [Schema(d, note="widths")]


def width_values(r, n):
    """(type, value) with bit fields of n bits."""
    l = values.limbs
    m = n if 0 < n <= 64 else 8
    u = lambda: l(r.getrandbits(m))
    s = lambda: l(r.getrandbits(m - 1) - (r.getrandbits(1) << (m - 1))) if n else l(0)
    some = lambda g: [g() for _ in range(r.choice([0, 1, 2, 3]))]
    opt = lambda g: [g()] if r.random() < 0.8 else []
    w = l(n)
    p = lambda: dict(u=u(), s=opt(s), n=w)
    yield "A", dict(n=w, s=s()) if n % 2 else dict(n=w, u=u())
    yield "B", dict(n=w, s=some(s))
    yield "C", dict(n=w, u=some(u))
    yield "D", dict(n=w, s=opt(s))
    yield "E", dict(n=w, s=some(s))
    yield "G", dict(n=w, p=p())
    yield "H", dict(n=w, p=some(p))
    yield "I", dict(n=w, u=u())
    yield "I", dict(n=l(-n), u=l(0))
    yield "J", dict(n=w, u=some(u))


def wide(f, r):
    for i in f.alive:
        if f.schemas[i].note == "widths":
            for n in WIDTHS:
                for t, v in width_values(r, n): f.enc(i, [(t, v)])


def c06(c):
    def need(s):
        return any(f["r"] and f["r"][0]["p"] and s.base(f["t"])["k"] == "ref" for f in fields_of(s))
    for k in range(rounds(8)):
        r = core.rng("c06", k)
        ss = random_schemas(r, scaled(34, 2), {"struct", "choice", "union", "enum", "mask", "sub", "opt", "cond", "align", "array",
                                               "packed", "param", "bitd", "float", "blob", "index", "fixed"}, need) + packed_schemas() + packed_leafs() + large_schemas(r)
        go(c, "c06-%d" % k, ss, [lambda f: fill(f, r, scaled(34), maxlen=5)],
           {"enc": RT | {"bits", "length", "size", "accepted"}})
    exhaustive(c, "c06-all", {"enc": RT | {"bits", "length", "size", "accepted"}}, {"packed", "union", "param"})


def packed_schemas():
    inner = lambda: {
        "In": struct([fld(uint(8), "a"), fld(vars_(4), "b", opt=True), fld(bit(3), "k")]),
        "Ch": choice([par("k", uint(8))], F("k"), [([N(0), N(1)], fld(uint(32), "u")), ([N(2)], fld(ref("In"), "i")), ([N(3)], None),
                                                   ([N(4)], fld(uint(16), "arr", arr=[]))], fld(STR, "s")),
        "Un": union([fld(uint(16), "u"), fld(STR, "s"), fld(ref("In"), "i"), fld(sint(16), "v", arr=[]), fld(BOOL, "t")]),
    }
    a = inner()
    a["El"] = struct([fld(bit(3), "k"), fld(ref("Ch", F("k")), "c"), fld(ref("Un"), "u"), fld(ref("In"), "n", opt=True),
                      fld(sint(64), "w", cond=B("<", F("k"), N(4)))])
    a["Top"] = struct([fld(bit(5), "z"), fld(ref("El"), "e", arr=[], packed=True), fld(ref("El"), "plain", arr=[])])
    b = inner()
    b["Row"] = struct([fld(bit(2), "n"), fld(ref("Un"), "us", arr=[F("n")]), fld(uint(16), "xs", arr=[]), fld(ref("In"), "ins", arr=[], packed=True),
                       fld(uint(64), "y", al=16), fld(F32, "f"), fld(EXT, "x", opt=True), fld(uint(8), "ow", al=8, opt=True)])
    b["Top"] = struct([fld(ref("Row"), "rows", arr=[], packed=True), fld(ref("Un"), "us", arr=[], packed=True),
                       fld(ref("Ch", B("%", IDX, N(6))), "cs", arr=[], packed=True)])
    d = {"Leaf": struct([fld(varu(9), "v"), fld(intb(11), "i")]),
         "Mid": struct([fld(ref("Leaf"), "l"), fld(ref("Leaf"), "m", opt=True)], [par("p", uint(8))]),
         "Out": struct([fld(uint(8), "q"), fld(ref("Mid", F("q")), "m"), fld(ref("Mid", IDX), "n", arr=[])], []),
         "Top": struct([fld(ref("Out"), "o", arr=[], packed=True), fld(ref("Out"), "o2", arr=[], packed=True, opt=True)])}
    # types that contain themselves
    e = {"In": struct([fld(uint(8), "a"), fld(vars_(4), "b", opt=True), fld(ref("Rec"), "r", opt=True)]),
         "Un": union([fld(uint(16), "u"), fld(ref("In"), "i"), fld(ref("Rec"), "l", arr=[N(1)])]),
         "Rec": struct([fld(uint(16), "v"), fld(ref("Rec"), "next", opt=True), fld(sint(16), "w"), fld(bit(1), "k"), fld(ref("Rec"), "kids", arr=[F("k")])]),
         "A": struct([fld(ref("B"), "b", opt=True), fld(uint(8), "x"), fld(ref("Un"), "u")]),
         "B": struct([fld(ref("A"), "a", opt=True, cond=B(">", F("y"), N(3))), fld(uint(32), "y")]),
         "Top": struct([fld(ref("Rec"), "rs", arr=[], packed=True), fld(ref("A"), "as", arr=[], packed=True), fld(ref("Rec"), "plain", arr=[])])}
    e["B"]["f"].reverse()
    return [Schema(a, note="packed-a"), Schema(b, note="packed-b"), Schema(d, note="packed-c"), Schema(e, note="packed-rec")]


def large_schemas(r):
    """Many fields, cases, items and parameters; deep nesting."""
    ts, defs = leafs()
    def many(n):
        fl = []
        for k in range(n):
            t = r.choice(ts)
            fl.append(fld(t, "f%d" % k, opt=k % 5 == 2, cond=B("==", B("%", F("n"), N(3)), N(k % 3)) if k % 5 == 4 else None, arr=[] if k % 17 == 3 else None, packed=k % 2 == 1))
        return fl
    a = dict(defs)
    a["S"] = struct([fld(uint(8), "n")] + many(90))
    a["O"] = struct([fld(bit(3), "o%d" % k, opt=True) for k in range(140)])
    a["C"] = choice([par("k", uint(16))], F("k"), [([N(k)] if k % 7 else [N(k), N(k + 1000)], fld(r.choice(ts), "c%d" % k)) for k in range(70)])
    a["C8"] = struct([fld(uint(16), "k"), fld(ref("C", F("k")), "c")])
    a["Cs"] = struct([fld(ref("C", B("%", IDX, N(72))), "cs", arr=[], packed=True)])
    b = {"E": enum(uint(16), [("I%d" % k, None if k % 10 else k * 7) for k in range(300)]),
         "M": mask(uint(64), [("B%d" % k, None) for k in range(64)]),
         "P": struct([fld(bitd(B("+", B("%", B("+", F("p%d" % (k % 12)), F("p%d" % (k * 5 % 12))), N(60)), N(1))), "v%d" % k) for k in range(15)],
                     [par("p%d" % k, uint(8)) for k in range(12)]),
         "Q": struct([fld(uint(8), "q%d" % k) for k in range(12)] + [fld(ref("P", *[F("q%d" % (11 - k)) for k in range(12)]), "p")]),
         "T": struct([fld(ref("E"), "e", arr=[]), fld(ref("M"), "m", arr=[]), fld(ref("E"), "ep", arr=[], packed=True), fld(ref("M"), "mp", arr=[], packed=True),
                      fld(ref("Q"), "qs", arr=[], packed=True)])}
    d = {}
    for k in range(24):
        inner = [fld(ref("N%d" % (k + 1), *([F("v")] if k % 2 == 0 and k < 23 else [])), "d", opt=k % 6 == 5)] if k < 23 else []
        d["N%d" % k] = struct([fld(r.choice([uint(8), bit(5), sint(16)]) if k % 2 else uint(8), "v")] + inner + [fld(bit(1 + k % 7), "w")],
                              [par("up", uint(8))] if k % 2 else [])
    d["Top"] = struct([fld(ref("N0"), "n"), fld(ref("N0"), "ns", arr=[], packed=True)])
    return [Schema(a, note="large-fields"), Schema(b, tops=["Q", "T"], note="large-items"), Schema(d, tops=["N0", "Top"], note="large-depth")]


def leafs():
    """Every kind of field, with the definitions that it needs."""
    d = {"Es": enum(sint(8), [("NEG", -2), ("ZERO", 0), ("TEN", 10)]), "Eb": enum(bit(3), [("A", None), ("B", None), ("C", 7)]),
         "Ev": enum(varu(4), [("VA", None), ("VB", 20000)]), "E64": enum(uint(64), [("LA", 1), ("LB", 1 << 62)]),
         "Ms": mask(uint(16), [("R", None), ("W", None)]), "Mb": mask(bit(5), [("P", None), ("Q", 16)]), "Mv": mask(varu(9), [("X", None), ("Y", 1 << 40)]),
         "Sv": sub(vars_(8)), "Ss": sub(STR), "Se": sub(ref("Eb")), "Sx": sub(ref("Sv"))}
    return INTS + [bit(w) for w in (1, 3, 8, 31, 33, 63, 64)] + [intb(w) for w in (1, 4, 16, 33, 64)] + [BOOL, F16, F32, F64, STR, BYTES, EXT] + [ref(n) for n in d], d


def single_schemas():
    """Structures of one field."""
    ts, defs = leafs()
    out = []
    for k in range(0, len(ts), 10):
        d = dict(defs)
        for j, t in enumerate(ts[k:k + 10]):
            d["A%d" % j] = struct([fld(t, "x")])
            d["B%d" % j] = struct([fld(bit(3), "a"), fld(t, "x", opt=True)])
            d["C%d" % j] = struct([fld(t, "x", arr=[N(2)])])
        out.append(Schema(d, note="single-%d" % k))
    return out


def packed_leafs():
    """Packed arrays of structures, choices and unions of every kind of field."""
    ts, defs = leafs()
    out = []
    for k in range(0, len(ts), 8):
        d = dict(defs)
        for j, t in enumerate(ts[k:k + 8]):
            d["P%d" % j] = struct([fld(t, "x"), fld(t, "o", opt=True), fld(t, "a", arr=[]), fld(t, "p", arr=[], packed=True)])
            d["C%d" % j] = choice([par("k", uint(8))], B("%", F("k"), N(3)), [([N(0)], fld(t, "x")), ([N(1)], fld(uint(8), "y"))], fld(t, "a", arr=[]))
            d["U%d" % j] = union([fld(t, "x"), fld(bit(3), "y"), fld(t, "a", arr=[N(2)])])
            d["T%d" % j] = struct([fld(bit(1), "z"), fld(ref("P%d" % j), "p", arr=[], packed=True), fld(ref("C%d" % j, IDX), "c", arr=[], packed=True),
                                   fld(ref("U%d" % j), "u", arr=[], packed=True)])
        out.append(Schema(d, tops=["T%d" % j for j in range(len(ts[k:k + 8]))], note="packed-leafs-%d" % k))
    return out


def c08(c):
    for k in range(rounds(8)):
        r = core.rng("c08", k)
        ss = random_schemas(r, scaled(30, 2), None) + layout_schemas() + packed_leafs() + array_schemas() + single_schemas()
        starts = list(range(0, 16)) + [31, 32, 33, 63, 1000]
        go(c, "c08-%d" % k, ss, [lambda f: fill(f, r, scaled(34), starts=starts)], {"enc": {"size"}})
    exhaustive(c, "c08-all", {"enc": {"size"}})


def c09(c):
    def need(s):
        return sum(1 for f in fields_of(s) if f["o"] or f["c"]) >= 2
    for k in range(rounds(8)):
        r = core.rng("c09", k)
        ss = random_schemas(r, scaled(34, 2), None, need, nfields=(3, 8)) + opt_schemas()
        f, vs, _ = go(c, "c09-%d" % k, ss, [lambda f: fill(f, r, scaled(36))],
                      {"enc": RT | {"bits", "length"}})
        mutants(f, r, 1, c, {"dec": {"value", "length", "refused", "panic"}}, "c09-%d" % k)
    exhaustive(c, "c09-all", {"enc": RT | {"bits", "length"}}, {"opt"}, {"dec": {"value", "length", "refused", "panic"}})


def opt_schemas():
    leafs = [uint(8), bit(3), intb(13), BOOL, F32, STR, BYTES, EXT, vars_(8), SIZE]
    en = enum(uint(8), [("A", None), ("B", 5), ("CC", None)])
    ma = mask(uint(8), [("M0", None), ("M1", None), ("M2", None)])
    inn = struct([fld(bit(3), "a"), fld(STR, "s", opt=True)])
    d1 = {"En": en, "Ma": ma, "In": inn}
    fl = [fld(bit(1), "z")]
    for j, t in enumerate(leafs + [ref("En"), ref("Ma"), ref("In")]):
        fl.append(fld(t, "o%d" % j, opt=True))
    d1["Opts"] = struct(fl)
    fl = [fld(bit(4), "n")]
    for j, t in enumerate(leafs[:6] + [ref("En"), ref("In")]):
        fl.append(fld(t, "a%d" % j, opt=True, arr=[] if j % 2 else [F("n")], packed=j % 3 == 0))
    d1["Arrs"] = struct(fl)
    fl = [fld(uint(8), "sel"), fld(BOOL, "flag"), fld(ref("En"), "en"), fld(ref("Ma"), "ma")]
    conds = [B("==", F("sel"), N(1)), B("!=", B("&", F("sel"), N(2)), N(0)), F("flag", y="b"), U("!", F("flag", y="b")),
             B("==", F("en"), N(5, "En.B")), B("!=", F("en"), N(0, "En.A")), ISSET(F("ma"), N(2, "Ma.M1")),
             B("&&", F("flag", y="b"), B("<", F("sel"), N(100))), B("||", F("flag", y="b"), B(">", F("sel"), N(200))),
             B("<", B("%", F("sel"), N(3)), N(2))]
    for j, x in enumerate(conds):
        fl.append(fld((leafs + [ref("In")])[j], "c%d" % j, cond=x))
        fl.append(fld((leafs + [ref("In")])[(j + 3) % 11], "ca%d" % j, cond=x, arr=[], packed=j % 2 == 0))
    d1["Conds"] = struct(fl)
    d1["Later"] = struct([fld(ref("Conds"), "c"), fld(ref("Opts"), "o"), fld(uint(16), "end", cond=B(">", F("c", "sel"), N(7)))],)
    d1["Fn"] = struct([fld(uint(8), "a"), fld(uint(8), "b", cond=CALL("Fn", "big"))], fn={"big": dict(B(">", F("a"), N(99)), bool=True)})
    d1["Aln"] = struct([fld(bit(3), "a"), fld(uint(8), "b", opt=True, al=8), fld(uint(16), "cc", cond=B(">", F("a"), N(3)), al=16), fld(bit(1), "d")])
    d1["Pk"] = struct([fld(ref("Aln"), "p", arr=[], packed=True), fld(ref("In"), "q", arr=[], packed=True), fld(ref("Later"), "l", arr=[], packed=True)])
    return [Schema(d1, note="optional")]


def c10(c):
    for k in range(rounds(8)):
        r = core.rng("c10", k)
        ss = random_schemas(r, scaled(22, 2), None, has_kind("choice"), depth=2) + choice_schemas(r)
        f, vs, _ = go(c, "c10-%d" % k, ss, [lambda f: fill(f, r, scaled(40), tops=None)],
                      {"enc": RT | {"bits", "length", "size"}})
        mutants(f, r, 1, c, {"dec": {"value", "length", "refused", "panic"}}, "c10-%d" % k)
    exhaustive(c, "c10-all", {"enc": RT | {"bits", "length", "size"}}, {"choice"}, {"dec": {"value", "length", "refused", "panic"}})


def choice_schemas(r):
    out = []
    sels = [(uint(8), range(0, 256)), (sint(8), range(-128, 128)), (sint(16), range(-2000, 2000)), (uint(32), range(0, 100000, 77)),
            (bit(5), range(32)), (vars_(4), range(-300, 300)), (uint(64), range(0, 2000)), (intb(9), range(-256, 256)), (SIZE, range(0, 500))]
    leafs = [uint(8), bit(5), sint(32), STR, BOOL, vars_(8), F16, BYTES]
    for k, (t, rng_) in enumerate(sels):
        pool = r.sample(list(rng_), 9)
        for v in (0, 1, 2):
            if v not in pool: pool.append(v)
        cases, n = [], 0
        while pool and len(cases) < 5:
            q = r.choice([1, 1, 2, 3, 4])
            ls, pool = pool[:q], pool[q:]
            cases.append(([N(x) for x in ls], fld(leafs[(n + k) % len(leafs)], "f%d" % n) if n != 2 else None))
            n += 1
        d = {"Ch": choice([par("s", t)], F("s"), cases, fld(uint(16), "dflt") if k % 3 != 1 else None)}
        if k % 3 == 1: d["Ch"]["hasd"] = True      # empty default
        d["Direct"] = struct([fld(t, "sel"), fld(ref("Ch", F("sel")), "c"), fld(bit(3), "end")])
        labels = [x["v"] for c_ in cases for x in c_[0]]
        arr = struct([fld(ref("Ch", N(labels[0])), "a"), fld(ref("Ch", N(labels[-1])), "b"), fld(ref("Ch", IDX), "c", arr=[]),
                      fld(ref("Ch", IDX), "d", arr=[], packed=True)])
        d["Arr"] = arr
        s = Schema(d, note="choice-%s" % t["zs"])
        s.labels = labels
        out.append(s)
    en = enum(sint(8), [("NEG", -2), ("ZERO", 0), ("ONE", None), ("TEN", 10), ("ELEVEN", None)])
    ma = mask(uint(8), [("R", None), ("W", None), ("X", None)])
    d = {"En": en, "Ma": ma,
         "CE": choice([par("e", ref("En"))], F("e"), [([N(-2, "NEG")], fld(uint(8), "n")), ([N(0, "ZERO"), N(10, "En.TEN")], fld(STR, "z")), ([N(1, "ONE")], None)],
                      fld(bit(7), "d")),
         "CM": choice([par("m", ref("Ma"))], F("m"), [([N(1, "R")], fld(uint(8), "r")), ([N(2, "W"), N(4, "X")], fld(uint(16), "w"))], fld(BOOL, "d")),
         "CB": choice([par("b", BOOL, "b")], F("b", y="b"), [([N(True)], fld(uint(8), "t")), ([N(False)], fld(STR, "f"))]),
         "CX": choice([par("p", uint(8)), par("q", uint(8))], B("+", F("p"), F("q")), [([N(3), B("+", N(2), N(2))], fld(uint(8), "a")), ([N(5)], fld(STR, "b"))],
                      fld(uint(32), "d")),
         "Top": struct([fld(ref("En"), "e"), fld(ref("Ma"), "m"), fld(BOOL, "b"), fld(bit(3), "p"), fld(ref("CE", F("e")), "ce"),
                        fld(ref("CM", F("m")), "cm"), fld(ref("CB", F("b", y="b")), "cb"), fld(ref("CX", F("p"), N(1)), "cx"),
                        fld(ref("CX", F("p"), IDX), "cxs", arr=[]), fld(ref("CE", F("e")), "ces", arr=[], packed=True)])}
    out.append(Schema(d, note="choice-enum"))
    # a choice of choices, arrays and optional neighbours in the branches
    d = {"In": choice([par("k", uint(8))], F("k"), [([N(0)], fld(uint(8), "a")), ([N(1)], fld(uint(16), "b", arr=[]))], fld(STR, "s")),
         "St": struct([fld(bit(2), "k"), fld(ref("In", F("k")), "i")]),
         "Un": union([fld(uint(8), "x"), fld(ref("In", N(1)), "y")]),
         "Ch": choice([par("k", uint(8)), par("j", uint(8))], F("k"),
                      [([N(0), N(7)], fld(ref("In", F("j")), "i")), ([N(1)], fld(ref("St"), "st", arr=[])), ([N(2), N(3), N(4)], fld(ref("Un"), "un", arr=[], packed=True)),
                       ([N(5)], fld(uint(8), "fx", arr=[B("+", F("j"), N(1))])), ([N(6)], fld(EXT, "ext"))], fld(BYTES, "d")),
         "Top": struct([fld(bit(4), "k"), fld(bit(2), "j"), fld(ref("Ch", F("k"), F("j")), "c", opt=True), fld(ref("Ch", IDX, F("j")), "cs", arr=[]),
                        fld(ref("Ch", F("k"), IDX), "cp", arr=[], packed=True)])}
    out.append(Schema(d, note="choice-nested"))
    return out


def c11(c):
    for k in range(rounds(8)):
        r = core.rng("c11", k)
        ss = random_schemas(r, scaled(22, 2), None, has_kind("union"), depth=2) + union_schemas()
        f, vs, _ = go(c, "c11-%d" % k, ss, [lambda f: fill(f, r, scaled(30), bad=0.15, badshare=0.3)],
                      {"enc": RT | {"bits", "length", "size", "accepted"}},
                      only=lambda cs, v, i: v["ph"] != "err" or has_union(f_s(ss, cs), cs["src"]))
        mutants(f, r, 1, c, {"dec": {"value", "length", "refused", "panic", "accepted"}}, "c11-%d" % k)
        # every tag, known and unknown
        g = flow.Flow(f.schemas, "c11t-%d" % k, batch=f.batch)
        for i in f.alive:
            for n, d in f.schemas[i].defs.items():
                if d["k"] != "union" or n not in f.schemas[i].tops: continue
                pars = {p["n"]: ([0, 0, 0, 1] if p["y"] == "i" else True) for p in d["p"]}
                for tag in list(range(0, len(d["f"]) + 4)) + [126, 127, 128, 200, 255, 256, 257, 300]:
                    for tail in ([0] * 40, [0x11, 0x82, 0x35] * 12):
                        enc = [tag] if tag < 128 else [0x80 | tag >> 7, tag & 127]
                        g.dec(i, n, enc + tail, pars=pars)
        flow.report(c, g, g.go(c), {"dec": {"value", "length", "refused", "panic", "accepted"}}, "c11t-%d" % k)
    exhaustive(c, "c11-all", {"enc": RT | {"bits", "length", "size", "accepted"}}, {"union"}, {"dec": {"value", "length", "refused", "panic", "accepted"}})


def f_s(ss, cs): return ss[cs["s"] - 1]


def has_union(s, v):
    """does the value hold a union with a tag that names no member?  (other faults are C04's)"""
    return any(d["k"] == "union" for d in s.defs.values()) and bad_tag(s, v)


def bad_tag(s, v):
    def walk(x):
        if isinstance(x, dict):
            if "UnionChoice" in x:
                t = values.unlimbs(x["UnionChoice"])
                if t < 1 or not any(d["k"] == "union" and t <= len(d["f"]) for d in s.defs.values()): return True
            return any(walk(y) for y in x.values())
        if isinstance(x, list): return any(walk(y) for y in x)
        return False
    return walk(v)


def union_schemas():
    d = {"In": struct([fld(bit(3), "a"), fld(uint(8), "b", opt=True)]),
         "U1": union([fld(uint(8), "only")]),
         "U7": union([fld(uint(8), "a"), fld(STR, "b"), fld(ref("In"), "c"), fld(bit(5), "d", arr=[]), fld(F64, "e"), fld(EXT, "f"), fld(BOOL, "g")]),
         "UU": union([fld(ref("U7"), "u"), fld(ref("U1"), "v"), fld(ref("U7"), "us", arr=[]), fld(ref("U7"), "up", arr=[], packed=True)]),
         "UP": union([fld(uint(8), "x", arr=[F("n")]), fld(bitd(F("n")), "y"), fld(ref("In"), "z", arr=[F("n")], packed=True)], [par("n", uint(8))]),
         "Big": union([fld(bit(1 + k % 9), "m%d" % k) for k in range(131)]),
         "Top": struct([fld(bit(1), "z"), fld(ref("U1"), "a"), fld(ref("U7"), "b", opt=True), fld(ref("UU"), "c"), fld(bit(3), "n"),
                        fld(ref("UP", B("+", F("n"), N(1))), "d"), fld(ref("UP", B("+", IDX, N(1))), "e", arr=[]), fld(ref("U7"), "f", arr=[], packed=True),
                        fld(ref("Big"), "big", arr=[]), fld(ref("Big"), "bigp", arr=[], packed=True)])}
    return [Schema(d, note="union")]


def c12(c):
    def need(s):
        return sum(1 for d in s.defs.values() if d.get("p")) >= 2
    for k in range(rounds(8)):
        r = core.rng("c12", k)
        ss = random_schemas(r, scaled(26, 2), None, need, depth=3, nfields=(2, 5)) + param_schemas()
        go(c, "c12-%d" % k, ss, [lambda f: fill(f, r, scaled(36))],
           {"enc": RT | {"bits", "length", "size", "accepted"}})
    exhaustive(c, "c12-all", {"enc": RT | {"bits", "length", "size", "accepted"}}, {"param"})


def param_schemas():
    leaf = lambda: struct([fld(bitd(B("+", F("w"), N(1))), "v"), fld(uint(8), "extra", cond=B(">", F("w"), N(5)))], [par("w", uint(8))])
    d = {"L": leaf(),
         "M": struct([fld(ref("L", F("a")), "x"), fld(ref("L", B("+", F("a"), IDX)), "y", arr=[F("b")]), fld(ref("L", F("b")), "o", opt=True)],
                     [par("a", uint(8)), par("b", uint(8))]),
         "Tr": struct([fld(bit(2), "k"), fld(ref("M", F("k"), F("p")), "m"), fld(ref("M", F("p"), IDX), "ms", arr=[])], [par("p", uint(8))]),
         "SubL": sub(ref("L")),
         "Ch": choice([par("s", uint(8)), par("w", uint(8))], F("s"), [([N(0)], fld(ref("L", F("w")), "a")), ([N(1)], fld(ref("L", B("+", F("w"), IDX)), "b", arr=[]))],
                      fld(ref("M", F("s"), F("w")), "d")),
         "Un": union([fld(ref("L", F("w")), "a"), fld(ref("M", F("w"), N(2)), "b"), fld(ref("L", IDX), "c", arr=[], packed=True)], [par("w", uint(8))]),
         "Top": struct([fld(bit(3), "w"), fld(bit(2), "n"), fld(ref("Tr", F("w")), "t"), fld(ref("Tr", IDX), "ts", arr=[F("n")]),
                        fld(ref("SubL", F("w")), "sl"), fld(ref("SubL", IDX), "sls", arr=[]), fld(ref("Ch", F("n"), F("w")), "c"),
                        fld(ref("Ch", IDX, F("w")), "cs", arr=[]), fld(ref("Un", F("w")), "u"), fld(ref("Un", B("+", IDX, N(1))), "us", arr=[], packed=True),
                        fld(ref("L", B("*", F("w"), F("n"))), "ps", arr=[], packed=True), fld(ref("L", B("+", F("t", "k"), N(1))), "q", cond=B(">", F("w"), N(1))),
                        fld(ref("L", LEN("ts")), "len"), fld(ref("L", AT(["sls"], N(0), ["v"])), "ela", cond=B(">", LEN("sls"), N(9)))])}
    # parameters of compound type, boolean parameters, parameters used by functions
    e = {"Hd": struct([fld(bit(3), "n"), fld(BOOL, "b")]),
         "Body": struct([fld(uint(8), "xs", arr=[F("h", "n")]), fld(STR, "s", cond=F("h", "b", y="b"))], [par("h", ref("Hd"), "x")]),
         "Flag": struct([fld(uint(16), "v", cond=F("act", y="b")), fld(bitd(F("w")), "z")], [par("act", BOOL, "b"), par("w", uint(8))]),
         "Top": struct([fld(ref("Flag", N(True), N(4)), "f1"), fld(BOOL, "b"), fld(bit(3), "k"), fld(ref("Flag", F("b", y="b"), B("+", F("k"), N(1))), "f2"),
                        fld(ref("Flag", B("==", IDX, F("k")), B("+", IDX, N(1))), "fs", arr=[]),
                        fld(ref("Flag", U("!", F("b", y="b")), N(63)), "fp", arr=[], packed=True)])}
    return [Schema(d, tops=["Top", "Tr", "M", "Ch", "Un"], note="params"),
            Schema({k: v for k, v in e.items() if k not in ("Hd", "Body")}, note="params-bool")]


def c15(c):
    def need(s):
        return sum(1 for f in fields_of(s) if f["r"]) >= 2
    for k in range(rounds(8)):
        r = core.rng("c15", k)
        ss = random_schemas(r, scaled(22, 2), {"struct", "choice", "union", "opt", "cond", "array", "packed", "fixed", "param", "blob", "index", "enum"}, need, nfields=(3, 6))
        ss += array_schemas()
        f, vs, _ = go(c, "c15-%d" % k, ss, [lambda f: fill(f, r, scaled(30), bad=0.4, badshare=0.35, biglen=0.03, multi=False)],
                      {"enc": RT | {"accepted", "bits", "length"}}, only=lambda cs, v, i: v["ph"] != "err" or cs["r"] == "panic" or lengths_only(cs))
        mutants(f, r, 1, c, {"dec": {"value", "length", "refused", "panic"}}, "c15-%d" % k)
    # counts around the sizes of the length header
    r = core.rng("c15big")
    ss = [Schema({"T": struct([fld(bit(3), "z"), fld(t, "a", arr=[], packed=p), fld(bit(2), "y")])}, note="count-%s-%d" % (t["zs"], p))
          for t, p in [(BOOL, False), (uint(8), False), (uint(16), True), (STR, False), (bit(1), True)]]
    f = flow.Flow(ss, "c15big")
    flow.schema_violations(c, f.batch, "c15big")
    for i in f.alive:
        t = ss[i].defs["T"]["f"][1]["t"]
        for n in [0, 1, 2, 126, 127, 128, 129, 255, 256] + ([16383, 16384, 16385] if THOROUGH and i < 3 else [16384] if i == 0 else [1025] if i == 2 else []):
            g = values.Gen(ss[i], r)
            leaf = [g.leaf(t) if t["k"] != "str" else [] for _ in range(n)]
            f.enc(i, [("T", {"z": [0, 0, 0, 5], "a": leaf, "y": [0, 0, 0, 2]})], st=r.choice([0, 1, 5]))
    flow.report(c, f, f.go(c), {"enc": RT | {"bits", "length", "size"}}, "c15big")
    exhaustive(c, "c15-all", {"enc": RT | {"bits", "length"}}, {"array"})


def lengths_only(cs):
    return True


def array_schemas():
    inn = struct([fld(bit(3), "a"), fld(STR, "s", opt=True)])
    ts = [uint(8), bit(5), BOOL, STR, ref("In"), F32, EXT, vars_(4), BYTES]
    d = {"In": inn}
    fl = [fld(bit(3), "n"), fld(sint(8), "m")]
    for j, t in enumerate(ts):
        fl += [fld(t, "a%d" % j, arr=[F("n")], packed=j % 2 == 1), fld(t, "b%d" % j, arr=[N(j % 3)], packed=j % 2 == 0)]
    d["Fix"] = struct(fl)
    fl = [fld(bit(3), "n"), fld(uint(8), "xs", arr=[])]
    for j, t in enumerate(ts):
        fl += [fld(t, "a%d" % j, arr=[], packed=j % 2 == 1), fld(t, "b%d" % j, arr=[B("%", LEN("xs"), N(4))], opt=j % 3 == 0)]
    d["Auto"] = struct(fl)
    d["Par"] = struct([fld(uint(16), "x", arr=[B("+", F("p"), F("q"))]), fld(ref("In"), "y", arr=[B("*", F("p"), N(2))], packed=True)],
                      [par("p", uint(8)), par("q", bit(3))])
    d["Top"] = struct([fld(bit(2), "n"), fld(ref("Par", F("n"), N(1)), "p", arr=[F("n")]), fld(ref("Par", IDX, F("n")), "q", arr=[]),
                       fld(ref("Auto"), "a"), fld(ref("Fix"), "f", opt=True)])
    return [Schema(d, note="arrays")]

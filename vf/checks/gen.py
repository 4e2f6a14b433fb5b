"""Checks of how the generator treats schemas: names, templates, completeness, order, invalid input."""
import itertools

from .. import core, flow, values, world
from ..core import THOROUGH, log, Infra
from ..schema import *
from ..values import limbs
from .codec import scaled

ENC = {"enc": {"panic", "refused", "bits", "length", "rt-refused", "rt-value", "rt-length"}}


# ---------------------------------------------------------------------------
# C20: what names denote

PKGS = [dict(u="app.main", q="lib.common", r="ext.common", s="deep.base"), dict(u="a", q="a.b", r="a.b.c", s="b"), dict(u="main.user", q="q", r="r", s="s"),
        dict(u="zz", q="mm", r="aa", s="deep.mm")]
WIDTH = dict(u=3, q=9, r=13, s=17)
CONST = dict(u=2, q=3, r=5, s=7)
ITEMS = dict(u=[("AA", 1), ("BB", 2), ("CC", 3)], q=[("BB", 1), ("AA", 2), ("CC", 4)], r=[("CC", 1), ("BB", 5), ("AA", 3)], s=[("AA", 4), ("CC", 6), ("BB", 7)])


def type_decl(x, flavour):
    """What a type name stands for in package x."""
    v = dict(u=bit(3), q=sint(16), r=uint(64), s=bit(11))[x]
    if flavour == "sub": return sub(dict(u=bit(6), q=sint(16), r=STR, s=bit(11))[x])
    if flavour == "enum": return enum(bit(WIDTH[x]), ITEMS[x])
    d = struct([fld(v, "v"), fld(bit(WIDTH[x]), "w")])
    d["fn"] = dict(fv=B("+", F("w"), N(CONST[x])), fw=B(">", F("v", y="u" if x == "r" else "i"), N(dict(u=3, q=-1, r=1 << 40, s=900)[x])))
    d["fnt"] = dict(fv="int32", fw="bool")
    return d


def flavour(k, x):
    return ["struct", "sub", "enum"][(k + "uqrs".index(x)) % 3] if k % 2 else "struct"


def name_world(i, r, qs, rs):
    """Equal names in several packages, under all combinations of where they are declared and how they are imported.
    qs, rs: how u imports q and r: "*", "one" (symbol by symbol) or "" (not at all)."""
    P = PKGS[i % len(PKGS)]
    decl = {x: {} for x in "uqrs"}
    imports = {"u": [], "q": [(P["s"], "*")], "r": [], "s": []}
    if r.random() < 0.5: imports["r"].append((P["s"], "*"))
    if r.random() < 0.5: imports["s"].append((P["r"], "*"))         # imports may go around in circles
    if r.random() < 0.3: imports["r"].append((P["u"], "*"))
    if qs == "*": imports["u"].append((P["q"], "*"))
    if rs == "*": imports["u"].append((P["r"], "*"))
    flags = itertools.product(*[[False, True] if y == "one" else [y == "*"] for y in (qs, rs)])
    names, k = [], 0
    for iq, ir in flags:
        for place in itertools.product([False, True], repeat=4):
            place = {x for x, b in zip("uqrs", place) if b}
            if not place: continue
            vis = {x for x in "qr" if x in place and dict(q=iq, r=ir)[x]}
            names.append((k, place, iq, ir, vis))
            for x in sorted(place):
                decl[x]["T%d" % k] = type_decl(x, flavour(k, x))
                # half of them are given by a constant that every package has
                decl[x]["k%d" % k] = world.const(uint(16), B("+", ID("bs"), N(k % 3)) if k % 4 < 2 else N(CONST[x] + k % 3))
                decl[x]["E%d" % k] = (enum if k % 3 else mask)(bit(WIDTH[x]), ITEMS[x] if k % 3 else [(a, 1 << v - 1) for a, v in ITEMS[x]])
            for y, f, x in ((qs, iq, "q"), (rs, ir, "r")):
                if y == "one" and f and x in place:
                    for l in "TkE": imports["u"].append((P[x], "%s%d" % (l, k)))
            k += 1
    r.shuffle(imports["u"])

    def found(x, place, vis):
        """Packages in which an unqualified name is found from package x."""
        if x in place: return {x}
        if x == "u": return vis
        return {y for y in "uqrs" if (P[y], "*") in imports[x]} & place

    def uses(x, sel, tag):
        d, fs, n = {}, [fld(uint(8), "num")], 0
        for k, place, iq, ir, vis in sel:
            w = found(x, place, vis)
            refs = [("", w)] if len(w) == 1 else []
            if x == "u": refs += [(P[y], {y}) for y in sorted(vis | ({"u"} & place))]
            elif x in place: refs.append((P[x], {x}))
            for q, w in refs:
                y = next(iter(w))
                if y != x and (x, y) not in (("u", "q"), ("u", "r"), ("q", "s"), ("r", "s")):
                    # Go packages cannot depend on each other: only the values of constants may
                    fs.append(fld(bit(2), "kl%d" % n, arr=[ID("k%d" % k, q)]))
                    fs.append(fld(bit(4), "kc%d" % n, cond=B("<=", F("num"), ID("k%d" % k, q))))
                    n += 1
                    continue
                fs.append(fld(NM("T%d" % k, q=q), "t%d" % n, arr=[N(1)] if n % 5 == 0 else None))
                if flavour(k, y) == "struct" and n % 5:
                    c = r.choice([0, 1, 2])
                    if c == 0: x_ = B(">", F("t%d" % n, "v", y="u" if y == "r" else "i"), N(2))
                    elif c == 1: x_ = B("==", dict(o="call", t=NM("T%d" % k, q=q), f="fv", p=["t%d" % n]), B("+", F("num"), N(2)))
                    else: x_ = dict(o="call", t=NM("T%d" % k, q=q), f="fw", p=["t%d" % n])
                    fs.append(fld(bit(3), "tc%d" % n, cond=x_))
                via = ID("k%d" % k, q)
                if n % 2:
                    # through a constant of this package
                    d["via%s%d" % (tag, n)] = world.const(uint(32), via if n % 4 == 1 else B("+", via, N(1)))
                    via = ID("via%s%d" % (tag, n))
                fs.append(fld(bit(2), "kl%d" % n, arr=[via]))
                fs.append(fld(bit(4), "kc%d" % n, cond=B("<=", F("num"), via)))
                fs.append(fld(NM("E%d" % k, q=q), "e%d" % n))
                it = r.choice(["AA", "BB", "CC"])
                if k % 3: fs.append(fld(bit(5), "ec%d" % n, cond=B(r.choice(["==", "!="]), F("e%d" % n), IT("E%d" % k, it, q))))
                else: fs.append(fld(bit(5), "ec%d" % n, cond=ISSET(F("e%d" % n), IT("E%d" % k, it, q))))
                if r.random() < 0.5:
                    lab = lambda z: [ID(z)] if r.random() < 0.7 else [IT("E%d" % k, z, q)]
                    d["C%s%d" % (tag, n)] = choice([par("sel", NM("E%d" % k, q=q))], F("sel"), [(lab("AA"), fld(bit(6), "x")), (lab("BB"), fld(bit(7), "y")), (lab("CC"), fld(bit(8), "z"))], fld(bit(1), "o"))
                    fs.append(fld(NM("C%s%d" % (tag, n), F("e%d" % n)), "ch%d" % n))
                n += 1
        if n: d["Use%s" % tag] = struct(fs)
        return d

    pk = {}
    for x in "uqrs":
        d = dict(decl[x])
        sel = list(names)
        r.shuffle(sel)
        sel = sel[:12] if x == "u" else sel[:5]
        for g in range(0, len(sel), 4): d.update(uses(x, sel[g:g + 4], "%s%d" % (x, g)))
        d.update(locals_(x, r, names, lambda place, vis: found(x, place, vis)))
        # items that are called like constants are only found with their enum
        ks = r.sample([k for k, *_ in names], min(8, len(names)))
        d["bs"] = world.const(uint(8), N(CONST[x]))
        d["Hid" + x] = enum(bit(6), [("k%d" % k, 40 + n) for n, k in enumerate(sorted(ks))])
        d["UseHid" + x] = struct([fld(NM("Hid" + x), "h"), fld(bit(4), "y", cond=B("==", F("h"), IT("Hid" + x, "k%d" % ks[0])))])
        items = list(d.items())
        r.shuffle(items)
        pk[P[x]] = world.pkg(items, imports[x])
    order = list(pk)
    r.shuffle(order)
    tops = [(p, n) for p, x in pk.items() for n, d in x["d"].items() if n[:3] in ("Use", "Loc")]
    return world.World(pk, tops=tops, note="q%s-r%s-%d" % (qs, rs, i), order=order, observe=False)


def locals_(x, r, names, found):
    """Compounds whose fields and parameters are called like constants, items and the fields of others."""
    d = {}
    usable = [k for k, place, iq, ir, vis in names if len(found(place, vis)) == 1]
    anyk = [k for k, place, *_ in names]
    if len(usable) < 4: return d
    for n in range(3):
        a, b, c = r.sample(usable, 3)
        h = r.choice(anyk)
        ka, kb, kc, kh = "k%d" % a, "k%d" % b, "k%d" % c, "k%d" % h
        if len({ka, kb, kc, kh}) < 4: continue
        # ka: a field here, a constant elsewhere; kb: a constant
        d["Loc%s%d" % (x, n)] = struct([fld(uint(8), ka), fld(bit(3), "x", arr=[ID(kb)]), fld(bit(4), "y", cond=B("==", ID(ka), ID(kb))), fld(uint(8), "AA"),
                                        fld(bit(5), "z", cond=B("<", ID("AA"), ID(ka))), fld(BOOL, kh), fld(bit(7), "w", cond=B("||", ID(kh), B(">", ID(ka), N(200)))),
                                        fld(NM("Par%s%d" % (x, n), ID(ka), ID(kb)), "p"), fld(NM("Ch%s%d" % (x, n), B("%", ID(ka), N(8))), "q")])
        d["Par%s%d" % (x, n)] = struct([fld(bit(6), kc), fld(bit(3), "x", cond=B("==", ID(kb), ID("y"))), fld(bit(2), "z", cond=B(">", ID(kc), ID(kb)))], [par(kb, uint(8)), par("y", uint(8))])
        d["Ch%s%d" % (x, n)] = choice([par("k%d" % b, uint(8))], F("k%d" % b), [([N(0), N(1)], fld(bit(3), "x")), ([ID(kc)], fld(bit(9), "z"))], fld(bit(5), "y"))
    return d


def c20(c):
    r = core.rng("C20")
    ws = [name_world(i, r, qs, rs) for i, (qs, rs) in enumerate([("*", "*"), ("*", "one"), ("one", "*"), ("one", "one"), ("*", ""), ("", "one"), ("one", "*"), ("one", "one")] * scaled(1))]
    b = world.WorldBatch(ws, "c20")
    b.violations(c, "c20")
    f = flow.Flow(b.schemas, "c20", batch=b)
    for i in b.alive:
        g = values.Gen(b.schemas[i], r, wild=0.2)
        for t in b.schemas[i].tops:
            for _ in range(scaled(5)): f.enc(i, [(t, g.top(t))])
    flow.report(c, f, f.go(c), ENC, "c20")


# ---------------------------------------------------------------------------
# C19: templates and subtypes

def lf(x, a, w=None):
    """A struct that no other one looks like on the wire."""
    d = struct([fld(bit(w or 3), "v"), fld(a, "w")])
    d["fn"] = dict(fw=B("+", F("v"), N(x)))
    return d


# the templates: name -> (kinds of the arguments, parameters, declaration)
# kinds: i integer, a anything that can stand alone, c compound, e enum, m bitmask, q compound with a parameter
def templates(t, r):
    V, W = NM("V"), NM("W")
    d = {}

    def tpl(n, tp, x): d[n] = dict(x, tp=tp)
    lim = ID("lim") if r.random() < 0.6 else ID("lim", t)
    tpl("Box", ["V"], struct([fld(V, "one"), fld(V, "opt", opt=True), fld(bit(2), "n"), fld(V, "arr", arr=[ID("n")])]))
    tpl("PBox", ["V"], struct([fld(V, "one"), fld(V, "pk", arr=[], packed=True), fld(bit(2), "n"), fld(V, "arr", arr=[ID("n")], packed=True)]))
    num = struct([fld(V, "a"), fld(V, "b"), fld(bit(4), "c", cond=B("<", ID("a"), ID("b"))), fld(bit(3), "d", cond=B(">", ID("b"), lim)), fld(V, "l", arr=[])])
    num["fn"], num["fnt"] = dict(big=B(">", ID("a"), lim), get=ID("b")), dict(big="bool", get=V)
    tpl("Num", ["V"], num)
    tpl("Pair", ["A", "B"], struct([fld(NM("A"), "a"), fld(NM("B"), "b"), fld(NM("Box", ta=[NM("A")]), "x", opt=True), fld(NM("Box", ta=[NM("B")]), "y")]))
    tpl("Cho", ["V", "W"], choice([par("sel", uint(8))], F("sel"), [([N(0)], fld(V, "v")), ([lim, N(1)], fld(W, "w"))], fld(NM("Box", ta=[V]), "b")))
    tpl("ChV", ["V", "W"], choice([par("sel", V)], F("sel"), [([N(0)], fld(V, "v")), ([lim, N(1)], fld(W, "w"))], fld(bit(2), "b")))
    tpl("Uni", ["V", "W"], union([fld(V, "v"), fld(W, "w"), fld(NM("Box", ta=[W]), "x"), fld(uint(8), "u")]))
    tpl("Par", ["V"], struct([fld(bit(3), "x", cond=B(">", ID("p"), N(2))), fld(bit(3), "z", cond=B("<=", ID("p"), lim)), fld(V, "y")], [par("p", V)]))
    tpl("UPar", ["V", "W"], struct([fld(V, "s"), fld(NM("Par", ID("s"), ta=[V]), "p"), fld(NM("ChV", ID("s"), ta=[V, W]), "c")]))
    tpl("Rec", ["V"], struct([fld(V, "v"), fld(NM("Rec", ta=[V]), "next", opt=True)]))
    tpl("En", ["E"], struct([fld(NM("E"), "e"), fld(bit(3), "x", cond=B("==", ID("e"), IT("E", "AA"))), fld(NM("ChE", ID("e"), ta=[NM("E")]), "c"), fld(NM("E"), "l", arr=[])]))
    tpl("ChE", ["E"], choice([par("sel", NM("E"))], F("sel"), [([ID("AA")], fld(bit(3), "a")), ([IT("E", "BB")], fld(bit(5), "b"))], fld(uint(8), "o")))
    tpl("Ms", ["M"], struct([fld(NM("M"), "m"), fld(bit(3), "x", cond=ISSET(ID("m"), IT("M", "AA"))), fld(NM("M"), "l", arr=[])]))
    tpl("Deep", ["V"], struct([fld(NM("Pair", ta=[V, NM("Box", ta=[V])]), "p"), fld(NM("Uni", ta=[NM("Rec", ta=[V]), V]), "u")]))
    tpl("WithP", ["V"], struct([fld(bit(2), "n"), fld(NM("V", ID("n")), "v"), fld(NM("V", B("+", ID("n"), ID("lim"))), "l", arr=[N(2)])]))
    tpl("Fix", ["V", "W"], struct([fld(NM("A"), "a"), fld(V, "v"), fld(NM("Box", ta=[NM("A")]), "ba"), fld(NM("Box", ta=[V]), "bv"), fld(W, "w")]))
    return d


KINDS = dict(Box="a", PBox="n", Num="i", Pair="aa", Cho="aa", ChV="", Uni="aa", Par="", UPar="ia", Rec="a", En="e", ChE="", Ms="m", Deep="a", WithP="q", Fix="aa")


def tpl_world(i, r):
    t, m, x, y = [("tpl", "main.pack", "other.pack", "far"), ("lib.tt", "aa", "bb.aa", "user"), ("zz.tpl", "mm", "xx", "aa.user"), ("tt", "qq.tt", "qq.rr.tt", "qq.tt.ss")][i % 4]
    ints = [uint(8), uint(16), bit(3), bit(5), intb(7), sint(16), varu(2), varu(9), vars_(4), uint(64), SIZE, bit(64)]
    leaves = [STR, BOOL, F16, F64, EXT, BYTES]
    dt = templates(t, r)
    dt["A"] = lf(1, uint(8), 6)
    dt["lim"] = world.const(uint(8), N(5))
    dm, dx, dy = {}, {}, {}
    dm["A"], dx["A"], dy["A"] = lf(2, bit(9)), lf(3, sint(16), 4), lf(4, STR, 5)
    dm["B"], dx["B"] = lf(5, uint(32), 2), struct([fld(NM("A"), "a"), fld(varu(2), "b")])
    for d, n, o in ((dm, "AA", "BB"), (dx, "BB", "AA")):
        d["E"] = enum(bit(4) if d is dm else sint(8), [(n, 1), (o, 3), ("CC", 5)])
        d["M"] = mask(bit(5) if d is dm else uint(16), [(n, 1), (o, 4), ("CC", 8)])
    dm["F"] = enum(uint(8), [("CC", 0), ("AA", 7), ("BB", 200)])
    dm["Q"] = struct([fld(bit(3), "k", cond=B(">", F("u"), N(1))), fld(uint(8), "o")], [par("u", uint(8))])
    dx["Q"] = choice([par("u", uint(16))], F("u"), [([N(0)], fld(bit(3), "k")), ([N(1), N(6)], fld(uint(16), "o"))], fld(STR, "s"))
    for d, l in ((dm, 3), (dx, 1)): d["lim"] = world.const(uint(8), N(l))
    # the user packages may have templates of the same names
    if r.random() < 0.5: dm["Box"] = dict(struct([fld(bit(2), "own"), fld(NM("V"), "one")]), tp=["V"])
    if r.random() < 0.5: dx["Pair"] = dict(struct([fld(NM("B"), "b"), fld(NM("A"), "a"), fld(bit(2), "z")]), tp=["A", "B"])
    # subtypes, some of subtypes
    dm.update(SA=sub(NM("A")), SB=sub(NM("B", q=x)), SSA=sub(NM("SA")), I3=sub(bit(3)), II3=sub(NM("I3")), U=sub(uint(8)), SE=sub(NM("E", q=x)), SSE=sub(NM("SE")), SM=sub(NM("M")),
              SQ=sub(NM("Q", q=x)), Str=sub(STR))
    dx.update(SA=sub(NM("A")), I3=sub(bit(5)), SE=sub(NM("E")), SQ=sub(NM("Q")), Y=sub(NM("SA")))
    # types called like instances, however those may be called
    for n in r.sample(["Box_A", "Box_uint8", "BoxA", "Pair_A_B", "Box_Box_A", "Rec_A", "Num_uint8", "Box_bit3", "Box_bit_3", "En_E", "Deep_A", "Uni_A_B", "Box_1", "Cho_A_B"], 5):
        dm[n] = lf(9, bit(r.randint(3, 40)), r.randint(2, 9))
    home = {t: dt, m: dm, x: dx, y: dy}
    deps = {m: (m, x), x: (x,), y: (y, m, x)}

    def qn(n, p, u, ta=(), *a):
        """Name n of package p, as package u may write it."""
        if p == u: return NM(n, *a, q=r.choice(["", "", p]), ta=ta)
        vis = [z for z in (t, m, x) if n in home[z] and z in imports[u]]
        return NM(n, *a, q="" if n not in home[u] and vis == [p] and r.random() < 0.6 else p, ta=ta)

    imports = {t: [], x: [t], m: [t, x], y: [t, m, x]}

    def arg(u, k, depth):
        """A type argument of kind k: (type, involves a subtype)"""
        pool = deps[u]
        if k == "q":
            p = r.choice([z for z in pool if "Q" in home[z]])
            if r.random() < 0.3: return qn("SQ", r.choice([z for z in pool if "SQ" in home[z]]), u), True
            return qn("Q", p, u), False
        if k in "em":
            c = [(n, z) for z in pool for n in (("E", "F", "SE", "SSE") if k == "e" else ("M", "SM")) if n in home[z]]
            n, p = r.choice(c)
            return qn(n, p, u), n[0] == "S"
        if k == "i":
            if r.random() < 0.25:
                c = [(n, z) for z in pool for n in ("I3", "II3", "U") if n in home[z]]
                if c: return qn(*r.choice(c), u), True
            return r.choice(ints), False
        z = r.random()
        if z < 0.25 or (k == "n" and z < 0.5): return arg(u, "i", depth)
        if z < 0.35 and k == "a": return r.choice(leaves), False
        if z < 0.6 or depth > 1:
            n, p = r.choice([(n, z) for z in pool for n in ("A", "B", "E", "M") if n in home[z]])
            return qn(n, p, u), False
        if z < 0.75:
            n, p = r.choice([(n, z) for z in pool for n in ("SA", "SB", "SSA", "Y") if n in home[z]] or [("A", u)])
            return qn(n, p, u), n[0] == "S" or n == "Y"
        return inst(u, depth + 1, ["Box", "Num", "Pair", "Uni", "Rec", "Fix"])

    def inst(u, depth=0, names=None):
        n = r.choice(names or [k for k, v in KINDS.items() if v])
        p = t
        if n in home[u] and r.random() < 0.6: p = u
        k = KINDS[n]
        l = [arg(u, z, depth) for z in k]
        a = []
        if n in ("Cho",): a = ["sel"]
        return NM(n, *[dict(o="n", v=0)] * 0, q=qn(n, p, u)["q"], ta=[z for z, _ in l]) | (dict(need=1) if a else {}), any(s for _, s in l)

    tops, same = [], []
    for u, cnt in ((m, 5), (x, 3), (y, 5)):
        d = home[u]
        pool = [inst(u) for _ in range(9)]
        # subtypes of instances, instances with a name
        for k in range(3):
            v, s = inst(u, 0, ["Box", "Pair", "Rec", "Num", "En", "Deep", "Uni"])
            d["I%s%d" % (u[0], k)] = world.inst(v)
            tops.append((u, "I%s%d" % (u[0], k)))
            pool.append((v, s))
            pool.append((NM("I%s%d" % (u[0], k)), True))
            d["T%s%d" % (u[0], k)] = sub(r.choice([v, NM("I%s%d" % (u[0], k))]))
            pool.append((NM("T%s%d" % (u[0], k)), True))
            pool.append((NM("Box", q=t, ta=[NM("T%s%d" % (u[0], k))]), True))
        for k in range(cnt):
            fs, plain = [fld(uint(8), "num")], []
            for q in range(6):
                v, s = r.choice(pool) if r.random() < 0.75 else inst(u)
                f = "f%d" % q
                v = dict(v)
                if v.pop("need", 0): v["a"] = [ID("num") if r.random() < 0.6 else N(r.choice([0, 1, 3, 5, 8]))]
                elif not s: plain.append(f)
                w = r.random()
                fs.append(fld(v, f, opt=w < 0.15, arr=[N(2)] if w > 0.85 and v["n"] != "Deep" else None))
                if w > 0.85 and f in plain: plain.remove(f)
            d["Use%d" % k] = struct(fs)
            tops.append((u, "Use%d" % k))
            prs = list(itertools.combinations([f for f in plain if not next(z for z in fs if z["n"] == f)["o"]], 2))
            if prs: same.append((i, u, "Use%d" % k, prs))
        for k in range(2):
            if not {"A", "B"} <= set(d): continue
            # subtypes everywhere: parameters, selectors, lengths, element types
            d["Sub%d" % k] = struct([fld(NM("SA"), "a"), fld(NM("SA"), "o", opt=True), fld(NM("SA"), "l", arr=[N(2)]), fld(NM("SA"), "pl", arr=[], packed=True), fld(NM("I3"), "n"),
                                     fld(NM("I3"), "li", arr=[ID("n")], packed=True), fld(NM("SE"), "e"), fld(NM("SPar", ID("n"), ID("e")), "p"), fld(NM("SQ", ID("n")), "q"),
                                     fld(bit(3), "c", cond=B("==", ID("e"), IT("SE", "AA"))), fld(bit(3), "k", cond=B(">", F("a", "v"), ID("lim", u)))])
            d["SPar"] = struct([fld(bit(4), "c", cond=B("==", ID("e"), IT("SE", "BB"))), fld(NM("SCho", ID("e")), "h"), fld(NM("I3"), "r")], [par("p", NM("I3")), par("e", NM("SE"))])
            d["SCho"] = choice([par("e", NM("SE"))], F("e"), [([ID("AA")], fld(NM("SA"), "v")), ([ID("BB")], fld(NM("I3"), "w"))], fld(bit(1), "o"))
            if (u, "Sub%d" % k) not in tops: tops.append((u, "Sub%d" % k))
    # long chains of subtypes through two packages
    ends = []
    for k, base in enumerate([uint(8), bit(7), vars_(8), STR, NM("A", q=x), NM("E", q=x), NM("M", q=x), NM("Box", q=t, ta=[NM("A", q=x)])]):
        n = r.choice([8, 25, 60, 95]) if k else 97
        cut = r.randint(1, n - 1)
        for j in range(n):
            d = dx if j < cut else dm
            d["Zc%dx%d" % (k, j)] = sub(base if j == 0 else NM("Zc%dx%d" % (k, j - 1), q="" if (j < cut) == (j - 1 < cut) else x))
        ends.append(NM("Zc%dx%d" % (k, n - 1)))
    dm["Chain"] = struct([fld(e, "c%d" % k) for k, e in enumerate(ends)] + [fld(e, "o%d" % k, opt=True) for k, e in enumerate(ends)]
                         + [fld(e, "l%d" % k, arr=[], packed=k % 2 == 0) for k, e in enumerate(ends)]
                         + [fld(bit(3), "w", cond=B("==", ID("c5"), IT(ends[5]["n"], "BB"))), fld(ends[0], "len", arr=[ID("c1")])])
    tops.append((m, "Chain"))
    pk = {}
    for p in (t, m, x, y):
        items = list(home[p].items())
        r.shuffle(items)
        imp = [(z, "*") for z in imports[p]]
        pk[p] = world.pkg(items, imp)
    order = list(pk)
    r.shuffle(order)
    return world.World(pk, tops=tops, note="templates-%d" % i, order=order), same


def c19(c):
    r = core.rng("C19")
    ws, same = [], []
    for i in range(scaled(8)):
        w, s = tpl_world(i, r)
        ws.append(w)
        same += s
    b = world.WorldBatch(ws, "c19")
    b.violations(c, "c19")
    b.judge(c, "c19", same=same, what=())
    f = flow.Flow(b.schemas, "c19", batch=b)
    for i in b.alive:
        g = values.Gen(b.schemas[i], r, wild=0.2, maxlen=2)
        for t in b.schemas[i].tops:
            for _ in range(scaled(5)):
                try: v = g.top(t)
                except values.Skip: continue
                f.enc(i, [(t, v)])
    flow.report(c, f, f.go(c), ENC, "c19")

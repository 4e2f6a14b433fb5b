"""Checks of what the generator emits: complete, compilable, and always the same."""
import os, re

from .. import core, flow, gen, harness, outputs, values, world
from ..core import THOROUGH, log, Infra
from ..schema import *
from .codec import scaled, rounds
from .gen import name_world, tpl_world


# ---------------------------------------------------------------------------
# Worlds

WORDS = ["Foo", "Bar", "Qux", "Test", "Linux", "Windows", "Amd64", "Js", "Wasm", "Pkg", "Type", "Go", "Main", "Unix", "Arm64", "Http", "Id"]


def spellings(r, words, n):
    """Type names that differ only in case and underscores."""
    res, seen = [], set()
    for _ in range(400):
        s = ""
        for k, w in enumerate(words):
            w = r.choice([w, w.upper(), w.lower(), w])
            if k and (s[-1].isdigit() or r.random() < 0.5): s += "_"
            s += w
        s = s[0].upper() + s[1:]
        if s not in seen:
            seen.add(s)
            res.append(s)
        if len(res) == n: break
    return res


def small(r, n):
    """A small declaration of some kind."""
    k = r.randrange(5)
    if k == 0: return enum(uint(8), [("I%d" % j, None) for j in range(r.randint(1, 3))])
    if k == 1: return mask(uint(8), [("I%d" % j, None) for j in range(r.randint(1, 3))])
    if k == 2: return union([fld(bit(r.randint(1, 40)), "a"), fld(STR, "b")])
    if k == 3: return choice([par("q", uint(8))], F("q"), [([N(1)], fld(bit(r.randint(1, 40)), "a"))], fld(BOOL, "b"))
    return struct([fld(bit(r.randint(1, 60)), "a")])


def clash_world(i, r):
    """Type names whose file names clash, are special to Go, or are long."""
    pk = {}
    used = set()
    for p in r.sample(["a", "a.b", "c_d", "C.Dd", "x.y.z", "main"], 3):
        d = {}
        for _ in range(3):
            ws = [r.choice(WORDS) for _ in range(r.randint(1, 3))]
            for n in spellings(r, ws, r.choice([1, 2, 3, 14])): d[n] = None
        for n in r.sample(["Foo_test", "FooTest", "Test", "Foo_linux", "Linux", "Foo_amd64", "LinuxAmd64", "Foo_windows_arm64", "Pkg", "Pkg_1", "PKG", "Foo_1", "Foo1", "Foo_2", "Foo_10", "Doc", "Foo_bar_1", "Foo_go", "T", "Tt"], 7):
            d[n] = None
        long = "Long" + "Name" * r.choice([3, 15, 30]) if i % 4 else "L" + "ong" * 60
        for s in r.sample(["A", "B", "_a", "_B", "Test", "1", "Aa", "AA", "A_a"], 4): d[long + s] = None
        items = list(d)
        r.shuffle(items)
        out, go = {}, set()
        for n in items:
            # Go must be able to tell the names apart
            if harness.go_name(n) in go or any(x != n and x.startswith(n) and x[len(n):len(n) + 1] in "IVS" for x in items): continue
            go.add(harness.go_name(n))
            x = small(r, n)
            out[n] = x
        l = [n for n in out if out[n]["k"] in ("struct", "enum")]
        if l:
            out["All"] = struct([fld(NM(n), "f%d" % k) for k, n in enumerate(l[:6])])
            out["Box"] = dict(struct([fld(NM("X"), "x")]), tp=["X"])
            out["Use"] = struct([fld(NM("Box", ta=[NM(n)]), "b%d" % k) for k, n in enumerate(l[:8])])
        pk[p] = world.pkg(out)
    return world.World(pk, tops=[], note="clash-%d" % i, observe=False)


def snippets():
    """Declarations that each need different things of the emitted code; q is another package."""
    S = {}
    S["empty"] = lambda q, n: {}
    S["const"] = lambda q, n: {"C": world.const(uint(8), N(3))}
    S["fconst"] = lambda q, n: {"Cf": world.const(F64, dict(o="dec", m=15, j=1, s=False, zs="1.5")), "Cs": world.const(STR, STRV("x"))}
    S["cref"] = lambda q, n: {"Cr": world.const(uint(8), ID("bas", q))}
    S["sub"] = lambda q, n: {"Su": sub(uint(8)), "Sq": sub(NM("Pt", q=q))}
    S["esub"] = lambda q, n: {"Es": sub(NM("En", q=q))}
    S["enum"] = lambda q, n: {"Ea": enum(uint(8), [("X", None), ("Y", 7)])}
    S["enumv"] = lambda q, n: {"Ev": enum(vars_(2), [("X", None), ("Y", ID("bas", q))])}
    S["mask"] = lambda q, n: {"Ma": mask(uint(16), [("R", None), ("W", None)])}
    S["mask1"] = lambda q, n: {"Mb": mask(bit(1), [("R", None)])}
    S["nothing"] = lambda q, n: {"No": struct([])}
    S["nofield"] = lambda q, n: {"Np": struct([], [par("x", uint(8))])}
    S["fn"] = lambda q, n: {"Fn": dict(struct([fld(uint(8), "a")]), fn=dict(f=B("+", F("a"), ID("bas", q)), g=B("==", F("a"), N(1))), fnt=dict(f="uint8", g="bool"))}
    S["fnonly"] = lambda q, n: {"Fo": dict(struct([]), fn=dict(f=N(4)), fnt=dict(f="uint8"))}
    S["far"] = lambda q, n: {"Fa": struct([fld(NM("Pt", q=q), "p"), fld(NM("Pt", q=q), "l", arr=[])])}
    S["packed"] = lambda q, n: {"Pa": struct([fld(NM("Pt", q=q), "p", arr=[], packed=True), fld(NM("En", q=q), "e", arr=[N(2)], packed=True)])}
    S["parr"] = lambda q, n: {"Pi": struct([fld(uint(32), "p", arr=[], packed=True)])}
    S["arr"] = lambda q, n: {"Ar": struct([fld(STR, "s", arr=[]), fld(BOOL, "b", arr=[N(3)]), fld(EXT, "e", arr=[]), fld(BYTES, "y", arr=[])])}
    S["dyn"] = lambda q, n: {"Dy": struct([fld(bit(4), "n"), fld(bitd(F("n")), "v"), fld(bitd(F("n")), "l", arr=[])])}
    S["par"] = lambda q, n: {"Pr": struct([fld(uint(8), "n"), fld(NM("Pm", F("n"), q=q), "x"), fld(NM("Pm", F("n"), q=q), "l", arr=[N(2)])])}
    S["opt"] = lambda q, n: {"Op": struct([fld(uint(8), "a", opt=True), fld(NM("Pt", q=q), "b", opt=True), fld(STR, "c", opt=True, arr=[])])}
    S["cond"] = lambda q, n: {"Co": struct([fld(NM("En", q=q), "a"), fld(uint(8), "b", cond=B("==", F("a"), IT("En", "ONE", q)))])}
    S["condm"] = lambda q, n: {"Cm": struct([fld(NM("Mk", q=q), "a"), fld(uint(8), "b", cond=ISSET(F("a"), IT("Mk", "RD", q)))])}
    S["condc"] = lambda q, n: {"Cc": struct([fld(uint(8), "a"), fld(uint(8), "b", cond=B(">", F("a"), ID("bas", q)))])}
    S["align"] = lambda q, n: {"Al": struct([fld(bit(3), "a"), fld(uint(8), "b", al=8)])}
    S["init"] = lambda q, n: {"In": struct([fld(uint(8), "a", zinit="7"), fld(STR, "s", zinit='"hi"'), fld(F32, "f", zinit="1.5f"), fld(uint(8), "b", zinit=q + ".bas")])}
    S["initE"] = lambda q, n: {"Ie": struct([fld(NM("En", q=q), "a", zinit=q + ".En.ONE")])}
    S["union"] = lambda q, n: {"Un": union([fld(NM("Pt", q=q), "a"), fld(uint(8), "b", arr=[]), fld(STR, "c")])}
    S["union1"] = lambda q, n: {"Uo": union([fld(uint(8), "b")])}
    S["choice"] = lambda q, n: {"Ch": choice([par("k", NM("En", q=q))], F("k"), [([IT("En", "ONE", q)], fld(NM("Pt", q=q), "a")), ([IT("En", "TWO", q)], None)], fld(STR, "s"))}
    S["choice0"] = lambda q, n: {"Cz": choice([par("k", uint(8))], F("k"), [([N(1), N(2)], None)])}
    S["choiceb"] = lambda q, n: {"Cb": choice([par("k", BOOL)], F("k", y="b"), [([N(True)], fld(EXT, "a"))], fld(uint(8), "b", arr=[]))}
    S["choicec"] = lambda q, n: {"Cl": choice([par("k", uint(8))], F("k"), [([ID("bas", q)], fld(F16, "a"))])}
    S["floats"] = lambda q, n: {"Fl": struct([fld(F16, "a"), fld(F32, "b"), fld(F64, "c", arr=[])])}
    S["var"] = lambda q, n: {"Va": struct([fld(varu(9), "a"), fld(vars_(4), "b"), fld(SIZE, "c"), fld(varu(2), "d", arr=[], packed=True)])}
    S["tpl"] = lambda q, n: {"Tu": struct([fld(NM("Box", q=q, ta=[uint(8)]), "a"), fld(NM("Box", q=q, ta=[NM("Pt", q=q)]), "b")])}
    S["inst"] = lambda q, n: {"Ti": world.inst(NM("Box", q=q, ta=[STR]))}
    S["tsub"] = lambda q, n: {"Ts": sub(NM("Box", q=q, ta=[NM("En", q=q)]))}
    S["own"] = lambda q, n: {"Ot": dict(struct([fld(NM("X"), "x", arr=[])]), tp=["X"]), "Ou": struct([fld(NM("Ot", ta=[NM("Ot", ta=[BOOL])]), "v")])}
    S["rec"] = lambda q, n: {"Re": struct([fld(uint(8), "a"), fld(NM("Re"), "l", arr=[])])}
    S["gonames"] = lambda q, n: {"Gn": struct([fld(uint(8), x) for x in ("v", "r", "w", "err", "nil", "len", "range", "func", "map", "go", "make", "uint", "byte", "errors", "fmt", "ztype", "zserio", "iota", "error", "value", "i", "endBitPosition")])}
    S["gopars"] = lambda q, n: {"Gp": struct([fld(uint(8), "b", cond=B(">", F("r"), F("w"))), fld(uint(8), "c", arr=[F("err")])], [par(x, uint(8)) for x in ("v", "r", "w", "err", "len", "range")]),
                                "Gq": struct([fld(uint(8), "func"), fld(NM("Gp", *[F("func")] * 6), "g")])}
    S["gotypes"] = lambda q, n: {x: struct([fld(uint(8), "a")]) for x in ("Error", "String", "Reader", "Writer", "Init", "Main", "Any", "Nil")}
    S["index"] = lambda q, n: {"Ix": struct([fld(NM("Pm", IDX, q=q), "l", arr=[N(3)])])}
    return S


def lib(p):
    """What the snippets of other packages use."""
    return {"bas": world.const(uint(8), N(5)), "Pt": struct([fld(bit(5), "x"), fld(sint(16), "y")]), "En": enum(uint(8), [("ONE", 1), ("TWO", 2)]), "Mk": mask(uint(8), [("RD", None), ("WR", None)]),
            "Pm": struct([fld(bit(4), "v", cond=B(">", F("n"), N(1)))], [par("n", uint(8))]), "Box": dict(struct([fld(NM("X"), "x")]), tp=["X"])}


PATHS = [["base", "user.one", "other"], ["fmt", "errors", "io"], ["zserio", "ztype", "bitio"], ["aa_b.c", "aa.b_c", "aa.b.c"], ["func.map", "range", "main"], ["lib", "lib.lib", "lib.lib.lib"], ["xx.y", "xx", "yy"],
         ["My.Lib", "your.Lib", "Lib"], ["strings", "driver", "math"], ["init", "nil", "len"], ["v", "r", "w"], ["go.pkg", "pkg", "pkg.types"], ["zs1", "zs1.v2", "p2.v2"]]


def feature_world(i, r, S):
    """Packages with a few features each."""
    ps = list(PATHS[i % len(PATHS)])
    r.shuffle(ps)
    l, u, v = ps
    names = list(S)
    pk = {l: world.pkg(lib(l))}
    for p in (u, v):
        d, imp = {}, []
        for s in r.sample(names, r.choice([1, 1, 1, 2, 2, 5])): d.update(S[s](l, 0))
        imp = [(l, "*")]
        if p == v and r.random() < 0.3: imp.append((u, "*"))
        pk[p] = world.pkg(d, imp)
    order = list(pk)
    r.shuffle(order)
    return world.World(pk, tops=[], note="features-%d" % i, order=order, observe=False)


# names that Go code is likely to use for its own variables and imports
LOCALS = ("argument b context d delta elem element err found i index ix name node ok present r s size src str strs v val value w zero traits "
          "bitio driver errors fmt zserio ztype n x t p pos bits length count result buf data reader writer key idx item").split()


def locals_world(i, n):
    """Packages called like variables, and all kinds of uses of their types."""
    pk = {}
    for l in LOCALS[i::n]:
        pk[l] = world.pkg({"bas": world.const(uint(8), N(5)), "Pt": struct([fld(bit(5), "xx"), fld(sint(16), "yy")]), "En": enum(uint(8), [("ONE", 1), ("TWO", 2)]), "Mk": mask(bit(9), [("RD", None), ("WR", None)]),
                           "Pm": struct([fld(bit(4), "vv", cond=B(">", F("nn"), N(1)))], [par("nn", uint(8))]), "Box": dict(struct([fld(NM("X"), "xx")]), tp=["X"]),
                           "Su": sub(vars_(4)), "Ca": choice([par("kk", uint(8))], F("kk"), [([N(1)], fld(uint(8), "cc")), ([N(2)], fld(NM("Pt"), "dd"))], None), "Va": union([fld(uint(8), "ua"), fld(NM("Pt"), "ub")])})
        q = lambda x, *a: NM(x, *a, q=l)
        u = {"Use": struct([fld(q("Pt"), "fa"), fld(q("Pt"), "fb", opt=True), fld(q("En"), "fc"), fld(q("En"), "fd", opt=True), fld(q("Mk"), "fe"), fld(q("Mk"), "ff", opt=True), fld(q("Su"), "fg"), fld(q("Su"), "fh", opt=True),
                            fld(q("Pt"), "fi", arr=[]), fld(q("En"), "fj", arr=[], packed=True), fld(q("Mk"), "fk", arr=[N(2)]), fld(q("Su"), "fl", arr=[], packed=True), fld(q("Pm", F("fg")), "fm"), fld(q("Pm", IDX), "fn", arr=[], packed=True),
                            fld(q("Va"), "fo", arr=[], packed=True), fld(q("Ca", N(1)), "fp"), fld(q("Ca", F("fg")), "fq", arr=[], opt=True), fld(uint(8), "fr", cond=B("==", F("fc"), IT("En", "ONE", l))), fld(q("En"), "fs", arr=[], opt=True, packed=True), fld(NM("Box", q=l, ta=[q("Pt")]), "ft"), fld(NM("Box", q=l, ta=[q("En")]), "fu", arr=[], packed=True)]),
             "Uch": choice([par("kk", q("En"))], F("kk"), [([IT("En", "ONE", l)], fld(q("Pt"), "ca")), ([IT("En", "TWO", l)], fld(q("En"), "cb"))], fld(q("Pt"), "cc", arr=[])),
             "Uun": union([fld(q("Pt"), "ua"), fld(q("En"), "ub"), fld(q("Mk"), "uc", arr=[], packed=True), fld(q("Su"), "ud")]),
             "Usub": sub(q("En")), "Kk": world.const(q("En"), IT("En", "TWO", l))}
        u["Use"]["fn"] = {"getit": F("fc"), "getn": B("+", ID("bas", l), F("fg"))}
        u["Use"]["fnt"] = {"getit": l + ".En", "getn": "uint16"}
        pk["use.of" + l] = world.pkg(u, [(l, "*")])
    return world.World(pk, tops=[], note="locals-%d" % i, observe=False)


def graph_world(i, r):
    """Packages that import each other without circles; subtypes lead from one to the next."""
    n = r.randint(4, 7)
    ps = r.sample(["aa.x", "bb.c", "bb.d", "Cc.e", "dd.e_q", "ee.r", "ff.g.h", "gg.t", "hh.ii", "d"], n)
    pk, types = {}, {}
    for k, p in enumerate(ps):
        # imports of earlier packages only; often in a diamond
        deps = [q for q in ps[:k] if r.random() < 0.55] or ps[max(0, k - 1):k]
        r.shuffle(deps)
        d, t = {}, {}           # t: kind -> names others can use
        own = dict(T="Pt%d" % k, E="En%d" % k, M="Mk%d" % k, U="Nu%d" % k)
        d[own["T"]] = struct([fld(bit(5), "xx"), fld(sint(16), "yy")]); d[own["E"]] = enum(uint(8), [("ONE", 1), ("TWO", 2)])
        d[own["M"]] = mask(bit(9), [("RD", None), ("WR", None)]); d[own["U"]] = sub(vars_(4))
        for x, m in own.items(): t[x] = [m]
        used = set()
        if deps:
            see = {x: [(q, m) for q in deps for m in types[q][x]] for x in own}
            for x in own:
                for j in range(r.randint(1, 2)):
                    q, m = r.choice(see[x])
                    used.add((q, m))
                    y = "S%s%d_%d" % (x, k, j)
                    d[y] = sub(NM(m)); t[x].append(y)
            fs = []
            def some(x):
                q, m = r.choice(see[x])
                used.add((q, m))
                return NM(m)
            for j in range(r.randint(3, 9)):
                x = r.choice("TEMU")
                a = r.random()
                fs.append(fld(some(x), "f%d" % j, arr=None if a < 0.4 else [] if a < 0.8 else [N(2)], packed=0.6 < a < 0.8, opt=r.random() < 0.3))
            fs.append(fld(some("U"), "last"))
            d["Us%d" % k] = struct(fs)
            if r.random() < 0.7:
                d["Us%d" % k]["fn"] = {"getit": F("last")}
                d["Us%d" % k]["fnt"] = {"getit": fs[-1]["t"]["n"]}
            if r.random() < 0.5: d["Un%d" % k] = union([fld(some(x), "u%s" % x.lower()) for x in r.sample("TEMU", 2)])
        imp = [(q, "*") if r.random() < 0.7 else None for q in deps]
        imp = [x for q, y in zip(deps, imp) for x in ([y] if y else [(q, m) for z, m in sorted(used) if z == q] or [(q, "*")])]
        pk[p] = world.pkg(d, imp)
        types[p] = t
    order = list(pk)
    r.shuffle(order)
    return world.World(pk, tops=[], note="graph-%d" % i, order=order, observe=False)


def random_world(i, r):
    g = gen.SchemaGen(r, depth=3, nfields=(1, 7))
    return world.World({r.choice(["r.p", "q"]): world.pkg(g.schema().defs)}, tops=[], note="random-%d" % i, observe=False)


def worlds(r, n, m, k, z=0, y=0, x=0):
    S = snippets()
    ws = [feature_world(i, r, S) for i in range(scaled(n))]
    ws += [clash_world(i, r) for i in range(scaled(m))]
    ws += [tpl_world(i, r)[0] for i in range(scaled(k))]
    ws += [name_world(i, r, *r.choice([("*", "*"), ("*", "one"), ("one", "*"), ("one", "one")])) for i in range(scaled(k))]
    ws += [random_world(i, r) for i in range(scaled(z))]
    ws += [graph_world(i, r) for i in range(scaled(x))]
    ws += [locals_world(i, y) for i in range(y)]
    return ws


# ---------------------------------------------------------------------------
# C21: complete and compilable

C21 = {"refused", "nothing", "lost", "types", "shared", "long"}


class Built(outputs.History):
    def rootpackage(self, o): return "verif.test/h/h%03d/o%02d" % (self.i, o)


def c21(c):
    r = core.rng("C21")
    ws = worlds(r, 40, 9, 3, 30, 5, 24)
    for i, w in enumerate(ws):
        if i % 3 == 0: w.comments = r.random()
    base = os.path.join(core.scratch(), "c21")
    core.new_module(base)
    hs = [Built(i, w, base) for i, w in enumerate(ws)]
    core.build_cli()
    limits = {}

    def runs(h):
        l = list(h.w.order)
        h.run(0, l)
        longest = max(len(os.path.join(h.out(1), outputs.pkg_dir(p))) for p in l)
        limits[h.i] = longest + core.rng("C21", h.i).choice([12, 14, 20, 30])
        h.run(1, l, ["--max-path-length", str(limits[h.i])])
        h.run(2, l, ["--max-path-length", "0", "--sql"])
        os.makedirs(h.out(3))
        for p in l:
            x = h.stdout(p, l)
            d = os.path.join(h.out(3), outputs.pkg_dir(p))
            os.makedirs(d, exist_ok=True)
            # the packages find each other where stdout says they are
            with open(os.path.join(d, "all.go"), "w") as f: f.write((x.stdout or "").replace('"%s/' % h.rootpackage(0), '"%s/' % h.rootpackage(3)))
    core.pmap(runs, hs)
    log("generated")
    found = outputs.probe([h.root for h in hs])
    for h in hs:
        for o in range(4):
            for p in h.w.pkgs:
                d = os.path.join(h.out(o), outputs.pkg_dir(p))
                l = found.get(d, [])
                if isinstance(l, str):
                    c.violation("c21:parse:%s" % h.w.note, "the code emitted for package %s is not Go: %s" % (p, l[:400]), dict(files=h.w.files(), history=h.log))
                    l = []
                h.decls(p, l, o < 3, limits[h.i] if o == 1 else 260 if o == 0 else 0, max([len(os.path.join(d, f)) for f in os.listdir(d)] if os.path.isdir(d) else [0]))
    outputs.judge(c, hs, "c21", "c21", C21)
    # the Go compiler takes it
    errs, said = outputs.typecheck(base, [h.out(o) for h in hs for o in range(4) if os.path.isdir(h.out(o))]), set()
    for d, e in sorted(errs.items()):
        m = re.search(r"/h(\d+)/o(\d+)/", d + "/")
        i, o = int(m.group(1)), int(m.group(2))
        if i in said: continue
        said.add(i)
        c.violation("c21:compile:%s" % hs[i].w.note, "the emitted code does not compile (%s): %s" % (["default options", "a limited path length", "no limit, --sql", "stdout"][o], "; ".join(e)[:600]),
                    dict(files=hs[i].w.files(), history=hs[i].log, message=e))
    # the real compiler agrees
    todo = ["./h%03d/o%02d/..." % (h.i, h.i % 4) for h in hs[::1 if THOROUGH else 4] if h.i not in said and os.path.isdir(h.out(h.i % 4))]
    x = core.run(["go", "build", "-gcflags=-e"] + todo, cwd=base, env=core.go_env(), timeout=700)
    if x.returncode and not c.violations: raise Infra("go build: " + x.stderr[-1500:])
    c.add("packages_compiled", sum(4 * len(h.w.pkgs) for h in hs))
    log("compiled")
    for k in range(rounds(12)): mutants(c, k, base)
    # every file is read, once
    from .reject import files
    files(c, core.rng("C21f"), {"packages"}, scaled(150))


def mutants(c, k, base):
    """Schemas with random edits: those that the specification calls valid become Go code that compiles."""
    from .. import invalid
    from .reject import base_world
    r = core.rng("C21m", k)
    S = {n: f for n, f in snippets().items() if n not in ("gonames", "gopars", "gotypes", "empty")}
    ms = [invalid.mutant(base_world(i, r, S), r, r.choice([0, 1, 1, 1, 2, 3])) for i in range(1500)]
    for i, m in enumerate(ms):
        if i % 4 == 0: m.comments = "%d %d" % (k, i)
    wp = core.write_ndjson(core.path("c21m", "worlds.ndjson"), [dict(i=i, w=invalid.tla(m)) for i, m in enumerate(ms)])
    t = core.tlc_ok("ValidTrace", "ValidTrace.cfg", env={"WORLDS": wp}, name="c21m", timeout=700)
    c.tlc(t)
    valid = {v["i"] for v in t.records("VERDICT") if not v["m"]}

    def run(i):
        d = os.path.join(base, "m%d" % k, "m%d" % i)
        os.makedirs(d)
        for f, x in ms[i].files().items():
            with open(os.path.join(d, f), "w") as h: h.write(x)
        return core.generate([os.path.join(d, p + ".zs") for p in ms[i].order], os.path.join(d, "o"), "verif.test/h/m%d/m%d/o" % (k, i), timeout=60)
    todo = sorted(valid)
    for i, x in zip(todo, core.pmap(run, todo)):
        if x.returncode or not os.path.isdir(os.path.join(base, "m%d" % k, "m%d" % i, "o")):
            c.violation("c21:refused:%s" % ms[i].note, "no code is emitted for a valid schema: %s" % x.stderr[:400], dict(files=ms[i].files(), order=ms[i].order))
            valid.discard(i)
    errs = outputs.typecheck(base, [os.path.join(base, "m%d" % k, "m%d" % i, "o") for i in sorted(valid)])
    for d, e in sorted(errs.items()):
        if not e: continue
        i = int(re.search(r"/m\d+/m(\d+)/", d + "/").group(1))
        c.violation("c21:compile:%s" % ms[i].note, "the emitted code does not compile: %s" % "; ".join(e)[:600], dict(files=ms[i].files(), order=ms[i].order, message=e))
    c.add("mutated_schemas_compiled", len(valid))
    log("%d of %d mutated schemas are valid, compiled" % (len(valid), len(ms)))


# ---------------------------------------------------------------------------
# C22: always the same

C22 = {"differs", "spoils", "refused"}


def extra_packages(w, r):
    """Packages that have nothing to do with the others, and ones that depend on them."""
    pk = {}
    some = [(p, n, d) for p, x in w.pkgs.items() for n, d in x["d"].items()]
    d = {}
    for p, n, y in r.sample(some, min(6, len(some))):
        # types of the same name
        if y["k"] in ("struct", "enum", "mask", "choice", "union") and not y.get("tp"): d[n] = struct([fld(bit(r.randint(1, 9)), "other")])
        elif y.get("tp"):
            d[n] = dict(struct([fld(NM(y["tp"][0]), "o")] + [fld(NM(t), "o%d" % k) for k, t in enumerate(y["tp"][1:])]), tp=y["tp"])
            d["Use" + n + "X"] = struct([fld(NM(n, ta=[uint(8)] * len(y["tp"])), "u")])
    pk["aaa.un"] = world.pkg(d)
    # uses of the templates of the others
    l = list(w.pkgs)
    d, seen = {}, set()
    for p, n, y in some:
        if y.get("tp") and len(d) < 4 and n in ("Box", "Pair", "Ot"):
            d["Xu%d" % len(d)] = struct([fld(NM(n, q=p, ta=[uint(16)] * len(y["tp"])), "u"), fld(NM(n, q=p, ta=[uint(8)] * len(y["tp"])), "z")])
            seen.add(p)
    pk["zzz"] = world.pkg(d, [(p, "*") for p in sorted(seen)])
    return pk


def c22(c):
    r = core.rng("C22")
    ws = worlds(r, 9, 7, 5)
    r.shuffle(ws)
    base = os.path.join(core.scratch(), "c22")
    os.makedirs(base)
    hs, own = [], []
    for i, w in enumerate(ws):
        own.append(list(w.pkgs))
        x = world.World({**w.pkgs, **extra_packages(w, r)}, tops=[], note=w.note, order=w.order, observe=False)
        hs.append(outputs.History(i, x, base))
    core.build_cli()

    def runs(h):
        r = core.rng("C22", h.i)
        ps = own[h.i]
        every = list(h.w.pkgs)

        def perm(l):
            l = list(l)
            r.shuffle(l)
            return l
        h.run(0, ps)
        o = 1
        for _ in range(scaled(5)):
            h.run(o, perm(ps), rel=r.random() < 0.3)
            o += 1
        h.run(o, sorted(every), whole=True, rel=r.random() < 0.5)
        # parts of it: a package and what it depends on
        for p in r.sample(ps, min(2, len(ps))):
            l, todo = [], [p]
            while todo:
                q = todo.pop()
                if q in l: continue
                l.append(q)
                todo += [a for a, _ in h.w.pkgs[q]["imp"] if a in h.w.pkgs]
            o += 1
            h.run(o, perm(l))
        o += 1
        h.run(o, perm(every))
        # leftovers: other files, longer files, earlier output
        have = sorted(outputs.tree(h.out(0)))
        for f in r.sample(have, min(4, len(have))): h.put(o + 1, f, b"package left\n" + b"// rubbish\n" * r.choice([0, 3000]))
        for f in ("notes.txt", os.path.join(os.path.dirname(have[0]), "old_type.go") if have else "x.go", os.path.join(outputs.pkg_dir(ps[0]), "sub", "own.go")): h.put(o + 1, f, b"package mine\n")
        h.run(o + 1, perm(ps))
        h.run(o + 1, perm(every))
        h.run(0, perm(ps))
        opts = [["--sql"], ["--max-path-length", "0"], ["--max-path-length", str(max(len(os.path.join(h.out(0), outputs.pkg_dir(p))) for p in every) + 13)]][h.i % 3]
        for k in range(3): h.run(o + 2 + k, perm(ps), opts)
        for p in r.sample(ps, min(2, len(ps))):
            for k in range(3): h.stdout(p, perm(ps if k else every))
    core.pmap(runs, hs)
    log("generated")
    outputs.judge(c, hs, "c22", "c22", C22)

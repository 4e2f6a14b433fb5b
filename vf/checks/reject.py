"""Check of what the generator does with schemas that are not valid."""
import os, re

from .. import core, gen, invalid, outputs, world
from ..core import THOROUGH, log, Infra
from ..schema import *
from .codec import scaled
from .gen import name_world, tpl_world
from .output import PATHS as ALLPATHS, lib, snippets

# a package that is called like a field cannot be told from it
PATHS = [l for l in ALLPATHS if "v" not in l and "zs1" not in l]


def rich(q):
    """Declarations with expressions of all kinds."""
    S = {}
    S["consts"] = {"cA": world.const(uint(8), B("+", ID("bas", q), N(3))), "cB": world.const(BOOL, B("<", ID("cA"), N(9))), "cS": world.const(STR, B("+", STRV("a"), STRV("b"))),
                   "cF": world.const(F32, dict(o="dec", m=25, j=1, s=False, zs="2.5")), "cE": world.const(NM("En", q=q), IT("En", "TWO", q)), "cM": world.const(NM("Mk", q=q), B("|", IT("Mk", "RD", q), IT("Mk", "WR", q))),
                   "cI": world.const(sint(16), COND(ID("cB"), U("neg", ID("cA")), N(7))), "cW": world.const(bitd(B("+", ID("cA"), N(1))), N(100)), "cN": world.const(varu(4), U("nb", ID("cA")))}
    S["enums"] = {"eA": enum(uint(8), [("AA", B("*", ID("bas", q), N(2))), ("BB", None), ("CC", B("+", ID("BB"), N(4)))]), "eB": enum(vars_(2), [("ZZ", N(-5)), ("YY", U("vo", IT("En", "ONE", q)))]),
                  "mA": mask(bit(10), [("PP", None), ("QQ", B("<<", N(1), N(4))), ("RR", None)])}
    S["exprs"] = {"Ex": dict(struct([fld(uint(8), "a"), fld(vars_(4), "b"), fld(NM("En", q=q), "e"), fld(NM("Mk", q=q), "m"), fld(STR, "s"), fld(BOOL, "t"), fld(F64, "f"), fld(NM("Pt", q=q), "p"),
                                     fld(uint(16), "l", arr=[B("&", F("a"), N(7))]), fld(NM("Pt", q=q), "ps", arr=[]),
                                     fld(bitd(B("+", B("%", F("a"), N(5)), N(1))), "w", cond=B("&&", F("t"), B("==", F("e"), IT("En", "ONE", q)))),
                                     fld(uint(8), "i", cond=B(">", LEN("l"), N(2))), fld(uint(8), "x", cond=B(">=", AT(["ps"], N(0), ["x"]), N(3))), fld(uint(8), "y", cond=ISSET(F("m"), IT("Mk", "WR", q)))]),
                             fn=dict(fa=B("+", F("a"), N(1)), fb=B("==", F("s"), STRV("q")), fc=COND(F("t"), F("b"), N(3)), fd=AT(["l"], N(1)), fe=B("<", F("f"), N(2)), fg=F("p", "y")),
                             fnt=dict(fa="int32", fb="bool", fc="int32", fd="int32", fe="bool", fg="int32"))}
    S["args"] = {"Pq": struct([fld(uint(8), "v", cond=B(">", F("n"), N(1))), fld(uint(8), "u", cond=B("==", F("k"), IT("En", "TWO", q)))], [par("n", uint(16)), par("k", NM("En", q=q))]),
                 "Qq": struct([fld(uint(8), "a"), fld(NM("En", q=q), "e"), fld(NM("Pq", B("*", F("a"), N(2)), F("e")), "o"), fld(NM("Pq", IDX, IT("En", "ONE", q)), "l", arr=[N(3)]), fld(NM("Pq", N(7), F("e")), "z", cond=B("<", CALL("", "g"), N(9)))])}
    S["args"]["Qq"]["fn"] = dict(g=B("+", F("a"), N(2)))
    S["args"]["Qq"]["fnt"] = dict(g="int32")
    S["choices"] = {"Ca": choice([par("k", NM("En", q=q)), par("n", uint(8))], F("k"), [([ID("ONE")], fld(uint(8), "a", arr=[F("n")])), ([IT("En", "TWO", q)], fld(NM("Ca", F("k"), F("n")), "c", arr=[]))], fld(STR, "d")),
                    "Cb": choice([par("n", sint(8))], B("+", F("n"), N(1)), [([N(0), N(1)], fld(uint(8), "a")), ([ID("bas", q)], None)]),
                    "Cd": choice([par("b", BOOL)], U("!", F("b")), [([N(True)], fld(uint(8), "a")), ([N(False)], fld(BOOL, "b2"))]),
                    "Cu": struct([fld(NM("En", q=q), "k"), fld(uint(8), "n"), fld(NM("Ca", F("k"), F("n")), "c"), fld(NM("Cd", B(">", F("n"), N(1))), "d"), fld(NM("Cb", N(-3)), "e")])}
    S["inits"] = {"Ii": struct([dict(fld(uint(8), "a"), ini=N(200)), dict(fld(STR, "s"), ini=STRV("x")), dict(fld(NM("En", q=q), "e"), ini=IT("En", "TWO", q)), dict(fld(BOOL, "b"), ini=N(True)),
                                dict(fld(F32, "f"), ini=N(3)), dict(fld(NM("Mk", q=q), "m"), ini=IT("Mk", "RD", q)), dict(fld(intb(5), "i"), ini=N(-16)), dict(fld(uint(8), "g", cond=F("b")), ini=ID("bas", q))])}
    S["subs"] = {"Sa": sub(NM("Pt", q=q)), "Sb": sub(NM("Sa")), "Sc": sub(NM("Pm", q=q)), "Sd": sub(NM("Box", q=q, ta=[NM("Sb")])), "Se": sub(NM("En", q=q)),
                 "Su": struct([fld(NM("Sb"), "a"), fld(NM("Sc", N(3)), "b"), fld(NM("Sd"), "c"), fld(NM("Se"), "e"), fld(uint(8), "d", cond=B("==", F("e"), IT("Se", "ONE")))])}
    S["tpls"] = {"Ta": dict(struct([fld(NM("X"), "x"), fld(NM("Y"), "y", arr=[]), fld(NM("Box", q=q, ta=[NM("Y")]), "b"), fld(uint(8), "z", cond=B(">", F("x"), N(3)))]), tp=["X", "Y"]),
                 "Tb": dict(choice([par("k", NM("E"))], F("k"), [([IT("E", "ONE")], fld(uint(8), "a"))]), tp=["E"]),
                 "Tc": struct([fld(NM("Ta", ta=[uint(8), STR]), "a"), fld(NM("Ta", ta=[varu(4), NM("Pt", q=q)]), "b"), fld(NM("En", q=q), "k"), fld(NM("Tb", F("k"), ta=[NM("En", q=q)]), "c")]),
                 "Td": world.inst(NM("Ta", ta=[sint(64), NM("Box", q=q, ta=[BOOL])]))}
    S["unions"] = {"Ua": dict(union([fld(uint(8), "a"), fld(NM("Pt", q=q), "b"), fld(NM("Ua"), "c", arr=[]), fld(bitd(F("n")), "d")], [par("n", uint(8))]), fn=dict(f=B("+", F("n"), N(1))), fnt=dict(f="int32"))}
    S["unions"]["Ua"]["f"][2]["t"]["a"] = [B("-", F("n"), N(1))]
    return S


def base_world(i, r, S):
    """A valid world of two or three packages with a few features."""
    ps = list(PATHS[i % len(PATHS)])
    r.shuffle(ps)
    l, u, v = ps
    R = rich(l)
    pk = {l: world.pkg(lib(l))}
    for p in (u, v)[:r.choice([1, 1, 2])]:
        d = {}
        if r.random() < 0.75: d.update(R[r.choice(list(R))])
        for s in r.sample(sorted(S), r.choice([0, 1]) if d else 2): d.update(S[s](l, 0))
        pk[p] = world.pkg(d, [(l, "*")])
    if v in pk and r.random() < 0.5: pk[v]["imp"].append((u, "*"))
    order = list(pk)
    r.shuffle(order)
    return world.World(pk, tops=[], note="base-%d" % i, order=order, observe=False)


def run_files(d, files, order):
    os.makedirs(d, exist_ok=True)
    for f, t in files.items():
        with open(os.path.join(d, f), "w") as h: h.write(t)
    return core.generate([os.path.join(d, f) for f in order], os.path.join(d, "out"), "verif.test/h/x", timeout=30)


PANIC = re.compile(r"^(panic: |fatal error: |goroutine \d+ \[|unexpected fault|runtime: )", re.M)


def mishap(r):
    """A crash or a hang."""
    if r.returncode is None: return "hang"
    if r.returncode not in (0, 1) or PANIC.search(r.stderr): return "panic"
    if r.returncode and not r.stderr.strip() and not r.stdout.strip(): return "silent"
    return ""


def semantics(c, r):
    S = {k: f for k, f in snippets().items() if k not in ("gonames", "gopars", "gotypes", "empty")}
    n = scaled(3000)
    ms = []
    for i in range(n):
        b = base_world(i, r, S)
        k = r.choice([0, 1, 1, 1, 1, 1, 1, 1, 2]) if i >= 20 else 0
        ms.append(invalid.mutant(b, r, k))
    recs = [dict(i=i, w=invalid.tla(m)) for i, m in enumerate(ms)]
    wp = core.write_ndjson(core.path("c23", "worlds.ndjson"), recs)
    t = core.tlc_ok("ValidTrace", "ValidTrace.cfg", env={"WORLDS": wp}, name="c23-valid")
    vs = {v["i"]: set(v["m"] or []) for v in t.records("VERDICT")}
    if len(vs) != n: raise Infra("%d worlds, %d verdicts" % (n, len(vs)))
    c.tlc(t)
    log("%d worlds judged by TLC in %.1fs" % (n, t.wall))
    base = os.path.join(core.scratch(), "c23m")
    core.build_cli()
    rs = core.pmap(lambda i: run_files(os.path.join(base, "m%d" % i), ms[i].files(), [p + ".zs" for p in ms[i].order]), range(n))
    count = {}
    for i, (m, x) in enumerate(zip(ms, rs)):
        bad, said = vs[i], mishap(x)
        files = m.files()
        data = dict(files=files, order=m.order, mistakes=sorted(bad), status=x.returncode, message=(x.stderr or "")[-1500:])
        k = "undecided" if bad and "?" in bad else "valid" if not bad else "invalid"
        count[k] = count.get(k, 0) + 1
        if bad: c.sample("%s in %s" % ("+".join(sorted(bad)), m.note))
        if said:
            c.violation("c23:%s:%s" % (said, m.note.split(":")[1]), "the generator %s: %s" % (dict(hang="hangs", panic="panics", silent="fails without saying why")[said], core.complaint(x)[:500]), data)
        elif k == "invalid" and x.returncode == 0:
            c.violation("c23:accepted:%s" % "+".join(sorted(bad)), "a schema with mistakes (%s, by %s) is accepted" % (", ".join(sorted(bad)), m.note), data)
        elif not bad and x.returncode:
            c.violation("c23:refused:%s" % m.note.split(":")[1], "a valid schema is refused: %s" % core.complaint(x)[:500], data)
    c.add("traces_validated_against_impl", n)
    log("worlds: %s" % count)


def syntax(c, r):
    S = snippets()
    n = scaled(420)
    cases = []
    for i in range(n):
        if i % 5 == 4: files = {"one.zs": invalid.OTHER % "one.x", "two.zs": Schema(lib("two"), tops=[], pkg="two").text()}
        else:
            b = invalid.Mutant(base_world(i, r, S))
            files = b.files()
        order = sorted(files)
        r.shuffle(order)
        f = r.choice(order) if i % 5 != 4 else "one.zs"
        files[f], what = invalid.spoil(files[f], r)
        cases.append((files, order, f, what))
    recs = [dict(i=i, t=invalid.kinds(files[f])) for i, (files, order, f, what) in enumerate(cases)]
    wp = core.write_ndjson(core.path("c23", "files.ndjson"), recs)
    t = core.tlc_ok("GrammarTrace", "GrammarTrace.cfg", env={"FILES": wp}, name="c23-grammar")
    vs = {v["i"]: v["ok"] for v in t.records("VERDICT")}
    if len(vs) != n: raise Infra("%d files, %d verdicts" % (n, len(vs)))
    c.tlc(t)
    log("%d files judged by TLC in %.1fs" % (n, t.wall))
    base = os.path.join(core.scratch(), "c23s")
    rs = core.pmap(lambda i: run_files(os.path.join(base, "s%d" % i), cases[i][0], cases[i][1]), range(n))
    for i, ((files, order, f, what), x) in enumerate(zip(cases, rs)):
        said = mishap(x)
        data = dict(files=files, order=order, spoiled=f, what=what, status=x.returncode, message=(x.stderr or "")[-1500:])
        if not vs[i]: c.sample("%s: %s" % (f, what))
        if said:
            c.violation("c23:%s:syntax" % said, "the generator %s: %s (%s)" % (dict(hang="hangs", panic="panics", silent="fails without saying why")[said], core.complaint(x)[:500], what), data)
        elif not vs[i] and x.returncode == 0:
            c.violation("c23:syntax", "a file that is not in the language is accepted (%s)" % what, data)
    c.add("traces_validated_against_impl", n)
    log("files: %d in the language, %d not" % (sum(vs.values()), n - sum(vs.values())))


def tree(r):
    """A random tree of files: [(path, kind, valid, package, content)], and arguments for a run over it."""
    nodes, names = [], ["a", "b", "c", "d.zs", ".e", "f.d"]
    def grow(at, depth):
        for n in r.sample(names, r.randint(0, 3) if at else r.randint(1, 4)):
            p = at + [n]
            nodes.append(dict(p=p, k="dir", h=n[0] == ".", x=n.rsplit(".", 1)[-1] if "." in n else "", ok=False, pkg=""))
            if depth: grow(p, depth - 1)
        for k in range(r.choice([0, 1, 1, 2])):
            stem = r.choice(["s", "t", "u", ".v"]) + str(k)
            x = r.choice(["zs"] * 5 + ["zserio", "zserio", "txt", "zs~", "ZS", ""])
            ok = r.random() < 0.93
            pkg = "p%d" % (len(nodes) if r.random() < 0.95 else 1)
            nodes.append(dict(p=at + [stem + ("." + x if x else "")], k="file", h=stem[0] == ".", x=x, ok=ok, pkg=pkg))
    grow([], r.choice([0, 1, 2]))
    def spell(p):
        q = []
        for k, s in enumerate(p):
            if r.random() < 0.1: q.append(".")
            if r.random() < 0.08 and k + 1 < len(p): q += [s, ".."]
            q.append(s)
        return q
    def some():
        x = r.random()
        fs = [n["p"] for n in nodes if n["k"] == "file"]
        if x < 0.8 and fs: return r.choice(fs)
        if x < 0.9 and nodes: return r.choice(nodes)["p"]
        return r.choice([["nothing.zs"], ["a", "nothing.zs"], ["no", "such.zs"]])
    y = r.random()
    if y < 0.45: args = [["."]] if r.random() < 0.5 else [r.choice(nodes)["p"] if nodes else ["."]]
    else:
        args = [some() for _ in range(r.randint(1, 4))]
        if len(args) > 1 and r.random() < 0.3: args.append(r.choice(args))
    return nodes, [spell(a) if a != ["."] else a for a in args]


def files(c, r, kinds, n=150):
    """Runs over trees of files: Files.tla says which files are read, and whether the run succeeds."""
    base = os.path.join(core.scratch(), "files")
    ts = [tree(r) for _ in range(n)]
    core.build_cli()

    def one(i):
        nodes, args = ts[i]
        d = os.path.join(base, "f%d" % i, "w")
        os.makedirs(d)
        for m in nodes:
            f = os.path.join(d, *m["p"])
            if m["k"] == "dir": os.makedirs(f, exist_ok=True)
        for m in nodes:
            f = os.path.join(d, *m["p"])
            if m["k"] == "file":
                with open(f, "w") as h:
                    h.write("package %s;\nstruct S%s { uint8 a; };\n" % (m["pkg"], m["pkg"]) if m["ok"] else r.choice(["", "package", "struct X { };", "package a; struct"]))
        o = os.path.join(base, "f%d" % i, "out")
        l = ["/".join(a) for a in args]
        x = core.run([core.build_cli(), "generate", "--out", o, "--rootpackage", "gen"] + l, cwd=d, timeout=30)
        return x, sorted(os.listdir(o)) if os.path.isdir(o) else []
    rs = core.pmap(one, range(n))
    root = dict(p=[], k="dir", h=False, x="", ok=False, pkg="")
    recs = [dict(i=i, tree=[root] + ts[i][0], args=ts[i][1], st=rs[i][0].returncode, pk=rs[i][1]) for i in range(n)]
    t = core.tlc_ok("FilesTrace", "FilesTrace.cfg", env={"RUNS": core.write_ndjson(core.path("files", "runs.ndjson"), recs)}, name="files")
    vs = {v["i"]: v for v in t.records("VERDICT")}
    if len(vs) != n: raise Infra("%d runs, %d verdicts" % (n, len(vs)))
    c.tlc(t)
    for i in range(n):
        x = rs[i][0]
        w = list(vs[i]["w"] or [])
        said = mishap(x)
        if said: w.append(said)
        w = [k for k in w if k in kinds]
        if w:
            c.violation("files:%s" % w[0], "a run over %s with %s: %s (status %s, %s)" % ([("/".join(m["p"]), "ok" if m["ok"] else "bad", m["pkg"]) if m["k"] == "file" else "/".join(m["p"]) for m in ts[i][0]],
                        ["/".join(a) for a in ts[i][1]], ",".join(w), x.returncode, (x.stderr or "")[-300:]), recs[i])
    c.add("traces_validated_against_impl", n)
    log("%d runs over trees of files: %d succeed" % (n, sum(1 for v in vs.values() if v["out"] == "ok")))


def c23(c):
    r = core.rng("C23")
    semantics(c, r)
    syntax(c, r)
    files(c, core.rng("C23f"), {"accepted", "emitted", "refused", "panic", "hang", "silent"}, scaled(250))

"""Schemas of several packages: rendered, generated, observed, and judged against World.tla."""
import json, os, random, re
from . import core, harness, schema
from .core import Infra, log
from .schema import Schema, wide, xs


def const(t, x): return dict(k="const", t=t, x=x)
def inst(t): return dict(k="inst", t=t)
def pkg(decls, imp=()): return dict(imp=list(imp), d=dict(decls))


def go_camel(s):
    """The Go name of an enum item, as the generator's strcase.ToCamel(lower) builds it."""
    out, up = "", True
    for ch in s.lower():
        if ch == "_": up = True; continue
        out += ch.upper() if up else ch
        up = ch.isdigit()
    return out


COMMENTS = ["/** doc\n * of several\n * lines */", "/* c */", "// line; with { braces } and \"quotes\"\n", "/*! markdown `x` # \n!*/", "//\n",
            "/** {{ .x }} %d \\n // */", "/* \u00e9\u4e16 */", "/** a */ /* b */\n// c\n", "/* import \"fmt\" */", "/* several\n   lines */", "// c\n/* a\n * b; */\n// d\n", "/* uint8 x; */"]


def commented(text, r, p=0.12):
    """The text with comments between tokens: they change nothing."""
    out = []
    for m in re.finditer(r'"(?:[^"\\]|\\.)*"|//[^\n]*|/\*.*?\*/|\s+|[^\s"/]+|/', text, re.S):
        out.append(m.group(0))
        if m.group(0).isspace() and r.random() < (0.35 if "\n" in m.group(0) else p): out.append(r.choice(COMMENTS) + r.choice(["", " ", "\n"]))
    return "".join(out)


class World:
    """pkgs: {package: dict(imp=[(package, symbol or "*")], d={name: declaration})}"""

    def __init__(self, pkgs, tops=None, note="", order=None, observe=True):
        self.pkgs, self.note = pkgs, note
        self.tops = tops if tops is not None else [(p, n) for p, x in pkgs.items() for n, d in x["d"].items()
                                                   if d["k"] in ("struct", "choice", "union", "inst") and not d.get("tp")]
        self.order = order or list(pkgs)
        self.observe = observe
        self.head = {}      # package -> text put in front
        self.comments = None    # seed of the comments in the text

    def text(self, p):
        x = self.pkgs[p]
        imp = "\n".join("import %s.%s;" % i for i in x["imp"])
        t = self.head.get(p, "") + Schema(x["d"], tops=[], pkg=p, prelude=imp).text()
        return t if self.comments is None else commented("\n" + t, random.Random("%s %s" % (self.comments, p)))

    def files(self):
        return {p + ".zs": self.text(p) for p in self.pkgs}

    def tla(self):
        def clean(x):
            if isinstance(x, dict):
                if "o" in x and isinstance(x["o"], str):
                    if x["o"] == "n": return dict(o="n", v=x["v"] if isinstance(x["v"], bool) else wide(x["v"]))
                    if x["o"] == "dec": return dict(o="dec", m=wide(x["m"]), j=x["j"], s=x["s"])
                    if x["o"] == "fx": return dict(o="n", v=wide(x["v"]))
                    return {k: clean(v) for k, v in x.items() if k not in ("zs", "zp", "bool", "y")  or (k == "y" and x["o"] in ("f", "at"))}
                if x.get("k") in ("enum", "mask"):
                    return dict(k=x["k"], t=clean(x["t"]), it=[dict(n=i[0], s=list(i[0].encode()), x=[clean(i[1] if isinstance(i[1], dict) else schema.N(i[1]))] if len(i) > 1 and i[1] is not None else [])
                                                               for i in x["items"]])
                if x.get("k") == "const": return dict(k="const", t=clean(x["t"]), x=clean(x["x"]))
                return {k: clean(v) for k, v in x.items() if k not in ("zp", "zinit", "items", "hasd", "hidden", "paren", "fnt", "bool")}
            if isinstance(x, (list, tuple)): return [clean(v) for v in x]
            return x
        return dict(pk={p: dict(imp=[dict(p=a, s=b) for a, b in x["imp"]], d={n: clean(d) for n, d in x["d"].items()}) for p, x in self.pkgs.items()})


def _unwide(l):
    u = 0
    for x in l: u = u << 16 | x
    return u - (1 << 80) if u >> 79 else u


def elaborated(sch, tops, pkg):
    """The Schema that World.tla elaborated (JSON) as the Python side uses it."""
    def back(x):
        if isinstance(x, dict):
            if x.get("o") == "n" and not isinstance(x["v"], bool): return dict(o="n", v=_unwide(x["v"]))
            return {k: back(v) for k, v in x.items() if k != "id"}
        if isinstance(x, list): return [back(v) for v in x]
        return x
    defs = {}
    for n, d in sch.items():
        if d["k"] in ("enum", "mask"):
            defs[n] = dict(k=d["k"], t=back(d["t"]), items=[("I%d" % k, _unwide(v)) for k, v in enumerate(d["iv"])])
        else:
            defs[n] = back(d)
            for key in ("p", "f", "c", "d"):    # TLC writes an empty sequence like this
                if key in defs[n] and defs[n][key] == {}: defs[n][key] = []
            if defs[n].get("fn") in ([], None): defs[n].pop("fn", None)
    return Schema(defs, tops=["%s:%s" % t for t in tops], pkg=pkg)


EXTRA = r'''
var consts = map[string]func() any{}
var enums = map[string]func(map[string]any) map[string]any{}

func enumOf[T any](vals func() []T, strs func() []string, from func(string) (T, error)) func(map[string]any) map[string]any {
	return func(c map[string]any) map[string]any {
		o := map[string]any{"vs": get(reflect.ValueOf(vals()))}
		ns, st, val := []any{}, []any{}, []any{}
		for _, s := range strs() {
			ns = append(ns, byteList([]byte(s)))
		}
		for _, v := range vals() {
			st = append(st, byteList([]byte(any(v).(fmt.Stringer).String())))
			if x, ok := any(v).(driver.Valuer); ok {
				d, err := x.Value()
				if err != nil {
					val = append(val, err.Error())
				} else {
					switch y := d.(type) {
					case string:
						val = append(val, byteList([]byte(y)))
					case []byte:
						val = append(val, byteList(y))
					default:
						val = append(val, fmt.Sprint(y))
					}
				}
			}
		}
		o["ns"], o["str"], o["val"] = ns, st, val
		conv, other, scan := []any{}, []any{}, []any{}
		for _, s := range c["names"].([]any) {
			b := unbytes(s)
			v, err := from(string(b))
			conv = append(conv, map[string]any{"s": s, "ok": err == nil, "v": get(reflect.ValueOf(v))})
			var x T
			if sc, ok := any(&x).(sql.Scanner); ok {
				scan = append(scan, map[string]any{"s": s, "ok": sc.Scan(string(b)) == nil, "v": get(reflect.ValueOf(x))})
				var y T
				e := any(&y).(sql.Scanner).Scan(b)
				scan = append(scan, map[string]any{"s": s, "ok": e == nil, "v": get(reflect.ValueOf(y))})
			}
		}
		for _, u := range c["values"].([]any) {
			var x T
			set(reflect.ValueOf(&x).Elem(), u)
			other = append(other, map[string]any{"v": get(reflect.ValueOf(x)), "s": byteList([]byte(any(x).(fmt.Stringer).String()))})
		}
		// what the callers do with the lists they get must not matter
		for i := range strs() {
			strs()[i] = "spoiled"
		}
		again := []any{}
		for _, s := range strs() {
			again = append(again, byteList([]byte(s)))
		}
		if fmt.Sprint(again) != fmt.Sprint(ns) {
			o["ns"] = again
		}
		o["from"], o["other"], o["sql"] = conv, other, scan
		return o
	}
}

func extra(c, out map[string]any) bool {
	switch c["op"].(string) {
	case "consts":
		vs := []any{}
		for _, k := range c["k"].([]any) {
			vs = append(vs, get(reflect.ValueOf(consts[k.(string)]())))
		}
		out["vs"] = vs
	case "enum":
		out["o"] = enums[c["k"].(string)](c)
	case "default":
		o := registry[c["t"].(string)]()
		r, msg := call(func() error { return o.(interface{ LoadDefaultValues() error }).LoadDefaultValues() })
		out["r"], out["msg"] = r, msg
		out["v"] = get(reflect.ValueOf(o).Elem())
	case "same":
		t := reflect.TypeOf(registry[c["t"].(string)]()).Elem()
		fs := fieldsOf(t)
		n := []any{}
		for _, q := range c["f"].([]any) {
			p := q.([]any)
			n = append(n, t.Field(fs[p[0].(string)]).Type == t.Field(fs[p[1].(string)]).Type)
		}
		out["same"] = n
	default:
		return false
	}
	return true
}
'''


class WorldBatch:
    """Several worlds generated into one module; the interface Flow needs of a Batch."""
    run, _run1 = harness.Batch.run, harness.Batch._run1
    race = False

    def __init__(self, worlds, name, gen_args=()):
        self.worlds, self.name = worlds, name
        self.dir = os.path.join(core.scratch(), "mod-" + name)
        self.rejected, self.broken, self.outs = {}, {}, {}
        core.new_module(self.dir)
        core.build_cli()
        self.elab()

        def gen(i):
            w = worlds[i]
            d = os.path.join(self.dir, "zs", "w%d" % i)
            os.makedirs(d, exist_ok=True)
            for f, t in w.files().items():
                with open(os.path.join(d, f), "w") as h: h.write(t)
            return core.generate([os.path.join(d, p + ".zs") for p in w.order], os.path.join(self.dir, "g", "w%d" % i),
                                 "verif.test/h/g/w%d" % i, extra=gen_args)
        for i, r in enumerate(core.pmap(gen, range(len(worlds)))):
            if r.returncode != 0: self.rejected[i] = core.complaint(r)
        log("%s: %d worlds generated, %d rejected" % (name, len(worlds), len(self.rejected)))
        self.build()

    def elab(self):
        """Have TLC work out the flat schemas."""
        recs = [dict(i=i, w=w.tla(), tops=[list(t) for t in w.tops], obs=[]) for i, w in enumerate(self.worlds)]
        wp = core.write_ndjson(core.path(self.name, "worlds.ndjson"), recs)
        self.elab_result = core.tlc_ok("WorldTrace", "WorldTrace.cfg", env={"WORLDS": wp}, name=self.name + "-elab")
        sch = {v["i"]: v["sch"] for v in self.elab_result.records("VERDICT")}
        if len(sch) != len(self.worlds): raise Infra("%d worlds, %d elaborated" % (len(self.worlds), len(sch)))
        self.schemas = [elaborated(sch[i] or {}, w.tops, "w%d" % i) for i, w in enumerate(self.worlds)]
        for s, w in zip(self.schemas, self.worlds): s.note = w.note

    def probes(self, i):
        """The Go file that gives the harness access to the declarations of world i."""
        w = self.worlds[i]
        used, body = set(), []

        def al(p):
            used.add(p)
            return "w%d_%s" % (i, p.replace(".", "_"))
        for p, n in w.tops:
            body.append('registry["w%d.%s:%s"] = func() any { return &%s.%s{} }' % (i, p, n, al(p), harness.go_name(n)))
        if w.observe:
            for p, x in w.pkgs.items():
                for n, d in x["d"].items():
                    g = harness.go_name(n)
                    if d["k"] == "const":
                        body.append('consts["w%d.%s:%s"] = func() any { return %s.%s }' % (i, p, n, al(p), g))
                    elif d["k"] == "enum":
                        body.append('enums["w%d.%s:%s"] = enumOf(%s.%sValues, %s.%sStrings, %s.%sString)' % (i, p, n, al(p), g, al(p), g, al(p), g))
                        body.append('consts["w%d.%s:%s"] = func() any { return []%s.%s{%s} }' %
                                    (i, p, n, al(p), g, ", ".join("%s.%s%s" % (al(p), g, go_camel(it[0])) for it in d["items"])))
                    elif d["k"] == "mask":
                        body.append('consts["w%d.%s:%s"] = func() any { return []%s.%s{%s} }' %
                                    (i, p, n, al(p), g, ", ".join("%s.%s%s" % (al(p), g, harness.go_name(it[0])) for it in d["items"])))
        imp = "\n".join('\tw%d_%s "verif.test/h/g/w%d/%s"' % (i, p.replace(".", "_"), i, p.lower().replace(".", "/")) for p in sorted(used))
        return "package main\n\nimport (\n%s\n)\n\nfunc init() {\n\t%s\n}\n" % (imp, "\n\t".join(body))

    def build(self):
        env = core.go_env()
        alive = [i for i in range(len(self.worlds)) if i not in self.rejected]
        for attempt in range(4):
            if not alive: break
            for f in os.listdir(self.dir):
                if f.endswith(".go"): os.unlink(os.path.join(self.dir, f))
            with open(os.path.join(self.dir, "main.go"), "w") as f:
                f.write(harness.MAIN % dict(imports='\t"database/sql"\n\t"database/sql/driver"', registry="", extra=EXTRA))
            for i in alive:
                with open(os.path.join(self.dir, "probes_w%d.go" % i), "w") as f: f.write(self.probes(i))
            self.bin = os.path.join(self.dir, "harness")
            r = core.run(["go", "build"] + ["./g/w%d/..." % i for i in alive], cwd=self.dir, env=env, timeout=800)
            if r.returncode == 0:
                r = core.run(["go", "build", "-gcflags=-e", "-o", self.bin, "."], cwd=self.dir, env=env, timeout=800)
                if r.returncode == 0: break
            bad, cur = {}, None
            for line in r.stderr.splitlines():
                m = re.match(r"# verif\.test/h/g/w(\d+)/", line) or re.match(r"(?:\./)?probes_w(\d+)\.go", line) or re.match(r"(?:\./)?g/w(\d+)/", line)
                if m: cur = int(m.group(1))
                elif line.startswith("# "): cur = None
                if cur in alive: bad[cur] = (bad.get(cur, "") + line + "\n")[:1500]
            if not bad: raise Infra("worlds do not build: " + r.stderr[-2000:])
            self.broken.update(bad)
            alive = [i for i in alive if i not in bad]
        self.alive = alive
        log("%s: harness built with %d worlds" % (self.name, len(alive)))

    def violations(self, check, sig):
        for i, m in list(self.rejected.items()) + list(self.broken.items()):
            w = self.worlds[i]
            check.violation("%s:%s:%s" % (sig, "rejected" if i in self.rejected else "broken", w.note),
                            "a valid schema is %s: %s" % ("rejected" if i in self.rejected else "turned into code that does not compile or lacks declarations", m[:500]),
                            dict(files=w.files(), order=w.order, message=m))

    def judge(self, check, sig, names=lambda i, p, n, d: [], values=lambda i, p, n, d: [], defaults=(), same=(), what=("const", "items", "mask")):
        """Observe constants, enums, bitmasks, loaded defaults [(world, package, type)] and type identities
        [(world, package, struct, [(field, field)])]; TLC judges what was seen."""
        cmds, meta = [], []
        for i in self.alive:
            w = self.worlds[i]
            if not w.observe: continue
            l = [(p, n, d) for p, x in w.pkgs.items() for n, d in x["d"].items() if d["k"] in ("const", "mask", "enum")]
            l = [x for x in l if {"const": "const", "mask": "mask", "enum": "items"}[x[2]["k"]] in what]
            if l:
                cmds.append(dict(op="consts", k=["w%d.%s:%s" % (i, p, n) for p, n, d in l]))
                meta.append((i, "consts", l))
            for p, n, d in l:
                if d["k"] == "enum":
                    cmds.append(dict(op="enum", k="w%d.%s:%s" % (i, p, n), names=[list(s.encode()) for s in names(i, p, n, d)], values=values(i, p, n, d)))
                    meta.append((i, "enum", (p, n, d)))
        for i, p, n in defaults:
            if i in self.alive:
                cmds.append(dict(op="default", t="w%d.%s:%s" % (i, p, n)))
                meta.append((i, "default", (p, n)))
        for i, p, n, prs in same:
            if i in self.alive:
                cmds.append(dict(op="same", t="w%d.%s:%s" % (i, p, n), f=[list(x) for x in prs]))
                meta.append((i, "same", (p, n, prs)))
        obs = {i: [] for i in self.alive}
        for (i, k, x), o in zip(meta, self.run(cmds)):
            if "crash" in o:
                check.violation("%s:crash:%s" % (sig, self.worlds[i].note), "the process dies: " + o["crash"][:300], dict(files=self.worlds[i].files()))
                continue
            if k == "consts":
                for (p, n, d), v in zip(x, o["vs"]):
                    obs[i].append(dict(q="const", p=p, n=n, v=v) if d["k"] == "const" else dict(q="mask", p=p, n=n, vs=v))
            elif k == "enum":
                obs[i].append(dict(o["o"], q="items", p=x[0], n=x[1]))
            elif k == "default":
                if o["r"] != "ok":
                    check.violation("%s:default-%s:%s" % (sig, o["r"], self.worlds[i].note), "LoadDefaultValues of %s.%s: %s" % (x[0], x[1], o["msg"][:300]), dict(files=self.worlds[i].files()))
                    continue
                obs[i].append(dict(q="default", p=x[0], n=x[1], v=o["v"]))
            else:
                d = {f["n"]: f["t"] for f in self.worlds[i].tla()["pk"][x[0]]["d"][x[1]]["f"]}
                for (a, b), v in zip(x[2], o["same"]):
                    obs[i].append(dict(q="same", n="%s %s, %s" % (x[1], a, b), p=x[0], a=dict(p=x[0], t=d[a]), b=dict(p=x[0], t=d[b]), v=v))
        recs = [dict(i=i, w=self.worlds[i].tla(), tops=[], obs=l) for i, l in obs.items() if l]
        if not recs: return
        wp = core.write_ndjson(core.path(self.name, "obs.ndjson"), recs)
        r = core.tlc_ok("WorldTrace", "WorldTrace.cfg", env={"WORLDS": wp}, name=self.name + "-judge")
        vs = r.records("VERDICT")
        if len(vs) != len(recs): raise Infra("%d worlds, %d verdicts" % (len(recs), len(vs)))
        check.tlc(r)
        n = sum(len(l) for l in obs.values())
        log("%s: %d observations judged by TLC in %.1fs" % (self.name, n, r.wall))
        check.add("traces_validated_against_impl", n)
        for v in vs:
            w, l = self.worlds[v["i"]], obs[v["i"]]
            check.sample("%s.%s: %s" % (l[0]["p"], l[0]["n"], json.dumps(l[0])[:300]))
            for b in v["bad"]:
                o = l[b["k"] - 1]
                check.violation("%s:%s:%s" % (sig, o["q"], "+".join(b["w"])), "%s.%s: %s wrong: %s" % (o["p"], o["n"], "+".join(b["w"]), json.dumps(o)[:600]),
                                dict(files=w.files(), order=w.order, observation=o))

"""Shared machinery of the checks: scratch space, Go and TLC runs, evidence, findings."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, atexit, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
GOROOT = "/opt/veriftools/go1.24.13"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()


class Infra(Exception):
    """The check itself could not do its work: neither pass nor violation."""


class NothingLeft(Infra):
    """No schema of a batch becomes code that works: the batch says why."""

    def __init__(self, batch, what):
        Infra.__init__(self, what)
        self.batch = batch


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else print(_scratch))
    return _scratch


def path(*p):
    q = os.path.join(scratch(), *p)
    os.makedirs(os.path.dirname(q), exist_ok=True)
    return q


def rng(*salt):
    return random.Random("%d/%s" % (SEED, "/".join(str(s) for s in salt)))


def go_env(race=False):
    e = {k: v for k, v in os.environ.items() if not k.startswith("GO") and k != "CGO_ENABLED"}
    e.update(GOROOT=GOROOT, PATH=GOROOT + "/bin:/usr/local/bin:/usr/bin:/bin", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
             GOTOOLCHAIN="local", GOPROXY="off", GOENV="off", GOWORK="off", GOFLAGS="-mod=mod",
             GOSUMDB="off", CGO_ENABLED="1" if race else "0", HOME=os.environ.get("HOME", "/root"))
    return e


def run(cmd, cwd=None, env=None, timeout=600, inp=None, binary=False):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, input=inp,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=not binary,
                          errors=None if binary else "replace")


_cli = None


def build_cli():
    """The generator, built from the working tree of the repository."""
    global _cli
    if _cli is None:
        out = path("bin", "go-zserio")
        e = go_env()
        e["GOFLAGS"] = "-mod=readonly"
        r = run(["go", "build", "-o", out, "./cmd/go-zserio"], cwd=REPO, env=e)
        if r.returncode:
            raise Infra("cannot build the generator: " + r.stderr[-2000:])
        _cli = out
        log("generator built")
    return _cli


def generate(schemas, out, rootpackage, only=None, extra=(), timeout=60, cwd=None):
    """Run the generator; returns CompletedProcess (returncode None on time-out)."""
    cmd = [build_cli(), "generate", "--out", out, "--rootpackage", rootpackage]
    if only:
        cmd += ["--only", only]
    cmd += list(extra) + list(schemas)
    try:
        return run(cmd, timeout=timeout, env=go_env(), cwd=cwd or scratch())
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, None, "", "time-out")


def complaint(r):
    """What the generator says about a schema it refuses."""
    if r.returncode is None: return "time-out"
    t = r.stderr + r.stdout
    m = re.search(r"^(Error: .*|panic: .*)", t, re.M)
    return (m.group(1) + " | " + t[-300:] if m else t[-1500:])[:1500]


def new_module(d, name="verif.test/h"):
    """A Go module in d that uses the repository's runtime."""
    os.makedirs(d, exist_ok=True)
    gomod = open(os.path.join(REPO, "go.mod")).read()
    reqs = re.findall(r"^\s*(?:require\s+)?([\w./-]+\.[\w./-]+ v[\w.+-]+)", gomod, re.M)
    gover = re.search(r"^go\s+([\d.]+)", gomod, re.M).group(1)
    with open(os.path.join(d, "go.mod"), "w") as f:
        f.write("module %s\n\ngo %s\n\nrequire github.com/woven-planet/go-zserio v0.0.0\n" % (name, gover))
        f.write("require (\n%s\n)\n" % "\n".join("\t" + r for r in reqs))
        f.write("replace github.com/woven-planet/go-zserio => %s\n" % REPO)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))


# ---------------------------------------------------------------------------
# TLC

class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out

    def records(self, tag):
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag):
                res.append(json.loads(json.loads(line)[len(tag):]))
        return res


def tlc(spec, cfg, env=None, workers=8, timeout=800, heap="6g", extra=(), name=None, coverage=False):
    """Run TLC on VERIF/spec/<spec>.tla with configuration <cfg>."""
    tmp = path("tlc-%s-%d" % (name or spec, random.randrange(10 ** 9)), "x")
    d = os.path.dirname(tmp)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-workers", str(workers), "-nowarning",
           "-config", os.path.join(SPEC, cfg)] + list(extra)
    cmd.append(os.path.join(SPEC, spec + ".tla"))
    t = time.time()
    try:
        r = run(cmd, cwd=d, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC ran out of time on " + spec)
    finally:
        pass
    out = r.stdout + r.stderr
    res = TLCResult(out, r.returncode)
    res.wall = time.time() - t
    shutil.rmtree(d, ignore_errors=True)
    return res


def tlc_ok(spec, cfg, **kw):
    r = tlc(spec, cfg, **kw)
    if not r.ok:
        lines = [l[:300] for l in r.out.splitlines() if not l.startswith('"')]
        raise Infra("TLC failed on %s:\n%s" % (spec, "\n".join(lines)[-3500:]))
    return r


def write_ndjson(p, recs):
    with open(p, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    return p


# ---------------------------------------------------------------------------
# Verdicts

class Check:
    """One run of one property's check."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.violations = []      # (signature, description, replay data)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def tlc(self, r):
        self.add("states", r.distinct)
        self.add("transitions", r.generated)

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def violation(self, sig, what, data=None):
        self.violations.append((sig, what, data))

    def finish(self):
        known = load_findings().get(self.prop, [])
        new, old = [], []
        for v in self.violations:
            (old if any(re.fullmatch(k["match"], v[0]) for k in known) else new).append(v)
        for k in known:
            if k.get("kind", "known") == "known":
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
        self.add("violations_of_known_findings", len(old))
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 1), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if new:
            d = os.path.join(VERIF, "evidence", "replay-%s" % self.prop)
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "violations-%d.json" % SEED)
            with open(rp, "w") as f:
                json.dump([{"signature": s, "what": w, "data": x} for s, w, x in new[:50]], f, indent=1, default=str)
            for s, w, x in new[:12]:
                print("  %s: %s" % (s, w), flush=True)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)})), flush=True)
        return 0


def load_findings():
    res = {}
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("{"):
                continue           # "fixed:" lines and comments
            k = json.loads(line)
            res.setdefault(k["property"], []).append(k)
    return res


def pmap(fn, items, n=8):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))

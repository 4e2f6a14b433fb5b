"""Runs of the generator as histories: what they emit, judged against Output.tla."""
import hashlib, json, os, re, shutil
from . import core, harness, world
from .core import Infra, log

PROBE = r'''package main

import (
	"encoding/json"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
)

type decl struct{ K, N, R, F string }

// the declarations in the files Go compiles, by directory
func main() {
	out := map[string]any{}
	for _, root := range os.Args[1:] {
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
			if err != nil || !d.IsDir() {
				return err
			}
			pkg, err := build.Default.ImportDir(p, 0)
			if _, none := err.(*build.NoGoError); err != nil && (!none || pkg == nil) {
				out[p] = err.Error()
				return nil
			}
			if len(pkg.GoFiles) == 0 && len(pkg.IgnoredGoFiles) == 0 && len(pkg.TestGoFiles) == 0 {
				return nil
			}
			l := []decl{}
			for _, fn := range pkg.GoFiles {
				f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(p, fn), nil, 0)
				if err != nil {
					out[p] = err.Error()
					return nil
				}
				for _, x := range f.Decls {
					switch y := x.(type) {
					case *ast.FuncDecl:
						r := ""
						if y.Recv != nil {
							e := y.Recv.List[0].Type
							if s, ok := e.(*ast.StarExpr); ok {
								e = s.X
							}
							if id, ok := e.(*ast.Ident); ok {
								r = id.Name
							}
						}
						l = append(l, decl{"func", y.Name.Name, r, fn})
					case *ast.GenDecl:
						for _, s := range y.Specs {
							switch z := s.(type) {
							case *ast.TypeSpec:
								k := "type"
								if z.Assign.IsValid() {
									k = "alias"
								}
								l = append(l, decl{k, z.Name.Name, "", fn})
							case *ast.ValueSpec:
								for _, n := range z.Names {
									l = append(l, decl{y.Tok.String(), n.Name, "", fn})
								}
							}
						}
					}
				}
			}
			out[p] = l
			return nil
		})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
'''

TYPES = r'''package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

// typecheck: module path, module directory, file with "package export-file" lines, directories
var (
	fset    = token.NewFileSet()
	mod     = os.Args[1]
	dir     = os.Args[2]
	exports = map[string]string{}
)

type imp struct {
	std  types.Importer
	pkgs map[string]*types.Package
	errs map[string][]string
	busy map[string]bool
}

func (m *imp) Import(path string) (*types.Package, error) {
	if path != mod && !strings.HasPrefix(path, mod+"/") {
		return m.std.Import(path)
	}
	if m.busy[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	if p, ok := m.pkgs[path]; ok {
		return p, nil
	}
	m.busy[path] = true
	defer delete(m.busy, path)
	d := filepath.Join(dir, strings.TrimPrefix(path, mod))
	errs := []string{}
	say := func(err error) { errs = append(errs, strings.ReplaceAll(err.Error(), dir+"/", "")) }
	defer func() { m.errs[d] = errs }()
	pkg, err := build.Default.ImportDir(d, 0)
	if err != nil {
		say(err)
		return nil, err
	}
	files := []*ast.File{}
	for _, fn := range pkg.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(d, fn), nil, parser.SkipObjectResolution)
		if err != nil {
			say(err)
			return nil, err
		}
		files = append(files, f)
	}
	conf := types.Config{Importer: m, Error: say, Sizes: types.SizesFor("gc", "amd64"), GoVersion: "go1.21"}
	p, _ := conf.Check(path, fset, files, nil)
	m.pkgs[path] = p
	return p, nil
}

func main() {
	f, _ := os.Open(os.Args[3])
	for s := bufio.NewScanner(f); s.Scan(); {
		if a, b, ok := strings.Cut(s.Text(), " "); ok && b != "" {
			exports[a] = b
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if e, ok := exports[path]; ok {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no package %s", path)
	}
	out := map[string][]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	lim := make(chan int, 8)
	for _, root := range os.Args[4:] {
		wg.Add(1)
		go func() {
			lim <- 1
			defer func() { <-lim; wg.Done() }()
			m := &imp{importer.ForCompiler(fset, "gc", lookup), map[string]*types.Package{}, map[string][]string{}, map[string]bool{}}
			filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
				if err != nil || !d.IsDir() {
					return err
				}
				if g, _ := filepath.Glob(filepath.Join(p, "*.go")); len(g) > 0 {
					r, _ := filepath.Rel(dir, p)
					m.Import(mod + "/" + r)
				}
				return nil
			})
			mu.Lock()
			defer mu.Unlock()
			for d, e := range m.errs {
				if len(e) > 0 {
					out[d] = e
				}
			}
		}()
	}
	wg.Wait()
	json.NewEncoder(os.Stdout).Encode(out)
}
'''

_probe = None


def typecheck(moddir, roots, module="verif.test/h"):
    """What the Go type checker says about the packages below each root: directory -> [error].
    Packages of different roots do not know each other."""
    d = os.path.join(core.scratch(), "typecheck")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "main.go"), "w") as f: f.write(TYPES)
    with open(os.path.join(d, "go.mod"), "w") as f: f.write("module typecheck\n\ngo 1.22\n")
    env = core.go_env()
    r = core.run(["go", "build", "-o", "typecheck", "."], cwd=d, env=env)
    if r.returncode: raise Infra("the type checker does not build: " + r.stderr)
    ex = os.path.join(d, "exports")
    r = core.run(["go", "list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}", "github.com/woven-planet/go-zserio", "github.com/woven-planet/go-zserio/ztype", "github.com/icza/bitio",
                  "errors", "fmt", "database/sql/driver", "strings", "math"], cwd=moddir, env=env)
    if r.returncode: raise Infra("no export data: " + r.stderr[-1000:])
    with open(ex, "w") as f: f.write(r.stdout)
    r = core.run([os.path.join(d, "typecheck"), module, moddir, ex] + roots, env=env, timeout=600)
    if r.returncode: raise Infra("the type checker fails: " + r.stderr[-1000:])
    return json.loads(r.stdout)


def probe(roots):
    """directory -> [declaration] or the reason why Go does not take its files"""
    global _probe
    if _probe is None:
        d = os.path.join(core.scratch(), "declprobe")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "main.go"), "w") as f: f.write(PROBE)
        with open(os.path.join(d, "go.mod"), "w") as f: f.write("module probe\n\ngo 1.21\n")
        r = core.run(["go", "build", "-o", "probe", "."], cwd=d, env=core.go_env())
        if r.returncode: raise Infra("the declaration probe does not build: " + r.stderr)
        _probe = os.path.join(d, "probe")
    r = core.run([_probe] + roots, env=core.go_env(), timeout=300)
    if r.returncode: raise Infra("the declaration probe fails: " + r.stderr[-500:])
    return json.loads(r.stdout)


def pkg_dir(p): return p.lower().replace(".", "/")


def sha(b): return hashlib.sha256(b).hexdigest()[:20]


def tree(root):
    """relative name -> content of the files below root"""
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h: res[os.path.relpath(p, root)] = h.read()
    return res


class History:
    """Runs of the generator on the packages of one world."""

    def __init__(self, i, w, base, mod=None):
        self.i, self.w, self.ev, self.log = i, w, [], []
        self.root = os.path.join(base, "h%03d" % i)
        self.src = os.path.join(self.root, "src")
        os.makedirs(self.src)
        self.files = {}
        for n, (p, t) in enumerate(zip(w.pkgs, w.files().values())):
            # the files are not called like the packages
            self.files[p] = os.path.join(self.src, "d%d" % (n % 2), "f%02d.%s" % ((n * 7) % 31, "zs" if n % 3 else "zserio"))
            os.makedirs(os.path.dirname(self.files[p]), exist_ok=True)
            with open(self.files[p], "w") as f: f.write(t)

    def out(self, o): return os.path.join(self.root, "o%02d" % o)

    def put(self, o, f, content):
        p = os.path.join(self.out(o), f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h: h.write(content)
        self.ev.append(dict(e="put", o="o%d" % o, f=f, c=sha(content)))
        self.log.append("put %s" % f)

    def run(self, o, ps, opts=(), whole=False, cwd=None, rel=False, only=None):
        """whole: give the directory; the packages ps must then be all of them."""
        args = [self.src] if whole else [self.files[p] for p in ps]
        if rel:
            cwd = self.src
            args = [os.path.relpath(a, cwd) for a in args]
        r = core.generate(args, self.out(o), self.rootpackage(o), extra=list(opts), cwd=cwd)
        fs = {f: sha(b) for f, b in tree(self.out(o)).items()}
        self.ev.append(dict(e="run", o="o%d" % o, ps=list(ps), opt=" ".join(opts), ok=r.returncode == 0, fs=fs, **{"in": {f: os.path.dirname(f) for f in fs}}))
        self.log.append("generate %s %s -> o%d%s" % (" ".join(opts), " ".join("." if whole else os.path.basename(a) for a in args), o, "" if r.returncode == 0 else ": " + core.complaint(r)[:200]))
        return r

    def rootpackage(self, o): return "verif.test/h/x"

    def stdout(self, p, ps, opts=()):
        r = core.generate([self.files[q] for q in ps], "-", self.rootpackage(0), only=p, extra=list(opts))
        self.ev.append(dict(e="stdout", p=p, ps=list(ps), opt=" ".join(opts), ok=r.returncode == 0, c=sha((r.stdout or "").encode())))
        self.log.append("generate %s --only %s -> stdout%s" % (" ".join(opts), p, "" if r.returncode == 0 else ": " + core.complaint(r)[:200]))
        return r

    def decls(self, p, l, own, lim=0, longest=0):
        """l: the declarations the probe found for package p"""
        self.ev.append(dict(e="decls", p=p, own=own, lim=lim, l=self.named(p, l), len=longest))
        self.log.append("declarations of %s%s" % (p, "" if own else " on stdout"))

    def named(self, p, l):
        """Go declarations in the terms of the schema."""
        con, typ, fun = {}, {}, {}
        for n, d in self.w.pkgs[p]["d"].items():
            g = harness.go_name(n)
            if d.get("tp"): continue
            if d["k"] == "const": con[g] = (n, "")
            else: typ[g] = n
            if d["k"] in ("enum", "mask"):
                for it in d["items"]: con[g + (world.go_camel(it[0]) if d["k"] == "enum" else harness.go_name(it[0]))] = (n, it[0])
            for f in d.get("fn") or (): fun[(g, harness.go_name(f))] = (n, f)
        res = []
        coded = {x["R"] for x in l if x["K"] == "func" and x["N"] == "MarshalZserio"}    # others help them
        for x in l:
            k, g = x["K"], x["N"]
            if k == "type" and g not in coded and g not in typ: continue
            if k == "type" or k == "alias": res.append(dict(k=k, n=typ.get(g, "?"), m="", f=x["F"]))
            elif k == "func" and (x["R"], g) in fun: res.append(dict(k=k, n=fun[(x["R"], g)][0], m=fun[(x["R"], g)][1], f=x["F"]))
            elif k in ("const", "var") and g in con: res.append(dict(k="const", n=con[g][0], m=con[g][1], f=x["F"]))
        return res

    def record(self):
        return dict(i=self.i, w=self.w.tla(), dir={p: pkg_dir(p) for p in self.w.pkgs}, ev=self.ev)


def judge(check, hs, name, sig, tags):
    """TLC judges the histories; wrong things whose tag is listed are violations."""
    hs = [h for h in hs if h.ev]
    p = core.write_ndjson(core.path(name, "histories.ndjson"), [h.record() for h in hs])
    r = core.tlc_ok("OutputTrace", "OutputTrace.cfg", env={"HISTORIES": p}, name=name)
    vs = {v["i"]: v for v in r.records("VERDICT")}
    if len(vs) != len(hs): raise Infra("%d histories, %d verdicts" % (len(hs), len(vs)))
    check.tlc(r)
    n = sum(len(h.ev) for h in hs)
    log("%s: %d histories with %d events judged by TLC in %.1fs" % (name, len(hs), n, r.wall))
    check.add("traces_validated_against_impl", len(hs))
    check.add("events", n)
    for h in hs:
        check.sample("%s: %s" % (h.w.note, "; ".join(h.log)[:300]))
        said = {}
        for b in vs[h.i]["bad"]:
            if b["w"] not in tags: continue
            said[b["w"]] = said.get(b["w"], 0) + 1
            if said[b["w"]] > 2: continue
            check.violation("%s:%s:%s" % (sig, b["w"], h.w.note), "%s: %s: %s" % (h.log[b["k"] - 1], b["w"], json.dumps(b["x"])[:500]),
                            dict(files=h.w.files(), history=h.log[:b["k"]], detail=b))
    return vs

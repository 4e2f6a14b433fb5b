#!/usr/bin/env python3
"""Make and confirm a planted bug: plant.py DEF.py [--check]

DEF.py sets ID, PROP, EDITS [(path, old, new)], MAIN (Go source of the demonstration, package main),
SCHEMAS {file name: text} (generated into the package root demo/gen), NEEDS, BREAKS, and
optionally GENARGS and SHELL (a demonstration in shell instead of MAIN).
"""
import json, os, re, shutil, subprocess, sys
REPO, OUT = "/repo", "/verif/seeded"
DEMO = r'''#!/bin/bash
# Exit 0: the behaviour is right. Run in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off CGO_ENABLED=%s
export PATH=$GOROOT/bin:$PATH
GOFLAGS=-mod=readonly go build -o "$d/go-zserio" ./cmd/go-zserio || exit 2
export GOFLAGS=-mod=mod
mkdir -p "$d/demo" && cp "$here"/*.go "$d/demo/"
v=$(awk '$1 == "go" {print $2; exit}' go.mod)
sed -e 's,^module .*,module demo,' go.mod > "$d/demo/go.mod"
printf 'require github.com/woven-planet/go-zserio v0.0.0\nreplace github.com/woven-planet/go-zserio => %%s\n' "$repo" >> "$d/demo/go.mod"
cp go.sum "$d/demo/"
if ls "$here"/*.zs >/dev/null 2>&1; then
  for f in "$here"/*.zs; do t=$(basename "$f"); t=$d/${t//__//}; mkdir -p "$(dirname "$t")"; cp "$f" "$t"; done
  (cd "$d" && ./go-zserio generate --out "$d/demo/gen" --rootpackage demo/gen %s %s) >"$d/gen.log" 2>&1 || { cat "$d/gen.log"; exit 1; }
fi
cd "$d/demo" && go build %s -o "$d/run" . && "$d/run"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    ns = {"GENARGS": "", "SCHEMAS": {}, "MAIN": None, "SHELL": None, "RACE": False}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(OUT, ns["ID"])
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("repo not clean")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, t in ns["SCHEMAS"].items():
        open(os.path.join(d, f), "w").write(t)
    if ns["MAIN"]:
        open(os.path.join(d, "main.go"), "w").write(ns["MAIN"])
    race = ns["RACE"]
    open(os.path.join(d, "demo.sh"), "w").write(ns["SHELL"] or DEMO % ("1" if race else "0", ns["GENARGS"], " ".join(f.replace("__", "/") for f in ns["SCHEMAS"]), "-race" if race else ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("bash /opt/vp/build.sh", cwd=REPO)
    r = sh(d + "/demo.sh", cwd=REPO)
    print("clean demo", r.returncode, r.stdout[-600:])
    ok = r.returncode == 0
    try:
        for p, old, new in ns["EDITS"]:
            f = os.path.join(REPO, p); t = open(f).read()
            if t.count(old) != 1: sys.exit("%s: %d matches of %r" % (p, t.count(old), old))
            bl = sh("git blame -s HEAD -- " + p, cwd=REPO).stdout.splitlines()
            open(f, "w").write(t.replace(old, new))
        sh("git -C /repo diff > %s/patch.diff" % d)
        # every removed line has to be of the base commit
        cur = None
        for l in open(d + "/patch.diff"):
            m = re.match(r"^--- a/(.*)", l)
            if m: cur = m.group(1); bl = sh("git blame -s HEAD -- " + cur, cwd=REPO).stdout.splitlines(); continue
            m = re.match(r"^@@ -(\d+)", l)
            if m: n = int(m.group(1)); continue
            if l.startswith("-") and not l.startswith("---"):
                if not bl[n-1].startswith("^"): print("NOT BASE LINE:", l.strip())
                n += 1
            elif l.startswith(" "): n += 1
        r = sh("bash /tmp/tst.sh")
        print(r.stdout[-500:])
        ok &= "missing []" in r.stdout and "BUILD FAIL" not in r.stdout
        r = sh(d + "/demo.sh", cwd=REPO)
        print("bug demo", r.returncode, r.stdout[-600:])
        ok &= r.returncode != 0
        print("PLANTED" if ok else "NOT VALID", ns["ID"])
        for pr in ([ns["PROP"]] if len(sys.argv) < 3 else sys.argv[2:]):
            r = sh("cd /verif && ./check %s" % pr)
            print("check", pr, r.returncode, "\n".join(l[:300] for l in r.stdout.splitlines() if "VIOLATION" in l)[:700])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh", cwd=REPO)
        print(sh("git -C /repo status --short").stdout)
main()

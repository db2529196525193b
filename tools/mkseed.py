#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], MAIN (Go source).
Builds /verif/seeded/ID after confirming it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the code behaves, nonzero otherwise; run with cwd = the repository
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp "$here"/*.go "$tmp"/
cat > "$tmp/go.mod" <<M
module demo

go 1.21.3

require github.com/jtcaraball/goexpdt v0.0.0

replace github.com/jtcaraball/goexpdt => $repo
M
cd "$tmp" || exit 2
mkdir -p "$tmp/t"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local TMPDIR="$tmp/t"
go build -o "$tmp/demo" . || exit 2
timeout 120 "$tmp/demo"
'''
def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    d = os.path.join(ROOT, "seeded", ns["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = tempfile.mkdtemp(prefix="seedwt")
    run("cp -a /repo/. %s/" % wt, "/")
    run("git checkout -q -- .", wt)
    for p, old, new in ns["EDITS"]:
        s = open(os.path.join(wt, p)).read()
        if s.count(old) != 1:
            print(ns["ID"], "edit of", p, "matches", s.count(old), "times"); sys.exit(1)
        open(os.path.join(wt, p), "w").write(s.replace(old, new))
    rc, diff = run("git diff", wt)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "main.go"), "w").write(ns["MAIN"].lstrip())
    if ns.get("SAT", True):
        shutil.copy(os.path.join(ROOT, "harness", "sat.go"), d)
        shutil.copy(os.path.join(ROOT, "tools", "dlib.go.txt"), os.path.join(d, "dlib.go"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    rc, out = run("go build $(go list ./... | grep -v examples) && go list -export ./examples", wt)
    if rc != 0:
        print(out); ok = False
    # the stable tests, in the copy
    rc, out = run("go test ./... 2>&1 | grep -E '^(FAIL|---|panic)' | head", wt)
    base, bout = run("go test ./... 2>&1 | grep -E '^(FAIL|---|panic)' | head", "/repo")
    if sorted(l.split()[1] for l in out.splitlines() if len(l.split()) > 1) != sorted(l.split()[1] for l in bout.splitlines() if len(l.split()) > 1):
        print("tests differ:", out, "| base:", bout); ok = False
    r0, o0 = run("bash %s/demo.sh" % d, "/repo")
    r1, o1 = run("bash %s/demo.sh" % d, wt)
    if r0 != 0 or r1 == 0:
        ok = False
    print(ns["ID"], "OK" if ok else "BAD", "unchanged", r0, o0.strip()[:300], "| planted", r1, o1.strip()[:300])
    shutil.rmtree(wt, ignore_errors=True)

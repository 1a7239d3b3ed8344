#!/usr/bin/env python3
"""mkseed.py DEF.py...: turns seed definitions into /verif/seeded/<id>/ after confirming them in a scratch
copy of /repo: the change builds, the existing tests pass with it, and the demo passes without and fails
with it. A definition sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST (Go test source)."""
import subprocess, sys, os, shutil, json, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$R/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/ov.json"
export TMPDIR="$T"
go test -overlay "$T/ov.json" -vet=off -count=1 -timeout 120s -run 'TestZZDemo' ./%(pkg)s
'''
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", HOME="/root")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests(d):
    for x in ["store/badger/testbadger", "store/boltdb/test", "store/goleveldb/test"]:
        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    r = subprocess.run("go test -json -vet=off -count=1 -timeout 5m ./...", shell=True, cwd=d, env=env, capture_output=True, text=True)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return sorted(stable - ok)
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    W = tempfile.mkdtemp(prefix="seedwork")
    rep = os.path.join(W, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", rep])
        out = os.path.join(root, "seeded", g["ID"])
        tmp = os.path.join(W, "seed"); os.makedirs(tmp)
        open(tmp + "/demo.sh", "w").write(DEMO % {"pkg": g["PKG"]}); os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/demo_test.go", "w").write(g["TEST"])
        r0 = subprocess.run(["bash", tmp + "/demo.sh"], cwd=rep, env=env, capture_output=True, text=True)
        if r0.returncode != 0:
            print(g["ID"], "DEMO FAILS ON CLEAN TREE", r0.stdout[-1500:], r0.stderr[-1500:]); continue
        bad = False
        for (p, a, b) in g["EDITS"]:
            s = open(os.path.join(rep, p)).read()
            if s.count(a) != 1: print(g["ID"], "EDIT NOT UNIQUE", p, s.count(a), repr(a)); bad = True; break
            open(os.path.join(rep, p), "w").write(s.replace(a, b))
        if bad: continue
        subprocess.run("gofmt -l $(git diff --name-only)", shell=True, cwd=rep)
        r = subprocess.run("go build ./...", shell=True, cwd=rep, env=env, capture_output=True, text=True)
        if r.returncode: print(g["ID"], "DOES NOT BUILD", r.stderr[-1500:]); continue
        m = tests(rep)
        if m: print(g["ID"], "TESTS FAIL", m); continue
        r1 = subprocess.run(["bash", tmp + "/demo.sh"], cwd=rep, env=env, capture_output=True, text=True)
        if r1.returncode == 0: print(g["ID"], "DEMO PASSES WITH THE CHANGE", r1.stdout[-500:]); continue
        if "build failed" in r1.stdout: print(g["ID"], "DEMO BUILD FAILED", r1.stdout[-800:]); continue
        d = subprocess.check_output(["git", "diff"], cwd=rep, text=True)
        open(tmp + "/patch.diff", "w").write(d)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(tmp + "/meta.json", "w"), indent=1)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(g["ID"], "OK:", [l for l in r1.stdout.splitlines() if "zz_demo" in l or "panic" in l][:2])
    finally:
        shutil.rmtree(W, ignore_errors=True)

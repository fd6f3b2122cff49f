#!/usr/bin/env python3
"""plant.py ID...: confirms planted changes in a scratch copy of /repo.
For each /verif/seeded/ID: patch applies, builds, stable tests pass, demo.sh is 0 without and
non-zero with the patch.   plant.py --make ID PKG: (edit done in /tmp/plant/work) writes patch.diff,
demo.sh for package PKG."""
import json, os, shutil, subprocess, sys, tempfile
S = "/verif/seeded"
DEMO = '''#!/bin/bash
# runs demo_test.go inside package PKG of the repository in the current directory
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/PKGzz_demo_test.go" "$d/demo_test.go" > "$t/overlay.json"
go test -overlay "$t/overlay.json" -vet=off -run '^TestZZDemo' -count=1 ./PKG
'''
def sh(c, cwd=None, timeout=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
def scratch():
    t = tempfile.mkdtemp(prefix="plant")
    sh("cp -a /repo %s/r" % t)
    sh("git checkout -q -- . && git clean -fdq", t + "/r")
    return t
def main(a):
    if a[0] == "--make":
        i, pkg = a[1], a[2].strip(".")
        pkg = pkg.strip("/") + "/" if pkg.strip("/") else ""
        os.makedirs(S + "/" + i, exist_ok=True)
        open(S + "/" + i + "/patch.diff", "w").write(sh("git diff", "/tmp/plant/work").stdout)
        open(S + "/" + i + "/demo.sh", "w").write(DEMO.replace("PKG", pkg))
        return
    stable = None
    for i in a:
        d = S + "/" + i
        t = scratch(); r = t + "/r"
        try:
            c = sh("bash %s/demo.sh" % d, r)
            if c.returncode: print(i, "DEMO FAILS ON CLEAN\n", c.stdout[-1500:], c.stderr[-500:]); continue
            p = sh("git apply %s/patch.diff" % d, r)
            if p.returncode: print(i, "PATCH", p.stderr); continue
            b = sh("go build ./... && go vet ./...", r)
            if b.returncode: print(i, "BUILD", b.stderr); continue
            b = sh("go test -count=1 ./...", r)
            if b.returncode: print(i, "TESTS FAIL", b.stdout[-1500:]); continue
            c = sh("bash %s/demo.sh" % d, r)
            if not c.returncode: print(i, "DEMO PASSES WITH PATCH"); continue
            print(i, "ok:", [l for l in c.stdout.splitlines() if "zz_demo" in l or "panic" in l][:2])
        finally:
            shutil.rmtree(t)
main(sys.argv[1:])

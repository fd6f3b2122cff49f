#!/usr/bin/env python3
"""Builds the planted changes from an edit list: seed1.py FILE.json... (see tools/bugs/)"""
import json, os, subprocess, sys, shutil
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        W = "/tmp/plant/work"
        shutil.rmtree("/tmp/plant", ignore_errors=True); os.makedirs("/tmp/plant")
        sh("git clone -q /repo " + W)
        for path, old, new in b["edits"]:
            s = open(W + "/" + path).read()
            assert s.count(old) == 1, (b["id"], path, old, s.count(old))
            open(W + "/" + path, "w").write(s.replace(old, new))
        sh("gofmt -l .", W)
        print(sh("python3 /verif/tools/plant.py --make %s %s" % (b["id"], b["pkg"] or "./")).stderr)
        d = "/verif/seeded/" + b["id"]
        open(d + "/demo_test.go", "w").write(b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree("/tmp/plant", ignore_errors=True)

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when the set of claimed properties changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
lem = {}
import re, glob
for f in glob.glob(V + "/spec/*/*.go"):
    for m in re.finditer(r"^func (V[LB]_(C\d\d)_\w+)", open(f).read(), re.M):
        lem.setdefault(m.group(2), []).append(m.group(1))
meta = json.load(open(V + "/spec/meta.json"))
checks, na = [], []
for i in ids:
    if i in lem:
        m = meta.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh %s quick" % i,
            "thorough_cmd": "bash check.sh %s thorough" % i,
            "technique": m.get("Technique", "contract-based deductive verification: lemmas and contracts over the real Go source, VCs generated from its SSA on every run and discharged by z3"),
            "level": m.get("Level", "proof"),
            "level_note": m.get("Note", "Every obligation generated from the current source is discharged for all inputs in the property's domain; cryptographic primitives are uninterpreted functions of all their inputs, standard-library functions have assumed contracts (listed in the evidence), the verifier and z3 are trusted."),
            "theorems": sorted(lem[i]),
        })
    else:
        na.append({"property": i, "reason": meta.get(i, {}).get("NotApplicable", "not built yet")})
json.dump({"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: specification files are added through an in-memory overlay when the package is loaded and through 'go test -overlay' when a failing input is replayed. /repo carries only fix: commits (see known-findings.txt)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")

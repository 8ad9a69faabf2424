#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when a contract names it."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claimed = set()
for d, _, fs in os.walk(V + "/contracts"):
    for f in fs:
        if f.endswith(".go"):
            for m in re.finditer(r"^//gov:props (.*)$", open(os.path.join(d, f)).read(), re.M):
                claimed |= set(m.group(1).split())
NOTES = json.load(open(V + "/tools/notes.json"))
NA = NOTES["not_applicable"]
BOUNDED = NOTES.get("bounded", {})
COMMON = ("Proof of every obligation for all inputs and iterations, from /repo's current source (go/ssa, nothing rewritten). "
          "Assumes: mathematical integers, one request at a time (no interleavings), termination not proved, the library models "
          "listed as trusted_base in the evidence, and gov, go/ssa, z3 and cvc5. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i not in claimed:
        na.append({"property": i, "reason": "no contract for it has been completed yet"})
    else:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": ("bounded check of some functions, the others by " if i in BOUNDED else "") + "contract-based deductive verification of the Go code (gov: contracts on the real functions, symbolic execution of go/ssa, z3/cvc5)",
                       "level": "other" if i in BOUNDED else "proof",
                       "level_note": (BOUNDED[i] + " Otherwise as for the other checks: " + COMMON if i in BOUNDED else COMMON + NOTES["notes"].get(i, "")).strip()})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo as it is", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. The fix: commits in /repo are listed in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print("claimed", [c["property"] for c in checks])

#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py.

Each seed: dict(id, prop, edits=[(file, old, new)], pkg, demo=Go test text, needs, breaks).
The patch is made by applying the edits in a scratch clone of /repo."""
import glob, json, os, runpy, subprocess, sys, tempfile, shutil
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# Exit 0 when the property holds in the tree at the working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/o.json" <<J
{"Replace": {"$repo/%(pkg)s/zz_demo_test.go": "$here/demo_test.go.txt"}}
J
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestDemo' "./%(pkg)s"
'''
def main():
    only = sys.argv[1:]
    seeds = []
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        seeds += runpy.run_path(f)["SEEDS"]
    assert len({s["id"] for s in seeds}) == len(seeds)
    for s in seeds:
        if only and s["id"] not in only: continue
        t = tempfile.mkdtemp(); r = t + "/r"
        sh("git clone -q /repo %s" % r)
        for f, old, new in s["edits"]:
            p = r + "/" + f; x = open(p).read()
            if x.count(old) != 1: print("!!", s["id"], f, "matches", x.count(old)); break
            open(p, "w").write(x.replace(old, new))
        else:
            d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True).stdout)
            open(d + "/demo.sh", "w").write(DEMO % s); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo_test.go.txt", "w").write(s["demo"].lstrip("\n"))
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            # scratch verification: demo on clean, then patched: build, tests, demo
            res = []
            sh("git -C %s stash -q" % r)
            res.append("demo-clean=%d" % sh("bash %s/demo.sh" % d, cwd=r).returncode)
            sh("git -C %s stash pop -q" % r)
            o = sh(". /opt/vp/env.sh; cd %s; go build ./... && go test -vet=off $(go list ./adapter/... ./config/... | grep -v 'adapter/adapter$') 2>&1 | grep -v 'no test files' | grep -E '^(FAIL|---|panic)' " % r)
            res.append("tests:" + (o.stdout.strip()[:300].replace("\n", ";") or "ok"))
            q = sh("bash %s/demo.sh" % d, cwd=r)
            res.append("demo-patched=%d%s" % (q.returncode, " BUILD" if "build failed" in q.stdout else ""))
            if "-v" in os.environ.get("MK", ""): print(q.stdout)
            print(s["id"], *res, flush=True)
        shutil.rmtree(t)
main()

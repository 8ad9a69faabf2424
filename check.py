#!/usr/bin/env python3
"""Decides one property: python3 check.py C06

1. builds gov (the deductive verifier in /verif/gov) and has it discharge every
   obligation of the contracts of the property, generated from /repo's current
   source;
2. runs the replay tests of the property against the real code: they turn a
   failed obligation into a failing input where one can be found;
3. writes evidence/<id>.json and, on a violation, evidence/<id>.replay.txt.

Exit 0: held. Exit 1: VIOLATION line.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/ibm-cloud-security/app-identity-and-access-adapter"
GO23 = "/opt/veriftools/go1.23.12"


def go_env():
    e = dict(os.environ)
    for k in ("KUBECONFIG", "KUBERNETES_SERVICE_HOST", "KUBERNETES_SERVICE_PORT", "CLUSTER_ROOT"):
        e.pop(k, None)
    e.update(HOME="/root", PATH=GO23 + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOROOT=GO23, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", GOWORK="off")
    return e


def build_gov(out):
    e = dict(os.environ)
    e.pop("GOROOT", None)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", HOME="/root")
    go = shutil.which("go1.26") or "/opt/veriftools/go1.26.10/bin/go"
    p = subprocess.run([go, "build", "-o", out, "."], cwd=os.path.join(VERIF, "gov"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("gov does not build: " + p.stdout)


def run_gov(prop, tier, tmp, refuted):
    """refuted: set once the replay has found a failing input; the verifier then gets little more time"""
    t0 = time.time()
    binary = os.path.join(tmp, "gov")
    build_gov(binary)
    out = os.path.join(tmp, "report")
    limit = 420 if tier == "quick" else 7200
    cmd = [binary, "check", "-prop", prop, "-tier", tier, "-repo", REPO,
           "-contracts", os.path.join(VERIF, "contracts"), "-out", out, "-budget", str(limit - 90)]
    log = open(os.path.join(tmp, "gov.log"), "w+")
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=dict(os.environ, HOME="/root", TMPDIR=tmp),
                         start_new_session=True)
    rc = None
    while rc is None:
        try:
            rc = p.wait(timeout=0.2)
        except subprocess.TimeoutExpired:
            if time.time() - t0 > (100 if refuted.is_set() and tier == "quick" else limit):
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "a timeout"
    log.seek(0)
    log = log.read()
    try:
        rep = json.load(open(os.path.join(out, "report.json")))
    except Exception:
        rep = {"Failed": [{"Name": "gov/run", "Status": "the verifier ended with %s: %s" % (rc, log[-3000:])}],
               "Obligations": 1, "Discharged": 0}
    rep["cmd"] = " ".join(["gov"] + cmd[1:6])
    rep["secs"] = time.time() - t0
    return rep


# ---- replay on the real code -------------------------------------------------

# properties part of which is checked to a bound only (by the replay tests)
BOUNDED = json.load(open(os.path.join(VERIF, "tools", "notes.json"))).get("bounded", {})


def replay_files(prop):
    """package directory -> (test files of the property, helper files)"""
    res = {}
    base = os.path.join(VERIF, "replay")
    for d, _, fs in os.walk(base):
        mine = [f for f in fs if f.endswith("_test.go") and
                re.search(r"func TestReplay_%s(_\w+)?\(" % prop, open(os.path.join(d, f)).read())]
        if mine:
            helpers = [f for f in fs if f.startswith("rp_") and f.endswith("_test.go") and f not in mine]
            res[os.path.relpath(d, base)] = (d, mine + helpers)
    return res


def run_replay(prop, tier, seed, tmp):
    out = []
    for pkg, (d, files) in sorted(replay_files(prop).items()):
        tag = hashlib.md5(pkg.encode()).hexdigest()[:6]
        ov = os.path.join(tmp, "ov_%s.json" % tag)
        json.dump({"Replace": {os.path.join(REPO, pkg, "zz_verif_" + f): os.path.join(d, f) for f in files}}, open(ov, "w"))
        stat = os.path.join(tmp, "replay_%s.json" % tag)
        e = go_env()
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, REPLAY_OUT=stat, TMPDIR=tmp)
        cmd = ["go", "test", "-vet=off", "-count=1", "-timeout", "240s" if tier == "quick" else "3000s", "-overlay", ov,
               "-run", "^TestReplay_%s(_|$)" % prop, "./" + pkg]
        r = {"package": pkg, "cmd": "go test -overlay ... -run ^TestReplay_%s ./%s" % (prop, pkg)}
        try:
            p = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=400 if tier == "quick" else 3600)
            r["rc"], r["log"] = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            r["rc"], r["log"] = -1, "timeout"
        r["stats"] = []
        if os.path.exists(stat):
            r["stats"] = [json.loads(l) for l in open(stat) if l.strip()]
        if r["rc"] == 0:
            r["state"] = "passed"
            if "no tests to run" in r["log"]:
                r["state"] = "unavailable"
        elif "[build failed]" in r["log"] or "[setup failed]" in r["log"] or r["rc"] == -1:
            r["state"] = "unavailable"
        elif "--- FAIL: TestReplay_" in r["log"] or "panic:" in r["log"] or "fatal error:" in r["log"]:
            r["state"] = "failed"
        else:
            r["state"] = "unavailable"
        if "panic: test timed out" in r["log"]:
            r["state"] = "unavailable"
        if len(r["log"]) > 20000:
            r["log"] = r["log"][:8000] + "\n...\n" + r["log"][-12000:]
        out.append(r)
    return out


def known_findings(prop):
    ks = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) obligation=\"([^\"]+)\" (.*)", l.strip())
            if m and m.group(1) == prop:
                ks[m.group(2)] = m.group(3)
    return ks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay_path = os.path.join(VERIF, "evidence", prop + ".replay.txt")
    if os.path.exists(replay_path):
        os.unlink(replay_path)
    box = {}

    refuted = threading.Event()

    def rp():
        try:
            box["replay"] = run_replay(prop, tier, seed, tmp)
            if any(r["state"] == "failed" for r in box["replay"]):
                refuted.set()
        except Exception as x:  # the replay is an audit; it never decides by failing to run
            box["replay"] = [{"package": "-", "state": "unavailable", "log": repr(x), "stats": [], "rc": -1, "cmd": ""}]

    try:
        th = threading.Thread(target=rp)
        th.start()
        try:
            rep = run_gov(prop, tier, tmp, refuted)
        except Exception as x:
            rep = {"Failed": [{"Name": "gov/run", "Status": repr(x)}], "Obligations": 1, "Discharged": 0, "cmd": "gov", "secs": 0}
        th.join()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    replays = box.get("replay", [])

    known = known_findings(prop)
    fails, found = [], {}
    for f in rep.get("Failed") or []:
        key = f["Name"]
        if key in known:
            found[key] = known[key]
        else:
            fails.append(f)
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, found[k], k))
    bad = [r for r in replays if r["state"] == "failed"]

    contracts = rep.get("Contracts") or []
    inl = rep.get("Inlined") or []
    cov = {
        "obligations": rep.get("Obligations", 0) - len(found),
        "discharged": rep.get("Discharged", 0),
        "checker_cmd": rep.get("cmd", "gov") + " (built from /verif/gov; z3 and cvc5)",
        "trusted_base": (rep.get("Assumed") or []) + [u for u in (rep.get("Used") or []) if u.startswith("model ")] +
        ["gov itself (symbolic execution of go/ssa, loop summaries), golang.org/x/tools/go/ssa, z3, cvc5"],
        "functions_under_contract": [{k.lower(): c.get(k) for k in ("Name", "Target", "Doc", "Obligations", "Paths", "Ms")} for c in contracts],
        "functions_verified_inline": inl,
        "contracts_used_for_callees": [u for u in (rep.get("Used") or []) if u.startswith("contract ")],
        "discharged_by": rep.get("ByBackend") or {},
        "solver_ms": rep.get("SolverMs", 0),
        "analysis_ms": rep.get("ExecMs", 0),
        "duplicate_obligations": rep.get("Duplicates", 0),
        "contracts_dropped": rep.get("Dropped") or [],
        "bounded": rep.get("Bounded") or [],
        "known_findings": sorted(found),
        "replay_audit_bounded": [{"package": r["package"], "state": r["state"], "cases": r["stats"]} for r in replays],
    }
    n = sum(s.get("cases", 0) for r in replays for s in r["stats"])
    cov["evaluations"] = n
    cov["rule"] = "evaluations: randomised inputs run through the real code by the replay tests (an audit of the contracts and models; not part of the proof)"
    if prop in BOUNDED:
        cov["explanation"] = BOUNDED[prop]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other" if prop in BOUNDED else "proof", "coverage": cov,
          "assumptions": (rep.get("Assumed") or []) + [
              "integers are mathematical (narrowing conversions are checked for range), floating point is uninterpreted",
              "one request at a time: interleavings of goroutines are not covered",
              "termination is not proved"],
          "wall_s": round(time.time() - t0, 2),
          "violations": len(fails) + len(bad)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    if not fails and not bad:
        print("%s: %d obligations of %d contracts discharged, %d replayed cases, %.1f s" %
              (prop, cov["discharged"], len(contracts), n, time.time() - t0))
        return 0
    with open(replay_path, "w") as o:
        o.write("property %s\n\n" % prop)
        for f in fails:
            o.write("FAILED OBLIGATION %s\n  status: %s (%s)\n  at: %s\n  via: %s\n  goal: %s\n" %
                    (f.get("Name"), f.get("Status"), f.get("Solver", ""), f.get("Pos", ""), f.get("Path", ""), f.get("Goal", "")))
            if f.get("Model"):
                o.write("  verifier's counterexample:\n" + f["Model"] + "\n")
            o.write("\n")
        for r in replays:
            o.write("REPLAY %s: %s\n  %s\n%s\n\n" % (r["package"], r["state"], r["cmd"], r["log"] if r["state"] != "passed" else ""))
    for f in fails[:20]:
        print("failed obligation: %s [%s] %s" % (f.get("Name"), f.get("Status", "")[:300], f.get("Pos", "")))
    for r in bad:
        print("failing input on the real code (%s):\n%s" % (r["package"], r["log"][-3000:]))
    print("VIOLATION property=%s replay=%s%s" % (prop, replay_path, "" if bad else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Decides one property: the deductive verifier first, a concrete search beside it.

The deciding step is govc accepting every obligation it generates from /repo's
current source. The search harness runs the real code: it looks for the failing
input of an undischarged obligation and, with a small budget, runs always.
"""
import json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BIN = os.path.join(ROOT, "bin")
GOVC = os.path.join(BIN, "govc")
HARN = os.path.join(BIN, "vharness")
ENV = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="")


def sh(cmd, cwd=None, timeout=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out


def fatal(msg):
    print("check.py:", msg)
    sys.exit(2)


def newest(d, exts):
    m = 0
    for r, ds, fs in os.walk(d):
        for f in fs:
            if f.endswith(exts):
                m = max(m, os.stat(os.path.join(r, f)).st_mtime)
    return m


def build_govc():
    os.makedirs(BIN, exist_ok=True)
    src = os.path.join(ROOT, "govc")
    if os.path.exists(GOVC) and os.stat(GOVC).st_mtime > newest(src, (".go", "go.mod")):
        return
    tmp = "%s.%d" % (GOVC, os.getpid())
    rc, out = sh(["go", "build", "-mod=vendor", "-o", tmp, "."], cwd=src, timeout=600)
    if rc != 0:
        fatal("building govc failed:\n" + out)
    os.replace(tmp, GOVC)


def build_harness():
    os.makedirs(BIN, exist_ok=True)
    tmp = "%s.%d" % (HARN, os.getpid())
    rc, out = sh(["go", "build", "-mod=mod", "-o", tmp, "."], cwd=os.path.join(ROOT, "harness"), timeout=600)
    if rc != 0:
        return "building the harness against /repo failed:\n" + out
    os.replace(tmp, HARN)
    return ""


def findings(prop):
    """known findings: dicts with id, what, obligations; fixed entries suppress nothing."""
    out = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        head, what = line[len("known:"):].strip().split(" :: ", 1)
        d = {"obligations": [], "what": what}
        for w in head.split():
            k, v = w.split("=", 1)
            if k == "obligation":
                d["obligations"].append(v)
            else:
                d[k] = v
        if d["property"] == prop:
            out.append(d)
    return out


def is_known(f, known):
    for k in known:
        for o in k["obligations"]:
            fn, _, site = o.partition("#")
            if f["kind"] == "ownership" and f["function"] == fn and site in f["obligation"]:
                return k
    return None


def main():
    if len(sys.argv) < 2:
        fatal("usage: check.sh PROPERTY [thorough] | replay SECTION SEED INDEX | build")
    if sys.argv[1] == "build":
        build_govc()
        e = build_harness()
        if e:
            fatal(e)
        print("built", GOVC, HARN)
        return 0
    if sys.argv[1] == "replay":
        e = build_harness()
        if e:
            fatal(e)
        rc, out = sh([HARN, "-section", sys.argv[2], "-seed", sys.argv[3], "-idx", sys.argv[4]])
        print(out, end="")
        return rc
    prop = sys.argv[1]
    tier = "thorough" if (len(sys.argv) > 2 and sys.argv[2] == "thorough") or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = os.path.join(ROOT, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evid = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(evid):
        os.remove(evid)
    build_govc()
    herr = build_harness()
    known = findings(prop)

    # 1. the proof
    summ = os.path.join(work, "govc.json")
    per = "20" if tier == "quick" else "90"
    limit = "330" if tier == "quick" else "1500"
    cmd = [GOVC, "-prop", prop, "-t", per, "-limit", limit, "-out", summ, "-spec", os.path.join(ROOT, "spec"), "-repo", REPO]
    genv = dict(ENV, GOFLAGS="-mod=mod")
    rc, out = sh(cmd, cwd=ROOT, timeout=450 if tier == "quick" else 2400, env=genv)
    try:
        g = json.load(open(summ))
    except Exception:
        g = {"obligations": 0, "discharged": 0, "failed": [], "outside_reach": {"govc": "no result (exit %s): %s" % (rc, out[-3000:])},
             "functions_under_contract": [], "lemmas": [], "by_backend": {}, "by_kind": {}, "solver_seconds": 0, "assumptions": [], "trusted": [], "samples": [], "vacuity_checks": 0, "wall_s": 0}
    for k in ("failed", "functions_under_contract", "lemmas", "assumptions", "trusted", "samples"):
        g[k] = g.get(k) or []
    errs = g.get("outside_reach") or {}
    open_obs = [f for f in g["failed"] if not is_known(f, known)]
    known_obs = [f for f in g["failed"] if is_known(f, known)]
    proved = not open_obs and not errs and g["obligations"] > 0
    print("%s: %d/%d obligations discharged over %d functions and %d lemmas (%.1f s)" %
          (prop, g["discharged"], g["obligations"], len(g["functions_under_contract"]), len(g["lemmas"]), g.get("wall_s", 0)))

    # 2. the concrete search on the real code
    def search(budget):
        rep = os.path.join(work, "search.json")
        if os.path.exists(rep):
            os.remove(rep)
        rc, out = sh([HARN, "-prop", prop, "-budget", str(budget), "-seed", str(seed), "-out", rep], timeout=budget + 200)
        try:
            return json.load(open(rep))
        except Exception:
            return {"cases": 0, "error": "no report (exit %s): %s" % (rc, out[-2000:])}
    if herr:
        s = {"cases": 0, "error": herr}
    else:
        budget = 12 if tier == "quick" else 240
        if not proved:
            budget = 60 if tier == "quick" else 400
        s = search(budget)
    fail = s.get("fail")

    # 3. recorded findings
    if known and not herr:
        rc, out = sh([HARN, "-prop", prop, "-known"], timeout=60)
        shown = [l.split(":", 1) for l in out.splitlines() if l.startswith("KNOWN ")]
        ids = {a[len("KNOWN "):]: b.strip() for a, b in shown}
        for k in known:
            if k["id"] in ids or any(is_known(f, [k]) for f in known_obs):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    # 4. verdict
    viol = 0
    rdir = os.path.join(ROOT, "replay")
    replay = os.path.join(rdir, prop + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    if fail or not proved:
        viol = 1
        os.makedirs(rdir, exist_ok=True)
        json.dump({"property": prop, "failing_input": fail, "undischarged_obligations": open_obs[:20], "outside_reach": errs,
                   "search": {k: v for k, v in s.items() if k != "fail"},
                   "how": "failing_input: run its replay_cmd; it runs the real code of /repo. undischarged_obligations: the named obligations that the verifier does not accept, with its output and the query."},
                  open(replay, "w"), indent=1)
        for f in open_obs[:8]:
            print("undischarged: %s (%s)" % (f["obligation"], f["position"]))
        for n, e in list(errs.items())[:8]:
            print("not verified: %s: %s" % (n, e[:300]))
        if fail:
            print("failing input: " + fail["failing_case"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        else:
            if s.get("error"):
                print("search: " + s["error"][:600])
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    samples = ["obligation " + x for x in g["samples"]]
    cov = {
        "obligations": g["obligations"], "discharged": g["discharged"],
        "known_finding_obligations": len(known_obs),
        "checker_cmd": " ".join(cmd),
        "functions_under_contract": g["functions_under_contract"], "lemmas": g["lemmas"],
        "by_backend": g["by_backend"], "by_kind": g["by_kind"], "solver_seconds": round(g["solver_seconds"], 2),
        "vacuity_checks": g["vacuity_checks"], "not_verified": errs,
        "trusted_base": BASE + g["trusted"],
        "samples": samples,
        "bounded_search": {"label": "bounded: never counted as proved", "cases": s.get("cases", 0), "nontrivial": s.get("nontrivial", 0),
                           "by_section": s.get("by_section", {}), "samples": (s.get("samples") or [])[:6], "error": s.get("error", "")},
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
               "assumptions": g["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": viol},
              open(evid, "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    return 1 if viol else 0


BASE = [
    "govc (/verif/govc): symbolic execution of the go/ssa form of /repo's current source, its loop rules and its weakest-precondition and SMT translation",
    "golang.org/x/tools/go/ssa: translation of Go source to SSA",
    "z3 (new), z3 4.8.12, cvc5: an unsat answer of any of them is accepted",
    "machine integers are treated as mathematical integers: no overflow, no out-of-memory",
    "assumed contracts of interfaces and library functions, listed under assumptions",
]

if __name__ == "__main__":
    sys.exit(main())

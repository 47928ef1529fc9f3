#!/usr/bin/env python3
"""check.py PROPERTY TIER: decide one property of bab on /repo's current tree.

1. govc verifies the contracts in contracts/PROPERTY.spec against the Go source
   (SSA of /repo's working tree, every run anew): the deciding step.
2. the bounded harness in harness/PROPERTY runs the real code: it replays and
   searches failing inputs for a failed obligation and stands in, labelled
   bounded, for what no contract covers.
"""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.25.14/bin"
GO26 = "/opt/veriftools/go1.26.10/bin"
T0 = time.time()

def goenv(v=GO):
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOSUMDB="off")
    e["PATH"] = v + ":" + e["PATH"]
    e.pop("CI", None); e.pop("NO_COLOR", None)
    return e

def log(*a):
    print(*a, flush=True)

def build_govc():
    d = os.path.join(VERIF, "govc")
    exe = os.path.join(d, "govc")
    with open(os.path.join(tempfile.gettempdir(), ".govc.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".go")]
        if os.path.exists(exe) and os.path.getmtime(exe) >= max(os.path.getmtime(f) for f in src):
            return exe, None
        p = subprocess.run(["go", "build", "-o", "govc", "."], cwd=d, env=goenv(GO26), capture_output=True, text=True)
        if p.returncode != 0:
            return None, p.stderr[-2000:]
        return exe, None

def run_govc(exe, spec, out, only=None, budget=None, timeout=600):
    cmd = [exe, "-spec", spec, "-repo", REPO, "-out", out]
    if only:
        cmd += ["-only", only]
    if budget:
        cmd += ["-budget", budget]
    try:
        p = subprocess.run(cmd, env=goenv(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "govc timed out"
    try:
        return json.load(open(out)), p.stderr
    except Exception:
        return None, p.stderr[-2000:]

def verify(pid, work):
    spec = os.path.join(VERIF, "contracts", pid + ".spec")
    if not os.path.exists(spec):
        return None
    exe, err = build_govc()
    if exe is None:
        return {"error": "govc does not build: " + err, "functions": []}
    rep, err = run_govc(exe, spec, os.path.join(work, "govc.json"))
    if rep is None:
        return {"error": "govc: " + str(err), "functions": []}
    # a verdict that ran into the time limit is asked for again with more time
    again = [f["contract"] for f in rep["functions"] if f["status"] == "failed" and not any(o["res"] == "sat" for o in f["obligations"])]
    if again and time.time() - T0 < 300:
        r2, _ = run_govc(exe, spec, os.path.join(work, "govc2.json"), only=",".join(again), budget="90s", timeout=400)
        if r2:
            new = {f["contract"]: f for f in r2["functions"]}
            rep["functions"] = [new.get(f["contract"], f) if f["contract"] in again else f for f in rep["functions"]]
    return rep

def run_harness(pid, tier, work):
    """Run every harness of the property; returns a list of result dicts."""
    d = os.path.join(VERIF, "harness", pid)
    res = []
    if not os.path.isdir(d):
        return res
    repl = {}
    pk = set()
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith(".go"):
                rel = os.path.relpath(os.path.join(root, f), d)
                repl[os.path.join(REPO, rel)] = os.path.join(root, f)
                if f.endswith("_test.go"):
                    pk.add("./" + os.path.dirname(rel))
    for f in glob.glob(os.path.join(VERIF, "harness", "lib", "*.go")):
        repl[os.path.join(REPO, "internal/verifh", os.path.basename(f))] = f
    for f in glob.glob(os.path.join(VERIF, "harness", "libload", "*.go")):
        repl[os.path.join(REPO, "internal/verifload", os.path.basename(f))] = f
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": repl}, open(ov, "w"))
    tmo = 240 if tier == "quick" else 780
    for p in sorted(pk):
        out = os.path.join(work, "h_" + re.sub(r"\W", "_", p) + ".json")
        sd = os.path.join(work, "s_" + re.sub(r"\W", "_", p))
        os.makedirs(sd, exist_ok=True)
        env = goenv()
        env.update(VERIF_OUT=out, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier, VERIF_SCRATCH=sd, VERIF_REPO=REPO, TMPDIR=sd)
        exe = os.path.join(work, "t_" + re.sub(r"\W", "_", p))
        try:
            r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", exe, p], cwd=REPO, env=env, capture_output=True, text=True, timeout=300)
            txt, rc = r.stdout + r.stderr, r.returncode
            if rc != 0 or not os.path.exists(exe):
                txt, rc = "[build failed] " + txt, rc or 2
            else:
                r = subprocess.run([exe, "-test.run", os.environ.get("HRE", "^TestVerif"), "-test.timeout", "%ds" % tmo], cwd=sd, env=env, capture_output=True, text=True, errors="replace", timeout=tmo + 60)
                txt, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as e:
            txt, rc = "timeout", -1
        h = {"package": p, "rc": rc, "violations": [], "evaluations": 0, "said": [l[6:] for l in txt.splitlines() if l.startswith("NOTE: ")][:20]}
        if os.path.exists(out):
            for line in open(out):
                try:
                    x = json.loads(line)
                except Exception:
                    continue
                if x.get("kind") == "violation":
                    h["violations"].append(x)
                else:
                    h.setdefault("parts", []).append(x)
                    h["evaluations"] += x.get("evaluations", 0)
        if rc != 0 and not h["violations"]:
            if "[build failed]" in txt or "[setup failed]" in txt:
                h["unavailable"] = "does not compile against this tree: " + txt[-1500:]
            elif "panic:" in txt or "fatal error:" in txt:
                h["violations"].append({"kind": "violation", "what": "the code crashed or did not return", "output": txt[-6000:]})
            else:
                h["unavailable"] = txt[-1500:]
        res.append(h)
    return res

def known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    meta = json.load(open(os.path.join(VERIF, "tools", "meta.json"))).get(pid, {})
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    os.chmod(work, 0o755)
    replays = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)
    try:
        rc = check(pid, tier, seed, meta, work, replays)
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", work], capture_output=True)
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, seed, meta, work, replays):
    rep = verify(pid, work)
    fns = rep["functions"] if rep else []
    nob = sum(len(f.get("obligations") or []) for f in fns)
    ndis = sum(1 for f in fns for o in (f.get("obligations") or []) if o["res"] == "unsat")
    failed = [f for f in fns if f["status"] == "failed"]
    unsup = [f for f in fns if f["status"] == "unsupported"]
    har = run_harness(pid, tier, work)
    kn = known(pid)
    viol = []
    for h in har:
        for v in h["violations"]:
            k = v.get("key", "")
            hit = [t for kk, t in kn if kk and kk == k]
            if hit:
                log("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
                continue
            viol.append(v)
    for f in fns:
        bad = [o for o in (f.get("obligations") or []) if o["res"] != "unsat"]
        log("  %-46s %-11s obligations %d, discharged %d %s" % (f["contract"], f["status"], len(f.get("obligations") or []), len(f.get("obligations") or []) - len(bad), f.get("why", "")))
        for o in bad[:8]:
            log("      not discharged: %s at %s (%s %s)" % (o["name"], o["where"], o["solver"], o["res"]))
    for h in har:
        log("  bounded harness %s: %d evaluations, %d violations %s" % (h["package"], h["evaluations"], len(h["violations"]), h.get("unavailable", "")[:800]))
    lines = []
    if failed or viol:
        path = os.path.join(replays, pid + ".txt")
        with open(path, "w") as f:
            f.write("property %s\n" % pid)
            for v in viol[:20]:
                f.write("\nfailing input found by running the real code:\n" + json.dumps(v, indent=1, ensure_ascii=False) + "\n")
            for r in failed:
                for o in r["obligations"]:
                    if o["res"] != "unsat":
                        f.write("\nfailed obligation: %s of the contract of %s (%s), at %s\nverifier's answer: %s (%s)\ngoal:\n%s\n" % (o["name"], r["contract"], r["pos"], o["where"], o["res"], o["solver"], o.get("goal", "")))
                        for t in o.get("trace") or []:
                            f.write("  path: %s\n" % t)
                        if o.get("query"):
                            f.write("query:\n%s\n" % o["query"])
        tail = "" if viol else " no-failing-input-found"
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, tail))
    evidence(pid, tier, seed, meta, rep, fns, nob, ndis, failed, unsup, har, viol)
    for v in viol[:5]:
        log("  failing input: " + json.dumps(v, ensure_ascii=False)[:1500])
    for l in lines:
        log(l)
    return 1 if lines else 0

def evidence(pid, tier, seed, meta, rep, fns, nob, ndis, failed, unsup, har, viol):
    ev = sum(h["evaluations"] for h in har)
    dist = sum(p.get("distinct", 0) for h in har for p in h.get("parts", []))
    samples = [s for h in har for p in h.get("parts", []) for s in p.get("samples", [])][:12]
    rules = [p.get("rule", "") for h in har for p in h.get("parts", [])]
    solver = {}
    for f in fns:
        for n, (calls, solved, ms) in (f.get("solver_stat") or {}).items():
            s = solver.setdefault(n, {"calls": 0, "decided": 0, "seconds": 0.0})
            s["calls"] += calls; s["decided"] += solved; s["seconds"] = round(s["seconds"] + ms / 1000.0, 2)
    models = sorted({m for f in fns for m in f.get("models") or []})
    notes = sorted({m for f in fns for m in f.get("notes") or []})
    inl = sorted({m for f in fns for m in f.get("inlined") or []})
    used = sorted({m for f in fns for m in f.get("used_contracts") or []})
    mine = {f["contract"] for f in fns}
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "govc -spec contracts/%s.spec -repo %s" % (pid, REPO),
        "trusted_base": ["govc (this framework's translator: Go SSA of the working tree to verification conditions)", "golang.org/x/tools/go/ssa, go 1.25 type checker", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"]
            + ["model of " + m for m in models] + ["contract assumed here: " + u for u in used if u not in mine],
        "functions_under_contract": [{"function": f["contract"], "at": f.get("pos", ""), "status": f["status"], "why": f.get("why", ""), "obligations": len(f.get("obligations") or []), "discharged": sum(1 for o in f.get("obligations") or [] if o["res"] == "unsat"), "paths": f.get("paths", 0), "ms": f.get("ms", 0), "loop_invariants": f.get("loops") or {}, "return_reachable": f.get("reachable", False)} for f in fns],
        "functions_inlined_in_proofs": inl,
        "solvers": solver,
        "bounded_stand_in": {"evaluations": ev, "packages": [{k: h.get(k) for k in ("package", "rc", "evaluations", "unavailable", "said") if h.get(k) is not None} for h in har], "note": "bounded, never counted as proved"},
        "evaluations": ev, "distinct_nontrivial": dist, "rule": "; ".join(r for r in rules if r) or "no bounded part", "samples": samples or ["none"],
        "explanation": meta.get("covers", ""),
    }
    if rep and rep.get("error"):
        cov["verifier_error"] = rep["error"]
    if unsup:
        cov["not_proved_on_this_tree"] = [{"function": f["contract"], "why": f.get("why", "")} for f in unsup]
    e = {"property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "other"), "coverage": cov,
         "assumptions": meta.get("assumptions", []) + ["machine integers are treated as mathematical integers", "partial correctness: a function that does not return satisfies its postconditions"] + notes,
         "wall_s": round(time.time() - T0, 2), "violations": len(viol) + sum(1 for f in failed for o in f["obligations"] if o["res"] != "unsat")}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)

main()

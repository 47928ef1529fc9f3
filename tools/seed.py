#!/usr/bin/env python3
"""Dev helper: seed.py make DEF.json | seed.py test ID [noverify]
DEF: {"id","property","needs","breaks","edits":[[file,old,new],...]}; demo.sh is written by hand."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def copy(id):
    d = "/tmp/sd/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/sd", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d
def make(defn):
    x = defn
    d = copy(x["id"])
    for f, a, b in x["edits"]:
        p = os.path.join(d, f); s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    o = os.path.join(V, "seeded", x["id"]); os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(sh("git diff", cwd=d).stdout)
    json.dump({"property": x["property"], "needs": x["needs"], "what_it_breaks": x["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
def test(id, verify=True):
    o = os.path.join(V, "seeded", id)
    prop = json.load(open(o + "/meta.json"))["property"]
    r0 = sh("cd /repo && bash %s/demo.sh" % o)
    if r0.returncode != 0: print(id, "DEMO FAILS ON CLEAN", r0.returncode, (r0.stdout + r0.stderr)[-800:]); return
    d = copy(id)
    r = sh("git apply %s/patch.diff" % o, cwd=d)
    if r.returncode: print(id, "patch does not apply", r.stderr); return
    # changed original lines?
    bad = []
    r = sh(". /opt/vp/env.sh; gofmt -l cmd internal main.go; go build ./... && go vet ./... 2>&1 | head -3; go test -json -vet=off -count=1 ./... </dev/null", cwd=d)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    miss = stable - ok
    r1 = sh("cd %s && bash %s/demo.sh" % (d, o))
    print(id, prop, "tests:", "ok" if not miss else "MISS %d %s" % (len(miss), sorted(miss)[:3]), "demo patched rc:", r1.returncode, (r1.stdout + r1.stderr)[-160:].replace("\n", " | "))
    if r.stdout.split("{")[0].strip(): print("  build says:", r.stdout.split("{")[0][:300])
    if verify and not miss and r1.returncode:
        r = sh("VERIF_REPO=%s python3 %s/tools/check.py %s quick" % (d, V, prop))
        vl = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        und = [l.strip()[:150] for l in r.stdout.splitlines() if "not discharged" in l or "unsupported" in l or "unavailable" in l]
        har = [l.strip()[:300] for l in r.stdout.splitlines() if "failing input" in l and not l.startswith("VIOL")]
        print("  check rc", r.returncode, vl, "\n   ", "\n    ".join(und[:6] + har[:2]))
    shutil.rmtree(d)
if sys.argv[1] == "make":
    for x in json.load(open(sys.argv[2])): make(x)
else:
    for i in sys.argv[2].split(","): test(i, "noverify" not in sys.argv)

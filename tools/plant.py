#!/usr/bin/env python3
"""plant.py new <id> <spec.py>   make /verif/seeded/<id>/ from a spec (FILE, EDITS, DEMO, PROPERTY, NEEDS, BREAKS)
plant.py verify <id>...          apply to /repo, run the stable tests, the demo and the property's check, undo
plant.py check  <id>...          apply, run only the property's check (and --all: every check), undo"""
import json, os, subprocess, sys, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded"); REPO = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
DEMO_SH = """#!/bin/bash
# run with cwd /repo: exit 0 on the unchanged tree, nonzero with the change
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
CXX=g++-14; command -v $CXX >/dev/null || CXX=g++
$CXX -std=c++23 -O1 -g %s -I src/core/include -I src/majordomo/include -I src/disruptor/include -I 3rd_party -I src/client/include -I src/serialiser/include "$D/demo.cpp" -o "$T/demo" -pthread || exit 3
timeout 120 "$T/demo"
"""
def clean(): sh(f"git -C {REPO} checkout -- .")
def new(i, spec):
    ns = {}; exec(open(spec).read(), ns)
    d = os.path.join(SEED, i); os.makedirs(d, exist_ok=True)
    clean()
    try:
        for e in ns["EDITS"]:
            f, a, b = e if len(e) == 3 else (ns["FILE"], *e)
            p = os.path.join(REPO, f); t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {REPO} diff").stdout)
    finally: clean()
    open(os.path.join(d, "demo.cpp"), "w").write(ns["DEMO"].lstrip())
    if ns.get("STUBS"):
        shutil.rmtree(d + "/stubs", ignore_errors=True); os.makedirs(d + "/stubs"); shutil.copy(VERIF + "/stubs/refl.hpp", d + "/stubs"); shutil.copytree(VERIF + "/stubs/units", d + "/stubs/units")
        ns["FLAGS"] = ns.get("FLAGS", "") + ' -w -I "$D/stubs"'
    p = os.path.join(d, "demo.sh"); open(p, "w").write(ns.get("DEMO_SH", DEMO_SH % ns.get("FLAGS", ""))); os.chmod(p, 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def verify(i, full=True, allc=False):
    d = os.path.join(SEED, i); m = json.load(open(d + "/meta.json")); out = [i, m["property"]]
    clean()
    if full:
        r = sh(f"bash {d}/demo.sh", cwd=REPO); out.append(f"demo-clean={r.returncode}")
        if r.returncode: print(r.stdout[-600:], r.stderr[-1500:])
    r = sh(f"git -C {REPO} apply {d}/patch.diff")
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stderr); return
    try:
        if full:
            sh("bash /opt/vp/test.sh /tmp/plant.json")
            res = json.load(open("/tmp/plant.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [s for s in st if s not in res["passed"]]
            out.append(f"tests-missing={miss}")
            r = sh(f"bash {d}/demo.sh", cwd=REPO); out.append(f"demo-bug={r.returncode}")
            if r.returncode == 3: print(r.stderr[-1500:])
        props = [m["property"]]
        if allc: props = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
        claimed = {c["property_id"] if "property_id" in c else c.get("property") for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]}
        for p in props:
            if p not in claimed: out.append(f"{p}:not-claimed"); continue
            r = sh(f"python3 {VERIF}/check.py {p} quick")
            v = [l for l in r.stdout.splitlines() if "violated:" in l]
            if r.returncode or p == m["property"]: out.append(f"{p}:rc={r.returncode} {v[0].strip()[:160] if v else (r.stderr[-300:] if r.returncode not in (0,1) else '')}")
    finally: clean()
    print(" | ".join(out), flush=True)
if __name__ == "__main__":
    c = sys.argv[1]
    if c == "new": new(sys.argv[2], sys.argv[3]); verify(sys.argv[2])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(SEED))
        for i in ids: verify(i, c == "verify", "--all" in sys.argv)

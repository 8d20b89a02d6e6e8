#!/usr/bin/env python3
"""mut.py <file.py> [name...]: the file defines M = [(name, props, [(file, old, new)...], 'bug'|'ok')...]; every mutant is
applied to a scratch copy of /repo's sources and the named checks are run against the copy (development aid)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(m):
    name, props, edits, kind = m
    t = tempfile.mkdtemp(prefix="mut_"); out = []
    try:
        for d in ("src", "3rd_party", "concepts"):
            if os.path.isdir("/repo/" + d): shutil.copytree("/repo/" + d, t + "/" + d, symlinks=True)
        for f, a, b in edits:
            s = open(f"{t}/{f}").read()
            if s.count(a) < 1: return name, kind, [("EDIT", f"not found: {a[:60]!r}")]
            open(f"{t}/{f}", "w").write(s.replace(a, b))
        for p in props:
            r = subprocess.run([sys.executable, V + "/check.py", p, "quick"], env={**os.environ, "VERIF_REPO": t, "VERIF_EVIDENCE": t + "/ev"}, capture_output=True, text=True)
            last = (r.stdout.strip().splitlines() or [r.stderr[-300:]])
            bad = [l for l in r.stdout.splitlines() if l.strip().startswith(("violated", "VIOLATED", "  ")) or 'violat' in l]
            out.append((f"{p}:exit{r.returncode}", (bad[0] if r.returncode == 1 and bad else last[-1])[:260]))
    finally: shutil.rmtree(t)
    return name, kind, out
if __name__ == "__main__":
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    ms = [m for m in ns["M"] if not sys.argv[2:] or m[0] in sys.argv[2:]]
    with ThreadPoolExecutor(7) as ex:
        for name, kind, out in ex.map(one, ms):
            codes = [c for c, _ in out]
            good = any("exit1" in c for c in codes) if kind == "bug" else all("exit0" in c for c in codes)
            print(("good" if good else "**** " + ("MISSED" if kind == "bug" else "FALSE ALARM")), name, codes)
            if not good or '-v' in os.environ.get('MUTV', ''):
                for c, l in out: print("      ", c, l)

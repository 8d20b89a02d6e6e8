"""Check runner plumbing: obligations, known findings, evidence, verdict lines."""
import json, os, sys, time, hashlib, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")

PROVED, VIOLATED, UNDECIDED = "proved", "violated", "undecided"

class Report:
    """what one check analysed and concluded"""
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obl = {}            # key -> dict
        self.functions = set()
        self.sites = 0
        self.rules = []
        self.assumptions = []
        self.notes = []
        self.stats = {}
        self.t0 = time.time()
    # ---------------------------------------------------------------------------------
    def rule(self, text):
        if text not in self.rules: self.rules.append(text)
    def assume(self, text):
        if text not in self.assumptions: self.assumptions.append(text)
    def fn(self, *names):
        for n in names: self.functions.add(n if isinstance(n, str) else n.dname)
    def _put(self, key, status, where, detail):
        o = self.obl.get(key)
        rank = {PROVED: 0, UNDECIDED: 1, VIOLATED: 2}
        if o is None or rank[status] > rank[o["status"]]:
            self.obl[key] = {"status": status, "where": where, "detail": detail}
    def ok(self, key, where="", detail=""): self._put(key, PROVED, where, detail)
    def bad(self, key, where, detail): self._put(key, VIOLATED, where, detail)
    def unk(self, key, where="", detail=""): self._put(key, UNDECIDED, where, detail)
    def require(self, cond, key, where, detail):
        (self.ok if cond else self.bad)(key, where, detail)
        return bool(cond)

    def dump(self): return dict(obl=self.obl, functions=self.functions, sites=self.sites, rules=self.rules, assumptions=self.assumptions, notes=self.notes, stats=self.stats)
    def merge(self, d):
        for k, o in d["obl"].items(): self._put(k, o["status"], o["where"], o["detail"])
        self.functions |= d["functions"]; self.sites += d["sites"]; self.stats.update(d["stats"])
        for r in d["rules"]: self.rule(r)
        for r in d["assumptions"]: self.assume(r)
        self.notes += [n for n in d["notes"] if n not in self.notes]

def par(rep, jobs, limit=480):
    """run the jobs (functions of a report) in forked processes, one report each, and merge them in order"""
    import pickle
    def spawn(job):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r); sub = Report(rep.prop, rep.tier)
                try: job(sub); out = (None, sub.dump())
                except BaseException as e: out = ((type(e).__name__, str(e), traceback.format_exc()), sub.dump())
                with os.fdopen(w, "wb") as f: pickle.dump(out, f)
            except BaseException: code = 3
            finally: os._exit(code)
        os.close(w); return pid, r
    import select
    todo = list(enumerate(jobs)); res = {}; live = {}; t1 = time.time() + limit
    while todo or live:
        while todo and len(live) < 8:
            k, job = todo.pop(0); pid, r = spawn(job); live[r] = [k, pid, []]
        left = t1 - time.time()
        if left <= 0:
            for r, (k, pid, _) in live.items():
                os.kill(pid, 9); os.waitpid(pid, 0); os.close(r); rep.unk(f"internal.{k}", "", "time limit reached")
            for k, _ in todo: rep.unk(f"internal.{k}", "", "time limit reached")
            break
        for r in select.select(list(live), [], [], left)[0]:
            d = os.read(r, 1 << 20)
            if d: live[r][2].append(d); continue
            k, pid, buf = live.pop(r); os.close(r); os.waitpid(pid, 0)
            try: res[k] = pickle.loads(b"".join(buf))
            except Exception: res[k] = (("ChildDied", "analysis process ended abnormally", ""), None)
            if res[k][1] and any(o["status"] == VIOLATED for o in res[k][1]["obl"].values()): t1 = min(t1, time.time() + 20)
    import ir
    for k in sorted(res):
        err, d = res[k]
        if d: rep.merge(d)
        if err:
            if err[0] in ("AnalysisBroken", "CompileError"): raise ir.AnalysisBroken(err[1])
            rep.unk(f"internal.{k}", "", f"{err[0]}: {err[1]}"); rep.notes.append(err[2][-1500:])

def load_known(prop):
    """known-findings.txt: `known: property=<id> key=<obligation key> -- <text>` and
    `fixed: property=<id> <commit> <text>` (the latter suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("known:"): continue
            head, _, text = l[6:].partition(" -- ")
            kv = dict(x.split("=", 1) for x in head.split() if "=" in x)
            if kv.get("property") == prop: out[kv["key"]] = text
    return out

def finish(rep, level, explanation):
    known = load_known(rep.prop)
    viol = {k: o for k, o in rep.obl.items() if o["status"] == VIOLATED}
    new = {k: o for k, o in viol.items() if k not in known}
    old = {k: o for k, o in viol.items() if k in known}
    undec = {k: o for k, o in rep.obl.items() if o["status"] == UNDECIDED}
    proved = [k for k, o in rep.obl.items() if o["status"] == PROVED]
    ev = {
        "property": rep.prop, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": explanation,
            "obligations": len(rep.obl), "discharged": len(proved), "undecided": len(undec), "violated": len(viol),
            "functions_analysed": sorted(rep.functions)[:400], "n_functions": len(rep.functions),
            "sites": rep.sites, "rules": rep.rules, "stats": rep.stats,
            "undecided_list": [f"{k} @ {o['where']}: {o['detail']}"[:300] for k, o in sorted(undec.items())][:60],
            "obligation_list": [f"{k} [{o['status']}] @ {o['where']}: {o['detail']}"[:260] for k, o in sorted(rep.obl.items())][:200],
            "checker_cmd": f"python3 {VERIF}/check.py {rep.prop}",
            "trusted_base": ["clang 18 front end and the LLVM 18 normalisation passes", "/verif/lib (analysis engine)", "/verif/stubs (interfaces of absent third-party headers)", "C++ standard library contracts as modelled in /verif/lib"],
            "notes": rep.notes,
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": [f"{k} @ {o['where']}: {o['detail']}"[:600] for k, o in sorted(new.items())],
    }
    EV = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, rep.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, o in sorted(old.items()):
        print(f"KNOWN-FINDING: property={rep.prop} {k} {o['where']}: {known[k]}")
    print(f"{rep.prop}: {len(rep.obl)} obligations, {len(proved)} proved, {len(undec)} undecided, {len(viol)} violated ({len(old)} known); {len(rep.functions)} functions, {ev['wall_s']} s")
    if new:
        rp = os.path.join(EV, rep.prop + ".violation.txt")
        with open(rp, "w") as f:
            for k, o in sorted(new.items()):
                f.write(f"{k}\n  at {o['where']}\n  {o['detail']}\n")
            f.write("rules applied:\n" + "\n".join("  " + r for r in rep.rules) + "\n")
        for k, o in sorted(new.items()):
            print(f"  violated: {k} @ {o['where']}: {o['detail']}")
        print(f"VIOLATION property={rep.prop} replay={rp}")
        return 1
    for k, o in sorted(undec.items())[:20]:
        print(f"  undecided: {k} @ {o['where']}: {o['detail']}"[:400])
    return 0

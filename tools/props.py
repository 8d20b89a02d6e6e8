"""single source for properties.jsonl, MANIFEST.json and checks/registry.py  (run: python3 tools/props.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def prop(id, title, statement, over, qtext, why, files, mech, module=None, fn=None, technique=None, level="proof", note="", expl="", state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, module=module, fn=fn, technique=technique, level=level, note=note, expl=expl, state=state, observe=observe))
def na(id, reason): NA.append((id, reason))
exec(open(os.path.join(V, "tools", "proplist.py")).read())
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []; reg = ["# generated by tools/props.py", "CHECKS = {"]
    nas = {i for i, _ in NA}
    for p in P:
        if p["id"] in nas: continue
        assert p["module"], p["id"]
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        reg.append(f"    {p['id']!r}: ({p['module']!r}, {p['fn']!r}, {p['level']!r}, {p['expl'] or p['note']!r}),")
    reg.append("}")
    open(os.path.join(V, "checks", "registry.py"), "w").write("\n".join(reg) + "\n")
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in NA]}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if True: main()

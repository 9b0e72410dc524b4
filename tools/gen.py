#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
from props import PROPS, NA
ids = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        ids.append(p["id"])
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
assert len(set(ids)) == len(ids)
checks = []
for i in ids:
    if i in NA:
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i} quick",
        "thorough_cmd": f"python3 run.py {i} thorough",
        "technique": "symbolic execution of the compiled code's LLVM IR (own engine symx), path conditions and assertions decided by Z3",
        "level": "model_checking",
        "level_note": "Every path within the bounds is explored and every assertion on it decided by the solver; counterexamples and sampled paths are replayed natively. Quick bounds: "
        + c["bounds"]["quick"] + " Outside: " + c.get("outside", "longer inputs.") + " Trusts: rustc's IR, the engine's libc model, Z3."})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the harness crate uses the public API and includes the command-line tools' sources by path. fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
T = os.path.join(V, "tools")
d = open(os.path.join(T, "design_head.md")).read() + "\n## Properties\n"
for p in PROPS:
    i = p["id"]
    d += f"\n### {i} {p['title']}\n\n{p['statement']}\n\nCode: " + "; ".join(f"{a} ({b})" for a, b in p["mech"]) + ".\n\n"
    if i in NA:
        d += f"Not applicable: {NA[i]}\n"
        continue
    c = CHECKS[i]
    d += f"Decided by symbolic execution of entries {', '.join(e['name'] for e in c['entries'])} (harness/src/{c['feature']}.rs). "
    d += c.get("design", "") + f"\n\nBounds, quick: {c['bounds']['quick']} Thorough: {c['bounds']['thorough']} Outside: {c.get('outside', 'longer inputs.')}\n\nWhy tests cannot: {p['why']}\n"
caught = {}
cf = os.path.join(T, "caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
rows = []
S = os.path.join(V, "seeded")
for k in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, k, "meta.json")))
    rows.append(f"| {k} | {m['property']} | {m['needs']} | {caught.get(k, 'not run')} |")
d += open(os.path.join(T, "design_tail.md")).read().replace("@SEEDED@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
print(len(ids), "properties,", len(checks), "checks")

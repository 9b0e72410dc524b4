#!/usr/bin/env python3
"""try.py [ID...]: apply each planted bug to /repo, run its property's quick check, undo; records tools/caught.json"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
cf = os.path.join(V, "tools", "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for k in sys.argv[1:] or sorted(os.listdir(S)):
    p = json.load(open(os.path.join(S, k, "meta.json")))["property"]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"], text=True).strip()
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, k, "patch.diff")], check=True)
    try:
        r = subprocess.run([sys.executable, "run.py", p, "quick"], cwd=V, stdout=subprocess.PIPE, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    ok = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
    ent = sorted(set(l.split(":")[0] for l in r.stdout.splitlines() if ", violations" in l))
    caught[k] = f"{p} ({', '.join(ent)})" if ok else f"missed (exit {r.returncode})"
    print(k, caught[k], flush=True)
    if not ok:
        print(r.stdout[-2500:])
    json.dump(caught, open(cf, "w"), indent=1, sort_keys=True)

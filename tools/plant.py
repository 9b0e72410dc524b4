#!/usr/bin/env python3
"""plant.py ID PROPERTY < spec : make and confirm a seeded change in a scratch copy of /repo.
spec (python literal): {"edits": [(file, old, new)...], "needs":..., "breaks":..., "demo": text, "files": {name: text}}"""
import ast, json, os, subprocess, sys, shutil
S = "/tmp/plantwork/repo"
SEED = "/verif/seeded"
def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def fresh():
    if not os.path.exists(S):
        os.makedirs("/tmp/plantwork", exist_ok=True)
        sh(["cp", "-a", "/repo", S])
    sh(f"git -C {S} checkout -q -- . && git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD")
def build():
    r = sh("sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/plantwork/env.sh; . /tmp/plantwork/env.sh; cd %s && cargo build --workspace --offline && cargo test --workspace --no-run --offline" % (S, S), executable="/bin/bash")
    return r.returncode, r.stdout
def tests():
    sh("sed 's#/opt/vp/env.sh#/tmp/plantwork/env.sh#' /opt/vp/test.sh > /tmp/plantwork/test.sh")
    r = sh(f"cd {S} && bash /tmp/plantwork/test.sh /tmp/plantwork/t.json")
    t = json.load(open("/tmp/plantwork/t.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return r.stdout[-1500:], t, base
def main():
    sid, prop = sys.argv[1], sys.argv[2]
    spec = ast.literal_eval(sys.stdin.read())
    fresh()
    d = f"{SEED}/{sid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(spec["demo"])
    for n, t in spec.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
    rc, o = build()
    if rc: print("base build failed", o[-800:]); return 1
    r0 = sh(["bash", d + "/demo.sh"], cwd=S)
    if r0.returncode != 0:
        print("demo fails on base:", r0.stdout[-800:]); return 1
    for f, a, b in spec["edits"]:
        p = f"{S}/{f}"
        s = open(p).read()
        if s.count(a) != 1: print("edit matches", s.count(a), "times:", a); return 1
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh(["git", "-C", S, "diff"]).stdout)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = build()
    if rc: print("patched build failed", o[-1500:]); return 1
    r1 = sh(["bash", d + "/demo.sh"], cwd=S)
    out, t, base = tests()
    import re
    m = re.findall(r"\d+ passed, \d+ failed", out)
    print(sid, "demo with patch: exit", r1.returncode, r1.stdout[-300:].strip(), "| tests:", m[-1:] or out[-300:])
    fresh()
    ok = r1.returncode != 0 and m and m[-1] == "159 passed, 0 failed"
    print("CONFIRMED" if ok else "REJECTED")
    return 0 if ok else 1
sys.exit(main())

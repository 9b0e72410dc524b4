#!/usr/bin/env python3
"""Decide one property: build the engine and the harness IR from /repo's working tree, execute the
harness entries symbolically, replay counterexamples and sampled paths natively, write evidence.

usage: run.py ID [quick|thorough]
exit 0: held on everything explored; 1: VIOLATION printed; 2: no verdict (error of the check)
"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

B = os.path.join(V, "build")
H = os.path.join(V, "harness")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class Err(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(kw)
    return e


def sh(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        tail = "\n".join(x[:300] for x in p.stdout.splitlines()[-60:])
        raise Err(f"{what} failed (exit {p.returncode}):\n{tail}")
    return p.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], "building the engine", cwd=os.path.join(V, "engine"),
       env=env(CARGO_TARGET_DIR=os.path.join(B, "engine")))
    return os.path.join(B, "engine", "release", "symx")


def lockfile():
    dst = os.path.join(H, "Cargo.lock")
    src = "/repo/Cargo.lock" if os.path.exists("/repo/Cargo.lock") else "/opt/vp/Cargo.lock"
    if not os.path.exists(dst) or os.path.getmtime(src) > os.path.getmtime(dst):
        shutil.copy(src, dst)


def feats(cid, tier):
    f = CHECKS[cid].get("feature", cid.lower())
    return f + (",thorough" if tier == "thorough" else "")


def build_ir(cid, tier):
    t = os.path.join(B, "ir")
    for f in glob.glob(os.path.join(t, "sym", "deps", "vh*.ll")):
        os.unlink(f)
    os.utime(os.path.join(H, "src", "lib.rs"))  # the IR file is not part of cargo's fingerprint
    sh(["cargo", "rustc", "--lib", "--offline", "-q", "--profile", "sym", "--features", feats(cid, tier),
        "--crate-type", "cdylib", "--", "--emit=llvm-ir"],
       "building the harness IR", cwd=H,
       env=env(CARGO_TARGET_DIR=t, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"))
    ll = [f for f in glob.glob(os.path.join(t, "sym", "deps", "vh*.ll"))]
    if len(ll) != 1:
        raise Err(f"expected one IR file, found {ll}")
    out = os.path.join(B, f"{cid}.ll")
    shutil.copy(ll[0], out)
    return out


def build_replay(cid, tier, release=False):
    t = os.path.join(B, "native")
    cmd = ["cargo", "build", "--offline", "-q", "--bin", "replay", "--features", feats(cid, tier)]
    if release:
        cmd.append("--release")
    sh(cmd, "building the native replay", cwd=H, env=env(CARGO_TARGET_DIR=t))
    src = os.path.join(t, "release" if release else "debug", "replay")
    dst = os.path.join(B, f"replay-{cid}-{'rel' if release else 'dev'}")
    shutil.copy(src, dst)
    return dst


def write_input(path, entry, inputs, note):
    with open(path, "w") as f:
        f.write(f"# {entry}: {note}\n")
        for n, b in inputs:
            f.write(n + "\t" + " ".join(str(x) for x in b) + "\n")


def replay(binary, entry, path, timeout=20):
    """-> (failed, text)"""
    d = path + ".scratch"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        p = subprocess.run([binary, entry, path], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                           timeout=timeout, env=env(TMPDIR=d))
        err = p.stderr.decode("utf8", "replace")[-600:]
        if p.returncode in (43, 44, 45):
            return None, err
        return p.returncode != 0, f"exit {p.returncode}: {err}"
    except subprocess.TimeoutExpired:
        return True, f"no end after {timeout} s"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_entry(symx, ll, e, tier, workers, outdir):
    name = e["name"]
    d = os.path.join(outdir, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    limit = e.get("time_thorough", 3000) if tier == "thorough" else e.get("time", 400)
    cmd = [symx, ll, name, "--out", d, "--time", str(limit), "--workers", str(workers),
           "--steps", str(e.get("steps", 40_000_000))]
    if e.get("fp_conc"):
        cmd.append("--fp-conc")
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit + 300)
    if p.returncode != 0:
        raise Err(f"symx on {name}: exit {p.returncode}: {p.stdout[-800:]}")
    tot = {"entry": name, "wall_s": round(time.time() - t0, 2)}
    for f in sorted(glob.glob(os.path.join(d, "*.json"))):
        r = json.load(open(f))
        for k in ("paths", "done", "assumed_away", "exits", "forks", "steps", "domain_decided", "cache_hits", "asserts",
                  "queries", "sat", "unsat", "solver_s", "left"):
            tot[k] = tot.get(k, 0) + r[k]
        tot["max_query_s"] = max(tot.get("max_query_s", 0), r["max_query_s"])
        for k in ("covers", "inconclusive", "viol_counts"):
            for a, b in r[k].items():
                tot.setdefault(k, {})
                tot[k][a] = tot[k].get(a, 0) + b
        tot.setdefault("violations", []).extend(r["violations"])
        tot.setdefault("samples", []).extend(r["samples"])
        tot["funcs"] = sorted(set(tot.get("funcs", [])) | set(r["funcs"]))
    return tot


def show(inputs):
    return " ".join(f"{n}={bytes(b)!r}" for n, b in inputs)


def main():
    cid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    c = CHECKS[cid]
    entries = [e for e in c["entries"] if tier == "thorough" or not e.get("thorough_only")]
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lockfile()
    with cf.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine)
        fi = ex.submit(build_ir, cid, tier)
        fr = ex.submit(build_replay, cid, tier)
        symx, ll, dev = fe.result(), fi.result(), fr.result()
    t_build = time.time() - t0
    outdir = os.path.join(B, "out", cid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    res = []
    light = [e for e in entries if not e.get("heavy")]
    heavy = [e for e in entries if e.get("heavy")]
    with cf.ThreadPoolExecutor(8) as ex:
        res += list(ex.map(lambda e: run_entry(symx, ll, e, tier, 1, outdir), light))
    for e in heavy:
        res.append(run_entry(symx, ll, e, tier, 8, outdir))
    # ---- verdict
    rdir = os.path.join(B, "replay", cid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    rel = None
    problems = []
    confirmed = []
    known = []
    validated = 0
    by_name = {e["name"]: e for e in entries}
    for r in res:
        e = by_name[r["entry"]]
        seen = {}
        for i, v in enumerate(r.get("violations", [])):
            key = (v["kind"], v["msg"])
            if seen.get(key, 0) >= 2:
                continue
            path = os.path.join(rdir, f"{r['entry']}.{i}.txt")
            write_input(path, r["entry"], v["inputs"], f"{v['kind']}: {v['msg']}")
            bad, text = replay(dev, r["entry"], path)
            how = "dev"
            if not bad:
                if rel is None:
                    rel = build_replay(cid, tier, release=True)
                bad, text2 = replay(rel, r["entry"], path)
                how = "release"
                text = f"{text} / {text2}"
            if bad:
                seen[key] = 9
                (known if e.get("known") else confirmed).append((r["entry"], v, path, how, text))
            else:
                seen[key] = seen.get(key, 0) + 1
                if seen[key] >= 2 or all(x["kind"] != v["kind"] or x["msg"] != v["msg"] for x in r["violations"][i + 1:]):
                    problems.append(f"{r['entry']}: counterexample not confirmed natively: {v['kind']}: {v['msg']} with {show(v['inputs'])} ({text.strip()[:300]}) stack {v['stack'][:4]}")
        if e.get("known"):
            continue
        if r.get("inconclusive"):
            problems.append(f"{r['entry']}: inconclusive paths: {json.dumps(r['inconclusive'])[:600]}")
        if r["left"] and not r.get("violations"):
            problems.append(f"{r['entry']}: exploration incomplete, {r['left']} states left after {r['wall_s']} s")
        if not r.get("violations"):
            for w in e.get("covers", ["end"]):
                if not r.get("covers", {}).get(w):
                    problems.append(f"{r['entry']}: vacuous: no path reached '{w}'")
            for i, s in enumerate(r.get("samples", [])[:6]):
                path = os.path.join(rdir, f"{r['entry']}.sample{i}.txt")
                write_input(path, r["entry"], s, "sampled path, held symbolically")
                bad, text = replay(dev, r["entry"], path)
                if bad is False:
                    validated += 1
                    os.unlink(path)
                else:
                    problems.append(f"{r['entry']}: native run disagrees with the engine on {show(s)}: {text.strip()[:300]}")
    names = [f"k:{x[0]}" for x in known]
    for k in known:
        print(f"KNOWN-FINDING: property={cid} {by_name[k[0]]['known']}")
    funcs = sorted(set(f for r in res for f in r.get("funcs", [])))

    def tot(k):
        return sum(r.get(k, 0) for r in res)

    samples = []
    for r in res:
        for s in r.get("samples", [])[:1]:
            samples.append(f"{r['entry']}: {show(s)}")
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12] or ["none"],
            "bounds": c["bounds"][tier] if isinstance(c["bounds"], dict) else c["bounds"],
            "outside_bounds": c.get("outside", ""),
            "entries": {r["entry"]: {k: r.get(k, 0) for k in ("paths", "forks", "steps", "asserts", "queries", "sat", "unsat", "solver_s", "max_query_s", "domain_decided", "cache_hits", "wall_s")} | {"covers": r.get("covers", {}), "bounds": by_name[r["entry"]].get("bounds", "")} for r in res},
            "solver": "z3 4.8.12 (libz3), QF_BV / QF_FPBV",
            "queries_discharged": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
            "decided_by_byte_domain": tot("domain_decided"),
            "solver_time_s": round(tot("solver_s"), 3),
            "assertions_evaluated": tot("asserts"),
            "functions_encoded": len(funcs), "functions": funcs[:400],
            "build_s": round(t_build, 1),
            "known_findings_reproduced": names,
            "problems": problems[:20],
        },
        "assumptions": c.get("assumptions", []) + [
            "the LLVM IR rustc 1.99.1 emits (opt-level 2, overflow checks on, panic=abort) means what the shipped build means; sampled paths and every counterexample are replayed natively",
            "the engine's model of libc (allocation never fails, single thread, virtual files, fixed clock and random seed)",
            "AWS SDK and tokio are replaced by stand-ins (stubs/)",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    with open(os.path.join(V, "evidence", f"{cid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in res:
        print(f"{r['entry']}: {r['paths']} paths, {r['forks']} forks, {r['steps']} steps, {r['asserts']} asserts, {r['queries']} queries "
              f"({r['unsat']} unsat, {r['solver_s']:.1f} s), {r['wall_s']} s" + (f", violations {r['viol_counts']}" if r.get("viol_counts") else ""))
    print(f"{cid} {tier}: build {t_build:.1f} s, total {time.time() - t0:.1f} s, {validated} traces validated natively")
    for p in problems:
        print("PROBLEM:", p)
    if confirmed:
        for entry, v, path, how, text in confirmed[:8]:
            print(f"  {entry}: {v['kind']}: {v['msg']}\n    input {show(v['inputs'])}\n    native ({how}): {text.strip()[:400]}")
        print(f"VIOLATION property={cid} replay={confirmed[0][2]}")
        return 1
    return 2 if problems else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Err as e:
        print("ERROR:", e)
        rc = 2
    sys.exit(rc)

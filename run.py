#!/usr/bin/env python3-vt
"""Driver: decides one property by discharging the obligations of its contracts.

  run.py --property C01 [--tier quick|thorough] [--only NAME] [-v]
  run.py --replay FILE        re-run the failing input of a replay file on /repo
  run.py --list
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VC_REPO", "/repo")
EVID = os.environ.get("VC_EVIDENCE", os.path.join(HERE, "evidence"))
PYTHON = os.environ.get("VC_PYTHON", "/opt/venv/bin/python")
LEVELS = {"quick": dict(samples=10, budget=120.0), "thorough": dict(samples=60, budget=400.0)}
SEARCH = dict(samples=150)


def load_specs():
    from vc import contract
    d = os.path.join(HERE, "specs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("specs." + f[:-3])
    return contract.REG


def pyrun(cases, record=False, again=True, timeout=600):
    req = {"path": [REPO, os.path.join(HERE, "drivers")], "cases": cases, "record": record, "again": again}
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    p = subprocess.run([PYTHON, os.path.join(HERE, "vc", "pyrun.py")], input=json.dumps(req), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env, cwd="/")
    if p.returncode or not p.stdout:
        raise RuntimeError("runner failed: %s" % p.stderr[-2000:])
    return json.loads(p.stdout)


def build(con):
    from vc import contract as C
    b = C.B(con.target)
    con.fn(b)
    return b




def concrete(con, tier, seed, samples, hints=(), big=()):
    from vc import contract as C
    import numpy as np
    b = build(con)
    rng = random.Random("%s-%s-%s" % (con.id, seed, samples))
    nrng = np.random.default_rng(rng.randrange(2 ** 32))
    envs = []
    for h in hints:
        for rep in range(2):
            try:
                envs.append(C.gen_env(b, rng, nrng, h))
            except C.Reject:
                pass
    n = b.samples or samples
    for _ in range(n):
        try:
            envs.append(C.gen_env(b, rng, nrng))
        except C.Reject:
            break
    cases = []
    for i, env in enumerate(envs):
        c = {"target": con.target, "args": [C.to_conc(a, env, rng) for a in b.args], "kw": {k: C.to_conc(a, env, rng) for k, a in b.kw.items()}, "seed": 1000 + i}
        if not b.repeat:
            c["norepeat"] = True
        if b.draw_plan:
            c["draws"] = [[d[1], [float(x) for x in env.arrays[d[0]].ravel()]] for d in b.draw_plan]
        cases.append(c)
    fails = []
    if cases:
        rs = pyrun(cases)
        for c, env, r in zip(cases, envs, rs):
            try:
                msgs = C.check_concrete(b, env, r)
            except Exception as ex:
                import traceback
                return {"n": len(cases), "fails": fails, "error": "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1200:])}
            if msgs:
                rr = dict(r)
                rr.pop("again", None)
                fails.append({"contract": con.id, "messages": msgs, "case": c, "vars": {k: (int(v) if isinstance(v, (int, np.integer)) else float(v)) for k, v in env.vars.items()}, "arrays": {k: {"shape": list(v.shape), "data": [float(x) for x in v.ravel()]} for k, v in env.arrays.items()}, "observed": rr})
    return {"n": len(cases), "fails": fails}


def work(job):
    idx, tier, seed = job
    from vc import contract as C
    con = C.REG[idx]
    lv = LEVELS[tier]
    t0 = time.time()
    if con.bounded:
        sym = {"contract": con.id, "obs": [], "unsupported": None, "funcs": [], "libs": [], "paths": 0, "samples": [], "seconds": 0.0}
    else:
        sym = C.verify_symbolic(con, REPO, lv["budget"])
    obs = [o.js() for o in sym["obs"]]
    undis = sym["unsupported"] or any(o["status"] != "proved" for o in obs)
    n = lv["samples"]
    hints = sym["samples"][:12]
    try:
        conc = concrete(con, tier, seed, n if not con.bounded else max(n, 40), hints)
        if undis and not conc["fails"] and not conc.get("error"):
            hints = sym["samples"] + search_sizes(con)
            c2 = concrete(con, tier, seed + 1, SEARCH["samples"], hints)
            conc = {"n": conc["n"] + c2["n"], "fails": c2["fails"], "error": c2.get("error")}
    except Exception as ex:
        import traceback
        conc = {"n": 0, "fails": [], "error": "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1200:])}
    sym["obs"] = obs
    return {"id": con.id, "name": con.name, "target": con.target, "note": con.note, "bounded": con.bounded, "sym": sym, "conc": conc, "seconds": time.time() - t0}


def search_sizes(con):
    """sizes next to integer constants in the source of the target module"""
    import ast
    mod = con.target.split(":")[0]
    ks = set()
    f = os.path.join(REPO, mod.replace(".", "/") + ".py")
    if not os.path.exists(f):
        f = os.path.join(REPO, mod.replace(".", "/"), "__init__.py")
    files = [f] if os.path.exists(f) else []
    if not files:
        return []
    tree = ast.parse(open(f, encoding="utf8").read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and 6 < n.value <= 300:
            ks.update((n.value - 1, n.value, n.value + 1))
    b = build(con)
    out = []
    names = [v[0] for v in b.ints]
    lows = {v[0]: v[3][0] if not callable(v[3]) else v[1] for v in b.ints}
    for k in sorted(ks)[:12]:
        for n in names[:3]:
            d = dict(lows)
            d[n] = k
            out.append(d)
            d2 = dict(lows)
            d2[n] = k // 2
            out.append(d2)
    return out


def setup():
    """nothing to build: check that the tools the checks use are there"""
    import z3
    r = subprocess.run([os.environ.get("VC_PYTHON", "/opt/venv/bin/python"), "-c", "import numpy, scipy; print(numpy.__version__)"], capture_output=True, text=True)
    print("z3", z3.get_version_string(), "numpy of the code under test", r.stdout.strip() or r.stderr[-300:])
    try:
        l = subprocess.run(["lean", os.path.join(HERE, "lean", "LoopRules.lean")], capture_output=True, text=True, timeout=600)
        print("lean: the loop rules are", "proved" if l.returncode == 0 and not l.stdout.strip() else "NOT proved: " + l.stdout[-500:])
    except (OSError, subprocess.TimeoutExpired) as ex:
        print("lean not run:", ex)
    os.makedirs(EVID, exist_ok=True)
    return 0 if r.returncode == 0 else 1


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--vv", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    reg = load_specs()
    if a.list:
        for c in reg:
            print(c.id, "(bounded)" if c.bounded else "")
        return 0
    if a.replay:
        return replay(a.replay, reg)
    prop = a.property
    tier = a.tier if a.tier in LEVELS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    idx = [i for i, c in enumerate(reg) if c.prop == prop and (not a.only or a.only in c.id)]
    if tier != "thorough":
        idx = [i for i in idx if not reg[i].thorough]
    if not idx:
        print("no contract for %s" % prop)
        return 1
    ctx = mp.get_context("fork")
    results = []
    limit = 780 if tier == "quick" else 3000
    with ctx.Pool(min(a.jobs, len(idx)), maxtasksperchild=1) as pool:
        pend = [(i, pool.apply_async(work, ((i, tier, seed),))) for i in idx]
        for i, p in pend:
            try:
                r = p.get(timeout=max(5, limit - (time.time() - t0)))
            except mp.TimeoutError:
                r = {"id": reg[i].id, "name": reg[i].name, "target": reg[i].target, "note": "", "bounded": False, "sym": {"obs": [], "unsupported": "time limit of the check reached", "funcs": [], "libs": [], "paths": 0, "samples": [], "seconds": limit}, "conc": {"n": 0, "fails": []}, "seconds": limit}
            except Exception as ex:
                r = {"id": reg[i].id, "name": reg[i].name, "target": reg[i].target, "note": "", "bounded": False, "sym": {"obs": [], "unsupported": "internal: %s" % ex, "funcs": [], "libs": [], "paths": 0, "samples": [], "seconds": 0}, "conc": {"n": 0, "fails": []}, "seconds": 0}
            results.append(r)
            if a.v and (r["sym"]["unsupported"] or r["conc"]["fails"] or r["conc"].get("error") or any(o["status"] != "proved" for o in r["sym"]["obs"]) or a.vv):
                show(r)
        pool.terminate()
    return report(prop, tier, seed, results, t0, a)


def show(r):
    obs = r["sym"]["obs"]
    print("%-60s obs %d/%d paths %d conc %d fails %d  %.1fs" % (r["id"], sum(o["status"] == "proved" for o in obs), len(obs), r["sym"]["paths"], r["conc"]["n"], len(r["conc"]["fails"]), r["seconds"]))
    if r["sym"]["unsupported"]:
        print("   UNSUPPORTED", r["sym"]["unsupported"])
    for o in obs:
        if o["status"] != "proved":
            print("   UNDISCHARGED %s: %s" % (o["obligation"], o["detail"][:900]))
    if r["conc"].get("error"):
        print("   ERROR", r["conc"]["error"])
    for f in r["conc"]["fails"][:3]:
        print("   FAIL", f["messages"], f["vars"])
    sys.stdout.flush()


def report(prop, tier, seed, results, t0, a):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    import glob
    for f in glob.glob(os.path.join(EVID, "replay", "%s-*.json" % prop)):
        os.unlink(f)
    known = known_findings(prop)
    nob = ndis = 0
    secs = 0.0
    violations = []
    bounded = []
    funcs, libs = set(), set()
    back = {}
    ncases = 0
    finding_hits = {}
    for r in results:
        obs = r["sym"]["obs"]
        nob += len(obs)
        ndis += sum(o["status"] == "proved" for o in obs)
        for o in obs:
            if o["status"] == "proved":
                back[o["backend"]] = back.get(o["backend"], 0) + 1
        secs += r["sym"].get("seconds", 0.0)
        funcs |= set(r["sym"]["funcs"])
        libs |= set(r["sym"]["libs"])
        ncases += r["conc"]["n"]
        fails = r["conc"]["fails"]
        bad = [o for o in obs if o["status"] != "proved"]
        kf = [k for k in known if k["contract"] == r["id"]]
        if kf:
            # a listed defect: only the listed obligations / messages are excused
            for k in kf:
                hit = False
                for o in list(bad):
                    if any(s in o["obligation"] + ": " + o["detail"] for s in k["match"]):
                        bad.remove(o)
                        hit = True
                for f in list(fails):
                    if all(any(s in m for s in k["match"]) for m in f["messages"]):
                        fails.remove(f)
                        hit = True
                if hit:
                    finding_hits[k["id"]] = k
        if fails:
            violations.append((r, "input", fails[0], bad))
        elif r["conc"].get("error"):
            violations.append((r, "none", {"error": r["conc"]["error"]}, bad))
        elif bad:
            violations.append((r, "none", None, bad))
        elif r["bounded"]:
            bounded.append({"contract": r["id"], "cases": r["conc"]["n"], "reason": r["note"] or "bounded by declaration"})
        elif r["sym"]["unsupported"]:
            bounded.append({"contract": r["id"], "cases": r["conc"]["n"], "reason": r["sym"]["unsupported"][:600]})
        elif not obs:
            violations.append((r, "none", {"error": "no obligation was generated"}, []))
    lines = []
    for n, (r, kind, f, bad) in enumerate(violations):
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, n))
        with open(path, "w") as fh:
            json.dump({"property": prop, "contract": r["id"], "target": r["target"], "failed_obligations": bad, "failing_input": f if kind == "input" else None, "verifier_output": None if kind == "input" else f, "unsupported": r["sym"]["unsupported"], "replay_cmd": "python3-vt /verif/run.py --replay %s" % path}, fh, indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if kind == "input" else " no-failing-input-found"))
        print("%s: %s" % (r["id"], "; ".join(f["messages"]) if kind == "input" else "; ".join("%s" % (o["obligation"],) for o in bad) or str(f)[:600]))
    import_hash = source_hash()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": nob, "discharged": ndis, "by_backend": back,
            "checker_cmd": "VERIF_TIER=%s python3-vt /verif/run.py --property %s" % (tier, prop),
            "functions_under_contract": sorted(set(r["target"] for r in results)),
            "functions_executed_symbolically": sorted(funcs),
            "trusted_base": sorted(libs),
            "solver_seconds": round(secs, 2),
            "contracts": [{"id": r["id"], "obligations": len(r["sym"]["obs"]), "discharged": sum(o["status"] == "proved" for o in r["sym"]["obs"]), "paths": r["sym"]["paths"], "seconds": round(r["seconds"], 2), "concrete_cases": r["conc"]["n"]} for r in results],
            "undischarged": [o for r in results for o in r["sym"]["obs"] if o["status"] != "proved"][:50],
            "bounded_stand_ins": bounded,
            "concrete_validation_cases": ncases,
            "source_sha256": import_hash,
        },
        "assumptions": ASSUMPTIONS + sorted(set(r["note"] for r in results if r["note"])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not a.only:
        with open(os.path.join(EVID, prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for k in known:
        if k["id"] in finding_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d contracts, %d/%d obligations discharged, %d bounded stand-ins, %d concrete validation cases, %.1fs" % (prop, len(results), ndis, nob, len(bounded), ncases, time.time() - t0))
    for b in bounded:
        print("BOUNDED %s: %s" % (b["contract"], b["reason"].splitlines()[0][:200]))
    for l in lines:
        print(l)
    return 1 if lines else 0


ASSUMPTIONS = [
    "floating point arithmetic is treated as real arithmetic; rounding, overflow, NaN and infinities are outside the contracts",
    "numpy/scipy functions are trusted through the models in vc/npmodel.py (listed in trusted_base); every run validates them against the real code on the concrete cases",
    "the verifier itself (vc/*.py: symbolic executor, loop rules, polynomial normal form) and z3 are trusted",
    "print, warnings.warn and logging have no effect on results",
    "memory exhaustion (MemoryError branches) is not modelled",
]


def source_hash():
    h = hashlib.sha256()
    for root, d, files in sorted(os.walk(os.path.join(REPO, "PyDynamic"))):
        d.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()


def replay(path, reg):
    import numpy as np
    from vc import contract as C, evalnum
    d = json.load(open(path))
    f = d["failing_input"]
    if not f:
        print("no failing input: obligation(s) not discharged:")
        for o in d["failed_obligations"]:
            print(" ", o["obligation"], "-", o["detail"])
        print(d.get("verifier_output"))
        return 1
    con = [c for c in reg if c.id == d["contract"]][0]
    b = build(con)
    env = evalnum.Env(f["vars"], {k: np.array(v["data"]).reshape(v["shape"]) for k, v in f["arrays"].items()})
    r = pyrun([f["case"]])[0]
    msgs = C.check_concrete(b, env, r)
    print("replay on %s: %s" % (REPO, msgs or "conforms"))
    return 1 if msgs else 0


if __name__ == "__main__":
    sys.exit(main())

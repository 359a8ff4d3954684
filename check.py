#!/usr/bin/env python3-vt
"""Decides one property:  check.py C05 [--tier quick|thorough]

1. proofs/<ID>.py gives the verification units; each is run on the source of /repo as it is now.
2. oracles/<ID>.py runs the real code on generated inputs (bounded cross-check and search for failing inputs).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
QUICK_S = 60
UNIT_S = 660


def unit_worker(pid, idx, tier, q):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    out = {"idx": idx, "unsupported": [], "obls": {}, "assumptions": [], "functions": []}
    t0 = time.time()
    try:
        from pyvc.program import Program
        m = importlib.import_module("proofs." + pid)
        us = m.units(tier)
        name, fn = us[idx][0], us[idx][1]
        out["name"] = name
        P = Program()
        r = fn(P)
        out["unsupported"] = r.unsupported
        out["obls"] = {k: [(o.status, o.backend, o.dt, o.detail, o.goal) for o in v] for k, v in r.obls.items()}
        out["assumptions"] = sorted(r.assumptions)
        out["functions"] = sorted(r.functions)
        out["covers"] = r.covers
        out["stats"] = dict(vars(r.stats))
    except BaseException as e:  # a crash of the verifier leaves the obligations open
        out["unsupported"] = ["%s: %s" % (type(e).__name__, e)]
        out["trace"] = traceback.format_exc()
    out["wall"] = time.time() - t0
    q.put(out)


def run_units(pid, tier, jobs, enough=lambda: None):
    m = importlib.import_module("proofs." + pid)
    us = m.units(tier)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    res = {}
    pending = list(range(len(us)))
    live = {}
    while pending or live:
        while pending and len(live) < jobs:
            i = pending.pop(0)
            p = ctx.Process(target=unit_worker, args=(pid, i, tier, q))
            p.start()
            live[i] = (p, time.time())
        try:
            o = q.get(timeout=0.5)
            res[o["idx"]] = o
            p, _ = live.pop(o["idx"])
            p.join()
            continue
        except Exception:
            pass
        stop = enough()
        if stop:
            for i in pending:
                res[i] = {"idx": i, "unsupported": [stop], "obls": {}, "assumptions": [], "functions": [], "wall": 0}
            pending = []
        for i, (p, t) in list(live.items()):
            if stop or time.time() - t > UNIT_S or not p.is_alive():
                # a result may be in flight
                try:
                    while True:
                        o = q.get(timeout=0.5)
                        res[o["idx"]] = o
                except Exception:
                    pass
                if p.is_alive():
                    p.terminate()
                    why = stop or "time limit of %d s" % UNIT_S
                else:
                    why = "verifier process ended with %s" % p.exitcode
                p.join()
                live.pop(i)
                if i not in res:
                    res[i] = {"idx": i, "name": us[i][0], "unsupported": [why], "obls": {}, "assumptions": [],
                              "functions": [], "wall": time.time() - t}
        for i in list(live):
            if i in res:
                live.pop(i)[0].join()
    return [dict(res[i], name=us[i][0]) for i in range(len(us))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(HERE, "evidence")
    rep = os.path.join(ev, "replay")
    os.makedirs(rep, exist_ok=True)

    # the concrete search runs beside the proofs
    budget = {"quick": 40, "thorough": 400}[tier]
    orc = None
    if not a.no_oracle:
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONHASHSEED=str(seed % 4294967295), PYTHONDONTWRITEBYTECODE="1")
        orc = subprocess.Popen([VENV, os.path.join(HERE, "oracles", "run.py"), pid, "--seed", str(seed), "--seconds", str(budget),
                                "--out", os.path.join(rep, pid + "-input.json")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    total = {"quick": 720, "thorough": 3000}[tier]

    ended = [None]

    def enough():
        if time.time() - t0 > total:
            return "time limit of %d s for all units" % total
        if orc is not None and orc.poll() is not None and ended[0] is None:
            ended[0] = time.time()
        if ended[0] and orc.returncode == 3 and time.time() - ended[0] > 120:
            return "stopped, as a failing input was found"
        return None

    units = [] if a.no_proof else run_units(pid, tier, max(1, (os.cpu_count() or 2) - 1), enough)
    oinfo = {"evaluations": 0, "distinct_nontrivial": 0, "mismatch": None, "error": "not run"}
    if orc is not None:
        try:
            so, se = orc.communicate(timeout=budget + 240)
            try:
                oinfo = json.loads(so.strip().splitlines()[-1])
            except Exception:
                oinfo["error"] = "cross-check failed: " + (so + se)[-2000:]
        except subprocess.TimeoutExpired:
            orc.kill()
            oinfo["error"] = "cross-check did not end"

    nobl = ndis = 0
    failed = []
    solver = 0.0
    backends = {}
    assumptions = set()
    functions = set()
    for u in units:
        assumptions.update(u["assumptions"])
        functions.update(u["functions"])
        solver += u.get("stats", {}).get("solver_s", 0)
        n = 0
        for name, os_ in u["obls"].items():
            for (st, be, dt, detail, goal) in os_:
                nobl += 1
                n += 1
                if st == "discharged":
                    ndis += 1
                    backends[be] = backends.get(be, 0) + 1
                else:
                    failed.append(("%s/%s" % (u["name"], name), detail, goal))
        for s in u["unsupported"]:
            nobl += 1
            failed.append(("%s/verification-condition" % u["name"], "not generated: " + s, u.get("trace")))
        if n == 0 and not u["unsupported"]:
            failed.append(("%s/vacuity" % u["name"], "no obligation was generated", None))
        for c, ok in (u.get("covers") or {}).items():
            nobl += 1
            if ok:
                ndis += 1
                backends["cover"] = backends.get("cover", 0) + 1
            else:
                failed.append(("%s/cover:%s" % (u["name"], c), "state cannot be reached", None))

    known = [l for l in open(os.path.join(HERE, "KNOWN_FINDINGS")).read().splitlines() if l.strip() and not l.startswith("#")]
    for l in known:
        if l.startswith("KNOWN-FINDING:") and ("property=%s " % pid) in l:
            print(l)
    code = 0
    violations = 0
    if oinfo.get("mismatch"):
        path = os.path.join(rep, pid + "-input.json")
        if failed:
            d = json.load(open(path))
            d["failed_obligations"] = [{"name": f[0], "detail": f[1], "goal": f[2]} for f in failed[:20]]
            json.dump(d, open(path, "w"), indent=1)
        print("failing input: %s" % str(oinfo["mismatch"])[:1500])
        for f in failed[:5]:
            print("failed obligation: %s" % f[0])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code, violations = 1, 1
    elif failed:
        path = os.path.join(rep, pid + "-obligation.json")
        json.dump({"property": pid, "failed_obligations": [{"name": f[0], "detail": f[1], "goal": f[2]} for f in failed[:50]],
                   "how_to_replay": "python3-vt %s %s --no-oracle -v" % (os.path.join(HERE, "check.py"), pid),
                   "cross_check": oinfo}, open(path, "w"), indent=1)
        for f in failed[:20]:
            print("failed obligation: %s: %s" % (f[0], str(f[1])[:600]))
            if a.v:
                print("   goal: %s" % f[2])
                print("   detail: %s" % f[1])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        code, violations = 1, 1
    elif oinfo.get("error") and not a.no_oracle:
        print("cross-check error: %s" % oinfo["error"])
        code = 2
    if a.v:
        for u in units:
            print("unit %-40s %6.1fs obligations %d paths %s solver %.1fs" % (
                u["name"], u["wall"], sum(len(x) for x in u["obls"].values()), u.get("stats", {}).get("paths"), u.get("stats", {}).get("solver_s", 0)))

    m = importlib.import_module("proofs." + pid)
    trusted = ["the VC generator /verif/pyvc (Python semantics of the constructs used, models of the builtins)",
               "z3 %s" % __import__("z3").get_version_string(), "cvc5 (second opinion on z3 unknowns)",
               "CPython's ast module"] + list(getattr(m, "TRUSTED", []))
    ass = sorted(assumptions | set(getattr(m, "ASSUMPTIONS", [])))
    evd = {"property": pid, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", "proof"), "wall_s": round(time.time() - t0, 2),
           "violations": violations,
           "assumptions": ass,
           "coverage": {"obligations": nobl, "discharged": ndis,
                        "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (pid, tier),
                        "trusted_base": trusted,
                        "explanation": "obligations generated from the AST of %s/oelint_parser on this run and discharged function by function; "
                                       "evaluations counts the bounded cross-check of the real code, which is not part of the proof" % REPO,
                        "functions_under_contract": sorted(functions),
                        "backends": backends, "solver_s": round(solver, 2),
                        "units": [{"name": u["name"], "obligations": sum(len(x) for x in u["obls"].values()), "wall_s": round(u["wall"], 2),
                                   "paths": u.get("stats", {}).get("paths"), "lemmas": u.get("stats", {}).get("lemmas")} for u in units],
                        "failed": [f[0] for f in failed],
                        "bounded": list(getattr(m, "BOUNDED", [])),
                        "evaluations": oinfo.get("evaluations", 0), "distinct_nontrivial": oinfo.get("distinct_nontrivial", 0),
                        "rule": oinfo.get("rule", ""), "samples": oinfo.get("samples", [])[:3]}}
    tmp = os.path.join(ev, ".%s.%d.tmp" % (pid, os.getpid()))
    json.dump(evd, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ev, pid + ".json"))
    print("%s: %d obligations, %d discharged, %d cross-check cases, %.1f s" % (pid, nobl, ndis, oinfo.get("evaluations", 0), time.time() - t0))
    sys.exit(code)


if __name__ == "__main__":
    main()

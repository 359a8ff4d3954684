"""Bounded cross-check: runs oracles/<ID>.py against the code of /repo (PYTHONPATH).

An oracle module has
  RULE                      what a case is and when it is not trivial
  gen(rng) -> case          a JSON value
  run(case, tmp) -> None | text of the mismatch      (tmp: empty scratch directory)
  trivial(case) -> bool     optional
  fixed() -> [case]         optional, run first
"""
import argparse
import hashlib
import importlib.util
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


class Slow(BaseException):
    pass


def alarm(*a):
    raise Slow()


def load(pid):
    spec = importlib.util.spec_from_file_location("oracle_" + pid, os.path.join(HERE, pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def one(m, case, limit=30):
    tmp = tempfile.mkdtemp(prefix="verif-oracle-")
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        return m.run(case, tmp)
    except Slow:
        return "does not end within %d s of processor time" % limit
    except RecursionError:
        return "exceeds the recursion limit"
    except Exception as e:
        return "raises %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=30)
    ap.add_argument("--count", type=int, default=1000000)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    devnull = open(os.devnull, "w")
    real = sys.stdout
    sys.stdout = devnull
    sys.stderr = devnull if not a.replay else sys.stderr
    import oelint_parser
    if not os.path.abspath(oelint_parser.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("wrong package: " + oelint_parser.__file__, file=real)
        sys.exit(3)
    m = load(a.property)
    if a.replay:
        r = one(m, json.load(open(a.replay))["case"], 120)
        print("mismatch: %s" % r if r else "no mismatch", file=real)
        sys.exit(1 if r else 0)
    rng = random.Random(a.seed * 1000003 + int(hashlib.sha1(a.property.encode()).hexdigest()[:6], 16))
    t0 = time.time()
    n = 0
    seen = set()
    nontriv = 0
    samples = []
    bad = None
    cases = list(m.fixed()) if hasattr(m, "fixed") else []
    trivial = getattr(m, "trivial", lambda c: False)
    while n < a.count:
        if cases:
            c = cases.pop(0)
        else:
            if time.time() - t0 > a.seconds:
                break
            c = m.gen(rng)
        n += 1
        key = hashlib.sha1(json.dumps(c, sort_keys=True).encode()).digest()
        if key not in seen:
            seen.add(key)
            if not trivial(c):
                nontriv += 1
                if len(samples) < 3:
                    samples.append(c)
        r = one(m, c)
        if r:
            # shrink
            if hasattr(m, "shrink"):
                t1 = time.time()
                go = True
                while go and time.time() - t1 < 20:
                    go = False
                    for d in m.shrink(c):
                        q = one(m, d)
                        if q:
                            c, r, go = d, q, True
                            break
            bad = (c, r)
            break
    if bad and a.out:
        json.dump({"property": a.property, "case": bad[0], "mismatch": bad[1],
                   "how_to_replay": "PYTHONPATH=%s /opt/venv/bin/python %s %s --replay %s" % (REPO, os.path.abspath(__file__), a.property, a.out)},
                  open(a.out, "w"), indent=1)
    print(json.dumps({"evaluations": n, "distinct_nontrivial": nontriv, "rule": m.RULE, "samples": samples,
                      "mismatch": bad[1] if bad else None, "error": None}), file=real)


main()

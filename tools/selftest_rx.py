"""Differential test of the pattern decisions (pyvc/rx.py) against the real engine.

python3-vt tools/selftest_rx.py [cases] [seed]    (starts /opt/venv/bin/python for the real engine)
"""
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL = r"""
import sys, json, regex
for l in sys.stdin:
    d = json.loads(l)
    f = regex.match if d["mode"] == "match" else regex.search
    try:
        m = f(d["pat"], d["text"], flags=d["flags"])
    except regex.error:
        print('"bad"')
        continue
    print(json.dumps(None if m is None else [list(m.span(i)) for i in range(m.re.groups + 1)]))
"""


def patterns():
    import ast
    out = []
    for r, _, fs in os.walk(os.path.join(os.environ.get("REPO", "/repo"), "oelint_parser")):
        for f in fs:
            if f.endswith(".py"):
                for n in ast.walk(ast.parse(open(os.path.join(r, f)).read())):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and any(c in n.value for c in "*+^$?") and len(n.value) > 3 and "\n" not in n.value:
                        out.append(n.value)
    return sorted(set(out))


def rand_pattern(rng, d=3):
    k = rng.randrange(12)
    if d == 0 or k < 4:
        return rng.choice(["a", "b", "c", r"\s", r"\w", "[ab]", "[^a]", ".", " ", "=", r"\."])
    if k < 7:
        return rand_pattern(rng, d - 1) + rand_pattern(rng, d - 1)
    if k < 9:
        return "(%s)%s" % (rand_pattern(rng, d - 1), rng.choice(["", "*", "+", "?", "*?", "+?"]))
    if k == 9:
        return "(%s|%s)" % (rand_pattern(rng, d - 1), rand_pattern(rng, d - 1))
    if k == 10:
        return rand_pattern(rng, d - 1) + rng.choice(["*", "+", "?", "*?", "+?"]) if d == 1 else "(?:%s)*" % rand_pattern(rng, d - 1)
    return rng.choice(["^", "$", r"\b", "(?=%s)" % rand_pattern(rng, 0), "(?!%s)" % rand_pattern(rng, 0), r"(?<=\s)"]) + rand_pattern(rng, d - 1)


def main():
    sys.path.insert(0, HERE)
    import z3
    from pyvc import rx
    from pyvc.vals import Atom, CharSet
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
    rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    pats = patterns()
    CL = [CharSet.of("ab"), CharSet.of("c"), CharSet.of(" \t"), CharSet.of("=.+:"), CharSet([(97, 122)]), CharSet.of("\n").inv(), CharSet.of("\n \t").inv(), CharSet.of("ab\n"), CharSet.of("{}()$")]
    LIT = ["a", "b", "=", " ", "\n", "ab", "inherit ", "include ", '"', "${", "}", "{", "()", "d.getVar(", "'", "after ", "before ", ":append", "_", "python "]
    sample = "abcz =.+:\t{}()$\"'\n"
    cases = []
    st = {"cases": 0, "undecided": 0, "unsupported": 0, "decided": 0}
    while st["cases"] < n:
        pat = rng.choice(pats) if rng.random() < 0.4 else rand_pattern(rng)
        flags = rng.choice([0, 0, 0, 16, 8])
        mode = rng.choice(["match", "search"])
        parts = []
        for i in range(rng.randrange(0, 5)):
            if rng.random() < 0.5:
                if parts and isinstance(parts[-1], str):
                    parts[-1] += rng.choice(LIT)
                else:
                    parts.append(rng.choice(LIT))
            else:
                parts.append(Atom(z3.String("w%d" % i), rng.choice(CL), rng.randrange(3)))
        try:
            from pyvc.vals import mkstr
            t = mkstr(parts)
            r = rx.decide(pat, flags, t, mode)
        except rx.Undecided:
            st["undecided"] += 1
            continue
        except Exception as e:
            st["unsupported"] += 1
            if type(e).__name__ not in ("Unsupported", "error"):
                print("??", type(e).__name__, e, pat)
            continue
        st["cases"] += 1
        st["decided"] += len(r.outs) == 1
        for _ in range(4):
            words = []
            for q in r.parts:
                if isinstance(q, str):
                    words.append(q)
                else:
                    cs = [c for c in sample if c in q.cls]
                    k = q.minlen + rng.choice([0, 0, 1, 2])
                    if k and not cs:
                        cs = [q.cls.example()]
                    words.append("".join(rng.choice(cs) for _ in range(k)))
            cases.append((dict(pat=pat, flags=flags, mode=mode, text="".join(words)), words, r))
    p = subprocess.run(["/opt/venv/bin/python", "-c", REAL], input="\n".join(json.dumps(c[0]) for c in cases), capture_output=True, text=True)
    res = p.stdout.splitlines()
    bad = 0
    if len(res) != len(cases):
        print(p.stderr[-500:])
        bad = 1
    for (d, words, r), got in zip(cases, res):
        got = json.loads(got)
        if got == "bad":
            continue
        start = [0]
        for w in words:
            start.append(start[-1] + len(w))

        def fits(o):
            if o is None or got is None:
                return o is None and got is None
            for i, sp in enumerate(got):
                if i in getattr(r.prog, "weak", ()):
                    continue
                for k in (0, 1):
                    c = o[2 * i + k] if 2 * i + k < len(o) else None
                    if c is None:
                        if sp[k] != -1:
                            return False
                        continue
                    if c[0] == "p":
                        ps = [c[1:]]
                    elif c[0] == "e":
                        ps = list(c[1])
                    else:
                        if not start[c[1]] <= sp[k] <= start[c[1] + 1]:
                            return False
                        continue
                    if not any(start[a] + b == sp[k] for a, b in ps):
                        return False
            return True
        if not any(fits(o) for o in r.outs):
            bad += 1
            if bad < 6:
                print("MISMATCH", d, words, got, [str(x) for x in r.outs][:4], r.parts)
    st["instances"] = len(cases)
    st["mismatches"] = bad
    print(json.dumps(st))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

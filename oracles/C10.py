"""C10: which appends belong to a recipe, and where their items are."""
import itertools
import os
from util import *

RULE = "recipes and appends with related names added in a random order, with includes; trivial without both a recipe and an append"
PART = ["foo", "a", "b", "1.0", "1", "0", "+git", "c++", "lib", "_", "_", "-", ".", "[x]", "(y)", "$", "^", "{1}", "|", "*", "1.0.2", "bb", ".bb"]


def gen(rng):
    rec = []
    for _ in range(rng.randint(1, 3)):
        n = "".join(pick(rng, PART, 1, 4))
        rec.append(n)
    app = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice(rec) if rng.random() < 0.8 else "".join(pick(rng, PART, 1, 4))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            i = rng.randint(0, len(n))
            j = rng.choice([i, len(n), min(len(n), i + 2)])
            n = n[:i] + "%" + n[j:]
        if rng.random() < 0.3:
            i = rng.randint(0, len(n))
            n = n[:i] + rng.choice(["", "x", ".", "%"]) + n[i + rng.randint(0, 1):]
        if n:
            app.append(n)
    # a file name of dots only has no extension
    rec = [n for n in rec if n.strip(".")]
    app = [n for n in app if n.strip(".")]
    files = [["r%d" % (i % 2), n + ".bb", rng.randint(1, 5), rng.random() < 0.4] for i, n in enumerate(dict.fromkeys(rec))]
    files += [["a%d" % (i % 2), n + ".bbappend", rng.randint(1, 4), rng.random() < 0.3] for i, n in enumerate(dict.fromkeys(app))]
    rng.shuffle(files)
    return {"files": files, "fin": rng.random() < 0.6, "dup": rng.random() < 0.2}


def fixed():
    for o in itertools.permutations([["r0", "foo_1.0.bb", 3, True], ["a0", "foo_%.bbappend", 2, False], ["a1", "fo%.bbappend", 2, True]]):
        yield {"files": list(o), "fin": True, "dup": False}
    for a in ("foo_1x0", "foo_1.0", "foo_%", "%", "foo%0", "f%_%.0", "foo", "foo_1.0%", "foo_1.0.%", "oo_1.0", "foo_1"):
        for x in (0, 1):
            fs = [["r0", "foo_1.0.bb", 1, False], ["a0", a + ".bbappend", 1, False]]
            yield {"files": fs[::-1] if x else fs, "fin": True, "dup": False}


def trivial(c):
    return not any(f[1].endswith(".bbappend") for f in c["files"]) or not any(f[1].endswith(".bb") for f in c["files"])


def shrink(c):
    for i in range(len(c["files"])):
        yield dict(c, files=c["files"][:i] + c["files"][i + 1:])


def match(pat, name):
    ok = {0}
    for i, ch in enumerate(pat):
        if ch == "%":
            ok = set(range(min(ok), len(name) + 1)) if ok else ok
        else:
            ok = {k + 1 for k in ok if k < len(name) and name[k] == ch}
    return len(name) in ok


def run(c, tmp):
    files = {}
    for d, n, cnt, inc in c["files"]:
        t = "".join('V%d = "%s"\n' % (k, d) for k in range(cnt))
        if inc:
            t = t.replace("\n", "\ninclude x-%s.inc\n" % d, 1)
            files[d + "/x-%s.inc" % d] = 'I = "1"\nJ = "1"\nK = "2"\n'
        files[d + "/" + n] = t
    write(tmp, files)
    s = stash()
    for f in c["files"]:
        s.AddFile(os.path.join(tmp, f[0], f[1]))
        if c["dup"]:
            s.AddFile(os.path.join(tmp, f[0], f[1])) if f[1].endswith(".bbappend") else None
    if c["fin"]:
        s.Finalize()
    lone = set()
    alist = [f for f in c["files"] if f[1].endswith(".bbappend")]
    rlist = [f for f in c["files"] if f[1].endswith(".bb")]
    for a in alist:
        af = os.path.join(tmp, a[0], a[1])
        used = False
        for r in rlist:
            rf = os.path.join(tmp, r[0], r[1])
            exp = match(a[1][:-9], r[1][:-3])
            used |= exp
            items = s.GetItemsFor(filename=rf)
            have = [x for x in items if x.Origin == af]
            if bool(have) != exp:
                return "%s is %sappended by %s" % (r[1], "" if have else "not ", a[1])
            if len(have) != (a[2] + bool(a[3]) if exp else 0):
                return "%d items of %s visible to %s" % (len(have), a[1], r[1])
            if exp and len(rlist) == 1:
                own = [x for x in items if x.Origin == rf]
                if max(x.Line for x in own) >= min(x.Line for x in have):
                    return "items of %s are not behind those of %s" % (a[1], r[1])
            if exp and len(rlist) > 1:
                own = [x for x in items if x.Origin == rf]
                if max(x.Line for x in own) >= min(x.Line for x in have):
                    return "items of %s are not behind those of %s (one of several recipes)" % (a[1], r[1])
        if not used:
            lone.add(af)
    if set(s.GetLoneAppends()) != lone:
        return "lone appends %r instead of %r" % (s.GetLoneAppends(), sorted(lone))
    return None

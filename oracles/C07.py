"""C07: expanding a text against a small reference evaluation."""
import os
import re
from util import *

RULE = "a recipe with an include and assignments that refer to each other, and a text to expand; trivial without a reference"
NAMES = ["A", "B", "C", "D", "PN", "PV", "BPN", "FILE", "THISDIR", "S", "NOT_SET", "P", "SOLIBS", "a-b"]
LIT = ["x", "y ", "$", "{", "-", "/", " z", "$ {A}", "1.0", "$A", "A", "@"]
OPS = [" = ", " = ", " ?= ", " := ", " ??= ", " += ", " .= ", " =. ", " =+ "]


def term(rng, hi):
    return "".join("${%s}" % rng.choice(NAMES) if rng.random() < 0.55 else "d.getVar('%s')" % rng.choice(NAMES[:9]) if rng.random() < 0.1 else rng.choice(LIT) for _ in range(rng.randint(0, hi)))


def gen(rng):
    st = []
    for _ in range(rng.randint(0, 8)):
        n = rng.choice(["A", "B", "C", "D", "S", "P", "PV", "PN", "a-b"])
        st.append([rng.choice("rrio"), n + rng.choice(["", "", "", "", ":append", ":prepend", ":remove", ":qemux86"]), rng.choice(OPS), term(rng, 4)])
    return {"st": st, "text": term(rng, 6), "spare": pick(rng, NAMES, 1, 2) if rng.random() < 0.3 else None, "name": rng.choice(["foo_2.1.bb", "foo.bb", "foo-native_git.bb", "a_%.bbappend"])}


def fixed():
    c = {"spare": None, "name": "foo_2.1.bb"}
    yield dict(c, st=[["r", "A", " = ", "${A}"]], text="${A}")
    yield dict(c, st=[["r", "A", " = ", "x${B}"], ["r", "B", " = ", "y${C}"], ["r", "C", " = ", "z${A}"]], text="${A} ${B} ${C}")
    yield dict(c, st=[["r", "A", " += ", "w"], ["i", "A", " = ", "v${PN}"], ["r", "A", " = ", "u"]], text="${A}")
    yield dict(c, st=[["r", "A", " = ", "${B}"], ["r", "B", " = ", "${PN}"]], text="${A}${B}", spare=["B"])
    yield dict(c, st=[], text="${S}")
    yield dict(c, st=[["r", "S", " = ", "${S}/x"], ["r", "PV", " = ", "${PV}+git"]], text="${S} ${P}")


def trivial(c):
    return "${" not in c["text"]


def shrink(c):
    for i in range(len(c["st"])):
        yield dict(c, st=c["st"][:i] + c["st"][i + 1:])
    t = c["text"]
    for i in range(len(t)):
        yield dict(c, text=t[:i] + t[i + 1:])
    for i, s in enumerate(c["st"]):
        for j in range(len(s[3])):
            yield dict(c, st=c["st"][:i] + [s[:3] + [s[3][:j] + s[3][j + 1:]]] + c["st"][i + 1:])


def run(c, tmp):
    from oelint_parser.constants import CONSTANTS
    body = {"r": "require p.inc\n", "i": "", "o": ""}
    for w, n, op, v in c["st"]:
        body[w] += '%s%s"%s"\n' % (n, op, v)
    write(tmp, {"r/" + c["name"]: body["r"], "r/p.inc": body["i"], "r/zzz_9.bb": body["o"]})
    s = stash()
    f = os.path.join(tmp, "r", c["name"])
    s.AddFile(f)
    s.AddFile(os.path.join(tmp, "r/zzz_9.bb"))
    s.Finalize()
    vals = {}
    for w in "ir":
        for w2, n, op, v in c["st"]:
            n, _, mod = n.partition(":")
            if w == w2 and mod not in ("append", "prepend", "remove") and not any(x in op for x in ("+=", "=+", ".=", "=.")):
                vals.setdefault(n, v)
    base = dict(CONSTANTS.SetsBase)
    stem = c["name"].rsplit(".", 1)[0]
    pn = stem.split("_")[0]
    derived = {"PN": pn, "BPN": pn[:-7] if pn.endswith("-native") else pn, "PV": (stem.split("_")[1] if "_" in stem else "") or "1.0", "FILE": f, "THISDIR": os.path.dirname(f)}
    memo = {}
    if any(x in t for t in [c["text"]] + list(vals.values()) for x in ("${${", "{{")) or any(re.search(r"\$\{[^}]*[${ ]", t) for t in [c["text"]] + list(vals.values())):
        vague = True        # braces that do not belong to a reference: only that it ends
    else:
        vague = False

    def ref(t):
        def one(m):
            n, q = (m.group(1), "") if m.group(1) else (m.group(2), '"')
            if c["spare"] and n in c["spare"]:
                return m.group(0)
            v = vals.get(n, base.get(n))
            if v is None:
                if n in derived:
                    return q + derived[n] + q if n in ("FILE", "THISDIR") else derived[n]
                return m.group(0)
            if n not in memo:
                memo[n] = ""
                memo[n] = ref(v)
            return memo[n]
        # references are looked at before calls
        return re.sub(r"\0(\0)|d\.getVar\('(.+?)'\)", one, re.sub(r"\$\{(.+?)\}|\0(\0)", one, t))
    got = s.ExpandTerm(f, c["text"], spare=c["spare"]) if c["spare"] else s.ExpandTerm(f, c["text"])
    if vague or "d.getVar" in c["text"] + "".join(vals.values()) and ("PN" in vals or "${" in c["text"]) and any("getVar" in v for v in vals.values()):
        return None
    exp = ref(c["text"])
    if got != exp:
        return "expands to %r instead of %r" % (got, exp)
    return None

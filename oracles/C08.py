"""C08: expanded variables against a small reference evaluation."""
import os
from util import *

RULE = "a recipe with an include, random sequences of assignments with every operator, overrides and unsets; trivial with fewer than two statements"
NAMES = ["A", "B", "A", "A", "C_${PN}", "C_foo", "FILES:${PN}", "S", "PV", "BPN"]
OPS = ["=", ":=", "?=", "??=", "+=", "=+", ".=", "=.", "+=", "="]
PAD = [(" ", " "), ("", ""), (" ", ""), ("", " "), ("  ", "\t")]
WORDS = ["a", "b", "aa", "ab", "a-b", "-a", "q", "${PN}", "${NOT_THERE}", "b/c", "1", "a.b", "y"]
SEP = [" ", "  ", "\t", " \\\n  ", " "]


def gen(rng):
    st = []
    for _ in range(rng.randint(1, 9)):
        where = rng.choice(["r", "r", "r", "i", "a"])
        k = rng.random()
        val = [rng.choice(["", "", " ", "  "]), pick(rng, WORDS, 0, 4), rng.choice(SEP), rng.choice(["", "", " "])]
        if k < 0.55:
            st.append([where, "set", rng.choice(NAMES), rng.choice(OPS), rng.choice(PAD), val])
        elif k < 0.9:
            st.append([where, "over", rng.choice(["A", "B", "A", "S", "D"]), rng.choice(["append", "prepend", "remove", "remove"]), rng.choice(["", "", "foo", "qemux86"]), rng.choice([" = ", "=", " += "]), val])
        elif k < 0.97:
            st.append([where, "unset", rng.choice(["A", "B", "S", "PV", "D"])])
        else:
            st.append([where, "unsetflag", rng.choice(["A", "B"])])
    return {"st": st, "only": rng.choice([None, None, None, "A"]), "nofile": rng.random() < 0.1, "nolink": rng.random() < 0.15}


def fixed():
    v = lambda *w: ["", list(w), " ", ""]
    yield {"st": [["r", "set", "A", "=", (" ", " "), v("a", "aa")], ["r", "over", "A", "remove", "", " = ", v("a")], ["r", "over", "A", "append", "", " = ", ["  ", ["a"], " ", ""]]], "only": None, "nofile": False, "nolink": False}
    yield {"st": [["r", "set", "A", "??=", (" ", " "), v("a")], ["r", "unset", "A"], ["r", "set", "A", "?=", (" ", " "), v("b")], ["r", "set", "A", "?=", (" ", " "), v("q")]], "only": None, "nofile": False, "nolink": False}


def trivial(c):
    return len(c["st"]) < 2


def shrink(c):
    for i in range(len(c["st"])):
        yield dict(c, st=c["st"][:i] + c["st"][i + 1:])


def text(v):
    return v[0] + v[2].join(v[1]) + v[3]


def line(s):
    if s[1] == "set":
        return '%s%s%s%s"%s"\n' % (s[2], s[4][0], s[3], s[4][1], text(s[5]))
    if s[1] == "over":
        return '%s:%s%s%s"%s"\n' % (s[2], s[3], ":" + s[4] if s[4] else "", s[5], text(s[6]))
    return "unset %s%s\n" % (s[2], "[flag]" if s[1] == "unsetflag" else "")


def run(c, tmp):
    from oelint_parser.constants import CONSTANTS
    # an operator of ":=", "??=" and so on is only told from a name that ends before it
    body = {"r": "", "i": "", "a": ""}
    for s in c["st"]:
        body[s[0]] += line(s)
    write(tmp, {"r/foo_2.1.bb": "require p.inc\n" + body["r"], "r/p.inc": body["i"], "r/foo_%.bbappend": body["a"], "r/other_1.bb": 'A = "wrong"\nunset B\n'})
    s = stash()
    f = os.path.join(tmp, "r/foo_2.1.bb")
    s.AddFile(f)
    if not c["nofile"]:
        s.AddFile(os.path.join(tmp, "r/other_1.bb"))
    s.AddFile(os.path.join(tmp, "r/foo_%.bbappend"))
    s.Finalize()
    order = [x for w in "ira" for x in c["st"] if x[0] == w]
    if c["nolink"]:
        order = [x for x in order if x[0] == "r" or x[1].startswith("unset")]
        if c["nofile"]:
            order = [x for w in "ira" for x in c["st"] if x[0] == w]
    if c["nofile"] and c["only"] is None:
        first = next((x[0] for x in order), None)
    got = s.ExpandVar(filename=None if c["nofile"] else f, attribute="VarName" if c["only"] else None, attributeValue=c["only"], nolink=c["nolink"])
    only = c["only"]
    if c["nofile"]:
        # the file name is taken from the first statement: only comparable when that is the recipe
        vis = [x for x in order if x[1].startswith("unset") or x[1] == "set" and (not only or x[2] == only) or x[1] == "over" and (not only or x[2] == only)]
        if not vis or vis[0][0] != "r" or any(x[0] != "r" for x in vis):
            return None
    exp = {"PN": "foo", "PV": "2.1", "BPN": "foo"}
    exp.update(CONSTANTS.SetsBase)
    strip = lambda v: text(v).strip().replace("\\\n", "\x1b")
    val = lambda v: text(v).replace("\\\n", "\x1b")
    for x in order:
        if x[1] == "unset":
            exp.pop(x[2], None)
        if x[1] != "set" or only and x[2] != only:
            continue
        n, op, v = x[2], x[3], val(x[5])
        old = exp.get(n)
        exp[n] = {"=": v, ":=": v, "?=": v if old is None else old, "??=": v if old is None else old, "+=": (old or "") + " " + v, "=+": v + " " + (old or ""),
                  ".=": (old or "") + v, "=.": v + (old or "")}[op]
    # a name with an override is a name of its own
    nm = lambda x: x[2] + (":" + x[4] if x[4] else "")
    for x in order:
        if x[1] == "over" and (not only or x[2] == only):
            n, v = nm(x), val(x[6])
            old = exp.get(n) or ""
            exp[n] = old + v if x[3] == "append" else v + old if x[3] == "prepend" else exp.get(n)
    for x in order:
        if x[1] == "over" and x[3] == "remove" and (not only or x[2] == only):
            n = nm(x)
            drop = val(x[6]).replace("\x1b", " ").split()
            out, cur = "", ""
            for ch in (exp.get(n) or "") + " ":
                if ch in " \t\x1b":
                    if cur not in drop:
                        out += cur
                    out += ch
                    cur = ""
                else:
                    cur += ch
            exp[n] = out
    fin = {}

    def ex(t):
        # the values of other variables do not matter here
        return s.ExpandTerm(f, t)
    for k, v in exp.items():
        fin.setdefault(ex(k), []).extend(ex(v or "").replace("\x1b", " ").split())
    if got != fin:
        for k in sorted(set(got) | set(fin)):
            if got.get(k) != fin.get(k):
                return "%s is %r instead of %r" % (k, got.get(k), fin.get(k))
    return None

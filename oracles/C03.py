"""C03: calls put together from known arguments."""
import os
from util import *

RULE = "calls of every helper with known plain arguments, alone and inside an assignment; trivial when all arguments are single letters"
FORMS = {
    "bb.utils.contains": ["vctfd", 2, 3], "bb.utils.contains_any": ["vctfd", 2, 3], "bb.utils.filter": ["vcd", 0, None],
    "oe.utils.conditional": ["vctfd", 2, 3], "oe.utils.ifelse": ["vtf", 1, 2],
    "oe.utils.any_distro_features": ["dctf", 2, 3], "oe.utils.all_distro_features": ["dctf", 2, 3],
    "oe.utils.vartrue": ["vtfd", 1, 2], "oe.utils.less_or_equal": ["vctfd", 2, 3], "oe.utils.version_less_or_equal": ["vctfd", 2, 3],
    "oe.utils.both_contain": ["vwcd", 2, None], "d.getVar": ["v", 0, 0],
}
VALS = ["x", "y", "", "a b", "${PN}", "--enable-x", "1.0", "bb.utils.contains", "oe.utils.ifelse", "d.getVar", "-DA=ON", "file://x.patch;y=1", "A", "\xe4", " lead", "trail ",
        "@", "{x}", "$", "True", "d", "0", "1", "bb.utils.filter", "foo/bar"]
NAMES = ["A", "DISTRO_FEATURES", "PACKAGECONFIG", "x-y", "foo:bar", "PN"]
NOCALL = ["bb.utils.contains", "d.getVar", "1 + 1", "foo('a', 'b')", "oe.utils.conditional ", "'x'", "", " ", "bb.utils.container('a','b','c','d',d)", "oe.utils.vartru('a','b','c',d)",
          "d.getVarFlag('a', 'b')", "bb.utils.contain('A', 'b', 'c', 'd', d)", "oe.utils.ifels('a', 'b', 'c')", "len('oe.utils.less_or_equal')", "oe.utils.conditional['a']"]


def gen(rng):
    h = rng.choice(sorted(FORMS))
    kinds = FORMS[h][0]
    if "distro" in h:
        kinds = kinds[:rng.choice([2, 3, 4, 4])]
    if rng.random() < 0.1:
        return {"none": rng.choice(NOCALL), "neg": rng.random() < 0.5}
    return {"helper": h, "args": [None if k == "d" else rng.choice(NAMES if k == "v" and h == "d.getVar" else VALS) for k in kinds],
            "q": [rng.choice("'\"") for _ in kinds], "sp": [rng.choice(["", " ", " ", "  ", "\t"]) for _ in kinds], "lead": rng.choice(["", "", " ", "  "]),
            "tail": rng.choice(["", "", " "]), "extra": rng.choice(["", "", ", True", ", False", ",True"]), "neg": rng.random() < 0.5, "file": rng.random() < 0.3}


def trivial(c):
    return "none" not in c and all(a is None or len(a) < 2 for a in c["args"])


def shrink(c):
    if "none" in c:
        return
    for i, a in enumerate(c["args"]):
        if a and a != "x":
            yield dict(c, args=c["args"][:i] + ["x"] + c["args"][i + 1:])
    for k, v in (("lead", ""), ("tail", ""), ("extra", ""), ("file", False)):
        if c[k] != v:
            yield dict(c, **{k: v})


def run(c, tmp):
    from oelint_parser.inlinerep import inlinerep
    from oelint_parser.cls_item import Variable
    if "none" in c:
        t = "${@" + c["none"] + "}"
        r = inlinerep(t, c["neg"])
        return None if r is None else "%r without a call gives %r" % (t, r)
    h = c["helper"]
    kinds, t, f = FORMS[h]
    call = h + "("
    for i, a in enumerate(c["args"]):
        s = "d" if a is None else c["q"][i] + a + c["q"][i]
        call += ("," if i else "") + (c["sp"][i] if i or not h.startswith("d.") else "") + s
    if h == "d.getVar":
        call += c["extra"]
    call += ")"
    txt = "${@" + c["lead"] + call + c["tail"] + "}"
    a = c["args"]
    if h == "d.getVar":
        exp = "${" + a[0] + "}"
        if not a[0]:
            return None
    elif c["neg"]:
        exp = "" if f is None or f >= len(a) else a[f]
    else:
        exp = "1" if t >= len(a) else a[t]
        if "distro" in h and t < len(a) and a[t] == "":
            pass
    got = inlinerep(txt, c["neg"])
    if got != exp:
        return "%r (%s) gives %r instead of %r" % (txt, "negative" if c["neg"] else "positive", got, exp)
    if c["file"] and "${@" not in exp:
        write(tmp, {"a_1.0.bb": "A = \"%s\"\n" % txt})
        st = stash(negative_inline=c["neg"])
        it = [x for x in st.AddFile(os.path.join(tmp, "a_1.0.bb")) if isinstance(x, Variable)]
        if len(it) != 1 or it[0].VarValue != '"%s"' % exp or [tuple(b) for b in it[0].InlineBlocks] != [(txt, exp)]:
            return "A = \"%s\" has the value %r" % (txt, [(x.VarValue, x.InlineBlocks) for x in it])
    return None

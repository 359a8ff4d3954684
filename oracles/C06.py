"""C06: a stash that is queried all the time answers like one that is asked at the end only."""
import os
from util import *

RULE = "random histories of AddFile, Append, Remove and Finalize with queries in between, compared with a second stash with the same history and no queries in between; trivial when nothing is asked before a later change"
FILES = {
    "m/conf/layer.conf": "",
    "m/conf/distro/dist1.conf": "A = \"1\"\n",
    "m/conf/machine/mach1.conf": "B = \"1\"\n",
    "m/r/a_1.0.bb": 'A = "1"\nB = "${A}"\nPACKAGES = "${PN} ${PN}-x"\nSRC_URI = "file://x;name=n1"\nrequire b.inc\ninherit c\n',
    "m/r/b.inc": 'A = "2"\nPACKAGES_DYNAMIC = "^a-.*"\nPACKAGE_BEFORE_PN = "zz"\nIMAGE_INSTALL = "x"\n',
    "m/r/a_%.bbappend": 'A_append = " 3"\nPACKAGES += "q"\nSRC_URI += "file://y;name=n2"\nPACKAGES_DYNAMIC += "^b-.*"\nB[f] = "1"\nunset A\n',
    "m/r/z_2.bbappend": 'Z = "1"\n',
    "m/classes/c.bbclass": 'A ?= "c"\nC = "1"\ninherit d\n',
    "m/classes/d.bbclass": 'D = "1"\ninherit image\n',
    "m/r/p_2.bb": 'inherit packagegroup\nA = "p"\nA_dist1 = "x"\n',
    "m/r/conf/x.conf": 'A = "conf"\n',
    "m/r/z_2.bb": 'A = "z"\ninclude x.inc\n',
    "m/r/x.inc": 'include b.inc\nX = "${PN}"\n',
    "m/r/files/one": "1",
}
ADD = [k for k in FILES if k.rsplit(".", 1)[-1] in ("bb", "inc", "bbappend", "bbclass", "conf") and "layer" not in k]
BUSY = ["m/r/a_1.0.bb", "m/r/p_2.bb", "m/r/z_2.bb", "m/r/b.inc"]
Q = ["GetItemsFor", "GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses", "GetLinksForFile", "GetFiles", "IsImage", "IsPackageGroup",
     "GetPackagesDynamic", "IsDynamicPackage", "GetValidPackageNames", "GetValidNamedResources", "ExpandVar", "ExpandTerm", "GetLastLine", "FingerPrint", "Reduce", "reduce"]


def gen(rng):
    ops = []
    for _ in range(rng.randint(2, 9)):
        k = rng.random()
        if k < 0.6:
            f = rng.choice(ADD)
            ops.append(["add", f, rng.choice([None, None, None, rng.choice(ADD)])])
        elif k < 0.75:
            ops.append(["append", rng.randint(0, 30), rng.choice(["one", "list"])])
        elif k < 0.87:
            ops.append(["remove", rng.randint(0, 30), rng.choice(["one", "list"])])
        else:
            ops.append(["final"])
        for _ in range(rng.randint(0, 4)):
            ops.append(["query", rng.choice(Q), rng.choice(BUSY)])
    return {"ops": ops, "dense": rng.random() < 0.3}


def trivial(c):
    q = [i for i, o in enumerate(c["ops"]) if o[0] == "query"]
    return not (c["dense"] or q and any(o[0] != "query" for o in c["ops"][q[0]:]))


def ask(st, tmp, q, f):
    p = os.path.join(tmp, f)

    def show(x):
        return (os.path.relpath(x.Origin, tmp), x.Line, x.InFileLine, x.Raw, x.CLASSIFIER, sorted(os.path.relpath(y, tmp) for y in x.IncludedFrom))

    def rel(xs):
        return sorted(os.path.relpath(x, tmp) for x in xs)
    if q == "GetItemsFor":
        out = []
        for kw in ({}, {"classifier": "Variable"}, {"attribute": "VarName"}, {"attribute": "VarName", "attributeValue": "A"}, {"attribute": ["VarName", "Flag"], "attributeValue": ["A", "f"]},
                   {"attribute": "IncludedFrom"}, {"classifier": ["Inherit", "Include"]}):
            for fn in (None, p):
                for nl in (False, True):
                    out.append([show(x) for x in st.GetItemsFor(filename=fn, nolink=nl, **kw)])
        return out
    if q in ("Reduce", "reduce"):
        r = st.GetItemsFor()
        if q == "reduce":
            return [show(x) for x in r.reduce(filename=p, attribute="VarName", attributeValue=["A", "B"])]
        return [show(x) for x in st.Reduce(r, filename=p, classifier="Variable", attribute="VarValue")]
    if q in ("GetRecipes", "GetLoneAppends", "GetConfFiles", "GetBBClasses"):
        return rel(getattr(st, q)())
    if q == "GetLinksForFile":
        return rel(st.GetLinksForFile(p))
    if q == "GetFiles":
        return rel(st.GetFiles(p, "*"))
    if q in ("IsImage", "IsPackageGroup"):
        return getattr(st, q)(p)
    if q in ("GetPackagesDynamic", "GetValidNamedResources"):
        return sorted(getattr(st, q)(p))
    if q == "GetValidPackageNames":
        return [sorted(st.GetValidPackageNames(p)), sorted(st.GetValidPackageNames(p, strippn=True))]
    if q == "IsDynamicPackage":
        return [st.IsDynamicPackage(p, x) for x in ("a-1", "b-1", "${PN}-1", "zzz")]
    if q == "ExpandVar":
        return [st.ExpandVar(filename=p), st.ExpandVar(), st.ExpandVar(filename=p, attribute="VarName", attributeValue="A")]
    if q == "ExpandTerm":
        return [st.ExpandTerm(p, x) for x in ("${A}", "${B}-${C}", "${X}", "${PN}-${PV}")]
    if q == "GetLastLine":
        return st.GetLastLine(p)
    if q == "FingerPrint":
        return st.FingerPrint
    raise KeyError(q)


def play(c, tmp, queries, upto=None):
    st = stash()
    known = []
    for o in c["ops"][:upto]:
        if o[0] == "add":
            known += st.AddFile(os.path.join(tmp, o[1]), forcedLink=os.path.join(tmp, o[2]) if o[2] else None)
        elif o[0] in ("append", "remove"):
            if known:
                k = o[1] % len(known)
                xs = known[k:k + 2] if o[2] == "list" else [known[k]]
                if o[0] == "remove":
                    xs = [x for i, x in enumerate(xs) if not any(x is y for y in xs[:i])]
                    known = [y for y in known if not any(y is x for x in xs)]
                else:
                    known = known + xs
                try:
                    (st.Append if o[0] == "append" else st.Remove)(xs if o[2] == "list" else xs[0])
                except ValueError:
                    pass
        elif o[0] == "final":
            st.Finalize()
        elif queries:
            ask(st, tmp, o[1], o[2])
        if queries and c["dense"] and o[0] != "query":
            for q in Q:
                for f in BUSY:
                    ask(st, tmp, q, f)
    return st


def run(c, tmp):
    write(tmp, FILES)
    a = play(c, tmp, True)
    got = {(q, f): ask(a, tmp, q, f) for f in BUSY for q in Q}
    b = play(c, tmp, False)
    exp = {(q, f): ask(b, tmp, q, f) for f in BUSY for q in Q}
    for k in got:
        if got[k] != exp[k]:
            return "%s for %s: %r instead of %r" % (k[0], k[1], got[k], exp[k])
    return None


def fixed():
    """each query before and after each kind of change"""
    base = [["add", "m/r/a_1.0.bb", None], ["add", "m/r/a_%.bbappend", None]]
    more = [[["add", "m/r/p_2.bb", "m/r/a_1.0.bb"]], [["append", 1, "one"]], [["remove", 0, "one"]], [["remove", 0, "list"]], [["final"]],
            [["add", "m/classes/c.bbclass", "m/r/a_1.0.bb"]], [["add", "m/r/conf/x.conf", None]], [["add", "m/r/z_2.bbappend", None]], [["add", "m/r/z_2.bb", None]], [["append", 1, "list"]]]
    for m in more:
        yield {"ops": base + m, "dense": True}
        yield {"ops": base[:1] + m, "dense": True}
        yield {"ops": base[:1] + m + base[1:], "dense": True}
        yield {"ops": [["final"]] + m + base[:1], "dense": True}


def shrink(c):
    for i in range(len(c["ops"])):
        if len(c["ops"]) > 1:
            yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])

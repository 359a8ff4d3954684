"""C09: the files linked to a file after Finalize."""
import os
from graph import *

RULE = "recipes, includes, classes and appends that pull each other in at random; trivial with no link at all"


def gen(rng):
    return gen_graph(rng)


def fixed():
    a = {"r0.bb": [["v", "one"], ["c", ["c0"], "inherit"], ["i", "i0.inc", "require"]], "r1_1.0.bb": [["c", ["c0"], "inherit"], ["v", "one"]], "c0.bbclass": [["c", ["c1"], "inherit"], ["v", "one"]], "c1.bbclass": [["v", "one"], ["i", "i2.inc", "include"]], "i0.inc": [["i", "i1.inc", "include"], ["v", "one"]],
         "i1.inc": [["i", "i2.inc", "include"], ["v", "one"]], "i2.inc": [["v", "one"]], "r0.bbappend": [["v", "one"], ["i", "i1.inc", "require"]], "%.bbappend": [["v", "one"]]}
    for o in (["r0.bb", "r1_1.0.bb", "r0.bbappend", "%.bbappend"], ["%.bbappend", "r0.bbappend", "r1_1.0.bb", "r0.bb"], ["r0.bbappend", "r0.bb", "%.bbappend", "r1_1.0.bb"]):
        yield {"files": a, "order": o}


shrink = shrink_graph


def trivial(c):
    return len(c["order"]) == 1 and not any(s[0] != "v" for st in c["files"].values() for s in st)


def run(c, tmp):
    root = setup(c, tmp)
    s = stash()
    rd = Reader(c, root)
    for n in c["order"]:
        f = rd.where(n, None)
        rd.add(f, [])
        s.AddFile(f)
    s.Finalize()
    g = {f: set(d) for f, d in rd.direct.items()}
    for r in g:
        if r.endswith(".bb"):
            g[r] |= {a for a in g if a.endswith(".bbappend") and appended(a, r)}
    rel = lambda xs: sorted(os.path.relpath(x, root) for x in xs)
    have, seen, reach, lower = {}, {}, {}, {}
    for x in s.GetItemsFor():
        have.setdefault(x.Origin, []).append(x)
    for f in g:
        low = {f} | g[f]
        for x in g[f]:
            low |= g[x]
        up, todo = {f}, [f]
        while todo:
            for y in g[todo.pop()] - up:
                up.add(y)
                todo.append(y)
        # only files with items can be seen
        vis = {x.Origin for x in s.GetItemsFor(filename=f)}
        seen[f], reach[f], lower[f] = vis, up, low
        links = set(s.GetLinksForFile(f))
        if links != vis - {f}:
            return "links of %s are %r, visible are %r" % (rel([f]), rel(links), rel(vis))
        if not {x for x in low if x in have} <= vis:
            return "%s does not see %s" % (rel([f]), rel({x for x in low if x in have} - vis))
        if not vis <= up:
            return "%s sees %s" % (rel([f]), rel(vis - up))
    # every file that sees an item has left its links there
    for o, xs in have.items():
        for x in xs:
            inc, bound = set(x.IncludedFrom), set()
            for f in g:
                if o in seen[f]:
                    bound |= reach[f]
                    if not lower[f] <= inc:
                        return "an item of %s misses %s of %s" % (rel([o]), rel(lower[f] - inc), rel([f]))
            if not inc <= bound:
                return "an item of %s has %s" % (rel([o]), rel(inc - bound))
    return None

"""C20: cyclic includes and inherits."""
import os
from collections import Counter
from graph import *

RULE = "up to 8 files that include and inherit each other at random; trivial when no file includes itself in any way"


def gen(rng):
    c = gen_graph(rng, appends=rng.random() < 0.3)
    if rng.random() < 0.5:
        c["order"] = c["order"][:1]
    return c


def fixed():
    yield {"files": {"r0.bb": [["v", "one"], ["i", "r0.bb", "require"], ["v", "one"]]}, "order": ["r0.bb"]}
    yield {"files": {"r0.bb": [["c", ["c0"], "inherit"], ["v", "one"]], "c0.bbclass": [["v", "one"], ["c", ["c1"], "inherit"], ["v", "one"]], "c1.bbclass": [["c", ["c0"], "inherit"], ["i", "i0.inc", "require"]], "i0.inc": [["c", ["c1"], "inherit"], ["v", "one"]]}, "order": ["r0.bb", "r0.bb"]}
    yield {"files": {"r0.bb": [["i", "i0.inc", "include"], ["i", "i1.inc", "include"]], "i0.inc": [["v", "one"], ["i", "i1.inc", "include"], ["v", "cont"]], "i1.inc": [["i", "i0.inc", "include"], ["v", "func"]]}, "order": ["r0.bb"]}


shrink = shrink_graph


def trivial(c):
    g = {n: {plain(s[1]) for s in st if s[0] == "i"} | {x + ".bbclass" for s in st if s[0] == "c" for x in s[1]} for n, st in c["files"].items()}
    for n in g:
        todo, seen = list(g[n]), set()
        while todo:
            x = todo.pop()
            if x == n:
                return False
            if x not in seen and x in g:
                seen.add(x)
                todo += g[x]
    return True


def run(c, tmp):
    root = setup(c, tmp)
    s = stash()
    rd = Reader(c, root)
    exp = Counter()
    for n in c["order"]:
        f = rd.where(n, None)
        out = []
        rd.add(f, out)
        s.AddFile(f)
        exp.update(x for x, k in out)
        got = Counter(x.Origin for x in s.GetItemsFor())
        # a comment or blank line may be merged with its neighbours: compare the text
        txt = Counter()
        for x in s.GetItemsFor():
            txt[x.Origin] += len(x.RealRaw)
        want = Counter()
        for x in rd.parsed:
            want[x] += len(open(x).read())
        for x in set(txt) | set(want):
            if txt[x] != want[x]:
                return "%d of %d characters of %s present after adding %s" % (txt[x], want[x], os.path.relpath(x, root), n)
    return None

"""C19: the order of lines is the order of a reader."""
import os
from graph import *

RULE = "one recipe with nested includes and inherits; trivial when nothing is included"


def gen(rng):
    c = gen_graph(rng, appends=False)
    c["order"] = ["r1_1.0.bb"]
    return c


def fixed():
    yield {"files": {"r1_1.0.bb": [["v", "one"], ["i", "i0.inc", "require"], ["v", "one"], ["i", "i0.inc", "require"], ["c", ["c0", "c1"], "inherit"], ["v", "cont"]], "i0.inc": [["v", "cont"], ["i", "i1.inc", "include"], ["v", "func"]], "i1.inc": [["v", "one"], ["c", ["c2"], "inherit"], ["v", "one"]],
                     "c0.bbclass": [["v", "one"], ["v", "func"]], "c1.bbclass": [["v", "py"], ["v", "one"]], "c2.bbclass": [["v", "one"], ["i", "i2.inc", "require"]], "i2.inc": [["v", "one"]]}, "order": ["r1_1.0.bb"]}


shrink = shrink_graph


def trivial(c):
    return not any(s[0] != "v" for s in c["files"].get("r1_1.0.bb", []))


def run(c, tmp):
    root = setup(c, tmp)
    s = stash()
    rd = Reader(c, root)
    f = rd.where(c["order"][0], None)
    out = []
    rd.add(f, out)
    s.AddFile(f)
    s.Finalize()
    got, last = [], {}
    for x in s.GetItemsFor():
        if x.Origin not in {y for y, _ in out}:
            return "an item of %s" % x.Origin
    # the text in the order of the lines is the text in the order of the reader
    seen = "".join(x.RealRaw for x in s.GetItemsFor())
    want = "".join(text(c, y, k) for y, k in out)
    if seen != want:
        return "order is\n%s\ninstead of\n%s" % (seen, want)
    vis = s.GetItemsFor(filename=f)
    direct = {f} | rd.direct[f]
    for x in rd.direct[f]:
        direct |= rd.direct[x]
    want = "".join(text(c, y, k) for y, k in out if y in direct)
    seen = "".join(x.RealRaw for x in vis if x.Origin in direct)
    if seen != want:
        return "order visible to the recipe is\n%s\ninstead of\n%s" % (seen, want)
    return None


def text(c, y, k):
    n = os.path.basename(y)
    st = c["files"][n]
    return render(n, st[:k + 1])[len(render(n, st[:k])):]

"""C05: queries against a plain filter."""
import os
import random
from util import *

RULE = "random recipes with includes, random items with equal lines and repeats, random filters; trivial when no filter is given"
STMT = ['A = "1"', 'B = "2"', 'A += "1"', 'B[f] = "x"', 'inherit foo', 'do_x() {\n :\n}', '# c', 'addtask do_x', 'C:append = " 1"', 'D = ""', 'EXPORT_FUNCTIONS do_a', 'export A', 'unset B']
ATTR = ["VarName", "VarValue", "Flag", "Name", "SubItem", "SubItems", "FuncName", "Line", "IsPython", "InlineBlocks", "Nope", "Classes"]
VALS = ["A", "B", "1", '"1"', '"2"', "", "append", "do_x", "x", "foo"]
CLS = ["Variable", "FlagAssignment", "Inherit", "Function", "Comment", "TaskAdd", "Item", "Nope", "Unset"]


def arg(rng, xs):
    k = rng.choice(["none", "one", "one", "list", "tuple", "set"])
    n = rng.randint(0, 3)
    return [k, [rng.choice(xs) for _ in range(max(1, n) if k == "one" else n)]]


def mk(a):
    k, v = a
    return None if k == "none" else v[0] if k == "one" else list(v) if k == "list" else tuple(v) if k == "tuple" else set(v)


def vals(a):
    k, v = a
    return [] if k == "none" else ([v[0]] if v[0] else []) if k == "one" else v


def gen(rng):
    n = rng.randint(1, 3)
    incs = {"i%d.inc" % i: "\n".join(pick(rng, STMT, 0, 4)) + "\n" for i in range(n)}
    rec = {}
    links = {}
    for r in range(rng.randint(1, 2)):
        use = [i for i in sorted(incs) if rng.random() < 0.6]
        rec["r%d.bb" % r] = "".join("require %s\n" % i for i in use) + "\n".join(pick(rng, STMT, 0, 5)) + "\n"
        links["r%d.bb" % r] = use
    return {"files": {**incs, **rec}, "links": links, "add": sorted(rec), "seed": rng.randint(0, 10 ** 6),
            "queries": [{"file": rng.choice(["none", "empty"] + sorted(rec) * 2 + sorted(incs) + ["gone"]), "c": arg(rng, CLS), "a": arg(rng, ATTR), "v": arg(rng, VALS),
                         "nolink": rng.random() < 0.4} for _ in range(6)], "finalize": rng.random() < 0.5}


def trivial(c):
    return all(q["file"] in ("none", "empty") and not vals(q["c"]) and not vals(q["a"]) for q in c["queries"])


def attributes(x):
    return {n: getattr(x, n) for n in dir(type(x)) if not n.startswith("_") and isinstance(getattr(type(x), n), property)}


def run(c, tmp):
    st = stash()
    write(tmp, c["files"])
    for f in c["add"]:
        st.AddFile(os.path.join(tmp, f))
    if c["finalize"]:
        st.Finalize()
    rng = random.Random(c["seed"])
    base = list(st.GetItemsFor())
    lst = list(base)
    rng.shuffle(lst)
    lst += [rng.choice(lst) for _ in range(2)] if lst else []
    for q in c["queries"]:
        if rng.random() < 0.3:
            for x in base:
                if rng.random() < 0.5:
                    x.Line = rng.randint(1, 4)
        fn = None if q["file"] == "none" else "" if q["file"] == "empty" else os.path.join(tmp, q["file"])
        linked = {os.path.join(tmp, x) for x in c["links"].get(q["file"], [])}

        def ok(x):
            if fn and not (x.Origin == fn or (not q["nolink"] and x.Origin in linked)):
                return False
            if vals(q["c"]) and x.CLASSIFIER not in vals(q["c"]):
                return False
            if vals(q["a"]):
                d = attributes(x)
                return any(n in d and (not vals(q["v"]) or any(d[n] == v for v in vals(q["v"]))) for n in vals(q["a"]))
            return True

        def expect(xs):
            seen = []
            for x in xs:
                if ok(x) and not any(x is y for y in seen):
                    seen.append(x)
            out = []
            for x in seen:       # insertion keeps the order of equal lines
                i = len(out)
                while i > 0 and out[i - 1].Line > x.Line:
                    i -= 1
                out.insert(i, x)
            return out

        def show(xs):
            return [(x.Line, type(x).__name__, x.Raw) for x in xs]
        keep = list(lst)
        kw = dict(filename=fn, classifier=mk(q["c"]), attribute=mk(q["a"]), attributeValue=mk(q["v"]), nolink=q["nolink"])
        got = st.Reduce(lst, **kw)
        exp = expect(lst)
        if [id(x) for x in got] != [id(x) for x in exp]:
            return "Reduce %r gives %r instead of %r" % (q, show(got), show(exp))
        if [id(x) for x in lst] != [id(x) for x in keep]:
            return "Reduce changes its input"
        g2 = st.GetItemsFor(**kw)
        all_ = list(st.GetItemsFor())
        want = {id(x) for x in base if ok(x)}
        if {id(x) for x in g2} != want or len(g2) != len(want):
            return "GetItemsFor %r gives %r" % (q, show(g2))
        if any(a.Line > b.Line for a, b in zip(g2, list(g2)[1:])):
            return "GetItemsFor %r is not in line order" % (q,)
        if [id(x) for x in all_ if id(x) in want] != [id(x) for x in g2]:
            return "GetItemsFor %r has another order than the stash" % (q,)
        from oelint_parser.cls_stash import Stash
        sl = Stash.StashList(st, list(lst))
        r = sl.reduce(**kw)
        if r is not sl or [id(x) for x in sl] != [id(x) for x in exp]:
            return "StashList.reduce %r gives %r" % (q, show(sl))
        # links of the file as reported
        if fn and fn.endswith(".bb"):
            gl = st.GetLinksForFile(fn)
            wl = []
            for x in all_:
                if x.Origin in linked and x.Origin not in wl:
                    wl.append(x.Origin)
            if set(gl) != set(wl) or len(gl) != len(wl):
                return "GetLinksForFile %r gives %r instead of %r" % (fn, gl, wl)
    return None


def shrink(c):
    for i in range(len(c["queries"])):
        d = dict(c)
        d["queries"] = c["queries"][:i] + c["queries"][i + 1:]
        if d["queries"]:
            yield d

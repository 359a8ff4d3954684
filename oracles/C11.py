"""C11: updates of constant tables against a tree of the same shape."""
import copy
from util import *

RULE = "random trees and sequences of updates on a Constants object, compared with a reference on plain trees; the given trees are changed afterwards; trivial without a shared path"
KEYS = ["a", "b", "c", "functions", "known"]
LISTS = ["x", "y", "z", "1", "do_x"]
PROPS = {"FunctionsKnown": "functions/known", "FunctionsOrder": "functions/order", "MirrorsKnown": "replacements/mirrors", "VariablesKnown": "variables/known",
         "DistrosKnown": "replacements/distros", "MachinesKnown": "replacements/machines", "ImagesClasses": "images/known-classes", "ImagesVariables": "images/known-variables",
         "SetsBase": "sets/base", "ClassIgnore": "ignore/classes", "IncludeIgnore": "ignore/include"}


def shape(rng, depth):
    """what kind of entry is where, for all trees of one case"""
    return {k: shape(rng, depth - 1) if depth and rng.random() < 0.5 else rng.choice(["list", "list", "text"]) for k in KEYS}


def tree(rng, sh, full=0.5, text=True):
    out = {}
    for k, s in sh.items():
        if rng.random() < full:
            if isinstance(s, dict):
                out[k] = tree(rng, s, full, text)
            elif s == "list":
                out[k] = [rng.choice(LISTS) for _ in range(rng.randint(0, 3))]
            elif text:
                out[k] = rng.choice(LISTS)
    return out


def gen(rng):
    sh = shape(rng, 2)
    if rng.random() < 0.1:
        sh = {}
        for p in PROPS.values():
            a, b = p.split("/")
            sh.setdefault(a, {})[b] = {"x": "text", "y": "text"} if b in ("mirrors", "base") else "list"
    return {"db": tree(rng, sh, 0.7),
            "ops": [[op, tree(rng, sh, 0.5, op == "Override")] for op in pick(rng, ["Add", "Remove", "Override"], 1, 5)],
            "paths": ["/".join(pick(rng, KEYS, 1, 4)) + rng.choice(["", "", "/"]) for _ in range(4)]}


def trivial(c):
    return not any(set(t) & set(c["db"]) for _, t in c["ops"])


def ref(op, a, b):
    for k, v in b.items():
        if k not in a:
            if op != "Remove":
                a[k] = copy.deepcopy(v)
        elif isinstance(v, dict):
            ref(op, a[k], v)
        elif op == "Add":
            a[k] = a[k] + v
        elif op == "Remove":
            a[k] = [x for x in a[k] if x not in v]
        else:
            a[k] = copy.deepcopy(v)


def get(t, p):
    for x in p.rstrip("/").split("/"):
        if not isinstance(t, dict) or x not in t:
            return {}
        t = t[x]
    return t


def scribble(t):
    """change every part of a tree"""
    for v in list(t.values()):
        if isinstance(v, dict):
            scribble(v)
        elif isinstance(v, list):
            v.append("SCRIBBLE")
    t["SCRIBBLE"] = "1"


def whole(c, paths):
    return {p: copy.deepcopy(c.GetByPath(p)) for p in paths}


def allpaths(t, pre=""):
    out = []
    for k, v in t.items():
        out.append(pre + k)
        if isinstance(v, dict):
            out += allpaths(v, pre + k + "/")
    return out


def run(c, tmp):
    from oelint_parser.constants import Constants
    db = copy.deepcopy(c["db"])
    obj = Constants(db)
    other = Constants(copy.deepcopy(c["db"]))
    model = copy.deepcopy(c["db"])
    probe = list(dict.fromkeys(c["paths"] + list(PROPS.values()) + [k for k in KEYS] + ["a/b", "a/b/c", "x/y/z/w"]))
    if db != c["db"]:
        return "the given table is changed by Constants()"
    scribble(db)
    for i, (op, t) in enumerate(c["ops"]):
        given = copy.deepcopy(t)
        getattr(obj, op + "Constants")(given)
        if given != t:
            return "%sConstants changes its argument %r to %r" % (op, t, given)
        ref(op, model, t)
        scribble(given)
        for p in probe + allpaths(model) + ["SCRIBBLE"]:
            g, e = obj.GetByPath(p), get(model, p)
            if g != e:
                return "after %s %r: GetByPath(%r) is %r instead of %r" % (op, t, p, g, e)
        for k, p in PROPS.items():
            if getattr(obj, k) != get(model, p):
                return "after %s %r: %s is %r instead of %r" % (op, t, k, getattr(obj, k), get(model, p))
    for p in probe:
        if other.GetByPath(p) != get(c["db"], p):
            return "another table changes: %r" % p
    # the argument of one update must not change by a later one
    g1 = copy.deepcopy(c["ops"][0][1])
    o2 = Constants({})
    o2.AddConstants(g1)
    o2.AddConstants(copy.deepcopy({k: v for k, v in g1.items() if isinstance(v, (list, dict)) and not _texts(v)}))
    o2.OverrideConstants(copy.deepcopy(g1))
    o2.RemoveConstants(copy.deepcopy({k: v for k, v in g1.items() if isinstance(v, (list, dict)) and not _texts(v)}))
    if g1 != c["ops"][0][1]:
        return "a later update changes the argument %r of an earlier one to %r" % (c["ops"][0][1], g1)
    g2 = copy.deepcopy(c["ops"][0][1])
    o3 = Constants({})
    o3.OverrideConstants(g2)
    o3.AddConstants({k: v for k, v in copy.deepcopy(g2).items() if isinstance(v, list)})
    o3.AddConstants(copy.deepcopy({k: v for k, v in g2.items() if isinstance(v, dict) and not _texts(v)}))
    if g2 != c["ops"][0][1]:
        return "a later update changes the overriding %r to %r" % (c["ops"][0][1], g2)
    return None


def _texts(v):
    if isinstance(v, dict):
        return any(_texts(x) for x in v.values())
    return isinstance(v, str)


def shrink(c):
    for i in range(len(c["ops"])):
        if len(c["ops"]) > 1:
            yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
    for i, (op, t) in enumerate(c["ops"]):
        for k in t:
            yield dict(c, ops=c["ops"][:i] + [[op, {a: b for a, b in t.items() if a != k}]] + c["ops"][i + 1:])

"""C17: list operations against plain lists."""
import os
from util import *

RULE = "random sequences of append, insert, extend and remove on the stash and on query results; trivial when no operation has more than one item"
OPS = ["append", "insert", "extend", "iadd", "remove", "reduce", "Append", "Remove", "query", "self"]


def gen(rng):
    return {"lines": rng.randint(1, 6), "ops": [[rng.choice(OPS), rng.choice(["one", "list", "tuple", "stashlist"]), [rng.randint(0, 20) for _ in range(rng.randint(0, 4))],
                                                 rng.randint(-3, 8), rng.randint(0, 3)] for _ in range(rng.randint(1, 12))]}


def trivial(c):
    return not any(len(o[2]) > 1 and o[1] != "one" for o in c["ops"])


def run(c, tmp):
    from oelint_parser.cls_stash import Stash
    write(tmp, {"a.bb": "".join('A%d = "%d"\n' % (i, i) for i in range(c["lines"])), "b.bb": 'B = "1"\nC = "2"\ninherit x\n'})
    st = stash()
    st.AddFile(os.path.join(tmp, "a.bb"))
    other = stash()
    other.AddFile(os.path.join(tmp, "b.bb"))
    pool = list(st.GetItemsFor()) + list(other.GetItemsFor())
    for k, x in enumerate(pool):
        x.Line = k + 1                 # distinct lines: the order of the stash is visible
    stash_ = list(st.GetItemsFor())
    results = [st.GetItemsFor() for _ in range(2)] + [Stash.StashList(st, list(pool))]
    models = [list(r) for r in results]

    def same(a, b):
        return [id(x) for x in a] == [id(x) for x in b]
    for op, kind, idx, pos, r in c["ops"]:
        xs = [pool[i % len(pool)] for i in idx]
        r = r % len(results)
        obj, mod = results[r], models[r]
        if op in ("remove", "Remove"):
            have = list(mod if op == "remove" else stash_)
            keep = []
            for x in xs:
                if any(x is y for y in have):
                    have = [y for k, y in enumerate(have) if k != next(j for j, z in enumerate(have) if z is x)]
                    keep.append(x)
            xs = keep
        if kind == "one":
            xs = xs[:1]
            if not xs:
                continue
        arg = xs[0] if kind == "one" else list(xs) if kind == "list" else tuple(xs) if kind == "tuple" else Stash.StashList(st, list(xs))
        many = arg if kind != "one" else [arg]
        what = "%s of %d items as %s" % (op, len(xs), kind)
        if op == "append":
            obj.append(arg)
            mod += xs
        elif op == "extend":
            obj.extend(many)
            mod += xs
        elif op == "iadd":
            o2 = obj
            o2 += many
            if o2 is not obj:
                return "+= gives another list"
            mod += xs
        elif op == "insert":
            if not xs:
                continue
            obj.insert(pos, xs[0])
            mod.insert(pos, xs[0])
        elif op == "remove":
            obj.remove(arg)
            for x in xs:
                k = next(j for j, z in enumerate(mod) if z is x)
                del mod[k]
        elif op == "Append":
            st.Append(arg)
            stash_ += xs
        elif op == "Remove":
            st.Remove(arg)
            for x in xs:
                k = next(j for j, z in enumerate(stash_) if z is x)
                del stash_[k]
        elif op == "self":
            if kind == "one":
                obj.append(obj)
            elif kind == "list":
                obj.extend(obj)
            elif kind == "tuple":
                obj += obj
            else:
                obj.remove(obj)
                mod[:] = []
                continue
            mod += list(mod)
            if len(mod) > 3000:
                return None
        elif op == "query":
            results.append(st.GetItemsFor())
            models.append(sorted({id(x): x for x in stash_}.values(), key=lambda x: x.Line))
        elif op == "reduce":
            obj.reduce(classifier="Variable")
            seen = {}
            for x in mod:
                if x.CLASSIFIER == "Variable":
                    seen.setdefault(id(x), x)
            mod[:] = sorted(seen.values(), key=lambda x: x.Line)
        if kind != "one" and op != "self" and not same(arg, xs):
            return "%s changes its argument" % what
        for k, (a, b) in enumerate(zip(results, models)):
            if not same(a, b) or len(a) != len(b):
                return "%s on list %d: list %d holds %r instead of %r" % (what, r, k, [x.Raw for x in a], [x.Raw for x in b])
        exp = sorted({id(x): x for x in stash_}.values(), key=lambda x: x.Line)
        if not same(st.GetItemsFor(), exp):
            return "%s: the stash holds %r instead of %r" % (what, [x.Raw for x in st.GetItemsFor()], [x.Raw for x in exp])
    # number of occurrences in the stash: remove them one by one
    for x in list(stash_):
        st.Remove(x)
    if len(st.GetItemsFor()):
        return "the stash is not empty after removing every item"
    return None


def shrink(c):
    for i in range(len(c["ops"])):
        if len(c["ops"]) > 1:
            yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])

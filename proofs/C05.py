"""C05: a query returns exactly the matching items, once, in line order."""
from proofs.common import *

SPEC = '''
def visible(x, filename, nolink, links):
    return x.Origin == filename or (not nolink and x.Origin in links.get(filename, []))

def has(x, names, values):
    d = x.GetAttributes()
    return any(n in d and (not values or any(v == d.get(n) for v in values)) for n in names)

def reduce(items, links, filename, classes, names, values, nolink):
    out = []
    for x in items:
        if filename and not visible(x, filename, nolink, links):
            continue
        if classes and x.CLASSIFIER not in classes:
            continue
        if names and not has(x, names, values):
            continue
        out.append(x)
    return sorted(dict.fromkeys(out), key=lambda x: x.Line)
'''

ASSUMPTIONS = ["sorted() is stable and dict.fromkeys() keeps the first occurrence of each item",
               "GetAttributes reports the public properties of an item (cross-checked for every class)"]
TRUSTED = ["contract of Item.GetAttributes: a mapping from names to values"]


def attrs(it, v):
    def call():
        fn = z3.Function("attributes", Ref, sort_of(TDict(STR, PYVAL)))
        it.ctx.run.assumptions.add("contract of cls_item.Item.GetAttributes: a mapping from names to values")
        return it.from_term(TDict(STR, PYVAL), fn(v.term))
    return BuiltinV("GetAttributes", call)


def program(P):
    P.add_spec("spec", SPEC)
    P.field_types.update(Line=INT, Origin=STR, CLASSIFIER=STR)
    item_attrs(P, {"Line": INT, "Origin": STR, "CLASSIFIER": STR}, {"GetAttributes": attrs})
    P.hooks[("opaque_method", "PyVal")] = lambda it, v, n: None


KINDS = ["none", "one", "list", "tuple", "set"]


def arg(it, kind, ty, name):
    """the filter argument and the list of its values"""
    if kind == "none":
        return None, it.mklist([])
    if kind == "one":
        v = text(name) if ty is STR else sym(it, ty, name)
        if ty is not STR:
            return v, it.mklist([v])
        # the empty text means not given
        if it.ctx.branch(v.term == strval("")):
            return v, it.mklist([])
        return v, it.mklist([v])
    if kind == "list":
        return sym(it, TList(ty), name), sym(it, TList(ty), name)
    if kind == "tuple":
        return sym(it, TTupS(ty), name), sym(it, TList(ty), name)
    s = sym(it, TSet(ty), name)
    return s, B.to_list(it, s)


def setup(it):
    links = sym(it, TDict(STR, TList(STR)), "map")
    items = sym(it, TList(ITEM), "items")
    st = stash(it, _Stash__map=links, _Stash__list=items)
    return st, items, sym(it, TDict(STR, TList(STR)), "map")


def unit_reduce(ck, ak, vk):
    def run(P):
        program(P)

        def thunk(it):
            st, items, links = setup(it)
            fn = sym(it, TOpt(STR), "filename")
            nolink = z3.Bool("nolink")
            c, cs = arg(it, ck, STR, "cls")
            a, as_ = arg(it, ak, STR, "att")
            v, vs = arg(it, vk, STR, "val")
            cover(it, "reduce")
            kw = dict(filename=fn, classifier=c, attribute=a, attributeValue=v, nolink=nolink)
            got = it.call(it.getattr(st, "Reduce"), [items], kw)
            exp = spec(it, "spec", "reduce", sym(it, TList(ITEM), "items"), links, fn, cs, as_, vs, nolink)
            same_list(it, "exactly-the-matching-items-in-order", got, exp, ITEM)
            same_list(it, "input-unchanged", items, sym(it, TList(ITEM), "items"), ITEM)
        return P.run("Reduce", thunk)
    return ("Reduce[%s,%s,%s]" % (ck, ak, vk), run)


def unit_getitems(P):
    program(P)

    def thunk(it):
        st, items, links = setup(it)
        fn = sym(it, TOpt(STR), "filename")
        nolink = z3.Bool("nolink")
        c, cs = arg(it, "one", STR, "cls")
        a, as_ = arg(it, "one", STR, "att")
        v, vs = arg(it, "one", STR, "val")
        cover(it, "getitems")
        got = it.call(it.getattr(st, "GetItemsFor"), [], dict(filename=fn, classifier=c, attribute=a, attributeValue=v, nolink=nolink))
        exp = spec(it, "spec", "reduce", sym(it, TList(ITEM), "items"), links, fn, cs, as_, vs, nolink)
        same_list(it, "exactly-the-matching-items-of-the-stash", data_of(it, got), exp, ITEM)
        same_list(it, "stash-unchanged", st.fields["_Stash__list"], sym(it, TList(ITEM), "items"), ITEM)
    return P.run("GetItemsFor", thunk)


def unit_listreduce(P):
    program(P)

    def thunk(it):
        st, items, links = setup(it)
        SL = it.getattr(it.prog.cls(it, "Stash"), "StashList")
        own = sym(it, TList(ITEM), "own")
        sl = it.call(SL, [st, own], {})
        fn = sym(it, TOpt(STR), "filename")
        nolink = z3.Bool("nolink")
        c, cs = arg(it, "list", STR, "cls")
        a, as_ = arg(it, "one", STR, "att")
        v, vs = arg(it, "list", STR, "val")
        cover(it, "listreduce")
        got = it.call(it.getattr(sl, "reduce"), [], dict(filename=fn, classifier=c, attribute=a, attributeValue=v, nolink=nolink))
        exp = spec(it, "spec", "reduce", sym(it, TList(ITEM), "own"), links, fn, cs, as_, vs, nolink)
        same_list(it, "list-holds-exactly-the-matching-items", sl.fields["data"], exp, ITEM)
        it.ctx.prove("returns-itself", got is sl)
        same_list(it, "stash-unchanged", st.fields["_Stash__list"], sym(it, TList(ITEM), "items"), ITEM)
    return P.run("reduce", thunk)


def units(tier):
    out = []
    combos = [("none", "none", "none"), ("one", "one", "one"), ("list", "list", "list"), ("tuple", "tuple", "tuple"), ("set", "set", "set"),
              ("one", "one", "none"), ("none", "list", "one"), ("list", "one", "list"), ("none", "none", "one"), ("one", "list", "set")]
    if tier == "thorough":
        combos = [(a, b, c) for a in KINDS for b in KINDS for c in KINDS]
    for c in combos:
        out.append(unit_reduce(*c))
    out.append(("GetItemsFor", unit_getitems))
    out.append(("StashList.reduce", unit_listreduce))
    return out

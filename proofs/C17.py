"""C17: appending, inserting, extending and removing touch exactly the given items."""
from proofs.common import *
from proofs.C05 import attrs

SPEC = '''
def add(xs, new):
    out = list(xs)
    for x in new:
        out.append(x)
    return out

def insert(xs, i, x):
    out = list(xs)
    out.insert(i, x)
    return out

def remove(xs, gone):
    out = list(xs)
    for x in gone:
        out.remove(x)
    return out
'''

ASSUMPTIONS = ["list.remove takes out the first equal element or raises ValueError", "items are equal only if identical (no class of the package defines equality: cross-checked)"]
NOTE = "for all lists, items and positions; given item, list, tuple, stash list or the list itself"


def program(P):
    P.add_spec("spec", SPEC)
    P.field_types.update(Line=INT, Origin=STR, CLASSIFIER=STR)
    item_attrs(P, {"Line": INT, "Origin": STR, "CLASSIFIER": STR})


def stashlist(it, st, name):
    SL = it.getattr(it.prog.cls(it, "Stash"), "StashList")
    return it.call(SL, [st, sym(it, TList(ITEM), name)], {})


def given(it, st, kind, own=None):
    """the argument and a list of the items it stands for"""
    if kind == "item":
        return sym(it, ITEM, "x"), it.mklist([sym(it, ITEM, "x")])
    if kind == "list":
        return sym(it, TList(ITEM), "xs"), sym(it, TList(ITEM), "xs")
    if kind == "tuple":
        return sym(it, TTupS(ITEM), "xs"), sym(it, TList(ITEM), "xs")
    if kind == "stashlist":
        return stashlist(it, st, "xs"), sym(it, TList(ITEM), "xs")
    if kind == "two":
        return it.mklist([sym(it, ITEM, "x"), sym(it, ITEM, "y")]), it.mklist([sym(it, ITEM, "x"), sym(it, ITEM, "y")])
    if kind == "self":
        return own, sym(it, TList(ITEM), "own")
    raise ValueError(kind)


def outcome(it, f):
    """('ok', value) or the name of the exception"""
    try:
        return ("ok", f())
    except PyRaise as e:
        return (e.exc, None)


def unit(where, op, kind):
    def run(P):
        program(P)
        if op == "remove" and kind != "item":
            P.hooks["remove_present"] = True

        def thunk(it):
            items = sym(it, TList(ITEM), "items")
            st = stash(it, _Stash__list=items)
            if where == "StashList":
                obj = stashlist(it, st, "own")
                other = stashlist(it, st, "other")
                own0 = sym(it, TList(ITEM), "own")
                hold = lambda: obj.fields["data"]
            else:
                obj = st
                other = stashlist(it, st, "other")
                own0 = sym(it, TList(ITEM), "items")
                hold = lambda: st.fields["_Stash__list"]
            arg, new = given(it, st, kind, obj)
            cover(it, op)
            i = z3.Int("i")
            name = {"add": "Append" if where == "Stash" else "append", "extend": "extend", "iadd": "__iadd__", "insert": "insert",
                    "remove": "Remove" if where == "Stash" else "remove"}[op]
            f = it.getattr(obj, name)
            r1 = outcome(it, lambda: it.call(f, [i, arg] if op == "insert" else [arg], {}))
            if op == "insert":
                r2 = outcome(it, lambda: spec(it, "spec", "insert", own0, i, arg))
            elif op == "remove":
                r2 = outcome(it, lambda: spec(it, "spec", "remove", own0, new))
            else:
                r2 = outcome(it, lambda: spec(it, "spec", "add", own0, new))
            it.ctx.prove("fails-exactly-if-an-item-to-remove-is-absent", r1[0] == r2[0])
            if r1[0] != "ok" or r2[0] != "ok":
                return
            same_list(it, "exactly-the-given-items-in-order", hold(), r2[1], ITEM)
            if op == "iadd":
                it.ctx.prove("gives-itself", r1[1] is obj)
            same_list(it, "other-query-result-unchanged", other.fields["data"], sym(it, TList(ITEM), "other"), ITEM)
            if where == "StashList":
                same_list(it, "stash-unchanged", st.fields["_Stash__list"], sym(it, TList(ITEM), "items"), ITEM)
            if kind == "list":
                same_list(it, "argument-unchanged", arg, sym(it, TList(ITEM), "xs"), ITEM)
            elif kind == "stashlist":
                same_list(it, "argument-unchanged", arg.fields["data"], sym(it, TList(ITEM), "xs"), ITEM)
        return P.run("%s.%s" % (where, op), thunk)
    return ("%s.%s[%s]" % (where, op, kind), run)


def unit_results(kw):
    """query results are lists of their own"""
    def run(P):
        return results(P, kw)
    return run


def results(P, kw):
    program(P)
    P.hooks["remove_present"] = True
    P.hooks["ref_attr"] = (lambda old: lambda it, v, n: attrs(it, v) if n == "GetAttributes" else old(it, v, n))(P.hooks["ref_attr"])
    P.hooks[("opaque_method", "PyVal")] = lambda it, v, n: None

    def thunk(it):
        items = sym(it, TList(ITEM), "items")
        st = stash(it, _Stash__list=items, _Stash__map=sym(it, TDict(STR, TList(STR)), "map"))
        f = it.getattr(st, "GetItemsFor")
        args = {k: text(k) for k in kw}
        for v in args.values():
            it.ctx.assume(v.parts[0].term != strval(""))
        r1 = it.call(f, [], dict(args))
        r2 = it.call(f, [], dict(args))
        before = it.to_term(TList(ITEM), r2.fields["data"])
        x = sym(it, ITEM, "x")
        it.call(it.getattr(r1, "append"), [x], {})
        it.call(it.getattr(r1, "extend"), [r2], {})
        it.call(it.getattr(r1, "insert"), [0, x], {})
        it.call(it.getattr(r1, "remove"), [x], {})
        r3 = it.call(f, [], dict(args))
        cover(it, "results")
        it.ctx.prove("later-query-result-unchanged", it.to_term(TList(ITEM), r3.fields["data"]) == before)
        it.ctx.prove("other-query-result-unchanged", it.to_term(TList(ITEM), r2.fields["data"]) == before)
        it.ctx.prove("stash-unchanged", it.to_term(TList(ITEM), st.fields["_Stash__list"]) == it.to_term(TList(ITEM), sym(it, TList(ITEM), "items")))
    return P.run("results", thunk)


def units(tier):
    out = []
    kinds = ["item", "list", "tuple", "stashlist", "two"]
    for k in kinds:
        out.append(unit("Stash", "add", k))
        out.append(unit("Stash", "remove", k))
        out.append(unit("StashList", "add", k))
        out.append(unit("StashList", "remove", k))
        if k != "item":
            out.append(unit("StashList", "extend", k))
            out.append(unit("StashList", "iadd", k))
    for op in ("add", "extend", "iadd"):
        out.append(unit("StashList", op, "self"))
    out.append(unit("StashList", "insert", "item"))
    for kw in ([], ["filename"], ["classifier"], ["attribute"], ["filename", "classifier"], ["classifier", "attribute", "attributeValue"]):
        out.append(("query-results[%s]" % ",".join(kw), unit_results(kw)))
    return out

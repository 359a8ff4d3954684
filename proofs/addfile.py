"""Shared parts of the proofs about Stash.AddFile.

The file read is D/N.E; parsing it is replaced by a contract that leaves open what the parser adds
(it may come back to AddFile for other files), except that the set of files being read is the same
afterwards."""
from proofs.common import *
from proofs import scan

EXTS = [".bb", ".inc", ".conf", ".bbclass", ".bbappend", ".txt", ""]
S = z3.StringSort()
PART = CharSet.of("/.\n").inv()
APPENDS = TDict(STR, TTup(INT, TList(ITEM)))
FIELDS = {"_Stash__list": TList(ITEM), "_Stash__seen_files": TSet(STR), "_Stash__seen_classes": TSet(STR), "_Stash__active_files": TSet(STR),
          "_Stash__map": TDict(STR, TList(STR)), "_Stash__lastline": TDict(STR, INT), "_Stash__appends": APPENDS}
BYTES = TOpaque("bytes")
UPDATED = z3.Function("digest_updated", S, sort_of(BYTES), S)
LINE = "_Item__Line"


def digest(it, state):
    """a sha1 object: the text stands for everything put in so far"""
    v = RefV(z3.Const("sha1", Ref), ("Item",))
    it.ctx.heap["state"] = z3.Store(it.heap("state", STR), v.term, state)
    return v


def put_in(it, v, x):
    old = it.getattr(v, "state")
    it.setattr(v, "state", Str([Atom(UPDATED(sterm(old), it.to_term(BYTES, it.force(x))))]))


FILE = "the_file"
GIVEN = "the_name_given"


def a_file(P, ext):
    """the file is a text of its own, of which only the extension is known (ext or, for "", none)"""
    is_file = lambda v: isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Atom) and v.parts[0].term.eq(z3.String(FILE))

    def ends(it, v, x):
        if not is_file(v):
            return None
        if isinstance(x, tuple):
            rs = [ends(it, v, it.force(y)) for y in x]
            return None if None in rs else any(rs)
        if not isinstance(x, str) or x.rfind(".") != 0 or "/" in x:
            return None
        return x == ext

    P.hooks["endswith"] = ends
    P.hooks["splitext"] = lambda it, v: (Str([Atom(z3.Function("py_splitext_root", S, S)(z3.String(FILE)))]), ext) if is_file(v) else None


def the_file():
    return text(FILE)


def build(it, **fields):
    f = {n: sym(it, t, n[8:]) for n, t in FIELDS.items()}
    f["_Stash__quiet"] = True
    f["_Stash__new_style_override_syntax"] = z3.Bool("new_style")
    f["_Stash__negative_inline"] = z3.Bool("negative")
    f["_Stash__fingerprint"] = digest(it, z3.String("digest"))
    f.update(fields)
    return stash(it, **f)


def term(it, st, name):
    n = "_Stash__" + name
    return it.to_term(FIELDS[n], it.force(st.fields[n]))


def renew(it, st, name):
    """anything may have happened to a field"""
    n = "_Stash__" + name
    t = it.ctx.fresh(name, sort_of(FIELDS[n]))
    st.touched(it.ctx)
    st.fields[n] = it.from_term(FIELDS[n], t)
    st.written(it.ctx)
    return t


def holds(it, st, F):
    """invariant of the tables: appends have a last line; the file being read is in the links and has a last line"""
    d = lambda n: it.force(st.fields["_Stash__" + n])
    k = z3.String("some_key")
    yield "appends-have-a-last-line", lambda: z3.Implies(z3.Select(d("appends").dom, k), z3.Select(d("lastline").dom, k)), k
    yield "file-has-links", lambda: z3.Select(d("map").dom, sterm(F)), None
    yield "file-has-a-last-line", lambda: z3.Select(d("lastline").dom, sterm(F)), None


def loops(P):
    """the loops over the tables of files: any number of rounds, in any state that keeps the invariant"""
    def applies(it, s, env, x):
        st = it.ctx.ghost["stash"]
        return x[0] == "sym" and tables(it, st, x[2])

    def tables(it, st, seq):
        return [n for n in FIELDS if isinstance(it.force(st.fields[n]), DictV) and it.force(st.fields[n]).keys is not None and it.force(st.fields[n]).keys.eq(seq)]

    class Round(scan.AnyRound):
        def run(self, it, s, env, x):
            st, F = it.ctx.ghost["stash"], it.ctx.ghost["file"]
            mine = tables(it, st, x[2])
            inv = list(holds(it, st, F))
            for n, f, k in inv:
                it.ctx.prove(n + "-before-a-loop", f())

            def facts(it, env, elem):
                if isinstance(elem, tuple):
                    elem = elem[0]
                key = None if elem is None else sterm(elem)
                for n, f, k in inv:
                    it.ctx.assume(f())
                    if k is not None and elem is not None:
                        it.ctx.assume(z3.substitute(f(), (k, key)))
                if elem is not None:
                    for n in mine:
                        it.ctx.assume(z3.Select(it.force(st.fields[n]).dom, key))

            def each(it, env, elem, pre):
                for n, f, k in inv:
                    it.ctx.prove(n + "-after-a-round", f())
            one = scan.AnyRound(None, None, each, None, facts, [LINE], True)
            one.run(it, s, env, x)
    P.for_hooks.setdefault("*", []).append(Round(applies=applies).hook)


def program(P, parse):
    """parse(it, bound) -> list of items: the contract of get_items"""
    # the file is given by any of its names
    P.hooks["abspath"] = lambda it, x: the_file() if isinstance(x, Str) and len(x.parts) == 1 and x.parts[0].term.eq(z3.String(GIVEN)) else x
    P.contracts["parser.get_items"] = parse
    P.contracts["cls_stash.Stash._clear_cached"] = lambda it, b: None
    P.contracts["cls_stash.Stash.AddDistroMachineFromLayer"] = lambda it, b: None
    P.contracts["cls_item.Item.__repr__"] = lambda it, b: Str([Atom(z3.Function("text_of", Ref, S)(it.force(b["self"]).term))])
    P.field_types.update({LINE: INT, "state": STR})
    P.mutable_fields |= {LINE, "state"}

    def attr(it, v, name):
        if not v.term.eq(z3.Const("sha1", Ref)):
            return NOT
        if name == "update":
            return BuiltinV("update", lambda x: put_in(it, v, x))
        if name == "hexdigest":
            return BuiltinV("hexdigest", lambda: Str([Atom(z3.Function("hexdigest", S, S)(sterm(it.getattr(v, "state"))))]))
        return NOT
    P.hooks["ref_attr"] = attr


def reads(it, b, grows=("seen_files", "seen_classes"), hook=None):
    """the contract of get_items: other files may be added; the set of files being read is as before"""
    st, F = it.ctx.ghost["stash"], it.ctx.ghost["file"]
    it.ctx.ghost["calls"] = it.ctx.ghost.get("calls", 0) + 1
    it.ctx.ghost["active"] = term(it, st, "active_files")
    old = {n: term(it, st, n[8:]) for n in FIELDS}
    for n in ("map", "lastline", "appends", "seen_files", "seen_classes"):
        renew(it, st, n)
    more = it.ctx.fresh("more", z3.SeqSort(Ref))
    st.touched(it.ctx)
    st.fields["_Stash__list"] = it.from_term(TList(ITEM), z3.Concat(old["_Stash__list"], more))
    st.written(it.ctx)
    for f in [LINE]:
        it.ctx.heap[f] = it.ctx.fresh("heap", it.heap(f, INT).sort())
    it.setattr(st.fields["_Stash__fingerprint"], "state", Str([Atom(it.ctx.fresh("digest", S))]))
    # entries are never taken out of the tables
    keys = [sterm(F), z3.String("some_key")]
    for n in ("lastline", "map", "appends"):
        new = term(it, st, n)
        d = sort_of(FIELDS["_Stash__" + n])
        for k in keys:
            it.ctx.assume(z3.Implies(z3.Select(d.accessor(0, 1)(old["_Stash__" + n]), k), z3.Select(d.accessor(0, 1)(new), k)))
    k = z3.String("some_key")
    d = lambda n: it.force(st.fields["_Stash__" + n])
    it.ctx.assume(z3.Implies(z3.Select(d("appends").dom, k), z3.Select(d("lastline").dom, k)))
    it.ctx.ghost["digest"] = it.getattr(st.fields["_Stash__fingerprint"], "state")
    it.ctx.ghost["list"] = term(it, st, "list")
    return sym(it, TList(ITEM), "res")


def appendfor(P):
    f = z3.Function("append_for", S, S, z3.BoolSort())
    P.contracts["cls_stash.Stash._Stash__is_append_for"] = lambda it, b: f(sterm(it.force(b["append"])), sterm(it.force(b["recipe"])))

"""C22: the fingerprint depends on the parsed contents and options only."""
import ast
from proofs.common import *
from proofs import addfile
from pyvc.ctx import Run
from pyvc.interp import PropV

SPEC = '''
def item_text(name, attributes):
    return name + " -- " + str({k: in_order(v) if is_a_set(v) else v for k, v in attributes.items()}) + "\\n"
'''
ASSUMPTIONS = ["SHA-1 has no collisions and its state is a function of what was put in, in order",
               "the written form of a dictionary of attributes (text, numbers, truth values, nothing, lists and tuples of these) determines the dictionary",
               "object.__dir__ names the attributes of an object in an order that is the same in every process",
               "two runs read the same file contents (file system and constants unchanged)"]
TRUSTED = ["contracts: get_items (C01, C04; may add other files), __is_append_for (C10), AddDistroMachineFromLayer, _clear_cached (C06)"]
NOTE = "what is put into the checksum on every path of AddFile, for any list of items; every class of items; no unordered collection is taken in order on the way"
S = z3.StringSort()


def initial(P):
    """different options, different start"""
    P.hooks["sha1"] = lambda it, x=None: addfile.digest(it, z3.Function("digest_of", sort_of(addfile.BYTES), S)(it.to_term(addfile.BYTES, it.force(x))))
    P.contracts["cls_stash.Stash._clear_cached"] = lambda it, b: None
    P.field_types.update({"state": STR})
    P.mutable_fields |= {"state"}
    r = Run("options", P.factory())

    def thunk(it):
        ts = []
        for a in (False, True):
            for b in (False, True):
                st = it.call(it.prog.cls(it, "Stash"), [], dict(quiet=z3.Bool("quiet"), new_style_override_syntax=a, negative_inline=b))
                fp = st.fields["_Stash__fingerprint"]
                ts.append(z3.simplify(sterm(it.getattr(fp, "state"))))
        cover(it, "options")
        # distinct texts give distinct bytes and states
        x, y = z3.Consts("x y", S)
        enc, dig = z3.Function("py_encode", S, sort_of(addfile.BYTES)), z3.Function("digest_of", sort_of(addfile.BYTES), S)
        back, undo = z3.Function("py_decode", sort_of(addfile.BYTES), S), z3.Function("digest_input", S, sort_of(addfile.BYTES))
        for t in ts:
            it.ctx.assume(undo(t) == t.arg(0) if t.decl().eq(dig) else z3.BoolVal(True))
            if t.decl().eq(dig) and t.arg(0).decl().eq(enc):
                it.ctx.assume(back(t.arg(0)) == t.arg(0).arg(0))
        for i in range(4):
            for j in range(i):
                it.ctx.prove("different-options-start-differently", ts[i] != ts[j])
        fresh = it.call(it.prog.cls(it, "Stash"), [], dict(quiet=z3.Bool("another"), new_style_override_syntax=True, negative_inline=False))
        it.ctx.prove("equal-options-start-equally", sterm(it.getattr(fresh.fields["_Stash__fingerprint"], "state")) == ts[2])
    r.explore(thunk)
    return r


def answer(P):
    """the fingerprint is the checksum of what was put in"""
    addfile.program(P, None)

    def thunk(it):
        st = addfile.build(it)
        cover(it, "answer")
        got = it.getattr(st, "FingerPrint")
        it.ctx.prove("fingerprint-is-the-checksum", sterm(it.force(got)) == z3.Function("hexdigest", S, S)(z3.String("digest")))
        it.ctx.prove("asking-changes-nothing", sterm(it.getattr(st.fields["_Stash__fingerprint"], "state")) == z3.String("digest"))
    return P.run("FingerPrint", thunk)


SPEC_FP = '''
def put_all(d, items):
    for x in items:
        d.update(str(x).encode())
'''


def add(ext, linked, seen):
    def run(P):
        def parse(it, b):
            it.ctx.prove("parses-the-file-itself", it.eq(b["_file"], it.ctx.ghost["file"]))
            eqv(it, "parses-with-the-options: syntax", b["new_style_override_syntax"], z3.Bool("new_style"))
            eqv(it, "parses-with-the-options: expansion", b["negative"], z3.Bool("negative"))
            st = it.ctx.ghost["stash"]
            now = sterm(it.getattr(st.fields["_Stash__fingerprint"], "state"))
            it.ctx.prove("nothing-is-put-in-before", now == z3.String("digest"))
            res = addfile.reads(it, b)
            it.ctx.ghost["heap"] = it.heap("state", STR)
            return res
        addfile.program(P, parse)
        addfile.a_file(P, ext)
        addfile.appendfor(P)
        addfile.loops(P)
        P.add_spec("spec", SPEC_FP)

        def thunk(it):
            st = addfile.build(it)
            F = addfile.the_file()
            it.ctx.ghost.update(stash=st, file=F, ext=ext)
            k = z3.String("some_key")
            d = lambda n: it.force(st.fields["_Stash__" + n])
            it.ctx.assume(z3.Implies(z3.Select(d("appends").dom, k), z3.Select(d("lastline").dom, k)))
            link = text("link") if linked else None
            it.ctx.assume(z3.Select(addfile.term(it, st, "seen_files"), sterm(F)) == seen)
            cover(it, "add")
            it.force(it.call(it.getattr(st, "AddFile"), [text(addfile.GIVEN)], dict(forcedLink=link, lineOffset=z3.Int("offset"))))
            fp = st.fields["_Stash__fingerprint"]
            now = sterm(it.getattr(fp, "state"))
            if it.ctx.ghost.get("calls"):
                cover(it, "parsed")
                it.ctx.heap["state"] = it.ctx.ghost["heap"]
                spec(it, "spec", "put_all", fp, sym(it, TList(ITEM), "res"))
                it.ctx.prove("every-item-is-put-in-once-in-order", now == sterm(it.getattr(fp, "state")))
            else:
                it.ctx.prove("nothing-is-put-in", now == z3.String("digest"))
        return P.run("AddFile" + ext, thunk)
    return ("AddFile[%s%s%s]" % (ext or "none", ",linked" if linked else "", ",seen" if seen else ""), run)


# ---------------------------------------------------------------- the text of an item
def item_classes(P):
    """all classes of items of the tree"""
    tree = P.mods["cls_item"].tree
    known, out = {"Item"}, ["Item"]
    more = True
    while more:
        more = False
        for c in tree.body:
            if isinstance(c, ast.ClassDef) and c.name not in known and any(isinstance(b, ast.Name) and b.id in known for b in c.bases):
                known.add(c.name)
                out.append(c.name)
                more = True
    return out


def texts(P):
    P.add_spec("spec", SPEC)
    is_set = z3.Function("is_a_set", sort_of(PYVAL), z3.BoolSort())
    ordered = z3.Function("in_order", sort_of(PYVAL), sort_of(PYVAL))
    P.hooks[("opaque_isinstance", "PyVal")] = lambda it, v, n: is_set(v.term) if n == "set" else None
    order = lambda it: BuiltinV("sorted", lambda v: OpaqueV(PYVAL, ordered(it.to_term(PYVAL, it.force(v)))))
    P.overrides[("cls_item", "sorted")] = order
    P.overrides[("spec", "in_order")] = order
    P.overrides[("spec", "is_a_set")] = lambda it: BuiltinV("is_a_set", lambda v: is_set(it.to_term(PYVAL, it.force(v))))
    attributes = lambda it: sym(it, TDict(STR, PYVAL), "attributes")
    P.contracts["cls_item.Item.GetAttributes"] = lambda it, b: attributes(it)
    r = Run("texts", P.factory())
    for c in item_classes(P):
        def thunk(it):
            x = RefV(z3.Const("x", Ref), (c,))
            got = it.call(BuiltinV("str", lambda v: B.to_str(it, v)), [x], {})
            exp = spec(it, "spec", "item_text", c, attributes(it))
            cover(it, "text")
            eqv(it, "text-of-an-item-is-its-class-and-attributes: " + c, got, exp)
        r.explore(thunk)
    return r


def attributes(P):
    r = Run("attributes", P.factory())
    prop = lambda c, n: isinstance(c.lookup(n)[0], PropV) or isinstance(c.lookup(n)[0], FuncV) and c.lookup(n)[0].kind == "property"

    def attr(it, v, name):
        c = it.prog.cls(it, v.classes[0])
        if name == "__dir__":
            names = {n for k in c.mro() for n in k.ns} | {"_Item__Line", "_Item__Raw", "__class__", "__dict__", "__init__", "__repr__"}
            return BuiltinV("__dir__", lambda: it.mklist(sorted(names)))
        if not name.startswith("_") and prop(c, name):
            return OpaqueV(PYVAL, z3.Function("attribute_" + name, Ref, sort_of(PYVAL))(v.term))
        return NOT
    P.hooks["ref_attr"] = attr
    for n in item_classes(P):
        def thunk(it):
            c = it.prog.cls(it, n)
            x = RefV(z3.Const("x", Ref), (n,))
            got = it.force(it.call(it.getattr(x, "GetAttributes"), [], {}))
            want = sorted({m for k in c.mro() for m in k.ns if not m.startswith("_") and prop(c, m)})
            cover(it, "attributes")
            have = {k: v for k, v in got.pairs} if isinstance(got, DictV) and got.pairs is not None else None
            it.ctx.prove("exactly-the-public-properties: " + n, z3.BoolVal(have is not None and set(have) == set(want)))
            for m in want:
                if have and m in have:
                    it.ctx.prove("each-with-its-value: " + n, it.to_term(PYVAL, it.force(have[m])) == z3.Function("attribute_" + m, Ref, sort_of(PYVAL))(x.term))
        r.explore(thunk)
    return r


# ---------------------------------------------------------------- frame and order, over the code
def frame(P):
    """only AddFile puts something into the checksum"""
    r = Run("frame", P.factory())
    cls = P.mods["cls_stash"].top["Stash"]
    fs = {f.name: f for f in cls.body if isinstance(f, ast.FunctionDef)}
    calls = {n: {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute)} & set(fs) for n, f in fs.items()}
    touch = {n for n, f in fs.items() if n not in ("__init__", "FingerPrint") and any(isinstance(x, ast.Attribute) and x.attr in ("__fingerprint", "_Stash__fingerprint") for x in ast.walk(f))}
    while True:
        more = {n for n in fs if n not in touch and n != "AddFile" and calls[n] & (touch - {"AddFile"})}
        if not more:
            break
        touch |= more
    for n in sorted(fs):
        if n == "AddFile" or n.startswith("_"):
            continue
        r.record("checksum-is-left-alone: " + n, "failed" if n in touch else "discharged", "effect calculus", 0, "touches the checksum" if n in touch else None)
        r.functions.add("cls_stash.Stash." + n)
    r.covers["AddFile-touches"] = True
    return r


UNSTABLE = {"hash", "id", "random", "uuid", "time", "getpid", "urandom", "perf_counter", "monotonic", "now", "listdir", "scandir", "walk"}


def ordering(P):
    """what is read when a file is added does not depend on the order of a set or on the process"""
    r = Run("order", P.factory())
    funs = {}
    for m in ("parser", "inlinerep", "cls_item", "rpl_regex", "cls_stash"):
        for f in ast.walk(P.mods[m].tree):
            if isinstance(f, ast.FunctionDef):
                funs.setdefault(f.name, []).append((m, f))
    todo, seen = ["AddFile", "__init__", "__repr__", "GetAttributes"], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m, f in funs.get(n, []):
            clears = {id(x.value) for x in ast.walk(f) if isinstance(x, ast.Attribute) and x.attr == "cache_clear"}
            for x in ast.walk(f):
                if id(x) in clears:
                    continue
                k = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                if k in funs and k not in seen:
                    todo.append(k)
    # attributes that hold sets
    fields = set()
    for m in P.mods.values():
        for a in ast.walk(m.tree):
            if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None and is_set(a.value, set()):
                for t in a.targets if isinstance(a, ast.Assign) else [a.target]:
                    if isinstance(t, ast.Attribute):
                        fields.add(t.attr)
    for n in sorted(seen):
        for m, f in funs.get(n, []):
            why = unordered(f, fields)
            r.record("nothing-unordered-is-taken-in-order: %s.%s" % (m, n), "failed" if why else "discharged", "effect calculus", 0, why)
            r.functions.add(m + "." + n)
    r.covers["reaches-the-parser"] = "get_items" in seen
    return r


def is_set(e, names, fields=()):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "copy"):
        return is_set(e.func.value, names, fields)
    if isinstance(e, ast.BinOp):
        return is_set(e.left, names, fields) and not isinstance(e.op, ast.Mod) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor))
    if isinstance(e, ast.BoolOp):
        return any(is_set(x, names, fields) for x in e.values)
    if isinstance(e, ast.IfExp):
        return is_set(e.body, names, fields) or is_set(e.orelse, names, fields)
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Attribute):
        return e.attr in fields
    return False


def unordered(f, fields):
    names = set()
    for _ in range(3):
        for a in ast.walk(f):
            if isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None and is_set(a.value, names, fields):
                for t in a.targets if isinstance(a, ast.Assign) else [a.target]:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
    s = lambda e: is_set(e, names, fields)
    harmless = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("sorted", "set", "frozenset", "any", "all", "len", "max", "min", "sum"):
            harmless |= {id(a) for a in x.args}
        if isinstance(x, ast.SetComp):
            harmless.add(id(x))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr in ("update", "union", "intersection", "difference") and s(x.func.value)):
            harmless |= {id(a) for a in x.args}
    for x in ast.walk(f):
        if isinstance(x, ast.For) and s(x.iter):
            return "line %d: loop over a set" % x.lineno
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and id(x) not in harmless and any(s(g.iter) for g in x.generators):
            return "line %d: a list built over a set" % x.lineno
        if isinstance(x, ast.Starred) and s(x.value):
            return "line %d: a set unpacked" % x.lineno
        if isinstance(x, ast.Call):
            n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
            if n in ("list", "tuple", "enumerate", "iter", "map", "filter", "zip", "reversed", "dict", "fromkeys", "join", "extend", "str", "repr", "format") and id(x) not in harmless and any(s(a) for a in x.args):
                return "line %d: %s of a set" % (x.lineno, n)
            if n == "pop" and isinstance(x.func, ast.Attribute) and s(x.func.value):
                return "line %d: any member of a set" % x.lineno
            root = x.func
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(x.func, ast.Name) and n in UNSTABLE or isinstance(x.func, ast.Attribute) and isinstance(root, ast.Name) and (root.id in ("random", "uuid", "time", "secrets") or root.id in ("os", "datetime") and n in UNSTABLE):
                return "line %d: %s" % (x.lineno, n)
        if isinstance(x, ast.Attribute) and x.attr == "environ":
            return "line %d: the environment" % x.lineno
        if isinstance(x, ast.FormattedValue) and s(x.value):
            return "line %d: a set written out" % x.lineno
    return None


def units(tier):
    slow = (".bb", ".bbappend")
    return [add(e, l, s) for e in sorted(addfile.EXTS, key=lambda e: e not in slow) for l in (True, False) for s in (False, True)] + [
        ("options", initial), ("FingerPrint", answer), ("texts", texts), ("attributes", attributes), ("frame", frame), ("order", ordering)]

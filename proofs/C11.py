"""C11: constant tables follow set-like update rules and are not shared.

An update walks two trees at once. Its contract (for every pair of trees, by recursion on them): at every key of the
given tree the stored tree gets what the rule says, every other entry is untouched, the given tree is untouched and
no part of it becomes part of the stored one. The loop over the keys is verified for one arbitrary key: the body may
touch the entry of its own key only (everything else is refused), so the entry is as before when its turn comes and stays
as it is afterwards. A call of a function that is being executed uses its contract."""
from proofs.common import *

TREE = TOpaque("Tree")
ASSUMPTIONS = ["a table and an update that share a path have the same kind of entry there (table or list)",
               "copy.deepcopy gives an equal value that shares nothing mutable", "keys of a table are text without '/'"]
NOTE = "for all trees: all depths by recursion on the contract, all numbers of keys by the frame of the loop body"

SPEC = '''
def append(old, new):
    out = list(old)
    for x in new:
        out.append(x)
    return out

def without(old, gone):
    out = []
    for x in old:
        if x not in gone:
            out.append(x)
    return out

def lookup(db, path):
    for p in path.rstrip('/').split('/'):
        if not isinstance(db, dict) or p not in db:
            return {}
        db = db[p]
    return db
'''


class Table(Cell):
    """a table seen at one arbitrary key"""

    def __init__(self, name, key, entry=None, present=True):
        self.name, self.key, self.entry, self.present = name, key, entry, present
        self.merged = ()         # ghost: the updates applied below
        self.copy_of = None      # ghost: a copy that shares nothing
        self.writes = 0

    def save(self):
        return (self.entry, self.present, self.merged, self.writes)

    def load(self, s):
        self.entry, self.present, self.merged, self.writes = s

    def mine(self, it, k):
        if it.eq(self.key, it.force(k)) is not True:
            raise Unsupported("a key other than the one of the loop")

    def contains_(self, it, k):
        self.mine(it, k)
        return self.present

    def getitem_(self, it, k):
        self.mine(it, k)
        if not self.present:
            raise PyRaise("KeyError")
        return self.entry

    def setitem_(self, it, k, v):
        self.mine(it, k)
        self.touched(it.ctx)
        self.entry, self.present = v, True
        self.writes += 1

    def delitem_(self, it, k):
        self.getitem_(it, k)
        self.touched(it.ctx)
        self.present, self.entry = False, None
        self.writes += 1

    def isinstance_(self, it, n):
        return n in ("dict", "Mapping", "MutableMapping", "object")

    def truth_(self, it):
        raise Unsupported("is a table empty")

    def iterate_(self, it):
        return ("table", self, lambda k, v: k)

    def getattr_(self, it, n):
        B_ = lambda f: BuiltinV("dict." + n, f)
        if n == "items":
            return B_(lambda: View(self, lambda k, v: (k, v)))
        if n == "keys":
            return B_(lambda: View(self, lambda k, v: k))
        if n == "get":
            return B_(lambda k, d=None: (self.mine(it, k), self.entry if self.present else d)[1])
        if n == "setdefault":
            def sd(k, d=None):
                self.mine(it, k)
                if not self.present:
                    self.setitem_(it, k, d)
                return self.entry
            return B_(sd)
        if n == "__setitem__":
            return B_(lambda k, v: self.setitem_(it, k, v))
        raise Unsupported("dict." + n)


class View(Value):
    def __init__(self, t, f):
        self.t, self.f = t, f

    def iterate_(self, it):
        return ("table", self.t, self.f)


class Leaf(Value):
    """an entry that is neither a table nor a list"""

    def __init__(self, name):
        self.name = name

    def isinstance_(self, it, n):
        return n == "object"


def program(P):
    P.add_spec("spec", SPEC)
    P.hooks["table_loop"] = True

    def deepcopy(it, x):
        x = it.force(x)
        if isinstance(x, Table):
            c = it.cell(Table(x.name + "'", x.key, x.entry, x.present))
            c.copy_of = x
            return c
        if isinstance(x, ListV):
            return B.list_copy(it, x)
        return x
    P.hooks["deepcopy"] = deepcopy

    def recursion(it, f, bound):
        ts = [v for v in bound.values() if isinstance(v, Table)]
        others = [v for v in bound.values() if isinstance(v, Cell) and not isinstance(v, Table)]
        if len(ts) != 2 or others:
            raise Unsupported("recursion on something else than two tables")
        a, b = ts
        a.touched(it.ctx)
        a.merged = a.merged + (b,)
        # further arguments (a rule, for instance) are those of the running call
        run = [r for n, r in it.active if n is f.node][-1]
        for k, v in bound.items():
            if not isinstance(v, Table) and v is not run[k]:
                raise Unsupported("recursion with another %s" % k)
            if isinstance(v, Table) and isinstance(run[k], Table) and run[k].entry is not v:
                raise Unsupported("recursion on something else than the entries")
        return a
    P.hooks["recursion"] = recursion


def entry(it, kind, name, key):
    if kind == "table":
        return it.cell(Table(name, key, it.mklist([]), True))
    if kind == "list":
        return sym(it, TList(PYVAL), name)
    return Leaf(name)


def unit_update(op, akind, bkind):
    def run(P):
        program(P)

        def thunk(it):
            key = text("k")
            inner = text("inner")
            ea = entry(it, akind, "a_entry", inner) if akind else None
            eb = entry(it, bkind, "b_entry", inner)
            a = it.cell(Table("db", key, ea, akind is not None))
            b = it.cell(Table("given", key, eb, True))
            c = it.cell(Obj(it.prog.cls(it, "Constants")))
            c.fields["_Constants__db"] = a
            b0 = it.to_term(TList(PYVAL), eb) if bkind == "list" else None
            a0 = it.to_term(TList(PYVAL), ea) if akind == "list" else None
            cover(it, op)
            it.call(it.getattr(c, op + "Constants"), [b], {})
            pr = it.ctx.prove
            pr("the-table-stays-the-one-stored", c.fields["_Constants__db"] is a)
            pr("given-table-unchanged", b.writes == 0 and b.entry is eb and b.present and not b.merged)
            if bkind == "table":
                pr("given-entry-unchanged", eb.writes == 0 and not eb.merged)
            if bkind == "list":
                pr("given-list-unchanged", it.to_term(TList(PYVAL), eb) == b0)
            new = a.entry
            if op == "Remove" and akind is None:
                pr("nothing-to-remove", not a.present)
                return
            pr("entry-is-there", a.present)
            pr("nothing-shared", new is not eb or isinstance(eb, Leaf))
            if akind is None or (op == "Override" and bkind != "table"):
                if bkind == "table":
                    pr("a-copy-of-the-given-table", isinstance(new, Table) and new.copy_of is eb and not new.merged)
                elif bkind == "list":
                    pr("a-list", isinstance(new, ListV))
                    pr("a-copy-of-the-given-list", it.to_term(TList(PYVAL), new) == b0)
                else:
                    pr("the-given-value", new is eb)
            elif bkind == "table":
                pr("updated-below-exactly-once-with-the-given-table", new is ea and len(ea.merged) == 1 and ea.merged[0] is eb and ea.writes == 0)
            else:
                old = it.mklist([]) if a0 is None else it.from_term(TList(PYVAL), a0)
                exp = spec(it, "spec", "append" if op == "Add" else "without", old, it.from_term(TList(PYVAL), b0))
                same_list(it, "the-members-of-the-rule", new, exp, PYVAL)
        return P.run("%s[%s,%s]" % (op, akind, bkind), thunk)
    return ("%sConstants[stored %s, given %s]" % (op, akind or "nothing", bkind), run)


TREES = z3.DeclareSort("Op_Tree")


def tree_program(P):
    P.add_spec("spec", SPEC)
    S = sort_of(TREE)
    isd = z3.Function("tree_is_dict", S, z3.BoolSort())
    isl = z3.Function("tree_is_list", S, z3.BoolSort())
    has = z3.Function("tree_has", S, z3.StringSort(), z3.BoolSort())
    at = z3.Function("tree_at", S, z3.StringSort(), S)
    EMPTY = z3.Const("tree_empty", S)

    def isinst(it, v, n):
        if n == "dict":
            return isd(v.term)
        if n == "list":
            return z3.And(isl(v.term), z3.Not(isd(v.term)))
        return None
    P.hooks[("opaque_isinstance", "Tree")] = isinst
    P.hooks[("opaque_const", "Tree")] = lambda it, v: EMPTY if isinstance(v, DictV) and v.pairs == [] else None

    def contains(it, c, x):
        other = z3.Function("tree_member", S, z3.StringSort(), z3.BoolSort())
        t = sterm(it.force(x))
        return z3.If(isd(c.term), has(c.term, t), other(c.term, t))

    def get(it, c, x):
        if not it.ctx.branch(isd(c.term)):
            raise Unsupported("subscript of no table")
        t = sterm(it.force(x))
        if not it.ctx.branch(has(c.term, t)):
            raise PyRaise("KeyError")
        return OpaqueV(TREE, at(c.term, t))
    P.hooks[("opaque_contains", "Tree")] = contains
    P.hooks[("opaque_getitem", "Tree")] = get

    def method(it, v, name):
        if name == "get":
            def f(k, d=None):
                if not it.ctx.branch(isd(v.term)):
                    raise PyRaise("AttributeError", "get")
                t = sterm(it.force(k))
                if it.ctx.branch(has(v.term, t)):
                    return OpaqueV(TREE, at(v.term, t))
                return d
            return BuiltinV("dict.get", f)
        return None
    P.hooks[("opaque_method", "Tree")] = method
    return isd, has, EMPTY


def unit_lookup(n):
    def run(P):
        isd, has, EMPTY = tree_program(P)

        def thunk(it):
            db = OpaqueV(TREE, z3.Const("db", sort_of(TREE)))
            k = z3.String("anykey")
            it.ctx.assume(isd(EMPTY))
            c = it.cell(Obj(it.prog.cls(it, "Constants")))
            c.fields["_Constants__db"] = db
            noslash = CharSet.of("/").inv()
            parts = []
            for i in range(n):
                parts += (["/"] if i else []) + [word("p%d" % i, noslash, 1)]
                # the empty dictionary has no keys
                it.ctx.assume(z3.Not(has(EMPTY, z3.String("p%d" % i))))
            path = mkstr(parts)
            cover(it, "lookup")
            got = it.call(it.getattr(c, "GetByPath"), [path], {})
            exp = spec(it, "spec", "lookup", db, path)
            it.ctx.prove("the-entry-or-an-empty-dictionary", it.to_term(TREE, got) == it.to_term(TREE, exp))
        return P.run("GetByPath[%d]" % n, thunk)
    return ("GetByPath[%d parts]" % n, run)


PROPS = {"FunctionsKnown": "functions/known", "FunctionsOrder": "functions/order", "MirrorsKnown": "replacements/mirrors", "VariablesKnown": "variables/known",
         "DistrosKnown": "replacements/distros", "MachinesKnown": "replacements/machines", "ImagesClasses": "images/known-classes", "ImagesVariables": "images/known-variables",
         "SetsBase": "sets/base", "ClassIgnore": "ignore/classes", "IncludeIgnore": "ignore/include"}


def unit_props(P):
    isd, has, EMPTY = tree_program(P)

    def thunk(it):
        db = OpaqueV(TREE, z3.Const("db", sort_of(TREE)))
        it.ctx.assume(isd(EMPTY))
        for p in PROPS.values():
            for x in p.split("/"):
                it.ctx.assume(z3.Not(has(EMPTY, strval(x))))
        # each on its own: the paths through one of them do not depend on the others
        for k in PROPS:
            if it.ctx.choose(k):
                c = it.cell(Obj(it.prog.cls(it, "Constants")))
                c.fields["_Constants__db"] = db
                got = it.getattr(c, k)
                exp = spec(it, "spec", "lookup", db, PROPS[k])
                it.ctx.prove(k + "-is-the-entry-at-its-path", it.to_term(TREE, got) == it.to_term(TREE, exp))
                return
    return P.run("tables", thunk)


def unit_init(P):
    program(P)

    def thunk(it):
        key = text("k")
        b = it.cell(Table("given", key, it.mklist([]), True))
        c = it.call(it.prog.cls(it, "Constants"), [b], {})
        db = c.fields["_Constants__db"]
        cover(it, "init")
        it.ctx.prove("starts-from-a-copy", db is not b and isinstance(db, Table) and db.copy_of is b)
        it.ctx.prove("given-table-unchanged", b.writes == 0 and not b.merged)
    return P.run("init", thunk)


BOUNDED = ["GetByPath: paths of 1 to 5 parts"]


def units(tier):
    out = []
    for b in ("table", "list", "leaf"):
        out.append(unit_update("Add", None, b))
        out.append(unit_update("Override", None, b))
        out.append(unit_update("Remove", None, b))
    for op in ("Add", "Remove", "Override"):
        out.append(unit_update(op, "table", "table"))
        out.append(unit_update(op, "list", "list"))
    out.append(unit_update("Override", "leaf", "leaf"))
    out.append(unit_update("Override", "table", "leaf"))
    out.append(unit_update("Override", "leaf", "list"))
    out += [unit_lookup(n) for n in range(1, 6)]
    out.append(("tables", unit_props))
    out.append(("init", unit_init))
    return out

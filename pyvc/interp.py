"""Symbolic interpreter for the Python subset used by the code under contract."""
import ast
import z3
from .vals import *
from .ctx import Ret, Brk, Cnt, Redo
from . import folds, tmpl


class Env:
    __slots__ = ("vars", "parent", "module", "cls", "func", "__weakref__")

    def __init__(self, parent, module, cls=None, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.cls = cls
        self.func = func


class Undefined(Value):
    pass


UNDEF = Undefined()


class LoopRec:
    def __init__(self, known):
        self.known = known
        self.mods = {}

    def add(self, key):
        k = id(key[1]) if key[0] == "cell" else key
        self.mods[k] = key


def assigned_names(nodes):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Delete(self, n):
            for t in n.targets:
                tgt(t)

    for n in nodes:
        V().visit(n)
    return out


def mangle(name, cls):
    if name.startswith("__") and not name.endswith("__") and cls is not None:
        return "_" + cls.name.split(".")[-1].lstrip("_") + name
    return name


EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "OSError": "Exception", "IOError": "Exception",
    "FileNotFoundError": "OSError", "PermissionError": "OSError", "IsADirectoryError": "OSError",
    "NotADirectoryError": "OSError", "TimeoutError": "OSError", "ValueError": "Exception",
    "UnicodeDecodeError": "ValueError", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "TypeError": "Exception", "StopIteration": "Exception", "RuntimeError": "Exception",
    "RecursionError": "RuntimeError", "JSONDecodeError": "ValueError", "AssertionError": "Exception", "RegexError": "Exception",
    "ArbitraryError": "Exception",
}


def exc_isa(e, c):
    if c == "IOError" or c == "EnvironmentError":
        c = "OSError"
    while e is not None:
        if e == c:
            return True
        e = EXC_TREE.get(e)
    return False


class Interp:
    MAXDEPTH = 60

    def __init__(self, ctx, prog):
        self.ctx = ctx
        self.prog = prog          # Program: modules, contracts
        self.modules = {}
        self.field_types = prog.field_types
        self.verifying = []
        self.mutable_fields = prog.mutable_fields
        self.names_seen = set()
        from . import builtins as B
        self.B = B
        B.install(self)

    # ================================================================ environment
    def new_env(self, parent, module, cls=None, func=None):
        e = Env(parent, module, cls, func)
        self.ctx.envs.append(e)
        return e

    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v is UNDEF:
                    raise Unsupported("use of loop-local variable '%s' after the loop" % name)
                return v
            e = e.parent
        m = env.module
        v = self.prog.module_get(self, m, name)
        if v is not None:
            return v[0]
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise("NameError", name)

    # ================================================================ values
    @property
    def active(self):
        """functions that are being executed"""
        return self.__dict__.setdefault("_active", [])

    def cell(self, c):
        return self.ctx.new_cell(c)

    def mklist(self, items):
        return self.cell(ListV(items=list(items)))

    def mkdict(self, pairs=()):
        return self.cell(DictV(pairs=[list(p) for p in pairs]))

    def note_words(self, v):
        """the class of a word is a fact about its constant: remember it when a text becomes a term"""
        for p in sparts(v):
            if isinstance(p, Atom) and (p.minlen or p.cls != ANYCHAR or type(p) is not Atom):
                self.ctx.memo.setdefault(("atom", p.term.get_id()), p)

    def known_words(self, v):
        if isinstance(v, str):
            return v
        return mkstr([self.ctx.memo.get(("atom", p.term.get_id()), p) if isinstance(p, Atom) else p for p in v.parts])

    def from_term(self, ty, t):
        k = ty.k
        if k == "str":
            return self.known_words(str_from_term(t))
        if k == "char":
            u = z3.Unit(t)
            return Str([Atom(u, None, 1)])
        if k == "int":
            t = z3.simplify(t)
            return t.as_long() if z3.is_int_value(t) else t
        if k == "bool":
            t = z3.simplify(t)
            return True if z3.is_true(t) else False if z3.is_false(t) else t
        if k == "obj":
            return RefV(t, ty.a)
        if k == "opaque":
            return OpaqueV(ty, t)
        if k == "none":
            return None
        if k == "opt":
            return OptV(ty, t)
        if k == "tuple":
            d = sort_of(ty)
            return tuple(self.from_term(x, z3.simplify(d.accessor(0, i)(t))) for i, x in enumerate(ty.a))
        if k in ("list", "tupseq"):
            return self.cell(ListV(et=ty.a[0], seq=t, tup=(k == "tupseq")))
        if k == "set":
            return self.cell(SetV(et=ty.a[0], arr=t))
        if k == "dict":
            d = sort_of(ty)
            f = lambda i: z3.simplify(d.accessor(0, i)(t))
            return self.cell(DictV(kt=ty.a[0], vt=ty.a[1], keys=f(0), dom=f(1), val=f(2)))
        raise Unsupported("value of type %r" % (ty,))

    def type_of(self, v):
        """Type of a value; None for an empty container of unknown element type."""
        if v is None:
            return NONE
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return BOOL
        if isinstance(v, int) or isinstance(v, z3.ArithRef):
            return INT
        if isinstance(v, (str, Str)):
            return STR
        if isinstance(v, OptV) or isinstance(v, OpaqueV):
            return v.ty
        if isinstance(v, RefV):
            return TObj(*v.classes)
        if isinstance(v, tuple):
            ts = [self.type_of(x) for x in v]
            return None if None in ts else TTup(*ts)
        if isinstance(v, ListV):
            if v.items is None:
                return (TTupS if v.tup else TList)(v.et)
            t = None
            for x in v.items:
                u = self.type_of(x)
                t = u if t is None else self.join(t, u)
                if u is None:
                    return None
            return (TTupS if v.tup else TList)(t) if t is not None else Ty("list", None)
        if isinstance(v, SetV):
            return TSet(v.et)
        if isinstance(v, DictV):
            if v.pairs is None:
                return TDict(v.kt, v.vt)
            if not v.pairs:
                return Ty("dict", None, None)
            kt = vt = None
            for k, x in v.pairs:
                a, b = self.type_of(k), self.type_of(x)
                kt = a if kt is None else self.join(kt, a)
                vt = b if vt is None else self.join(vt, b)
            return TDict(kt, vt)
        if isinstance(v, Obj):
            return TObj(v.cls.name)
        raise Unsupported("no type for %r" % (v,))

    def join(self, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if a.k == "none":
            return TOpt(b)
        if b.k == "none":
            return TOpt(a)
        if a.k == "opt" or b.k == "opt":
            x = a.a[0] if a.k == "opt" else a
            y = b.a[0] if b.k == "opt" else b
            return TOpt(self.join(x, y))
        if a.k in ("list", "tupseq") and b.k in ("list", "tupseq"):
            return Ty(a.k, self.join(a.a[0], b.a[0]))
        if a.k == "set" and b.k == "set":
            return TSet(self.join(a.a[0], b.a[0]))
        if a.k == "dict" and b.k == "dict":
            return TDict(self.join(a.a[0], b.a[0]), self.join(a.a[1], b.a[1]))
        if a.k == "tuple" and b.k == "tuple" and len(a.a) == len(b.a):
            return TTup(*[self.join(x, y) for x, y in zip(a.a, b.a)])
        if a.k == "obj" and b.k == "obj":
            return TObj(*sorted(set(a.a) | set(b.a)))
        for x, y in ((a, b), (b, a)):
            if x.k == "opaque" and ("opaque_const", x.a[0]) in self.prog.hooks and y.k != "opaque":
                return x
        raise Unsupported("cannot unify %r and %r" % (a, b))

    def to_term(self, ty, v):
        k = ty.k
        if k == "opt":
            d = sort_of(ty)
            if v is None:
                return d.none
            if isinstance(v, OptV):
                if v.ty is ty:
                    return v.term
                d2 = sort_of(v.ty)
                return z3.If(d2.is_none(v.term), d.none, d.some(self.to_term(ty.a[0], self.from_term(v.ty.a[0], d2.v(v.term)))))
            return d.some(self.to_term(ty.a[0], v))
        if isinstance(v, OptV):
            v = self.force(v)
        if k == "str":
            if isinstance(v, (str, Str)):
                self.note_words(v)
                return sterm(v)
        elif k == "char":
            if isinstance(v, str) and len(v) == 1:
                return z3.CharVal(ord(v))
            if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], Atom):
                t = v.parts[0].term
                if folds.is_unit(t):
                    return t.arg(0)
        elif k == "int":
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return z3.IntVal(v)
            if isinstance(v, z3.ArithRef):
                return v
            if isinstance(v, z3.BoolRef):
                return z3.If(v, 1, 0)
        elif k == "bool":
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, z3.BoolRef):
                return v
        elif k == "none":
            if v is None:
                return z3.BoolVal(True)
        elif k == "obj":
            if isinstance(v, RefV):
                return v.term
            if isinstance(v, Obj):
                return self.escape(v)
        elif k == "opaque":
            if isinstance(v, OpaqueV) and v.ty is ty:
                return v.term
            h = self.prog.hooks.get(("opaque_const", ty.a[0]))
            r = h(self, v) if h else None
            if r is not None:
                return r
        elif k == "tuple":
            if isinstance(v, tuple) and len(v) == len(ty.a):
                return sort_of(ty).constructor(0)(*[self.to_term(t, x) for t, x in zip(ty.a, v)])
        elif k in ("list", "tupseq"):
            if isinstance(v, ListV):
                if v.items is None:
                    if v.et is ty.a[0]:
                        return v.seq
                    return self.convert_seq(v, ty.a[0])
                if ty.a[0] is None:
                    raise Unsupported("list of unknown type")
                us = [z3.Unit(self.to_term(ty.a[0], x)) for x in v.items]
                return folds.combine("list", us, sort_of(ty))
            if isinstance(v, tuple):
                us = [z3.Unit(self.to_term(ty.a[0], x)) for x in v]
                return folds.combine("list", us, sort_of(ty))
        elif k == "set":
            if isinstance(v, SetV):
                if v.arr is None:
                    return z3.K(sort_of(ty.a[0]), False)
                if v.et is ty.a[0]:
                    return v.arr
        elif k == "dict":
            if isinstance(v, DictV):
                d = sort_of(ty)
                if v.pairs is None:
                    if v.kt is ty.a[0] and v.vt is ty.a[1]:
                        return d.mk(v.keys, v.dom, v.val)
                    if v.kt is ty.a[0] and ty.a[1].k == "opt" and ty.a[1].a[0] is v.vt:
                        return d.mk(v.keys, v.dom, z3.Map(sort_of(ty.a[1]).some, v.val))
                else:
                    ks = sort_of(ty.a[0])
                    if ty.a[0] is None or ty.a[1] is None:
                        raise Unsupported("dict of unknown type")
                    keys = folds.combine("list", [z3.Unit(self.to_term(ty.a[0], p[0])) for p in v.pairs], z3.SeqSort(ks))
                    dom = z3.K(ks, False)
                    val = self.default_array(ks, ty.a[1])
                    for p in v.pairs:
                        kk = self.to_term(ty.a[0], p[0])
                        dom = z3.Store(dom, kk, True)
                        val = z3.Store(val, kk, self.to_term(ty.a[1], p[1]))
                    return d.mk(keys, dom, val)
        raise Unsupported("cannot represent %r as %r" % (v, ty))

    def default_array(self, ks, vt):
        """values of absent keys: one fixed unspecified value per type"""
        return z3.K(ks, z3.Const("absent_" + tname(vt), sort_of(vt)))

    def convert_seq(self, v, et):
        x = folds.elem_const(v.seq.sort(), v.seq)
        return folds.mk_hom(self.ctx, "list", v.seq, x, z3.Unit(self.to_term(et, self.from_term(v.et, x))))

    def symbolic(self, v, ty):
        """bring a container cell into symbolic form of type ty (in place)"""
        if isinstance(v, ListV):
            t = self.to_term(ty, v)
            v.items, v.et, v.seq = None, ty.a[0], t
        elif isinstance(v, SetV):
            t = self.to_term(ty, v)
            v.et, v.arr = ty.a[0], t
        elif isinstance(v, DictV):
            t = self.to_term(ty, v)
            self.dict_load(v, ty, t)
        return v

    def dict_load(self, v, ty, t):
        d = sort_of(ty)
        t = z3.simplify(t)
        v.pairs = None
        v.kt, v.vt = ty.a
        v.keys, v.dom, v.val = [z3.simplify(d.accessor(0, i)(t)) for i in range(3)]

    def escape(self, o):
        """give a new object a reference; its fields become field functions"""
        if "$ref" in o.fields:
            return o.fields["$ref"]
        r = self.ctx.fresh("new", Ref)
        o.fields["$ref"] = r
        return r

    def force(self, v):
        if isinstance(v, OptV):
            d = sort_of(v.ty)
            if self.ctx.branch(d.is_none(v.term)):
                return None
            return self.from_term(v.ty.a[0], z3.simplify(d.v(v.term)))
        return v

    # ================================================================ truth, equality
    def truth(self, v):
        if v is None:
            return False
        if hasattr(v, "truth_"):
            return v.truth_(self)
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Str):
            if any(isinstance(p, str) or p.minlen > 0 for p in v.parts):
                return True
            return v.term != strval("")
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, OptV):
            d = sort_of(v.ty)
            inner = self.truth(self.from_term(v.ty.a[0], d.v(v.term)))
            return self.and_(z3.Not(d.is_none(v.term)), inner)
        if isinstance(v, ListV):
            if v.items is not None:
                return bool(v.items)
            return self.nonempty(v.seq)
        if isinstance(v, SetV):
            if v.arr is None:
                return False
            return z3.Not(v.arr == z3.K(sort_of(v.et), False))
        if isinstance(v, DictV):
            if v.pairs is not None:
                return bool(v.pairs)
            return self.nonempty(v.keys)
        if isinstance(v, (Obj, RefV)):
            c = self.classof(v)
            f, _ = c.lookup("__len__")
            if f is None and any(isinstance(b, BuiltinV) and b.name == "UserList" for k in c.mro() for b in k.bases):
                return self.truth(self.getattr(v, "data"))
            return True
        return True

    def nonempty(self, seq):
        pieces = folds.flat(self.ctx.seq_expand(seq))
        if not pieces:
            return False
        if any(folds.is_unit(p) for p in pieces):
            return True
        if len(pieces) == 1 and z3.is_app(pieces[0]):
            g = folds._reg.get(pieces[0].decl().name())
            if isinstance(g, folds.Hom) and g.monoid == "list":
                p = pieces[0]
                y = folds.elem_const(g.seqsort, p)
                gps = [p.arg(i) for i in range(1, p.num_args())]
                st = self.ctx.rw(g.at(y, gps))
                return folds.mk_hom(self.ctx, "any", p.arg(0), y, self.ne_term(st))
            if isinstance(g, folds.Fold) is False and p_is(pieces[0], "uniq", "sortby", "sorted", "reversed"):
                return self.nonempty(pieces[0].arg(0))
            if p_is(pieces[0], "sortset", "setseq"):
                a = pieces[0].arg(0)
                return z3.Not(a == z3.K(a.sort().domain(), False))
        return seq != z3.Empty(seq.sort())

    def ne_term(self, st):
        if z3.is_app(st) and st.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(st.arg(0), self.ne_term(st.arg(1)), self.ne_term(st.arg(2)))
        r = self.nonempty(st)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def and_(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(a, b)

    def or_(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return z3.Or(a, b)

    def not_(self, a):
        if isinstance(a, bool):
            return not a
        return z3.Not(a)

    def eq(self, a, b):
        if isinstance(a, OptV) or isinstance(b, OptV):
            if isinstance(a, OptV) and isinstance(b, OptV) and a.ty is b.ty:
                return a.term == b.term
            if not isinstance(a, OptV):
                a, b = b, a
            d = sort_of(a.ty)
            if b is None:
                return d.is_none(a.term)
            if isinstance(b, OptV):
                d2 = sort_of(b.ty)
                return self.or_(self.and_(d.is_none(a.term), d2.is_none(b.term)),
                                self.and_(self.and_(z3.Not(d.is_none(a.term)), z3.Not(d2.is_none(b.term))),
                                          self.eq(self.from_term(a.ty.a[0], d.v(a.term)), self.from_term(b.ty.a[0], d2.v(b.term)))))
            return self.and_(z3.Not(d.is_none(a.term)), self.eq(self.from_term(a.ty.a[0], d.v(a.term)), b))
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return self.str_eq(a, b)
        num = (int, z3.ArithRef)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return (a if not isinstance(a, bool) else z3.BoolVal(a)) == b
        if isinstance(a, num) and isinstance(b, num):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = self.and_(r, self.eq(x, y))
            return r
        if isinstance(a, (RefV, Obj)) and isinstance(b, (RefV, Obj)):
            if isinstance(a, Obj) and isinstance(b, Obj):
                return a is b
            if isinstance(a, Obj) or isinstance(b, Obj):
                o, r = (a, b) if isinstance(a, Obj) else (b, a)
                return False if "$ref" not in o.fields else o.fields["$ref"] == r.term
            return a.term == b.term
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
            return a.term == b.term if a.ty is b.ty else False
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return False
                r = True
                for x, y in zip(a.items, b.items):
                    r = self.and_(r, self.eq(x, y))
                return r
            t = self.join_nonempty(self.type_of(a), self.type_of(b))
            t = TList(t.a[0])
            return self.to_term(t, a) == self.to_term(t, b)
        if isinstance(a, SetV) and isinstance(b, SetV):
            if a.arr is None and b.arr is None:
                return True
            t = TSet(a.et or b.et)
            return self.to_term(t, a) == self.to_term(t, b)
        if isinstance(a, DictV) and isinstance(b, DictV):
            if a.pairs is not None and b.pairs is not None:
                if not a.pairs or not b.pairs:
                    return len(a.pairs) == len(b.pairs)
                if all(isinstance(p[0], str) for p in a.pairs + b.pairs):
                    da, db = {p[0]: p[1] for p in a.pairs}, {p[0]: p[1] for p in b.pairs}
                    if set(da) != set(db):
                        return False
                    r = True
                    for k in da:
                        r = self.and_(r, self.eq(da[k], db[k]))
                    return r
            t = self.join(self.type_of(a), self.type_of(b))
            d = sort_of(t)
            ta, tb = self.to_term(t, a), self.to_term(t, b)
            ks = sort_of(t.a[0])
            k = z3.Const("dk", ks)
            return z3.And(d.dom(ta) == d.dom(tb), z3.ForAll([k], z3.Implies(d.dom(ta)[k], d.val(ta)[k] == d.val(tb)[k])))
        if isinstance(a, (ClassV, BuiltinV, FuncV)) or isinstance(b, (ClassV, BuiltinV, FuncV)):
            return a is b
        ka, kb = self.kind(a), self.kind(b)
        if ka != kb:
            return False
        raise Unsupported("comparison of %r and %r" % (a, b))

    def join_nonempty(self, a, b):
        return self.join(a, b)

    def kind(self, v):
        if isinstance(v, (str, Str)):
            return "str"
        if isinstance(v, (bool, z3.BoolRef)):
            return "num"
        if isinstance(v, (int, z3.ArithRef)):
            return "num"
        if isinstance(v, ListV):
            return "tuple" if v.tup else "list"
        return type(v).__name__

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        pa, pb = list(sparts(a)), list(sparts(b))
        # strip common ends
        for side in (0, -1):
            while pa and pb:
                x, y = pa[side], pb[side]
                if isinstance(x, str) and isinstance(y, str):
                    n = 0
                    if side == 0:
                        while n < min(len(x), len(y)) and x[n] == y[n]:
                            n += 1
                        rx, ry = x[n:], y[n:]
                    else:
                        while n < min(len(x), len(y)) and x[-1 - n] == y[-1 - n]:
                            n += 1
                        rx, ry = x[:len(x) - n], y[:len(y) - n]
                    if rx and ry:
                        return False
                    if rx:
                        pa[side] = rx
                    else:
                        pa.pop(side)
                    if ry:
                        pb[side] = ry
                    else:
                        pb.pop(side)
                    if n == 0:
                        break
                elif isinstance(x, Atom) and isinstance(y, Atom) and x.term.eq(y.term):
                    pa.pop(side)
                    pb.pop(side)
                else:
                    break
        if not pa and not pb:
            return True
        for u, w in ((pa, pb), (pb, pa)):
            if not u and any(isinstance(p, str) or p.minlen > 0 for p in w):
                return False
            if len(u) == 1 and isinstance(u[0], str):
                s = u[0]
                # a literal against atoms over known characters
                if w and isinstance(w[0], Atom) and w[0].minlen > 0 and s[0] not in w[0].cls:
                    return False
                if w and isinstance(w[-1], Atom) and w[-1].minlen > 0 and s[-1] not in w[-1].cls:
                    return False
                for p in w:
                    if isinstance(p, str) and p not in s:
                        return False
                if len(w) == 1 and isinstance(w[0], Atom) and any(c not in w[0].cls for c in s):
                    return False
        return sterm(mkstr(pa)) == sterm(mkstr(pb))

    # ================================================================ attribute access
    def classof(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, RefV):
            cl = self.ref_classes(v)
            if len(cl) == 1:
                return self.prog.get_class(self, cl[0])
            return self.common_base(cl)
        raise Unsupported("class of %r" % (v,))

    def ref_classes(self, v):
        r = self.ctx.refine.get(v.term.get_id())
        return r[1] if r is not None else v.classes

    def common_base(self, names):
        cs = [self.prog.get_class(self, n) for n in names]
        for c in cs[0].mro():
            if all(c in d.mro() for d in cs):
                return c
        raise Unsupported("no common class of %s" % (names,))

    def getattr(self, v, name):
        v = self.force(v)
        if v is None:
            raise PyRaise("AttributeError", "None." + name)
        if isinstance(v, (Obj, RefV)):
            return self.obj_getattr(v, name)
        if isinstance(v, ClassV):
            x, c = v.lookup(name)
            if x is None:
                if name == "__name__":
                    return v.name.split(".")[-1]
                raise PyRaise("AttributeError", "%s.%s" % (v.name, name))
            if isinstance(x, FuncV) and x.kind == "class":
                return BoundV(x, v)
            return x
        if isinstance(v, ModV):
            return self.prog.mod_attr(self, v, name)
        if isinstance(v, Super):
            for c in v.obj_cls.mro()[v.obj_cls.mro().index(v.cls) + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], v.obj)
            for c in v.obj_cls.mro():
                for b in c.bases:
                    if isinstance(b, BuiltinV):
                        return self.B.builtin_base_attr(self, b, v.obj, name)
            if name == "__init__":
                return BuiltinV("object.__init__", lambda *a, **k: None)
            raise PyRaise("AttributeError", name)
        m = self.B.method(self, v, name)
        if m is None:
            raise PyRaise("AttributeError", "%s.%s" % (self.kind(v), name))
        return m

    def bind(self, f, obj):
        if isinstance(f, FuncV):
            if f.kind == "property":
                return self.call(f, [obj], {})
            if f.kind == "static":
                return f
            if f.kind == "class":
                return BoundV(f, self.classof(obj))
            return BoundV(f, obj)
        if isinstance(f, PropV):
            return self.call(f.get, [obj], {})
        return f

    def obj_getattr(self, v, name):
        h = self.prog.hooks.get("ref_attr")
        if h and isinstance(v, RefV):
            r = h(self, v, name)
            if r is not NotImplemented:
                return r
        c = self.classof(v)
        x, owner = c.lookup(name)
        if isinstance(v, RefV) and len(self.ref_classes(v)) > 1:
            x, owner = self.dispatch(v, name, c, x, owner)
        if isinstance(x, (FuncV, PropV)):
            return self.bind(x, v)
        if isinstance(v, Obj):
            if name in v.fields:
                f = v.fields[name]
                return f(self, v) if isinstance(f, LazyField) else f
            if x is not None:
                return x
            r = self.B.userlist_method(self, v, name)
            if r is not None:
                return r
            if name == "__class__":
                return v.cls
            raise PyRaise("AttributeError", "%s.%s" % (c.name, name))
        # symbolic object
        if x is not None and not isinstance(x, (FuncV, PropV)):
            return x
        if name == "__class__":
            return c
        ft = self.field_type(name)
        if ft is None:
            r = self.B.userlist_method(self, v, name)
            if r is not None:
                return r
            raise Unsupported("attribute %s of a symbolic %s" % (name, c.name))
        ty = ft
        if name in self.mutable_fields:
            h = self.heap(name, ty)
            return self.from_term(ty, self.ctx.rw(z3.Select(h, v.term)))
        fn = z3.Function("fld_" + name, Ref, sort_of(ty))
        r = self.from_term(ty, fn(v.term))
        if isinstance(r, Cell):
            r.frozen = True
        return r

    def heap(self, name, ty):
        h = self.ctx.heap.get(name)
        if h is None:
            h = z3.Const("heap_" + name, z3.ArraySort(Ref, sort_of(ty)))
            self.ctx.heap[name] = h
        return h

    def field_type(self, name):
        return self.field_types.get(name)

    def dispatch(self, v, name, c, x, owner):
        """choose the implementation for a symbolic object with several possible classes"""
        cl = self.ref_classes(v)
        impl = {}
        for n in cl:
            k = self.prog.get_class(self, n)
            y, o = k.lookup(name)
            impl.setdefault((id(y), o.name if o else None), []).append((n, y, o))
        if len(impl) == 1:
            n, y, o = next(iter(impl.values()))[0]
            return y, o
        groups = list(impl.values())
        for g in groups[:-1]:
            if self.ctx.branch(self.is_class_term(v, [n for n, _, _ in g])):
                self.set_refine(v, tuple(n for n, _, _ in g))
                return g[0][1], g[0][2]
        self.set_refine(v, tuple(n for n, _, _ in groups[-1]))
        return groups[-1][0][1], groups[-1][0][2]

    def set_refine(self, v, classes):
        self.ctx.refine[v.term.get_id()] = (v.term, tuple(classes))

    def is_class_term(self, v, names):
        cf = z3.Function("classof", Ref, z3.StringSort())
        ts = [cf(v.term) == z3.StringVal(n) for n in names]
        return ts[0] if len(ts) == 1 else z3.Or(*ts)

    def setattr(self, v, name, val):
        v = self.force(v)
        if isinstance(v, (Obj, RefV)):
            c = self.classof(v)
            x, owner = c.lookup(name)
            if isinstance(x, PropV):
                if x.set is None:
                    raise PyRaise("AttributeError", "can't set " + name)
                return self.call(x.set, [v, val], {})
            if isinstance(v, Obj):
                v.touched(self.ctx)
                v.fields[name] = val
                v.written(self.ctx)
                self.on_field_write(v, name)
                return
            if name in self.mutable_fields:
                ty = self.field_type(name)
                self.ctx.on_heap(name)
                h = self.heap(name, ty)
                self.ctx.heap[name] = z3.Store(h, v.term, self.to_term(ty, val))
                self.on_field_write(v, name)
                return
            raise Unsupported("write to field %s of a symbolic object" % name)
        if isinstance(v, ClassV):
            raise Unsupported("class attribute write")
        raise Unsupported("attribute write on %r" % (v,))

    def on_field_write(self, v, name):
        if self.prog.on_field_write:
            self.prog.on_field_write(self, v, name)

    # ================================================================ calls
    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, BuiltinV):
            return f.fn(*args, **kw)
        if isinstance(f, BoundV):
            if isinstance(f.func, BuiltinV):
                return f.func.fn(f.self_, *args, **kw)
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if callable(f) and not isinstance(f, Value):
            return f(*args, **kw)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kw):
        con = self.prog.contract_for(c.module + "." + c.name + ".__init__") if c.module else None
        o = self.cell(Obj(c))
        init, owner = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        else:
            for k in c.mro():
                for b in k.bases:
                    if isinstance(b, BuiltinV):
                        self.B.builtin_base_attr(self, b, o, "__init__").fn(*args, **kw)
                        return o
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        out = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise("TypeError", "too many arguments for %s" % f.name)
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kw)
        konly = [x.arg for x in a.kwonlyargs]
        for n in names + konly:
            if n in kw:
                if n in out:
                    raise PyRaise("TypeError", "multiple values for %s" % n)
                out[n] = kw.pop(n)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.mkdict([[k, v] for k, v in kw.items()])
        elif kw:
            raise PyRaise("TypeError", "unexpected keyword %s for %s" % (sorted(kw), f.name))
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in out:
                out[n] = self.eval(d, f.env)
        for n, d in zip(konly, a.kw_defaults):
            if n not in out and d is not None:
                out[n] = self.eval(d, f.env)
        for n in names + konly:
            if n not in out:
                raise PyRaise("TypeError", "missing argument %s for %s" % (n, f.name))
        return out

    def call_func(self, f, args, kw):
        q = f.qual
        bound = self.bind_args(f, args, kw)
        con = self.prog.contract_for(q)
        if con is not None and not (self.verifying and self.verifying[-1] == (q, self.ctx.depth)):
            self.ctx.run.assumptions.add("contract of " + q)
            return con(self, bound)
        if any(f.node is n for n, _ in self.active) and "recursion" in self.prog.hooks:
            r = self.prog.hooks["recursion"](self, f, bound)
            if r is not NotImplemented:
                return r
        if self.ctx.depth > self.MAXDEPTH:
            raise Unsupported("recursion without contract in %s" % q)
        if q:
            self.ctx.run.functions.add(q)
        if getattr(f, "cached", False) and not self.ctx.loops:
            k = self.memo_key(f, bound)
            memo = self.ctx.ghost.get("memo", {})
            if k is not None and k in memo:
                return memo[k][0]
            r = self.run_body(f, bound)
            if k is not None and isinstance(r, Cell):
                memo = dict(self.ctx.ghost.get("memo", {}))
                memo[k] = (r, bound)
                self.ctx.ghost["memo"] = memo
            return r
        if self.prog.merge_calls is not None and self.prog.merge_calls(f):
            ok, v = self.merged(f, bound)
            if ok:
                return v
        return self.run_body(f, bound)

    def merged(self, f, bound):
        """(True, value) when every path of a call without mutable arguments gives the same text (or None)"""
        if not all(v is None or isinstance(v, (bool, int, str, Str)) for v in bound.values()):
            return False, None
        outs = self.ctx.sub_explore(lambda: self.run_body(f, dict(bound)), lambda: None)
        vals = []
        for _, (kind, v), _ in outs:
            if kind != "normal" or not (v is None or isinstance(v, (str, Str))):
                return False, None
            vals.append(v)
        if len(vals) < 2:
            return (True, vals[0]) if vals else (False, None)
        a = vals[0]
        for b in vals[1:]:
            if isinstance(a, Str) and isinstance(b, Str):
                if not tmpl._same(a, b):
                    return False, None
            elif isinstance(a, Str) or isinstance(b, Str) or a != b:
                return False, None
        return True, a

    def memo_key(self, f, bound):
        """identity of a call of a cached function; None when it has none"""
        out = [f.qual]
        for n in sorted(bound):
            v = bound[n]
            if isinstance(v, Obj) or v is None or isinstance(v, (bool, int, str)):
                out.append((n, id(v) if isinstance(v, Obj) else v))
                continue
            try:
                t = self.ctx.rw(self.to_term(self.type_of(v), v))
            except (Unsupported, PyRaise):
                return None
            out.append((n, t.get_id()))
            self.ctx.memo[("keepterm", t.get_id())] = t
        return tuple(out)

    def verify_call(self, f, args, kw):
        """execute the body of f, even if f has a contract (its recursive calls use the contract)"""
        self.verifying.append((f.qual, self.ctx.depth))
        try:
            return self.call(f, args, kw)
        finally:
            self.verifying.pop()

    def run_body(self, f, bound):
        if isinstance(f.node, ast.Lambda):
            env = self.new_env(f.env, f.module, f.cls, f)
            env.vars.update(bound)
            return self.eval(f.node.body, env)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return self.run_generator(f, bound)
        env = self.new_env(f.env, f.module, f.cls, f)
        env.vars.update(bound)
        self.ctx.depth += 1
        self.active.append((f.node, bound))
        try:
            self.exec_block(f.node.body, env)
        except Ret as r:
            return r.v
        finally:
            self.ctx.depth -= 1
            self.active.pop()
        return None

    def run_generator(self, f, bound):
        env = self.new_env(f.env, f.module, f.cls, f)
        env.vars.update(bound)
        env.vars["$yield"] = self.mklist([])
        self.ctx.depth += 1
        try:
            self.exec_block(f.node.body, env)
        except Ret:
            pass
        finally:
            self.ctx.depth -= 1
        return env.vars["$yield"]

    # ================================================================ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            env.vars[(a.asname or a.name).split(".")[0]] = self.prog.import_module(self, a.name if a.asname else a.name.split(".")[0])

    def x_ImportFrom(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name] = self.prog.import_from(self, s.module, a.name)

    def x_Global(self, s, env):
        raise Unsupported("global statement")

    def x_Nonlocal(self, s, env):
        for n in s.names:
            e = env.parent
            while e is not None and n not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported("nonlocal %s" % n)
            env.vars.setdefault("$nonlocal", {})
            d = dict(env.vars["$nonlocal"])
            d[n] = e
            env.vars["$nonlocal"] = d

    def x_Return(self, s, env):
        raise Ret(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise Brk()

    def x_Continue(self, s, env):
        raise Cnt()

    def x_Raise(self, s, env):
        if s.exc is None:
            raise PyRaise(self.lookup(env, "$exc"))
        n = s.exc
        if isinstance(n, ast.Call):
            n = n.func
        if isinstance(n, ast.Name):
            raise PyRaise(n.id)
        raise Unsupported("raise")

    def x_Assert(self, s, env):
        if not self.ctx.branch(self.truth(self.eval(s.test, env))):
            raise PyRaise("AssertionError")

    def x_FunctionDef(self, s, env):
        env.vars[s.name] = self.make_func(s, env, None)

    def make_func(self, s, env, cls, prefix=""):
        kind = "plain"
        for d in s.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            if isinstance(n, ast.Name) and n.id == "property":
                kind = "property"
            elif isinstance(n, ast.Name) and n.id == "staticmethod":
                kind = "static"
            elif isinstance(n, ast.Name) and n.id == "classmethod":
                kind = "class"
            elif isinstance(n, ast.Attribute) and n.attr in ("setter",):
                kind = "setter"
            elif isinstance(n, ast.Attribute) and n.attr in ("cache", "lru_cache"):
                pass
            elif isinstance(n, ast.Name) and n.id in ("cache", "lru_cache"):
                pass
            else:
                raise Unsupported("decorator on %s" % s.name)
        q = prefix + s.name if prefix else None
        return FuncV(s.name, s, env, env.module, cls if cls is not None else env.cls, kind, q)

    def x_ClassDef(self, s, env):
        env.vars[s.name] = self.prog.make_class(self, s, env)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval_index(t.slice, env))
            else:
                raise Unsupported("del")

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            self.assign(t, self.augop(s.op, cur, self.eval(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            n = mangle(t.attr, env.cls)
            cur = self.getattr(o, n)
            self.setattr(o, n, self.augop(s.op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.augop(s.op, cur, self.eval(s.value, env)))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, a, b):
        a = self.force(a)
        if isinstance(op, ast.Add) and isinstance(a, ListV) and not a.tup:
            self.B.list_extend(self, a, b)
            return a
        if isinstance(a, Obj) and isinstance(op, ast.Add):
            f, _ = a.cls.lookup("__iadd__")
            if f is not None:
                return self.call(f, [a, b], {})
        if isinstance(a, SetV) and isinstance(op, ast.BitOr):
            self.B.set_update(self, a, b)
            return a
        if isinstance(a, DictV) and isinstance(op, ast.BitOr):
            self.B.dict_update(self, a, b)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            nl = env.vars.get("$nonlocal")
            if nl and t.id in nl:
                nl[t.id].vars[t.id] = v
                return
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), mangle(t.attr, env.cls), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, env):
        v = self.force(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, ListV) and v.items is not None:
            items = v.items
        elif isinstance(v, ListV):
            return self.unpack_sym(elts, star, v, env)
        else:
            raise Unsupported("unpacking %r" % (v,))
        if star:
            i = star[0]
            n = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                raise PyRaise("ValueError", "unpack")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, env)
            self.assign(elts[i].value, self.mklist(items[i:len(items) - n]), env)
            for e, x in zip(elts[i + 1:], items[len(items) - n:]):
                self.assign(e, x, env)
            return
        if len(items) != len(elts):
            raise PyRaise("ValueError", "unpack")
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    def unpack_sym(self, elts, star, v, env):
        n = len(elts)
        L = z3.Length(v.seq)
        if star:
            if star[0] != n - 1:
                raise Unsupported("starred unpacking")
            if not self.ctx.branch(L >= n - 1):
                raise PyRaise("ValueError", "unpack")
            for i, e in enumerate(elts[:-1]):
                self.assign(e, self.seq_at(v, i), env)
            rest = self.cell(ListV(et=v.et, seq=z3.SubSeq(v.seq, n - 1, L - (n - 1)) if n > 1 else v.seq))
            self.assign(elts[-1].value, rest, env)
            return
        if not self.ctx.branch(L == n):
            raise PyRaise("ValueError", "unpack")
        for i, e in enumerate(elts):
            self.assign(e, self.seq_at(v, i), env)

    def x_If(self, s, env):
        if self.ctx.branch(self.truth(self.eval(s.test, env))):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_With(self, s, env):
        for i in s.items:
            v = self.eval(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, self.B.enter(self, v), env)
        self.exec_block(s.body, env)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if self.handler_matches(h, e, env):
                        if h.name:
                            env.vars[h.name] = ExcV(e.exc)
                        old = env.vars.get("$exc")
                        env.vars["$exc"] = e.exc
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            env.vars["$exc"] = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, Ret, Brk, Cnt):
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.finalbody, env)

    def handler_matches(self, h, e, env):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
            if n is None:
                raise Unsupported("except clause")
            if n == "error":
                n = "RegexError"
            if exc_isa(e.exc, n):
                return True
        return False

    # ---------------------------------------------------------------- loops
    def x_While(self, s, env):
        hook = self.prog.while_hook(self, s, env)
        if hook is not None:
            hook()
            if s.orelse:
                self.exec_block(s.orelse, env)
            return
        n = 0
        while True:
            c = self.truth(self.eval(s.test, env))
            if not isinstance(c, bool):
                c = z3.simplify(self.ctx.rw(c))
                if not (z3.is_true(c) or z3.is_false(c)):
                    # decided by the path so far?
                    t, f = self.ctx.feasible(c), self.ctx.feasible(z3.Not(c))
                    if t and f and n > 0:
                        raise Unsupported("while loop without invariant at line %d" % s.lineno)
            if not self.ctx.branch(c):
                self.exec_block(s.orelse, env)
                return
            try:
                self.exec_block(s.body, env)
            except Brk:
                return
            except Cnt:
                pass
            n += 1
            if n > 200:
                raise Unsupported("while loop without invariant at line %d" % s.lineno)

    def iterate(self, v):
        """('conc', items) or ('sym', et, seq, convert)"""
        v = self.force(v)
        if isinstance(v, GenV):
            return self.iterate(self.comp_list(v.node, v.env))
        if isinstance(v, tuple):
            return ("conc", list(v))
        if isinstance(v, self.B.IterV):
            if v.lst.items is not None:
                r = v.lst.items[v.pos:]
                v.pos = len(v.lst.items)
                return ("conc", r)
            if v.pos == 0:
                v.pos = -1
                return self.sym_iter(v.lst.et, v.lst.seq, None)
            raise Unsupported("iterator used twice")
        if hasattr(v, "iterate_"):
            return v.iterate_(self)
        if isinstance(v, ListV):
            if v.items is not None:
                return ("conc", list(v.items))
            return self.sym_iter(v.et, v.seq, None)
        if isinstance(v, str):
            return ("conc", list(v))
        if isinstance(v, Str):
            return self.sym_iter(CHAR, v.term, None)
        if isinstance(v, SetV):
            if v.arr is None:
                return ("conc", [])
            conc = self.B.set_literal(self, v)
            if conc is not None and len(conc) <= 1:
                return ("conc", conc)
            return self.sym_iter(v.et, self.B.set_seq(self, v), None)
        if isinstance(v, DictV):
            if v.pairs is not None:
                return ("conc", [p[0] for p in v.pairs])
            return self.sym_iter(v.kt, v.keys, None)
        if isinstance(v, DictItems):
            d = v.d
            if d.pairs is not None:
                return ("conc", [v.pick(p[0], p[1]) for p in d.pairs])
            kt, vt, val, keys = d.kt, d.vt, d.val, d.keys

            def conv(x):
                k = self.from_term(kt, x)
                return v.pick(k, self.dict_view(d, k, vt, z3.Select(val, x)))
            return self.sym_iter(kt, keys, conv)
        if isinstance(v, EnumV):
            it = self.iterate(v.it)
            if it[0] == "conc":
                return ("conc", [(i + v.start, x) for i, x in enumerate(it[1])])
            if it[0] == "sym" and self.prog.hooks.get("enum_chars"):
                return ("enum", it[1], it[2], v.start)
            raise Unsupported("enumerate over a symbolic sequence")
        if isinstance(v, (Obj, RefV)):
            r = self.B.userlist_data(self, v)
            if r is not None:
                return self.iterate(r)
            c = self.classof(v)
            f, _ = c.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(f, [v], {}))
        raise Unsupported("iteration over %r" % (v,))

    def sym_iter(self, et, seq, conv):
        seq = self.ctx.seq_expand(seq)
        pieces = folds.flat(seq)
        if not pieces:
            return ("conc", [])
        c = conv or (lambda x: self.from_term(et, x))
        if all(folds.is_unit(p) for p in pieces):
            return ("conc", [c(p.arg(0)) for p in pieces])
        return ("sym", et, seq, c)

    def dict_view(self, d, k, vt, t):
        v = self.from_term(vt, self.ctx.rw(t))
        if isinstance(v, Cell):
            v.parent = lambda cell: self.setitem(d, k, cell, view=True)
        return v

    def x_For(self, s, env):
        src = self.force(self.eval(s.iter, env))
        it = self.iterate(src)
        if isinstance(src, Obj) and isinstance(src.fields.get("data"), ListV):
            src = src.fields["data"]
        live = isinstance(src, ListV) and not src.tup
        if it[0] == "conc":
            for n in range(1000000):
                # a list may change while it is iterated
                if live and src.items is None:
                    raise Unsupported("a list changes while it is iterated")
                xs = src.items if live else it[1]
                if n >= len(xs):
                    break
                x = xs[n]
                self.assign(s.target, x, env)
                try:
                    self.exec_block(s.body, env)
                except Brk:
                    return
                except Cnt:
                    continue
            self.exec_block(s.orelse, env)
            return
        if it[0] == "table":
            # one arbitrary key; the table itself refuses access to other keys
            t = it[1]
            loc = assigned_names(s.body)
            self.assign(s.target, it[2](t.key, t.entry), env)
            outer = {n: env.vars[n] for n in loc if n in env.vars}
            try:
                self.exec_block(s.body, env)
            except Cnt:
                pass
            except (Brk, Ret):
                raise Unsupported("a loop over all keys that ends early")
            for n in loc:
                # nothing is carried from one key to the next
                if n in outer and env.vars.get(n) is not outer[n]:
                    raise Unsupported("%s is carried over" % n)
                env.vars.pop(n, None)
            env.vars.update(outer)
            self.exec_block(s.orelse, env)
            return
        hook = self.prog.for_hook(self, s, env, it)
        if hook is not None:
            hook()
            return
        if it[0] == "enum":
            raise Unsupported("enumerate over a text")
        _, et, seq, conv = it
        if live:
            self.ctx.iterating.append(src)
        try:
            broke = self.sym_loop(seq, et, lambda x: self.assign(s.target, conv(x), env),
                                  lambda: self.exec_block(s.body, env), env,
                                  assigned_names(s.body), assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))]))
        finally:
            if live:
                self.ctx.iterating.pop()
        if not broke:
            self.exec_block(s.orelse, env)

    def get_mod(self, key):
        k, a = key[0], key[1]
        if k == "var":
            return a.vars.get(key[2], UNDEF)
        if k == "cell":
            return a
        return ("heap", a)

    def mod_type(self, key, value):
        if key[0] == "heap":
            return Ty("heap", key[1])
        if key[0] == "cell" and isinstance(value, Obj):
            raise Unsupported("object mutated in a loop")
        return self.type_of(value)

    def mod_term(self, key, ty):
        if key[0] == "heap":
            return self.heap(key[1], self.field_type(key[1]))
        return self.to_term(ty, self.get_mod(key))

    def mod_sort(self, key, ty):
        if key[0] == "heap":
            return z3.ArraySort(Ref, sort_of(self.field_type(key[1])))
        return sort_of(ty)

    def set_mod(self, key, ty, t):
        if key[0] == "heap":
            self.ctx.heap[key[1]] = t
        elif key[0] == "var":
            key[1].vars[key[2]] = self.from_term(ty, t)
        else:
            c = key[1]
            if isinstance(c, ListV):
                c.items, c.et, c.seq = None, ty.a[0], t
            elif isinstance(c, SetV):
                c.et, c.arr = ty.a[0], t
            elif isinstance(c, DictV):
                self.dict_load(c, ty, t)
            c.written(self.ctx)

    def complete(self, ty):
        if ty is None:
            return False
        return all(self.complete(x) if isinstance(x, Ty) else (x is not None) for x in ty.a) if ty.k not in ("obj", "opaque", "heap") else True

    def sym_loop(self, seq, et, bind, body, env, assigned, targets):
        """Summarise a loop over a symbolic sequence. Returns True if left by break."""
        ctx = self.ctx
        lr = LoopRec({id(c) for c in ctx.cells})
        keep = list(ctx.cells)
        for n in assigned:
            if n in targets:
                continue
            e = env
            nl = env.vars.get("$nonlocal")
            if nl and n in nl:
                e = nl[n]
            if n in e.vars and e.vars[n] is not UNDEF:
                lr.mods[("var", n)] = ("var", e, n)
        types = {}
        x = folds.elem_const(seq.sort(), seq)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Unsupported("loop analysis does not converge")
            keys = dict(lr.mods)
            st = {}
            snap = ctx.snapshot()
            init = {}
            for k, key in keys.items():
                v = self.get_mod(key)
                t0 = self.mod_type(key, v)
                ty = types.get(k)
                ty = t0 if ty is None or key[0] == "heap" else self.join(ty, t0) if t0 is not None else ty
                types[k] = ty
                if self.complete(ty):
                    init[k] = self.mod_term(key, ty)
            dead = ctx.nfresh
            for k, key in keys.items():
                ty = types[k]
                if self.complete(ty):
                    st[k] = z3.Const("st!%d!%s" % (len(ctx.loops), ctx.nfresh), self.mod_sort(key, ty))
                    ctx.nfresh += 1
                    self.set_mod(key, ty, st[k])
            ctx.loops.append(lr)
            mark = ctx.nfresh

            def collect():
                out = {}
                for k, key in keys.items():
                    try:
                        v = self.get_mod(key)
                        if v is UNDEF:
                            out[k] = (None, None)
                            continue
                        ty = self.mod_type(key, v)
                        out[k] = (ty, self.mod_term(key, self.join(types[k], ty) if key[0] != "heap" else ty)
                                  if self.complete(self.join(types[k], ty) if key[0] != "heap" else ty) else None)
                    except Unsupported:
                        raise
                return out

            try:
                self.elem_facts(et, seq, x)
                res = ctx.sub_explore(lambda: (bind(x), body())[1], collect)
            except Redo as r:
                ctx.loops.pop()
                ctx.restore(snap)
                if r.lr is not lr:
                    raise
                continue
            except BaseException:
                if ctx.loops and ctx.loops[-1] is lr:
                    ctx.loops.pop()
                raise
            ctx.loops.pop()
            ctx.restore(snap)
            changed = False
            for conds, out, vals in res:
                if out[0] not in ("normal", "Cnt"):
                    continue
                for k, (ty, t) in vals.items():
                    if ty is None or keys[k][0] == "heap":
                        continue
                    j = self.join(types[k], ty)
                    if j is not types[k]:
                        types[k] = j
                        changed = True
            if changed:
                continue
            break
        keys = dict(lr.mods)
        normal = [(c, o, v) for c, o, v in res if o[0] in ("normal", "Cnt")]
        exits = [(c, o, v) for c, o, v in res if o[0] not in ("normal", "Cnt")]
        new = {}
        for k, key in keys.items():
            if k not in st:
                if any(v[k][1] is not None for _, _, v in normal):
                    raise Unsupported("type of a loop variable")
                continue
            t = None
            for c, o, v in reversed(normal):
                if v[k][1] is None:
                    raise Unsupported("loop variable without value")
                t = v[k][1] if t is None else z3.If(z3.And(*c) if c else z3.BoolVal(True), v[k][1], t)
            if t is None:
                t = st[k]
            self.check_fresh(t, mark, [x] + list(st.values()))
            new[k] = z3.simplify(ctx.rw(t))
        summ = self.summary(seq, x, st, init, new, keys, types)
        econd = None
        if exits:
            ec = [z3.And(*c) if c else z3.BoolVal(True) for c, _, _ in exits]
            econd = z3.simplify(ctx.rw(z3.Or(*ec)))
            self.check_fresh(econd, mark, [x] + list(st.values()))

        def set_all(S):
            for k, key in keys.items():
                if k in st:
                    t = summ[k](S)
                    if t is None:
                        if key[0] == "var":
                            key[1].vars[key[2]] = UNDEF
                            continue
                        raise Unsupported("loop state cannot be summarised")
                    self.set_mod(key, types[k], ctx.rw(t))

        def clear_locals():
            for n in assigned + targets:
                if ("var", n) not in keys:
                    env.vars[n] = UNDEF

        if not exits:
            set_all(seq)
            clear_locals()
            return False
        dep = [k for k in st if folds.free_in(econd, st[k])]
        if not dep:
            anyt = folds.mk_hom(ctx, "any", seq, x, econd)
            if not ctx.branch(anyt):
                set_all(seq)
                clear_locals()
                return False
        else:
            full = ctx.choose("fullloop")
            noexit = self.noexit_symbol(x, st, init, new, econd)
            if full:
                ctx.assume(noexit(seq))
                set_all(seq)
                clear_locals()
                return False
        # the loop is left at element w after prefix p
        p = ctx.fresh("pre", seq.sort())
        r = ctx.fresh("rest", seq.sort())
        w = ctx.fresh("at", x.sort())
        whole = z3.Concat(p, z3.Unit(w), r)
        if z3.is_const(seq) and seq.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            ctx.seqdefs[seq.get_id()] = (seq, whole)
        ctx.solver.add(seq == whole)
        if not dep:
            ctx.assume(z3.Not(folds.mk_hom(ctx, "any", p, x, econd)))
            # no element of the prefix leaves the loop
            ctx.noexit[p.get_id()] = (p, x, econd)
        else:
            ctx.assume(noexit(p))
        set_all(p)
        self.elem_facts(et, seq, w)
        bind(w)
        try:
            body()
        except Brk:
            return True
        except Cnt:
            raise Infeasible()
        # body ended normally: contradicts the exit condition
        raise Infeasible()

    def check_fresh(self, t, mark, allowed):
        names = self.ctx.fresh_names
        ok = {a.get_id() for a in allowed}
        for c in folds.free_consts(t):
            if c.get_id() in ok:
                continue
            n = names.get(c.decl().name())
            if n is not None and n > mark:
                raise Unsupported("iteration-dependent unknown %s in a loop" % c)

    def summary(self, seq, x, st, init, new, keys, types):
        """closed form of each carried variable as a function of the sequence"""
        ctx = self.ctx
        out = {}
        deps = {k: {j for j in st if folds.free_in(new[k], st[j])} for k in st}
        # transitive dependencies
        for k in st:
            todo = list(deps[k])
            while todo:
                j = todo.pop()
                for l in deps[j]:
                    if l not in deps[k]:
                        deps[k].add(l)
                        todo.append(l)
        for k in st:
            d = deps[k]
            if new[k].eq(st[k]):
                out[k] = lambda S, k=k: init[k]
                continue
            if k not in d:
                # overwritten in each iteration; only the last value is left
                out[k] = lambda S: None
                continue
            if d == {k}:
                h = self.as_hom(x, st[k], new[k])
                if h is not None:
                    mono, step = h
                    out[k] = lambda S, k=k, mono=mono, step=step: folds.combine(
                        mono, [init[k], folds.mk_hom(ctx, mono, S, x, step)] if not is_ident(mono, init[k]) else [folds.mk_hom(ctx, mono, S, x, step)], init[k].sort())
                    continue
                out[k] = lambda S, k=k: folds.mk_fold(ctx, S, init[k], st[k], x, new[k])
                continue
            comp = [j for j in st if j in d or j == k]
            name = "JS_" + "_".join(st[j].sort().sexpr().replace(" ", "_").replace("(", "").replace(")", "") for j in comp)
            dt = joint_sort(name, [st[j].sort() for j in comp])
            s = z3.Const("js!" + name, dt)
            sub = [(st[j], dt.accessor(0, i)(s)) for i, j in enumerate(comp)]
            step = dt.constructor(0)(*[z3.substitute(new[j], sub) for j in comp])
            i0 = dt.constructor(0)(*[init[j] for j in comp])
            ix = comp.index(k)
            out[k] = lambda S, dt=dt, i0=i0, s=s, step=step, ix=ix: z3.simplify(dt.accessor(0, ix)(folds.mk_fold(ctx, S, i0, s, x, step)))
        return out

    def noexit_symbol(self, x, st, init, new, econd):
        """predicate on prefixes: the loop is not left within the prefix"""
        ctx = self.ctx
        dt = None
        ks = [k for k in st]

        def build(S):
            # joint fold of the state with a flag
            comp = ks
            name = "JX_" + "_".join(st[j].sort().sexpr().replace(" ", "_").replace("(", "").replace(")", "") for j in comp)
            d = joint_sort(name, [z3.BoolSort()] + [st[j].sort() for j in comp])
            s = z3.Const("jx!" + name, d)
            sub = [(st[j], d.accessor(0, i + 1)(s)) for i, j in enumerate(comp)]
            news = new
            step = d.constructor(0)(z3.And(d.accessor(0, 0)(s), z3.Not(z3.substitute(econd, sub))),
                                    *[z3.substitute(news[j], sub) for j in comp])
            i0 = d.constructor(0)(z3.BoolVal(True), *[init[j] for j in comp])
            return d.accessor(0, 0)(folds.mk_fold(ctx, S, i0, s, x, step))
        return build

    def elem_facts(self, et, seq, x):
        """facts about members of sequences of this type (data invariants assumed by contracts)"""
        if self.prog.elem_facts:
            for f in self.prog.elem_facts(self, et, seq, x):
                self.ctx.assume(f)

    def as_hom(self, x, s, new):
        """new == s (+) d(x)?"""
        ctx = self.ctx
        sort = s.sort()
        for mono in self.monoids(sort):
            i = folds.ident(mono, sort)
            d = z3.simplify(ctx.rw(z3.substitute(new, (s, i))))
            if folds.free_in(d, s):
                continue
            goal = new == folds.combine(mono, [s, d], sort)
            if ctx.valid(ctx.rw(goal), 3000):
                ctx.stats.lemmas += 1
                return mono, d
        return None

    def monoids(self, sort):
        if sort == z3.StringSort():
            return ["cat"]
        if sort.kind() == z3.Z3_SEQ_SORT:
            return ["list"]
        if sort.kind() == z3.Z3_ARRAY_SORT and sort.range() == z3.BoolSort():
            return ["set"]
        if sort == z3.BoolSort():
            return ["any"]
        if sort == z3.IntSort():
            return ["sum"]
        return []

    # ---------------------------------------------------------------- comprehensions
    def comp_list(self, node, env):
        """list built by a comprehension or generator expression"""
        acc = self.mklist([])
        e = self.new_env(env, env.module, env.cls, env.func)
        elt = node.elt

        def add():
            v = self.eval(elt, e)
            self.B.list_append(self, acc, v)
        self.comp_run(node.generators, 0, e, add, env)
        return acc

    def comp_run(self, gens, i, e, leaf, outer):
        if i == len(gens):
            leaf()
            return
        g = gens[i]
        it = self.iterate(self.eval(g.iter, outer if i == 0 else e))
        names = assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])

        def body():
            for c in g.ifs:
                if not self.ctx.branch(self.truth(self.eval(c, e))):
                    return
            self.comp_run(gens, i + 1, e, leaf, outer)
        if it[0] == "conc":
            for x in it[1]:
                self.assign(g.target, x, e)
                body()
            return
        _, et, seq, conv = it
        self.sym_loop(seq, et, lambda x: self.assign(g.target, conv(x), e), body, e, [], names)

    # ================================================================ expressions
    def eval(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(env, n.id)

    def e_Attribute(self, n, env):
        o = self.eval(n.value, env)
        return self.getattr(o, mangle(n.attr, env.cls))

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Tuple(self, n, env):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                it = self.iterate(v)
                if it[0] != "conc":
                    if len(n.elts) == 1:
                        return self.cell(ListV(et=it[1], seq=it[2], tup=True))
                    raise Unsupported("starred display")
                out += it[1]
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def e_List(self, n, env):
        acc = self.mklist([])
        for x in n.elts:
            if isinstance(x, ast.Starred):
                self.B.list_extend(self, acc, self.eval(x.value, env))
            else:
                self.B.list_append(self, acc, self.eval(x, env))
        return acc

    def e_Set(self, n, env):
        s = self.cell(SetV())
        for x in n.elts:
            self.B.set_add(self, s, self.eval(x, env))
        return s

    def e_Dict(self, n, env):
        d = self.mkdict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.B.dict_update(self, d, self.eval(v, env))
            else:
                self.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_ListComp(self, n, env):
        return self.comp_list(n, env)

    def e_GeneratorExp(self, n, env):
        return GenV(n, env)

    def e_SetComp(self, n, env):
        s = self.cell(SetV())
        e = self.new_env(env, env.module, env.cls, env.func)
        self.comp_run(n.generators, 0, e, lambda: self.B.set_add(self, s, self.eval(n.elt, e)), env)
        return s

    def e_DictComp(self, n, env):
        d = self.mkdict()
        e = self.new_env(env, env.module, env.cls, env.func)
        self.comp_run(n.generators, 0, e, lambda: self.setitem(d, self.eval(n.key, e), self.eval(n.value, e)), env)
        return d

    def e_Lambda(self, n, env):
        return FuncV("<lambda>", n, env, env.module, env.cls, "plain", None)

    def e_IfExp(self, n, env):
        if self.ctx.branch(self.truth(self.eval(n.test, env))):
            return self.eval(n.body, env)
        return self.eval(n.orelse, env)

    def pure_bool(self, n):
        """can be evaluated eagerly: no calls, no subscripts"""
        return all(isinstance(x, (ast.Compare, ast.Name, ast.Attribute, ast.Constant, ast.UnaryOp, ast.BoolOp, ast.Load,
                                  ast.And, ast.Or, ast.Not, ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot,
                                  ast.In, ast.NotIn, ast.List, ast.Tuple, ast.Set)) for x in ast.walk(n))

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            if isinstance(v, z3.BoolRef):
                # keep boolean structure when the rest is a plain boolean of the same state
                t = z3.simplify(self.ctx.rw(v))
                if z3.is_true(t) or z3.is_false(t):
                    c = z3.is_true(t)
                else:
                    rest = ast.BoolOp(op=n.op, values=n.values[i + 1:]) if len(n.values) - i > 2 else n.values[i + 1]
                    if all(self.pure_bool(y) for y in n.values[i + 1:]):
                        try:
                            w = self.eval(rest, env)
                        except PyRaise:
                            w = None
                        if isinstance(w, (bool, z3.BoolRef)):
                            return self.and_(t, w) if is_and else self.or_(t, w)
                    c = self.ctx.branch(t)
            else:
                if isinstance(v, OptV):
                    v = self.force(v)
                tv = self.truth(v)
                c = self.ctx.branch(tv)
            if is_and and not c:
                return v if not isinstance(v, z3.BoolRef) else False
            if not is_and and c:
                return v if not isinstance(v, z3.BoolRef) else True
        return v

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return self.not_(self.truth(v))
        v = self.force(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.eval(n.left, env), self.eval(n.right, env))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        num = (int, z3.ArithRef)
        if isinstance(op, ast.BitOr) and isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return self.or_(a, b)
        if isinstance(op, ast.BitAnd) and isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return self.and_(a, b)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)) or \
           isinstance(a, num) and isinstance(b, (bool, z3.BoolRef)) or isinstance(b, num) and isinstance(a, (bool, z3.BoolRef)):
            cv = lambda v: int(v) if isinstance(v, bool) else z3.If(v, 1, 0) if isinstance(v, z3.BoolRef) else v
            a, b = cv(a), cv(b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
                return mkstr([a if isinstance(a, (str, Str)) else a, b])
            if isinstance(a, num) and isinstance(b, num):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, ListV) and isinstance(b, ListV):
                r = self.B.list_copy(self, a)
                self.B.list_extend(self, r, b)
                return r
            if isinstance(a, (str, Str)) or isinstance(b, (str, Str)) or a is None or b is None:
                raise PyRaise("TypeError", "+")
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return self.B.percent_format(self, a, b)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0:
                return a % b
            if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0:
                return a // b if isinstance(a, int) else a / b
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(a, SetV) and isinstance(b, SetV):
            return self.B.set_op(self, op, a, b)
        if isinstance(op, ast.BitOr) and isinstance(a, DictV) and isinstance(b, DictV):
            r = self.B.dict_copy(self, a)
            self.B.dict_update(self, r, b)
            return r
        if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(op, ast.Mult) and isinstance(a, ListV) and isinstance(b, int) and a.items is not None:
            return self.mklist(a.items * b)
        raise Unsupported("operator %s on %r and %r" % (type(op).__name__, a, b))

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        r = True
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rn, env)
            r = self.and_(r, self.compare(op, left, right))
            if r is False:
                return False
            left = right
        return r

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_(self.eq(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, OptV) or isinstance(b, OptV):
                if a is None or b is None:
                    r = self.eq(a, b)
                else:
                    raise Unsupported("identity comparison")
            elif a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                r = self.eq(a, b)
            elif isinstance(a, (Obj, RefV, ClassV)) or isinstance(b, (Obj, RefV, ClassV)):
                r = self.eq(a, b)
            elif isinstance(a, Cell) and isinstance(b, Cell):
                r = a is b
            else:
                raise Unsupported("identity comparison")
            return r if isinstance(op, ast.Is) else self.not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else self.not_(r)
        a, b = self.force(a), self.force(b)
        num = (int, z3.ArithRef)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return a > b
            return a >= b
        raise Unsupported("comparison %s" % type(op).__name__)

    def contains(self, c, x):
        c = self.force(c)
        if hasattr(c, "contains_"):
            return c.contains_(self, x)
        if isinstance(c, OpaqueV) and ("opaque_contains", c.ty.a[0]) in self.prog.hooks:
            return self.prog.hooks[("opaque_contains", c.ty.a[0])](self, c, x)
        if isinstance(c, (str, Str)):
            x = self.force(x)
            if not isinstance(x, (str, Str)):
                raise PyRaise("TypeError", "in <string>")
            return self.B.str_contains(self, c, x)
        if isinstance(c, GenV):
            c = self.comp_list(c.node, c.env)
        if isinstance(c, tuple):
            r = False
            for y in c:
                r = self.or_(r, self.eq(y, x))
            return r
        if isinstance(c, ListV):
            if c.items is not None:
                r = False
                for y in c.items:
                    r = self.or_(r, self.eq(y, x))
                return r
            if z3.is_app(c.seq) and c.seq.decl().name() == "setseq" and c.et.k not in ("opt",):
                if isinstance(x, OptV):
                    x = self.force(x)
                return False if x is None else self.set_member(c.seq.arg(0), self.to_term(c.et, x))
            e = folds.elem_const(c.seq.sort(), c.seq)
            g = self.eq(self.from_term(c.et, e), x)
            if isinstance(g, bool):
                g = z3.BoolVal(g)
            return folds.mk_hom(self.ctx, "any", c.seq, e, g)
        if isinstance(c, SetV):
            if c.arr is None:
                return False
            if isinstance(x, OptV) and not c.et.k == "opt":
                x = self.force(x)
            if x is None and c.et.k not in ("none", "opt"):
                return False
            return self.set_member(c.arr, self.to_term(c.et, x))
        if isinstance(c, DictV):
            if c.pairs is not None:
                r = False
                for k, v in c.pairs:
                    r = self.or_(r, self.eq(k, x))
                return r
            if isinstance(x, OptV) and c.kt.k != "opt":
                x = self.force(x)
            if x is None and c.kt.k not in ("none", "opt"):
                return False
            return z3.Select(c.dom, self.to_term(c.kt, x))
        if isinstance(c, DictItems):
            if c.what == "keys":
                return self.contains(c.d, x)
            return self.contains(self.B.to_list(self, c), x)
        if isinstance(c, (Obj, RefV)):
            d = self.B.userlist_data(self, c)
            if d is not None:
                return self.contains(d, x)
        if c is None:
            raise PyRaise("TypeError", "in None")
        raise Unsupported("membership in %r" % (c,))

    def set_member(self, arr, k):
        """k in arr, pushed through unions and set-valued folds"""
        if z3.is_app(arr):
            kd = arr.decl().kind()
            if kd == z3.Z3_OP_ITE:
                return z3.If(arr.arg(0), self.set_member(arr.arg(1), k), self.set_member(arr.arg(2), k))
            if kd == z3.Z3_OP_ARRAY_MAP and arr.num_args() == 2 and z3.get_map_func(arr).kind() == z3.Z3_OP_OR:
                return z3.Or(self.set_member(arr.arg(0), k), self.set_member(arr.arg(1), k))
            if kd == z3.Z3_OP_SET_UNION if hasattr(z3, "Z3_OP_SET_UNION") else False:
                return z3.Or(*[self.set_member(c, k) for c in arr.children()])
            if kd == z3.Z3_OP_STORE:
                return z3.If(k == arr.arg(1), arr.arg(2), self.set_member(arr.arg(0), k))
            if kd == z3.Z3_OP_CONST_ARRAY:
                return arr.arg(0)
            g = folds._reg.get(arr.decl().name())
            if isinstance(g, folds.Hom) and g.monoid == "set":
                y = folds.elem_const(g.seqsort, arr)
                gps = [arr.arg(i) for i in range(1, arr.num_args())]
                return folds.mk_hom(self.ctx, "any", arr.arg(0), y, self.set_member(self.ctx.rw(g.at(y, gps)), k))
        return z3.Select(arr, k)

    def e_Subscript(self, n, env):
        if isinstance(n.value, ast.List) and isinstance(n.slice, ast.Constant) and n.slice.value == 0 and any(isinstance(x, ast.Starred) for x in n.value.elts):
            # first element of a list display
            vals = [(isinstance(x, ast.Starred), self.eval(x.value if isinstance(x, ast.Starred) else x, env)) for x in n.value.elts]
            for star, v in vals:
                if not star:
                    return v
                if self.ctx.branch(self.truth(v)):
                    return self.getitem(v, 0)
            raise PyRaise("IndexError", "list index out of range")
        o = self.eval(n.value, env)
        return self.getitem(o, self.eval_index(n.slice, env))

    def eval_index(self, n, env):
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self.force(self.eval(x, env))
            return SliceV(f(n.lower), f(n.upper), f(n.step))
        return self.eval(n, env)

    def getitem(self, o, i):
        return self.B.getitem(self, self.force(o), i)

    def setitem(self, o, i, v, view=False):
        return self.B.setitem(self, self.force(o), i, v, view)

    def delitem(self, o, i):
        return self.B.delitem(self, self.force(o), i)

    def seq_at(self, v, i):
        """element of a symbolic sequence"""
        t = None
        pieces = folds.flat(self.ctx.seq_expand(v.seq))
        if isinstance(i, int) and i >= 0 and all(folds.is_unit(p) for p in pieces[:i + 1]) and len(pieces) > i:
            t = pieces[i].arg(0)
        elif isinstance(i, int) and i < 0 and len(pieces) >= -i and all(folds.is_unit(p) for p in pieces[i:]):
            t = pieces[i].arg(0)
        else:
            ix = i if not isinstance(i, int) or i >= 0 else z3.Length(v.seq) + i
            t = v.seq[ix]
        x = self.from_term(v.et, self.ctx.rw(t))
        if isinstance(x, Cell):
            x.parent = lambda cell: self.setitem(v, i, cell, view=True)
        return x

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    raise Unsupported("format spec")
                x = self.force(self.eval(v.value, env))
                parts.append(self.B.to_str(self, x) if v.conversion in (-1, 115) else self.B.to_repr(self, x))
        return mkstr(parts)

    def e_Call(self, n, env):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and e.func is None:
                e = e.parent
            a = e.func.node.args
            selfname = (a.posonlyargs + a.args)[0].arg
            f = env
            obj = self.lookup(env, selfname)
            return Super(obj, self.classof(obj), e.cls)
        if isinstance(n.func, ast.Name) and n.func.id == "locals":
            raise Unsupported("locals()")
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.eval(a.value, env))
                if it[0] != "conc":
                    raise Unsupported("*args of unknown length")
                args += it[1]
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                v = self.force(v)
                if not isinstance(v, DictV) or v.pairs is None:
                    raise Unsupported("**kwargs of unknown keys")
                for p in v.pairs:
                    if p[0] in kw:
                        raise PyRaise("TypeError", "multiple values for %s" % p[0])
                    kw[p[0]] = p[1]
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_Yield(self, n, env):
        e = env
        while "$yield" not in e.vars:
            e = e.parent
        self.B.list_append(self, e.vars["$yield"], self.eval(n.value, env) if n.value else None)
        return None


def is_ident(mono, t):
    t = z3.simplify(t)
    return t.eq(z3.simplify(folds.ident(mono, t.sort())))


_joint = {}


def joint_sort(name, sorts):
    if name not in _joint:
        d = z3.Datatype(name)
        d.declare("mk", *[("c%d" % i, s) for i, s in enumerate(sorts)])
        _joint[name] = d.create()
    return _joint[name]


def p_is(t, *names):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().split("$")[0] in names


class Super(Value):
    def __init__(self, obj, obj_cls, cls):
        self.obj, self.obj_cls, self.cls = obj, obj_cls, cls


class GenV(Value):
    def __init__(self, node, env):
        self.node, self.env = node, env


class DictItems(Value):
    def __init__(self, d, what):
        self.d, self.what = d, what

    def pick(self, k, v):
        return (k, v) if self.what == "items" else k if self.what == "keys" else v


class EnumV(Value):
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class ExcV(Value):
    def __init__(self, name):
        self.name = name


class PropV(Value):
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class LazyField:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, it, obj):
        return self.fn(it, obj)

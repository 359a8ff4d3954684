"""Types, values and z3 sorts of the verifier."""
import z3

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a")
    _cache = {}

    def __new__(cls, k, *a):
        key = (k, a)
        t = cls._cache.get(key)
        if t is None:
            t = object.__new__(cls)
            t.k = k
            t.a = a
            cls._cache[key] = t
        return t

    def __repr__(self):
        return self.k + ("(" + ",".join(map(repr, self.a)) + ")" if self.a else "")


STR = Ty("str")
INT = Ty("int")
BOOL = Ty("bool")
NONE = Ty("none")
CHAR = Ty("char")          # element of a string


def TList(e): return Ty("list", e)
def TTupS(e): return Ty("tupseq", e)      # tuple of unknown length
def TSet(e): return Ty("set", e)
def TDict(k, v): return Ty("dict", k, v)
def TOpt(t): return t if t.k in ("opt", "none") else Ty("opt", t)
def TTup(*ts): return Ty("tuple", *ts)
def TObj(*names): return Ty("obj", *names)
def TOpaque(name): return Ty("opaque", name)


Ref = z3.DeclareSort("Ref")
_sorts = {}


def tname(t):
    return t.k + ("_" + "_".join(tname(x) if isinstance(x, Ty) else str(x) for x in t.a) + "_" if t.a else "")


def sort_of(t):
    s = _sorts.get(t)
    if s is not None:
        return s
    if t.k == "str":
        s = z3.StringSort()
    elif t.k == "char":
        s = z3.CharSort()
    elif t.k == "int":
        s = z3.IntSort()
    elif t.k == "bool":
        s = z3.BoolSort()
    elif t.k == "obj":
        s = Ref
    elif t.k == "opaque":
        s = z3.DeclareSort("Op_" + t.a[0])
    elif t.k in ("list", "tupseq"):
        s = z3.SeqSort(sort_of(t.a[0]))
    elif t.k == "set":
        s = z3.ArraySort(sort_of(t.a[0]), z3.BoolSort())
    elif t.k == "none":
        s = z3.BoolSort()
    elif t.k == "opt":
        d = z3.Datatype("Opt_" + tname(t.a[0]))
        d.declare("none")
        d.declare("some", ("v", sort_of(t.a[0])))
        s = d.create()
    elif t.k == "tuple":
        d = z3.Datatype("Tup_" + "_".join(tname(x) for x in t.a))
        d.declare("mk", *[("f%d" % i, sort_of(x)) for i, x in enumerate(t.a)])
        s = d.create()
    elif t.k == "dict":
        d = z3.Datatype("Dict_" + tname(t.a[0]) + "_" + tname(t.a[1]))
        ks = sort_of(t.a[0])
        d.declare("mk", ("keys", z3.SeqSort(ks)), ("dom", z3.ArraySort(ks, z3.BoolSort())),
                  ("val", z3.ArraySort(ks, sort_of(t.a[1]))))
        s = d.create()
    else:
        raise TypeError("no sort for %r" % (t,))
    _sorts[t] = s
    return s


# ---------------------------------------------------------------- character sets
_charsets = {}
_charset_ops = {}


def _once(f):
    """remember the results of an operation on character sets"""
    n = f.__name__

    def g(self, *o):
        k = (n, self.id) + tuple(x.id for x in o)
        r = _charset_ops.get(k)
        if r is None:
            r = _charset_ops[k] = f(self, *o)
        return r
    return g


class CharSet:
    """Set of code points as sorted disjoint ranges."""
    __slots__ = ("r", "id")
    MAX = 0x2FFFF            # z3's character range

    def __init__(self, ranges):
        rs = sorted((a, b) for a, b in ranges if a <= b)
        out = []
        for a, b in rs:
            if out and a <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], b))
            else:
                out.append((a, b))
        self.r = tuple(out)
        self.id = _charsets.setdefault(self.r, len(_charsets))

    @staticmethod
    def of(s):
        return CharSet([(ord(c), ord(c)) for c in s])

    def __contains__(self, c):
        c = ord(c) if isinstance(c, str) else c
        return any(a <= c <= b for a, b in self.r)

    def __eq__(self, o):
        return isinstance(o, CharSet) and self.id == o.id

    def __hash__(self):
        return hash(self.id)

    @_once
    def __or__(self, o):
        return CharSet(self.r + o.r)

    @_once
    def inv(self):
        out = []
        n = 0
        for a, b in self.r:
            if n < a:
                out.append((n, a - 1))
            n = b + 1
        if n <= self.MAX:
            out.append((n, self.MAX))
        return CharSet(out)

    @_once
    def __and__(self, o):
        return (self.inv() | o.inv()).inv()

    @_once
    def __sub__(self, o):
        return self & o.inv()

    def empty(self):
        return not self.r

    @_once
    def sub(self, o):
        return (self - o).empty()

    def z3re(self):
        rs = [z3.Range(chr(a), chr(b)) if a != b else z3.Re(z3.StringVal(chr(a))) for a, b in self.r]
        if not rs:
            return z3.Empty(z3.ReSort(z3.StringSort()))
        return rs[0] if len(rs) == 1 else z3.Union(*rs)

    def example(self):
        for lo, hi in ((97, 122), (65, 90), (48, 57), (33, 126)):
            for a, b in self.r:
                if max(a, lo) <= min(b, hi):
                    return chr(max(a, lo))
        return chr(self.r[0][0]) if self.r else None

    def __repr__(self):
        return "CharSet(%s)" % ",".join(repr(chr(a)) if a == b else "%r-%r" % (chr(a), chr(b)) for a, b in self.r)


ANYCHAR = CharSet([(0, CharSet.MAX)])
WS = CharSet.of(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000")


class Atom:
    """A symbolic piece of a string: any word over cls with at least minlen characters."""
    __slots__ = ("term", "cls", "minlen", "name")

    def __init__(self, term, cls=None, minlen=0, name=None):
        self.term = term
        self.cls = cls if cls is not None else ANYCHAR
        self.minlen = minlen
        self.name = name or str(term)

    def __repr__(self):
        return "<%s>" % self.name


class Str:
    """Symbolic string: concatenation of literals and atoms."""
    __slots__ = ("parts", "_t")

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._t = None

    @property
    def term(self):
        if self._t is None:
            ts = [z3.StringVal(esc(p)) if isinstance(p, str) else p.term for p in self.parts]
            self._t = ts[0] if len(ts) == 1 else z3.Concat(*ts)
        return self._t

    def __repr__(self):
        return "Str(%r)" % (self.parts,)


def esc(s):
    """z3 string literals read \\u{..} escapes."""
    out = []
    for c in s:
        if c == "\\" or ord(c) < 32 or ord(c) > 126:
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def strval(s):
    return z3.StringVal(esc(s))


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        elif isinstance(p, Str):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        else:
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Str(out)


def sparts(v):
    return (v,) if isinstance(v, str) and v else () if isinstance(v, str) else v.parts


def sterm(v):
    return strval(v) if isinstance(v, str) else v.term


def str_from_term(t):
    if z3.is_string_value(t):
        return unesc(t.as_string())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return mkstr([str_from_term(c) for c in t.children()])
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return ""
    return Str([Atom(t)])


def unesc(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\x([0-9a-fA-F]{2})",
                  lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)), s)


# ---------------------------------------------------------------- values
class Unsupported(Exception):
    """The code left the subset the verifier understands."""


class Value:
    pass


class OptV(Value):
    def __init__(self, ty, term):
        self.ty = ty            # an opt type
        self.term = term


class OpaqueV(Value):
    def __init__(self, ty, term):
        self.ty = ty
        self.term = term


class Cell(Value):
    """Mutable container."""
    parent = None

    def touched(self, ctx):
        ctx.on_mutate(self)

    def written(self, ctx):
        if self.parent is not None:
            self.parent(self)


class ListV(Cell):
    def __init__(self, items=None, et=None, seq=None, tup=False):
        self.items = items
        self.et = et
        self.seq = seq
        self.tup = tup

    def save(self):
        return (list(self.items) if self.items is not None else None, self.et, self.seq)

    def load(self, s):
        self.items = list(s[0]) if s[0] is not None else None
        self.et, self.seq = s[1], s[2]

    def __repr__(self):
        return "ListV(%r,%r)" % (self.items, self.seq)


class SetV(Cell):
    """items: concrete list of values (set display of values), or arr: array of bool"""

    def __init__(self, et=None, arr=None):
        self.et = et
        self.arr = arr          # None -> empty

    def save(self):
        return (self.et, self.arr)

    def load(self, s):
        self.et, self.arr = s

    def __repr__(self):
        return "SetV(%r,%r)" % (self.et, self.arr)


class DictV(Cell):
    """pairs: list of [key, value] with concrete keys; or kt, vt, term (dict datatype)"""

    def __init__(self, pairs=None, kt=None, vt=None, keys=None, dom=None, val=None):
        self.pairs = pairs
        self.kt, self.vt, self.keys, self.dom, self.val = kt, vt, keys, dom, val

    def save(self):
        return ([list(p) for p in self.pairs] if self.pairs is not None else None,
                self.kt, self.vt, self.keys, self.dom, self.val)

    def load(self, s):
        self.pairs = [list(p) for p in s[0]] if s[0] is not None else None
        self.kt, self.vt, self.keys, self.dom, self.val = s[1:]

    def __repr__(self):
        return "DictV(%r,%r)" % (self.pairs, self.keys)


class Obj(Cell):
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}

    def save(self):
        return dict(self.fields)

    def load(self, s):
        self.fields = dict(s)

    def __repr__(self):
        return "Obj(%s)" % self.cls.name


class RefV(Value):
    """Symbolic object of one of some classes"""

    def __init__(self, term, classes):
        self.term = term
        self.classes = tuple(classes)    # names

    def __repr__(self):
        return "RefV(%s:%s)" % (self.term, "|".join(self.classes))


class ClassV(Value):
    def __init__(self, name, node, module, bases, ns, outer=None):
        self.name, self.node, self.module, self.bases, self.ns, self.outer = name, node, module, bases, ns, outer

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += [c for c in b.mro() if c not in out]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class FuncV(Value):
    def __init__(self, name, node, env, module, cls=None, kind="plain", qual=None):
        self.name, self.node, self.env, self.module, self.cls, self.kind, self.qual = name, node, env, module, cls, kind, qual

    def __repr__(self):
        return "<func %s>" % (self.qual or self.name)


class BoundV(Value):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BuiltinV(Value):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class ModV(Value):
    def __init__(self, name, ns=None):
        self.name, self.ns = name, ns if ns is not None else {}


class PatternV(Value):
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags

    def __repr__(self):
        return "Pattern(%r)" % (self.pattern,)


class MatchV(Value):
    def __init__(self, groups, whole=None):
        self.groups = groups     # name/number -> value


class SliceV(Value):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class PyRaise(Exception):
    def __init__(self, exc, msg=None):
        super().__init__(exc)
        self.exc = exc           # name of the exception class
        self.msg = msg


class Infeasible(Exception):
    pass

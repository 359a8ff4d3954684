"""Semantics of the Python builtins and library functions used by the code under contract.

Library functions are either decided exactly (on templates), or stand for
uninterpreted functions of their arguments (the assumption is recorded)."""
import ast
import z3
from .vals import *
from . import folds, tmpl
from .interp import (DictItems, EnumV, GenV, ExcV, PropV, exc_isa, p_is, Env)


def note(it, what):
    it.ctx.run.assumptions.add(what)


def uf(name, ts, out):
    return z3.Function(name, *[t.sort() for t in ts], out)(*ts)


def S(v):
    return sterm(v)


SEQ_STR = z3.SeqSort(z3.StringSort())


def fs(it, v):
    v = it.force(v)
    if not isinstance(v, (str, Str)):
        raise PyRaise("TypeError", "expected str, got %s" % it.kind(v))
    return v


def str_uf(it, name, *args, out=STR):
    ts = []
    for a in args:
        if isinstance(a, bool) or isinstance(a, z3.BoolRef):
            ts.append(it.to_term(BOOL, a))
        elif isinstance(a, (int, z3.ArithRef)):
            ts.append(it.to_term(INT, a))
        elif isinstance(a, (str, Str)):
            ts.append(S(a))
        elif isinstance(a, OpaqueV):
            ts.append(a.term)
        else:
            raise Unsupported("%s of %r" % (name, a))
    return it.from_term(out, uf("py_" + name, ts, sort_of(out)))


# ================================================================ lists
def list_append(it, l, v):
    l.touched(it.ctx)
    if l.items is not None:
        l.items.append(v)
    else:
        et = l.et
        l.seq = concat(l.seq, z3.Unit(it.to_term(et, v)))
    l.written(it.ctx)


def concat(*ts):
    ps = []
    for t in ts:
        ps += folds.flat(t)
    if not ps:
        return z3.Empty(ts[0].sort())
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def list_extend(it, l, other):
    other = it.force(other)
    x = it.iterate(other)
    l.touched(it.ctx)
    if x[0] == "conc":
        for v in x[1]:
            list_append(it, l, v)
        return
    o = to_list(it, other)
    if l.items is not None:
        if l.items:
            t = it.join(it.type_of(l), TList(o.et))
        else:
            t = TList(o.et)
        seq = it.to_term(TList(t.a[0]), l)
        l.items, l.et, l.seq = None, t.a[0], seq
    l.seq = concat(l.seq, it.to_term(TList(l.et), o))
    l.written(it.ctx)


def list_copy(it, l):
    return it.cell(ListV(items=list(l.items) if l.items is not None else None, et=l.et, seq=l.seq))


def to_list(it, v):
    """a new list with the elements of an iterable"""
    v = it.force(v)
    if isinstance(v, GenV):
        return it.comp_list(v.node, v.env)
    if isinstance(v, ListV):
        return list_copy(it, v)
    x = it.iterate(v)
    if x[0] == "conc":
        return it.mklist(x[1])
    _, et, seq, conv = x
    if isinstance(v, (Str, SetV)) or isinstance(v, DictV) or isinstance(v, DictItems) and v.what == "keys" or isinstance(v, (Obj, RefV)):
        return it.cell(ListV(et=et, seq=seq))
    # mapped sequence
    e = folds.elem_const(seq.sort(), seq)
    y = conv(e)
    ty = it.type_of(y)
    t = folds.mk_hom(it.ctx, "list", seq, e, z3.Unit(it.to_term(ty, y)))
    return it.cell(ListV(et=ty, seq=t))


def filter_split(t):
    """t == filter(p, S)?  -> (hom, S, params) or None"""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return None
    g = folds._reg.get(t.decl().name())
    if not isinstance(g, folds.Hom) or g.monoid != "list" or g.out != g.seqsort:
        return None
    st = g.step
    if z3.is_app(st) and st.decl().kind() == z3.Z3_OP_ITE:
        a, b = st.arg(1), st.arg(2)
        u = z3.Unit(g.x)
        ea, eb = not folds.flat(a), not folds.flat(b)
        if (z3.simplify(a).eq(z3.simplify(u)) and eb) or (z3.simplify(b).eq(z3.simplify(u)) and ea):
            return g, t.arg(0), [t.arg(i) for i in range(1, t.num_args())]
    return None


def through_filters(it, fn, seq):
    """fn(filter(S)) = filter(fn(S)) for stable reorderings fn and for duplicate removal"""
    seq = it.ctx.rw(seq)
    f = filter_split(seq)
    if f is not None:
        inner = through_filters(it, fn, f[1])
        return folds.apply_hom(it.ctx, (f[0], f[2]), inner)
    return fn(seq)


_uniq = {}


def uniq(it, seq):
    def fn(s):
        s = it.ctx.seq_expand(s)
        if not folds.flat(s):
            return s
        if p_is(s, "uniq") or p_is(s, "setseq", "sortset"):
            return s
        if len(folds.flat(s)) == 1 and folds.is_unit(folds.flat(s)[0]):
            return s
        return uf("uniq", [s], s.sort())
    note(it, "dict.fromkeys keeps the first occurrence of each element, in order (commutes with filtering)")
    return through_filters(it, fn, seq)


_sortkeys = {}


def sort_seq(it, v, key, reverse):
    if reverse:
        raise Unsupported("reverse sort")
    l = to_list(it, v)
    if l.items is not None:
        if key is None and len(l.items) > 1 and all(isinstance(x, str) for x in l.items):
            return it.mklist(sorted(l.items))
        if len(l.items) <= 1:
            return l
        t = it.type_of(l)
        seq, et = it.to_term(TList(t.a[0]), l), t.a[0]
    else:
        seq, et = l.seq, l.et
    x = z3.Const("sortx", sort_of(et))
    if key is not None:
        k = it.call(key, [it.from_term(et, x)], {})
        kt = it.to_term(it.type_of(k), k)
    else:
        kt = x
    kt = z3.simplify(it.ctx.rw(kt))
    params = folds.free_consts(kt, skip=(x,))
    if key is None and p_is(seq, "setseq"):
        return it.cell(ListV(et=et, seq=uf("sortset", [seq.arg(0)], seq.sort())))
    ck = folds.canon(kt, [x] + params)
    n = _sortkeys.setdefault((ck, str(x.sort())), len(_sortkeys))
    note(it, "sorted is stable (commutes with filtering)")

    def fn(s):
        s = it.ctx.seq_expand(s)
        if not folds.flat(s) or (len(folds.flat(s)) == 1 and folds.is_unit(folds.flat(s)[0])):
            return s
        nm = "sortby$%d" % n if key is not None else "sorted$%d" % n
        if z3.is_app(s) and s.decl().name() == nm and s.num_args() == 1 + len(params):
            return s
        return uf(nm, [s] + params, s.sort())
    return it.cell(ListV(et=et, seq=through_filters(it, fn, seq)))


# ================================================================ sets
def set_add(it, s, v):
    s.touched(it.ctx)
    if s.et is None:
        s.et = it.type_of(v)
        if s.et is None:
            raise Unsupported("set of unknown type")
    if s.arr is None:
        s.arr = z3.K(sort_of(s.et), False)
    s.arr = z3.SetUnion(s.arr, z3.Store(z3.K(sort_of(s.et), False), it.to_term(s.et, v), True)) \
        if not is_litset(s.arr) else z3.Store(s.arr, it.to_term(s.et, v), True)
    s.written(it.ctx)


def is_litset(a):
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        a = a.arg(0)
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY


def set_literal(it, s):
    """concrete members of a set display, or None"""
    out = []
    a = s.arr
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        if not z3.is_true(z3.simplify(a.arg(2))):
            return None
        out.append(it.from_term(s.et, a.arg(1)))
        a = a.arg(0)
    if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_false(a.arg(0))):
        return None
    return list(reversed(out))


def set_seq(it, s):
    note(it, "iteration over a set visits its members in some fixed order")
    return uf("setseq", [s.arr], z3.SeqSort(sort_of(s.et)))


def set_of(it, v):
    r = it.cell(SetV())
    set_update(it, r, v)
    return r


def set_update(it, s, other):
    other = it.force(other)
    if isinstance(other, GenV):
        other = it.comp_list(other.node, other.env)
    if isinstance(other, SetV):
        if other.arr is None:
            return
        s.touched(it.ctx)
        if s.arr is None:
            s.et, s.arr = other.et, other.arr
        else:
            s.arr = z3.SetUnion(s.arr, it.to_term(TSet(s.et), other))
        s.written(it.ctx)
        return
    x = it.iterate(other)
    if x[0] == "conc":
        for v in x[1]:
            set_add(it, s, v)
        return
    l = to_list(it, other)
    if s.et is None:
        s.et = l.et
    s.touched(it.ctx)
    if p_is(l.seq, "setseq", "sortset", "uniqset"):
        t = l.seq.arg(0)
    else:
        e = folds.elem_const(l.seq.sort(), l.seq)
        t = folds.mk_hom(it.ctx, "set", strip_order(it.ctx.rw(l.seq)), e, z3.Store(z3.K(sort_of(s.et), False), it.to_term(s.et, it.from_term(l.et, e)), True))
    s.arr = t if s.arr is None else z3.SetUnion(s.arr, t)
    s.written(it.ctx)


def strip_order(seq):
    while p_is(seq, "uniq", "sortby", "sorted"):
        seq = seq.arg(0)
    return seq


def set_op(it, op, a, b):
    if a.arr is None and b.arr is None:
        return it.cell(SetV(a.et or b.et))
    t = TSet(a.et or b.et)
    x, y = it.to_term(t, a), it.to_term(t, b)
    r = z3.SetUnion(x, y) if isinstance(op, ast.BitOr) else z3.SetIntersect(x, y) if isinstance(op, ast.BitAnd) else z3.SetDifference(x, y)
    return it.cell(SetV(t.a[0], r))


# ================================================================ dicts
def dict_get(it, d, k, default):
    if d.pairs is not None:
        out = default
        for kk, v in d.pairs:
            e = it.eq(kk, k)
            if e is True:
                return v
            if e is False:
                continue
            if it.ctx.branch(e):
                return v
        return default
    k = it.force(k)
    if k is None and d.kt.k not in ("none", "opt"):
        return default
    kt = it.to_term(d.kt, k)
    if it.ctx.branch(it.set_member(d.dom, kt)):
        return it.dict_view(d, k, d.vt, it.ctx.rw(z3.Select(d.val, kt)))
    return default


MISSING = object()


def getitem(it, o, i):
    if hasattr(o, "getitem_"):
        return o.getitem_(it, i)
    if isinstance(o, OpaqueV) and ("opaque_getitem", o.ty.a[0]) in it.prog.hooks:
        return it.prog.hooks[("opaque_getitem", o.ty.a[0])](it, o, i)
    if isinstance(o, DictV):
        r = dict_get(it, o, i, MISSING)
        if r is MISSING:
            raise PyRaise("KeyError", str(i))
        return r
    if isinstance(o, ModV) or isinstance(o, BuiltinV) or isinstance(o, ClassV):
        return o                      # typing subscript
    if isinstance(o, (Obj, RefV)):
        d = userlist_data(it, o)
        if d is not None:
            return getitem(it, d, i)
        c = it.classof(o)
        f, _ = c.lookup("__getitem__")
        if f is not None:
            return it.call(f, [o, i], {})
        raise Unsupported("subscript of an object")
    if isinstance(i, SliceV):
        return slice_(it, o, i)
    i = it.force(i)
    if isinstance(o, tuple) or isinstance(o, ListV) and o.items is not None:
        items = o if isinstance(o, tuple) else o.items
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if not -len(items) <= i < len(items):
                raise PyRaise("IndexError")
            return items[i]
        raise Unsupported("symbolic index into a concrete list")
    if isinstance(o, ListV):
        n = z3.Length(o.seq)
        if isinstance(i, int):
            pieces = folds.flat(it.ctx.rw(it.ctx.seq_expand(o.seq)))
            us = 0
            for p in (pieces if i >= 0 else reversed(pieces)):
                if folds.is_unit(p):
                    us += 1
                else:
                    break
            known = us >= (i + 1 if i >= 0 else -i)
            if not known:
                ok = n > i if i >= 0 else n >= -i
                if i in (0, -1):
                    ok = True if p_is(o.seq, "py_split") else it.nonempty(o.seq)
                if ok is False or ok is not True and not it.ctx.branch(ok):
                    raise PyRaise("IndexError")
                it.ctx.assume(n > i if i >= 0 else n >= -i)
            return it.seq_at(o, i)
        if not it.ctx.branch(z3.And(i < n, i >= -n)):
            raise PyRaise("IndexError")
        if not it.ctx.branch(i >= 0):
            i = n + i
        return it.seq_at(o, i)
    if isinstance(o, (str, Str)):
        if isinstance(o, str) and isinstance(i, int):
            if not -len(o) <= i < len(o):
                raise PyRaise("IndexError")
            return o[i]
        ps = list(sparts(o))
        if isinstance(i, int):
            if i >= 0:
                n = i
                for p in ps:
                    if isinstance(p, str):
                        if n < len(p):
                            return p[n]
                        n -= len(p)
                    else:
                        break
            elif i < 0:
                n = -i
                for p in reversed(ps):
                    if isinstance(p, str):
                        if n <= len(p):
                            return p[-n]
                        n -= len(p)
                    else:
                        break
        L = str_len(it, o)
        ix = i if not isinstance(i, int) or i >= 0 else L + i
        if not it.ctx.branch(z3.And(ix < L, ix >= 0)):
            raise PyRaise("IndexError")
        return Str([Atom(z3.SubString(S(o), ix, 1), None, 1)])
    raise Unsupported("subscript of %r" % (o,))


def slice_(it, o, s):
    if s.step is not None:
        raise Unsupported("slice step")
    lo, hi = s.lo, s.hi
    if isinstance(o, tuple) or isinstance(o, ListV) and o.items is not None or isinstance(o, str):
        if all(x is None or isinstance(x, int) for x in (lo, hi)):
            if isinstance(o, ListV):
                return it.mklist(o.items[lo:hi])
            return o[lo:hi]
    if isinstance(o, ListV):
        if lo is None and hi is None:
            return list_copy(it, o)
        if o.items is not None and all(isinstance(x, (int, z3.ArithRef, type(None))) for x in (lo, hi)):
            t = it.type_of(o)
            o = it.cell(ListV(et=t.a[0], seq=it.to_term(t, o)))
        pieces = folds.flat(it.ctx.rw(it.ctx.seq_expand(o.seq)))
        if isinstance(lo, int) and lo >= 0 and hi is None and len(pieces) >= lo and all(folds.is_unit(p) for p in pieces[:lo]):
            return it.cell(ListV(et=o.et, seq=concat(z3.Empty(o.seq.sort()), *pieces[lo:])))
        L = z3.Length(o.seq)
        a = 0 if lo is None else lo
        b = L if hi is None else hi
        note(it, "slice bounds are taken modulo clamping")
        cl = lambda t: clamp(t, L)
        a, b = cl(a), cl(b)
        note(it, "")
        return it.cell(ListV(et=o.et, seq=z3.SubSeq(o.seq, a, z3.If(b - a < 0, z3.IntVal(0), b - a))))
    if isinstance(o, (str, Str)):
        return str_slice(it, o, lo, hi)
    raise Unsupported("slice of %r" % (o,))


def clamp(t, L):
    if isinstance(t, int) and t == 0:
        return z3.IntVal(0)
    if t is L:
        return L
    t = z3.IntVal(t) if isinstance(t, int) else t
    return z3.If(t < 0, z3.If(t + L < 0, z3.IntVal(0), t + L), z3.If(t > L, L, t))


def setitem(it, o, i, v, view=False):
    if hasattr(o, "setitem_"):
        return o.setitem_(it, i, v)
    if isinstance(o, DictV):
        o.touched(it.ctx)
        if o.pairs is not None:
            i = it.force(i)
            unknown = False
            for p in o.pairs:
                e = it.eq(p[0], i)
                if e is True:
                    p[1] = v
                    o.written(it.ctx)
                    return
                if e is not False:
                    if it.ctx.branch(e):
                        p[1] = v
                        o.written(it.ctx)
                        return
            o.pairs.append([i, v])
            o.written(it.ctx)
            return
        k = it.to_term(o.kt, i)
        vt = it.type_of(v)
        if vt is None or (vt is not o.vt):
            j = it.join(o.vt, vt) if vt is not None else o.vt
            if j is not o.vt:
                it.symbolic(o, TDict(o.kt, j))
        m = it.ctx.rw(it.set_member(o.dom, k))
        ms = z3.simplify(m) if not isinstance(m, bool) else z3.BoolVal(m)
        t = it.to_term(o.vt, v)
        if z3.is_true(ms) or it.ctx.valid(ms, 500):
            pass
        elif it.ctx.valid(z3.Not(ms), 500):
            o.keys = concat(o.keys, z3.Unit(k))
            o.dom = z3.Store(o.dom, k, True)
        else:
            o.keys = z3.If(ms, o.keys, concat(o.keys, z3.Unit(k)))
            o.dom = z3.Store(o.dom, k, True)
        o.val = z3.Store(o.val, k, t)
        o.written(it.ctx)
        return
    if isinstance(o, ListV):
        o.touched(it.ctx)
        i = it.force(i)
        if o.items is not None:
            if not isinstance(i, int):
                raise Unsupported("symbolic index store")
            if not -len(o.items) <= i < len(o.items):
                raise PyRaise("IndexError")
            o.items[i] = v
            o.written(it.ctx)
            return
        L = z3.Length(o.seq)
        if isinstance(i, SliceV):
            raise Unsupported("slice store")
        ok = z3.And(i < L, i >= -L)
        if not view and not it.ctx.branch(ok):
            raise PyRaise("IndexError")
        ix = z3.If(i < 0, L + i, i) if not isinstance(i, int) else (i if i >= 0 else L + i)
        o.seq = concat(z3.SubSeq(o.seq, 0, ix), z3.Unit(it.to_term(o.et, v)), z3.SubSeq(o.seq, ix + 1, L - ix - 1))
        o.written(it.ctx)
        return
    if isinstance(o, (Obj, RefV)):
        c = it.classof(o)
        f, _ = c.lookup("__setitem__")
        if f is not None:
            return it.call(f, [o, i, v], {})
    raise Unsupported("item assignment on %r" % (o,))


def delitem(it, o, i):
    if hasattr(o, "delitem_"):
        return o.delitem_(it, i)
    if isinstance(o, DictV):
        o.touched(it.ctx)
        if o.pairs is not None:
            for n, p in enumerate(o.pairs):
                e = it.eq(p[0], i)
                if e is True or (e is not False and it.ctx.branch(e)):
                    del o.pairs[n]
                    o.written(it.ctx)
                    return
            raise PyRaise("KeyError")
        k = it.to_term(o.kt, i)
        if not it.ctx.branch(it.set_member(o.dom, k)):
            raise PyRaise("KeyError")
        e = folds.elem_const(o.keys.sort(), o.keys)
        o.keys = folds.mk_hom(it.ctx, "list", o.keys, e, z3.If(e == k, z3.Empty(o.keys.sort()), z3.Unit(e)))
        o.dom = z3.Store(o.dom, k, False)
        o.written(it.ctx)
        return
    raise Unsupported("del item of %r" % (o,))


def dict_copy(it, d):
    return it.cell(DictV(pairs=[list(p) for p in d.pairs] if d.pairs is not None else None, kt=d.kt, vt=d.vt, keys=d.keys, dom=d.dom, val=d.val))


def dict_update(it, d, other):
    other = it.force(other)
    if isinstance(other, DictV):
        if other.pairs is not None:
            for k, v in other.pairs:
                setitem(it, d, k, v)
            return
        if d.pairs is not None and not d.pairs:
            d.touched(it.ctx)
            c = dict_copy(it, other)
            d.pairs, d.kt, d.vt, d.keys, d.dom, d.val = None, c.kt, c.vt, c.keys, c.dom, c.val
            d.written(it.ctx)
            return
        x = it.iterate(DictItems(other, "items"))
        cur = {}

        def bind(e):
            cur["x"] = x[3](e)

        def body():
            k, v = cur["x"]
            setitem(it, d, k, v)
        env = it.new_env(None, None)
        if d.pairs is not None:
            t = it.join(it.type_of(d), it.type_of(other))
            it.symbolic(d, t)
        it.sym_loop(x[2], x[1], bind, body, env, [], [])
        return
    raise Unsupported("dict update from %r" % (other,))


# ================================================================ strings
def str_len(it, v):
    if isinstance(v, str):
        return len(v)
    n = 0
    ts = []
    for p in sparts(v):
        if isinstance(p, str):
            n += len(p)
        else:
            ts.append(z3.Length(p.term))
    return z3.Sum(*ts) + n if len(ts) > 1 or n else ts[0]


def str_slice(it, o, lo, hi):
    if lo is None and hi is None:
        return o
    ps = list(sparts(o))
    if hi is None and isinstance(lo, int) and lo >= 0:
        n = lo
        while n and ps and isinstance(ps[0], str):
            k = min(n, len(ps[0]))
            ps[0] = ps[0][k:]
            n -= k
            if not ps[0]:
                ps.pop(0)
        if n == 0:
            return mkstr(ps)
        if not ps:
            return ""
    if lo is None and isinstance(hi, int) and hi < 0:
        n = -hi
        while n and ps and isinstance(ps[-1], str):
            k = min(n, len(ps[-1]))
            ps[-1] = ps[-1][:-k]
            n -= k
            if not ps[-1]:
                ps.pop()
        if n == 0:
            return mkstr(ps)
        if not ps:
            return ""
    h = it.prog.hooks.get("slice_from")
    if h and hi is None and isinstance(lo, z3.ArithRef):
        r = h(it, o, lo)
        if r is not None:
            return r
    # positions known as sums of leading parts
    L = str_len(it, o)
    a = _pos(it, o, 0 if lo is None else lo, L)
    b = _pos(it, o, L if hi is None else hi, L)
    ca, cb = cut_index(it, o, a), cut_index(it, o, b)
    if ca is not None and cb is not None:
        return between(o, ca, cb)
    t = S(o)
    ln = z3.simplify(b - a)
    return Str([Atom(z3.SubString(t, a, z3.If(ln < 0, z3.IntVal(0), ln)))])


def _pos(it, o, p, L):
    if isinstance(p, int):
        if p >= 0:
            p = z3.IntVal(p)
            return p if z3.is_true(z3.simplify(p <= L)) else (p if it.ctx.branch(p <= L) else L)
        r = L + p
        return r if it.ctx.branch(r >= 0) else z3.IntVal(0)
    r = z3.simplify(p)
    if it.ctx.branch(r < 0):
        r2 = L + r
        return r2 if it.ctx.branch(r2 >= 0) else z3.IntVal(0)
    if not z3.is_true(z3.simplify(r <= L)) and not it.ctx.branch(r <= L):
        return L
    return r


def cut_index(it, o, p):
    """(part index, offset) of position p, when p is syntactically a sum of leading parts (plus some characters)"""
    ps = sparts(o)
    acc = z3.IntVal(0)
    p = z3.simplify(p) if not isinstance(p, int) else z3.IntVal(p)
    for i, q in enumerate(ps):
        d = z3.simplify(p - acc)
        if z3.is_int_value(d):
            k = d.as_long()
            if k == 0:
                return (i, 0)
            if isinstance(q, str) and 0 <= k <= len(q):
                return (i, k)
        acc = acc + (len(q) if isinstance(q, str) else z3.Length(q.term))
    d = z3.simplify(p - acc)
    if z3.is_int_value(d) and d.as_long() == 0:
        return (len(ps), 0)
    return None


def between(o, a, b):
    ps = sparts(o)
    out = []
    if (b[0], b[1]) < (a[0], a[1]):
        return ""
    for i, q in enumerate(ps):
        if i < a[0] or i > b[0]:
            continue
        if isinstance(q, str):
            s = a[1] if i == a[0] else 0
            e = b[1] if i == b[0] else len(q)
            out.append(q[s:e])
        else:
            if i < b[0]:
                out.append(q)
    return mkstr(out)


def str_contains(it, c, x):
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if x == "":
        return True
    if isinstance(x, str):
        r = tmpl.contains(c, x)
        if r is not None:
            return r
        if len(x) == 1:
            # per part, so that every question about a character has one form
            r = False
            for p in sparts(c):
                if isinstance(p, str):
                    r = it.or_(r, x in p)
                elif x in p.cls:
                    r = it.or_(r, z3.Contains(p.term, S(x)))
            return r
        if it.prog.hooks.get("contains_open"):
            # either answer is considered
            return uf("py_contains", [S(c), S(x)], z3.BoolSort())
    return z3.Contains(S(c), S(x))


def to_str(it, v):
    v = it.force(v)
    if isinstance(v, (str, Str)):
        return v
    if v is None:
        return "None"
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, z3.BoolRef):
        return Str([Atom(z3.If(v, z3.StringVal("True"), z3.StringVal("False")), None, 4)])
    if isinstance(v, int):
        return str(v)
    if isinstance(v, z3.ArithRef):
        return Str([Atom(uf("py_int_str", [v], z3.StringSort()), CharSet.of("-0123456789"), 1)])
    if isinstance(v, OpaqueV):
        return Str([Atom(uf("py_str_" + v.ty.a[0], [v.term], z3.StringSort()))])
    if isinstance(v, (Obj, RefV)):
        c = it.classof(v)
        for n in ("__str__", "__repr__"):
            f, _ = c.lookup(n)
            if f is not None:
                return it.call(f, [v], {})
    if isinstance(v, Cell) or isinstance(v, tuple):
        return to_repr(it, v)
    raise Unsupported("str of %r" % (v,))


def to_repr(it, v):
    v = it.force(v)
    if v is None or isinstance(v, (bool, int)):
        return str(v)
    if isinstance(v, str):
        return repr(v)
    ty = it.type_of(v)
    if ty is None:
        return "[]"
    return Str([Atom(uf("py_repr_" + tname(ty), [it.to_term(ty, v)], z3.StringSort()))])


def percent_format(it, a, b):
    args = list(b) if isinstance(b, tuple) else [b]
    out = []
    i = 0
    while i < len(a):
        if a[i] == "%":
            if a[i + 1] == "%":
                out.append("%")
            elif a[i + 1] in "sd":
                out.append(to_str(it, args.pop(0)))
            else:
                raise Unsupported("format")
            i += 2
        else:
            out.append(a[i])
            i += 1
    return mkstr(out)


def charset_arg(cs):
    if cs is None:
        return WS
    if isinstance(cs, str):
        return CharSet.of(cs)
    raise Unsupported("strip with a symbolic set")


def do_strip(it, v, cs, left, right):
    name = "" if cs is None else cs
    c = charset_arg(cs)
    if isinstance(v, str):
        return (v.lstrip(cs) if left and not right else v.rstrip(cs) if right and not left else v.strip(cs))
    if left and right:
        w = tmpl.strip_word(v, c)
        if w is not None:
            return w
    if left:
        v2, ok = tmpl.lstrip(v, c)
        if ok:
            v = v2
        else:
            v = strip_uf(it, "lstrip", v2, name, c)
    if right:
        v2, ok = tmpl.rstrip(v, c)
        v = v2 if ok else strip_uf(it, "rstrip", v2, name, c)
    return v


def strip_uf(it, nm, v, name, c):
    cs = ANYCHAR
    u = CharSet(())
    for p in sparts(v):
        u = u | (CharSet.of(p) if isinstance(p, str) else p.cls)
    nm = "py_%s_%s" % (nm, "".join("%x." % ord(x) for x in name) or "ws")
    t = uf(nm, [S(v)], z3.StringSort())
    # stripping twice is the same
    if len(sparts(v)) == 1 and isinstance(sparts(v)[0], Atom):
        a = sparts(v)[0].term
        if z3.is_app(a) and a.decl().name() == nm:
            return v
    it.ctx.run.strip_facts = True
    if it.prog.hooks.get("lengths"):
        it.ctx.assume(z3.Length(t) <= z3.Length(S(v)))
    return Str([Atom(t, u, 0)])


def str_count(it, v, x):
    if isinstance(v, str) and isinstance(x, str):
        return v.count(x)
    if isinstance(x, str) and len(x) == 1:
        n = 0
        ts = []
        for p in sparts(v):
            if isinstance(p, str):
                n += p.count(x)
            elif x in p.cls:
                e = z3.Const("cntc", z3.CharSort())
                t = folds.mk_hom(it.ctx, "sum", p.term, e, z3.If(e == z3.CharVal(ord(x)), z3.IntVal(1), z3.IntVal(0)))
                ts.append(t)
                if ("cntnn", t.get_id()) not in it.ctx.memo:
                    it.ctx.memo[("cntnn", t.get_id())] = t
                    it.ctx.assume(t >= 0)
        if not ts:
            return n
        return z3.Sum(*ts) + n if len(ts) > 1 or n else ts[0]
    occ = tmpl.find_all(v, x) if isinstance(x, str) else None
    if occ is not None:
        return len(occ)
    return str_uf(it, "count", v, x, out=INT)


def str_find(it, v, x, start=0):
    if isinstance(v, str) and isinstance(x, str) and isinstance(start, int):
        return v.find(x, start)
    h = it.prog.hooks.get("find")
    if h:
        r = h(it, v, x, start)
        if r is not None:
            return r
    if start == 0 and isinstance(x, str):
        occ = tmpl.find_all(v, x)
        if occ is not None:
            if not occ:
                return -1
            pi, end = occ[0]
            n = end - len(x)
            ts = []
            for q in sparts(v)[:pi]:
                if isinstance(q, str):
                    n += len(q)
                else:
                    ts.append(z3.Length(q.term))
            return (z3.Sum(*ts) if len(ts) > 1 else ts[0]) + n if ts else n
    return z3.IndexOf(S(v), S(x), start if isinstance(start, int) else start)


def str_replace(it, v, a, b, n=-1):
    if isinstance(v, str) and isinstance(a, str) and isinstance(b, str) and isinstance(n, int):
        return v.replace(a, b, n)
    if isinstance(a, str) and a and isinstance(n, int):
        occ = tmpl.find_all(v, a)
        if occ is not None:
            if n >= 0:
                occ = occ[:n]
            ps = tmpl.split_at(v, occ, len(a))
            if ps is not None:
                out = [ps[0]]
                for p in ps[1:]:
                    out += [b, p]
                return mkstr(out)
    hook = it.prog.str_replace_hook
    if hook is not None:
        r = hook(it, v, a, b, n)
        if r is not None:
            return r
    return str_uf(it, "replace", v, a, b, n)


def str_split(it, v, sep=None, maxsplit=-1):
    if isinstance(v, str) and (sep is None or isinstance(sep, str)):
        return it.mklist(v.split(sep, maxsplit))
    if isinstance(sep, str):
        pieces, rest = tmpl.split(v, sep, maxsplit)
        if pieces is not None and rest is None:
            return it.mklist(pieces)
        if pieces is not None:
            for p in pieces:
                it.note_words(p)
            left = maxsplit if maxsplit < 0 else maxsplit - len(pieces)
            tail = split_tail(it, rest, sep, left)
            return it.cell(ListV(et=STR, seq=concat(*([z3.Unit(S(p)) for p in pieces] + [tail]))))
        return it.cell(ListV(et=STR, seq=split_tail(it, v, sep, maxsplit)))
    if sep is None:
        t = uf("py_split_ws", [S(v)], SEQ_STR)
    else:
        t = uf("py_split_any", [S(v), S(sep), z3.IntVal(maxsplit)], SEQ_STR)
    return it.cell(ListV(et=STR, seq=t))


def split_tail(it, v, sep, maxsplit):
    t = uf("py_split", [S(v), S(sep), z3.IntVal(maxsplit)], SEQ_STR)
    k = ("splitne", t.get_id())
    if k not in it.ctx.memo:
        it.ctx.memo[k] = t
        it.note_words(v)
        note(it, "str.split(sep) gives at least one piece; joining the pieces with sep gives the text back")
        it.ctx.assume(z3.Length(t) > 0)
    return t


def str_join(it, sep, v):
    l = to_list(it, v)
    if l.items is not None:
        out = []
        for i, x in enumerate(l.items):
            if i:
                out.append(sep)
            out.append(fs(it, x))
        return mkstr(out)
    seq = it.ctx.rw(l.seq)
    if sep == "":
        e = folds.elem_const(seq.sort(), seq)
        t = folds.mk_hom(it.ctx, "cat", seq, e, e)
        return str_from_term(t)
    # pieces known at the front
    pieces = folds.flat(it.ctx.seq_expand(seq))
    if len(pieces) == 1 and p_is(pieces[0], "py_split") and z3.is_int_value(pieces[0].arg(2)) and pieces[0].arg(2).as_long() < 0 and \
            isinstance(sep, str) and pieces[0].arg(1).eq(S(sep)):
        # the words of the text that was split keep their classes
        return it.known_words(str_from_term(pieces[0].arg(0)))
    if folds.is_unit(pieces[0]) and len(pieces) > 1:
        rest = concat(*pieces[1:])
        r = str_join(it, sep, it.cell(ListV(et=STR, seq=rest)))
        ne = it.nonempty(rest)
        first = it.known_words(str_from_term(pieces[0].arg(0)))
        if ne is True or (ne is not False and it.ctx.branch(ne)):
            return mkstr([first, sep, r])
        return first
    return str_from_term(uf("py_join", [S(sep), seq], z3.StringSort()))


def str_format(it, v, args, kw):
    if not isinstance(v, str):
        raise Unsupported("format on a symbolic string")
    out = []
    i = 0
    auto = 0
    while i < len(v):
        c = v[i]
        if c == "{":
            if v[i + 1] == "{":
                out.append("{")
                i += 2
                continue
            j = v.index("}", i)
            f = v[i + 1:j]
            if f == "":
                x = args[auto]
                auto += 1
            elif f.isdigit():
                x = args[int(f)]
            elif f.isidentifier():
                if f not in kw:
                    raise PyRaise("KeyError", f)
                x = kw[f]
            else:
                raise Unsupported("format field")
            out.append(to_str(it, x))
            i = j + 1
        elif c == "}":
            out.append("}")
            i += 2
        else:
            out.append(c)
            i += 1
    return mkstr(out)


def affix(it, v, x, fn, z):
    x = it.force(x)
    if isinstance(x, tuple):
        r = False
        for y in x:
            r = it.or_(r, affix(it, v, y, fn, z))
        return r
    x = fs(it, x)
    if isinstance(v, str) and isinstance(x, str):
        return v.startswith(x) if fn is tmpl.startswith else v.endswith(x)
    if isinstance(x, str):
        r = fn(v, x)
        if r is not None:
            return r
    return z(S(x), S(v))


STRM = {}


def strm(f):
    STRM[f.__name__[2:]] = f
    return f


@strm
def s_startswith(it, v, x):
    return affix(it, v, x, tmpl.startswith, z3.PrefixOf)


@strm
def s_endswith(it, v, x):
    h = it.prog.hooks.get("endswith")
    r = h(it, v, it.force(x)) if h else None
    return affix(it, v, x, tmpl.endswith, z3.SuffixOf) if r is None else r


@strm
def s_split(it, v, sep=None, maxsplit=-1):
    return str_split(it, v, it.force(sep), maxsplit)


@strm
def s_strip(it, v, cs=None):
    return do_strip(it, v, it.force(cs), True, True)


@strm
def s_lstrip(it, v, cs=None):
    return do_strip(it, v, it.force(cs), True, False)


@strm
def s_rstrip(it, v, cs=None):
    return do_strip(it, v, it.force(cs), False, True)


@strm
def s_replace(it, v, a, b, n=-1):
    return str_replace(it, v, fs(it, a), fs(it, b), n)


@strm
def s_count(it, v, x):
    return str_count(it, v, fs(it, x))


@strm
def s_find(it, v, x, start=0):
    return str_find(it, v, fs(it, x), start)


@strm
def s_index(it, v, x):
    r = str_find(it, v, fs(it, x))
    if not it.ctx.branch(r >= 0):
        raise PyRaise("ValueError")
    return r


@strm
def s_join(it, v, x):
    return str_join(it, v, it.force(x))


@strm
def s_format(it, v, *a, **k):
    return str_format(it, v, a, k)


@strm
def s_partition(it, v, sep):
    if not it.ctx.branch(str_contains(it, v, sep)):
        return (v, "", "")
    pieces, rest = tmpl.split(v, sep, 1) if isinstance(sep, str) else (None, None)
    if pieces is not None and rest is None:
        return (pieces[0], sep, pieces[1])
    if pieces:
        # first piece decided
        i = mkstr([pieces[0]])
        r = tmpl.split(v, sep, 1)
    raise Unsupported("partition")


@strm
def s_lower(it, v):
    return v.lower() if isinstance(v, str) else str_uf(it, "lower", v)


@strm
def s_upper(it, v):
    return v.upper() if isinstance(v, str) else str_uf(it, "upper", v)


@strm
def s_isdigit(it, v):
    return v.isdigit() if isinstance(v, str) else str_uf(it, "isdigit", v, out=BOOL)


@strm
def s_isspace(it, v):
    return v.isspace() if isinstance(v, str) else str_uf(it, "isspace", v, out=BOOL)


@strm
def s_isidentifier(it, v):
    return v.isidentifier() if isinstance(v, str) else str_uf(it, "isident", v, out=BOOL)


@strm
def s_removeprefix(it, v, x):
    r = affix(it, v, x, tmpl.startswith, z3.PrefixOf)
    if it.ctx.branch(r):
        return str_slice(it, v, len(x), None)
    return v


@strm
def s_removesuffix(it, v, x):
    r = affix(it, v, x, tmpl.endswith, z3.SuffixOf)
    if x and it.ctx.branch(r):
        return str_slice(it, v, None, -len(x))
    return v


@strm
def s_encode(it, v, *a):
    if any(isinstance(x, str) and x.lower() not in ("utf-8", "utf8", "strict") or not isinstance(x, str) for x in a):
        raise Unsupported("encode with other arguments")
    return OpaqueV(TOpaque("bytes"), uf("py_encode", [S(v)], sort_of(TOpaque("bytes"))))


@strm
def s_splitlines(it, v, keepends=False):
    if isinstance(v, str):
        return it.mklist(v.splitlines(keepends))
    return it.cell(ListV(et=STR, seq=uf("py_splitlines", [S(v), z3.BoolVal(bool(keepends))], SEQ_STR)))


# ================================================================ methods
def method(it, v, name):
    if isinstance(v, (str, Str)):
        f = STRM.get(name)
        if f is None:
            if hasattr("", name):
                raise Unsupported("str.%s" % name)
            return None
        return BuiltinV("str." + name, lambda *a, **k: f(it, v, *a, **k))
    if isinstance(v, ListV):
        return list_method(it, v, name)
    if isinstance(v, tuple):
        if name == "index":
            return BuiltinV("tuple.index", lambda x: list_index(it, it.mklist(v), x))
        return None
    if isinstance(v, SetV):
        return set_method(it, v, name)
    if isinstance(v, DictV):
        return dict_method(it, v, name)
    if isinstance(v, MatchV):
        return match_method(it, v, name)
    if isinstance(v, PatternV):
        if name == "pattern":
            return v.pattern
        if name in ("match", "search", "sub", "split", "finditer", "fullmatch"):
            return BuiltinV("pattern." + name, lambda *a, **k: it.prog.regex_call(it, name, (v,) + a, k))
        return None
    if isinstance(v, (BoundV, FuncV)):
        if name == "cache_clear":
            f = v.func if isinstance(v, BoundV) else v
            return BuiltinV("cache_clear", lambda: it.prog.on_cache_clear(it, f))
        if name == "__name__":
            return (v.func if isinstance(v, BoundV) else v).name
        return None
    if isinstance(v, OpaqueV):
        h = it.prog.opaque_method(it, v, name)
        return h
    if isinstance(v, GenV) and name == "__next__":
        raise Unsupported("generator protocol")
    if isinstance(v, BuiltinV):
        key = v.name + "." + name
        if key in it.extra:
            return it.extra[key]
        return None
    if isinstance(v, ExcV):
        raise Unsupported("attribute of an exception")
    if hasattr(v, "getattr_"):
        return v.getattr_(it, name)
    return None


def list_index(it, l, x):
    if l.items is None:
        raise Unsupported("index in a symbolic list")
    for i, y in enumerate(l.items):
        e = it.eq(y, x)
        if e is True or (e is not False and it.ctx.branch(e)):
            return i
    raise PyRaise("ValueError")


def list_remove(it, l, x):
    if l.items is not None:
        l.touched(it.ctx)
        i = list_index(it, l, x)
        del l.items[i]
        l.written(it.ctx)
        return
    if it.prog.hooks.get("remove_present"):
        note(it, "precondition: every item to remove is in the list when its turn comes")
    elif not it.ctx.branch(it.contains(l, x)):
        raise PyRaise("ValueError", "list.remove(x): x not in list")
    l.touched(it.ctx)
    note(it, "list.remove takes out the first element equal to its argument (built-in, uninterpreted)")
    l.seq = uf("rm1", [l.seq, it.to_term(l.et, x)], l.seq.sort())
    l.written(it.ctx)


def list_insert(it, l, i, x):
    l.touched(it.ctx)
    if l.items is not None and isinstance(i, int):
        l.items.insert(i, x)
    else:
        if l.items is not None:
            t = it.type_of(l) if l.items else TList(it.type_of(x))
            it.symbolic(l, t)
        note(it, "list.insert puts the element at the clamped position (built-in, uninterpreted)")
        l.seq = uf("ins1", [l.seq, it.to_term(INT, i), it.to_term(l.et, x)], l.seq.sort())
    l.written(it.ctx)


def list_method(it, l, name):
    B = lambda f: BuiltinV("list." + name, f)
    if l.tup:
        if name == "index":
            return B(lambda x: list_index(it, l, x))
        return None
    if name == "append":
        return B(lambda x: list_append(it, l, x))
    if name == "extend":
        return B(lambda x: list_extend(it, l, x))
    if name == "insert":
        return B(lambda i, x: list_insert(it, l, it.force(i), x))
    if name == "remove":
        return B(lambda x: list_remove(it, l, x))
    if name == "index":
        return B(lambda x: list_index(it, l, x))
    if name == "copy":
        return B(lambda: list_copy(it, l))
    if name == "clear":
        def clr():
            l.touched(it.ctx)
            l.items, l.et, l.seq = [], None, None
            l.written(it.ctx)
        return B(clr)
    if name == "pop":
        def pop(i=-1):
            l.touched(it.ctx)
            if l.items is not None and isinstance(i, int):
                if not l.items:
                    raise PyRaise("IndexError")
                r = l.items.pop(i)
                l.written(it.ctx)
                return r
            pieces = folds.flat(it.ctx.rw(it.ctx.seq_expand(l.seq)))
            if i == 0 and pieces and folds.is_unit(pieces[0]):
                r = it.from_term(l.et, pieces[0].arg(0))
                l.seq = concat(z3.Empty(l.seq.sort()), *pieces[1:])
                l.written(it.ctx)
                return r
            if i == -1 and pieces and folds.is_unit(pieces[-1]):
                r = it.from_term(l.et, pieces[-1].arg(0))
                l.seq = concat(z3.Empty(l.seq.sort()), *pieces[:-1])
                l.written(it.ctx)
                return r
            raise Unsupported("pop from a symbolic list")
        return B(pop)
    if name == "count":
        raise Unsupported("list.count")
    if name == "sort":
        def srt(key=None, reverse=False):
            r = sort_seq(it, l, key, reverse)
            l.touched(it.ctx)
            l.items, l.et, l.seq = r.items, r.et, r.seq
            l.written(it.ctx)
        return B(srt)
    if name == "reverse":
        raise Unsupported("list.reverse")
    return None


def set_method(it, s, name):
    B = lambda f: BuiltinV("set." + name, f)
    if name == "add":
        return B(lambda x: set_add(it, s, it.force(x) if s.et is not None and s.et.k != "opt" else x))
    if name == "update":
        return B(lambda *xs: [set_update(it, s, x) for x in xs] and None)
    if name in ("discard", "remove"):
        def disc(x):
            if s.arr is None:
                if name == "remove":
                    raise PyRaise("KeyError")
                return
            if name == "remove" and not it.ctx.branch(it.contains(s, x)):
                raise PyRaise("KeyError")
            s.touched(it.ctx)
            s.arr = z3.Store(s.arr, it.to_term(s.et, x), False)
            s.written(it.ctx)
        return B(disc)
    if name == "copy":
        return B(lambda: it.cell(SetV(s.et, s.arr)))
    if name == "union":
        def un(*o):
            r = it.cell(SetV(s.et, s.arr))
            for x in o:
                set_update(it, r, x)
            return r
        return B(un)
    if name == "difference":
        return B(lambda o: set_op(it, ast.Sub(), s, set_of(it, o)))
    if name == "intersection":
        return B(lambda o: set_op(it, ast.BitAnd(), s, set_of(it, o)))
    if name == "clear":
        def clear():
            if s.arr is not None:
                s.touched(it.ctx)
                s.arr = z3.K(sort_of(s.et), z3.BoolVal(False))
                s.written(it.ctx)
        return B(clear)
    if name in ("issubset", "issuperset", "isdisjoint", "pop"):
        raise Unsupported("set." + name)
    return None


def dict_method(it, d, name):
    B = lambda f: BuiltinV("dict." + name, f)
    if name == "get":
        return B(lambda k, default=None: dict_get(it, d, k, default))
    if name in ("keys", "values", "items"):
        return B(lambda: DictItems(d, name))
    if name == "update":
        def upd(o=None, **kw):
            if o is not None:
                dict_update(it, d, o)
            for k, v in kw.items():
                setitem(it, d, k, v)
        return B(upd)
    if name == "copy":
        return B(lambda: dict_copy(it, d))
    if name == "setdefault":
        def sd(k, default=None):
            r = dict_get(it, d, k, MISSING)
            if r is MISSING:
                setitem(it, d, k, default)
                if isinstance(default, Cell):
                    return it.getitem(d, k)
                return default
            return r
        return B(sd)
    if name == "pop":
        def pop(k, *default):
            r = dict_get(it, d, k, MISSING)
            if r is MISSING:
                if default:
                    return default[0]
                raise PyRaise("KeyError")
            delitem(it, d, k)
            return r
        return B(pop)
    if name in ("clear", "popitem", "fromkeys"):
        raise Unsupported("dict." + name)
    return None


def match_method(it, m, name):
    B = lambda f: BuiltinV("match." + name, f)
    if name == "group":
        def group(*n):
            if not n:
                n = (0,)
            r = [m.group(it, x) if hasattr(m, "group") else m.groups[x] for x in n]
            return r[0] if len(r) == 1 else tuple(r)
        return B(group)
    if name == "groupdict":
        return B(lambda: it.mkdict([[k, (m.group(it, k) if hasattr(m, "group") else m.groups[k])] for k in (m.names() if hasattr(m, "names") else [x for x in m.groups if isinstance(x, str)])]))
    if name == "groups":
        raise Unsupported("match.groups")
    return None


# ================================================================ UserList
def is_userlist(it, v):
    c = it.classof(v)
    return any(isinstance(b, BuiltinV) and b.name == "UserList" for k in c.mro() for b in k.bases)


def userlist_data(it, v):
    if isinstance(v, (Obj, RefV)) and is_userlist(it, v):
        return it.getattr(v, "data")
    return None


def builtin_base_attr(it, b, obj, name):
    if b.name == "UserList":
        if name == "__init__":
            def init(initlist=None):
                it.setattr(obj, "data", it.mklist([]))
                if initlist is not None:
                    it.setattr(obj, "data", to_list(it, initlist))
            return BuiltinV("UserList.__init__", init)
        r = userlist_method(it, obj, name)
        if r is not None:
            return r
    if name == "__init__":
        return BuiltinV("object.__init__", lambda *a, **k: None)
    raise Unsupported("%s.%s" % (b.name, name))


def userlist_method(it, v, name):
    if not is_userlist(it, v):
        return None
    if name == "data":
        return None
    d = it.getattr(v, "data")
    if name == "__iadd__":
        def iadd(o):
            list_extend(it, d, o)
            return v
        return BuiltinV("UserList.__iadd__", iadd)
    if isinstance(d, ListV):
        return list_method(it, d, name)
    return None


# ================================================================ functions
def b_any(it, v):
    v = it.force(v)
    if isinstance(v, GenV):
        v = it.comp_list(v.node, v.env)
    x = it.iterate(v)
    if x[0] == "conc":
        r = False
        for y in x[1]:
            r = it.or_(r, it.truth(y))
            if r is True:
                return True
        return r
    e = folds.elem_const(x[2].sort(), x[2])
    it.elem_facts(x[1], x[2], e)
    t = it.truth(x[3](e))
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    return folds.mk_hom(it.ctx, "any", x[2], e, t)


def b_all(it, v):
    v = it.force(v)
    if isinstance(v, GenV):
        v = it.comp_list(v.node, v.env)
    x = it.iterate(v)
    if x[0] == "conc":
        r = True
        for y in x[1]:
            r = it.and_(r, it.truth(y))
            if r is False:
                return False
        return r
    e = folds.elem_const(x[2].sort(), x[2])
    t = it.truth(x[3](e))
    t = z3.BoolVal(not t) if isinstance(t, bool) else z3.Not(t)
    return it.not_(folds.mk_hom(it.ctx, "any", x[2], e, t))


def b_len(it, v):
    v = it.force(v)
    if isinstance(v, (str, Str)):
        return str_len(it, v)
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, ListV):
        if v.items is not None:
            return len(v.items)
        n = 0
        ts = []
        for p in folds.flat(it.ctx.rw(it.ctx.seq_expand(v.seq))):
            if folds.is_unit(p):
                n += 1
            else:
                ts.append(z3.Length(p))
        return n if not ts else (z3.Sum(*ts) if len(ts) > 1 else ts[0]) + n
    if isinstance(v, DictV):
        return len(v.pairs) if v.pairs is not None else z3.Length(v.keys)
    if isinstance(v, SetV):
        if v.arr is None:
            return 0
        lit = set_literal(it, v)
        if lit is not None and all(isinstance(x, str) for x in lit):
            return len(set(lit))
        return z3.Length(set_seq(it, v))
    if isinstance(v, (Obj, RefV)):
        d = userlist_data(it, v)
        if d is not None:
            return b_len(it, d)
    if v is None or isinstance(v, (int, z3.ArithRef)):
        raise PyRaise("TypeError", "len")
    raise Unsupported("len of %r" % (v,))


def b_minmax(it, name, args, kw):
    if "key" in kw:
        raise Unsupported("%s with key" % name)
    if len(args) > 1:
        xs = list(args)
    else:
        v = it.force(args[0])
        if isinstance(v, GenV):
            v = it.comp_list(v.node, v.env)
        x = it.iterate(v)
        if x[0] == "sym":
            l = to_list(it, v)
            if l.et is not INT:
                raise Unsupported("%s of %r" % (name, l.et))
            seq = it.ctx.rw(l.seq)
            # max over a concatenation of known pieces and one rest
            xs, rest = [], []
            for p in folds.flat(it.ctx.seq_expand(seq)):
                if folds.is_unit(p):
                    xs.append(it.from_term(INT, p.arg(0)))
                else:
                    rest.append(p)
            for p in rest:
                ne = it.nonempty(p)
                if ne is True or (ne is not False and it.ctx.branch(ne)):
                    t = uf("py_%s_int" % name, [p], z3.IntSort())
                    note(it, "%s of a non-empty sequence is one of its members and bounds the others" % name)
                    xs.append(t)
        else:
            xs = x[1]
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise PyRaise("ValueError", name + " of an empty sequence")
    xs = [it.force(x) for x in xs]
    r = xs[0]
    for y in xs[1:]:
        if isinstance(r, int) and isinstance(y, int):
            r = max(r, y) if name == "max" else min(r, y)
        else:
            r = z3.If((y > r) if name == "max" else (y < r), y, r)
    return r


def isinstance_(it, v, c):
    if isinstance(c, tuple):
        r = False
        for x in c:
            r = it.or_(r, isinstance_(it, v, x))
        return r
    if isinstance(v, OptV):
        v = it.force(v)
    if isinstance(c, ClassV):
        if isinstance(v, Obj):
            return c in v.cls.mro()
        if isinstance(v, RefV):
            h = it.prog.hooks.get("ref_isinstance")
            r = h(it, v, c) if h else None
            if r is not None:
                return r
            yes, no = [], []
            for n in it.ref_classes(v):
                (yes if c in it.prog.get_class(it, n).mro() else no).append(n)
            if not no:
                return True
            if not yes:
                return False
            if it.ctx.branch(it.is_class_term(v, yes)):
                it.set_refine(v, yes)
                return True
            it.set_refine(v, no)
            return False
        return False
    n = c.name
    if n == "property":
        return isinstance(v, PropV) or isinstance(v, FuncV) and v.kind == "property"
    k = None
    if isinstance(v, (str, Str)):
        k = ("str",)
    elif isinstance(v, (bool, z3.BoolRef)):
        k = ("bool", "int")
    elif isinstance(v, (int, z3.ArithRef)):
        k = ("int",)
    elif isinstance(v, ListV):
        k = ("tuple",) if v.tup else ("list",)
    elif isinstance(v, tuple):
        k = ("tuple",)
    elif isinstance(v, SetV):
        k = ("set",)
    elif isinstance(v, DictV):
        k = ("dict",)
    elif v is None:
        k = ()
    elif isinstance(v, (Obj, RefV)):
        k = ("UserList",) if is_userlist(it, v) else ()
    elif isinstance(v, PatternV):
        k = ("Pattern",)
    elif isinstance(v, OpaqueV):
        r = it.prog.opaque_isinstance(it, v, n)
        if r is None:
            raise Unsupported("isinstance of %r" % (v,))
        return r
    elif hasattr(v, "isinstance_"):
        return v.isinstance_(it, n)
    else:
        k = ()
    return n in k


class IterV(Value):
    """iterator over a list"""

    def __init__(self, lst, pos=0):
        self.lst, self.pos = lst, pos


class FileV(Value):
    def __init__(self, path, text=None):
        self.path = path

    def getattr_(self, it, name):
        if name == "readlines":
            return BuiltinV("file.readlines", lambda: it.prog.file_lines(it, self.path))
        if name == "read":
            return BuiltinV("file.read", lambda: it.prog.file_text(it, self.path))
        return None


def enter(it, v):
    return v


def b_open(it, path, *a, **k):
    return it.prog.open_file(it, path)


def mod(name, **fns):
    m = ModV(name)
    m.ns.update(fns)
    return m


def install(it):
    it.extra = {}
    F = lambda n, f: BuiltinV(n, f)
    b = {}

    def d(name, f):
        b[name] = F(name, f)
    d("len", lambda v: b_len(it, v))
    d("any", lambda v: b_any(it, v))
    d("all", lambda v: b_all(it, v))
    d("max", lambda *a, **k: b_minmax(it, "max", a, k))
    d("min", lambda *a, **k: b_minmax(it, "min", a, k))
    d("isinstance", lambda v, c: isinstance_(it, v, c))
    d("list", lambda v=None: it.mklist([]) if v is None else to_list(it, v))

    def mktuple(v=None):
        if v is None:
            return ()
        v = it.force(v)
        if isinstance(v, tuple):
            return v
        l = to_list(it, v)
        if l.items is not None:
            return tuple(l.items)
        return it.cell(ListV(et=l.et, seq=l.seq, tup=True))
    d("tuple", mktuple)
    d("set", lambda v=None: it.cell(SetV()) if v is None else set_of(it, v))
    d("frozenset", lambda v=None: it.cell(SetV()) if v is None else set_of(it, v))

    def mkdict(v=None, **kw):
        r = it.mkdict()
        if v is not None:
            v = it.force(v)
            if isinstance(v, DictV):
                dict_update(it, r, v)
            else:
                x = it.iterate(v)
                if x[0] != "conc":
                    raise Unsupported("dict of symbolic pairs")
                for p in x[1]:
                    k, y = p if isinstance(p, tuple) else it.iterate(p)[1]
                    setitem(it, r, k, y)
        for k, y in kw.items():
            setitem(it, r, k, y)
        return r
    d("dict", mkdict)

    def fromkeys(v, value=None):
        l = to_list(it, v)
        if l.items is not None:
            r = it.mkdict()
            for x in l.items:
                setitem(it, r, x, value)
            return r
        u = uniq(it, l.seq)
        e = folds.elem_const(l.seq.sort(), l.seq)
        one = z3.Store(z3.K(e.sort(), False), e, True)
        dom = folds.mk_hom(it.ctx, "set", it.ctx.rw(l.seq), e, one)
        vt = it.type_of(value)
        if value is None:
            vt = NONE
        return it.cell(DictV(kt=l.et, vt=vt, keys=u, dom=dom, val=z3.K(e.sort(), it.to_term(vt, value))))
    it.extra["dict.fromkeys"] = F("dict.fromkeys", fromkeys)
    d("str", lambda v="": to_str(it, v))

    def b_int(v=0):
        v = it.force(v)
        if isinstance(v, (int, z3.ArithRef)):
            return v
        raise Unsupported("int()")
    d("int", b_int)
    d("bool", lambda v=False: it.truth(v))
    d("float", lambda v: v)
    d("print", lambda *a, **k: None)
    d("repr", lambda v: to_repr(it, v))
    d("sorted", lambda v, key=None, reverse=False: sort_seq(it, v, key, reverse))

    def rev(v):
        x = it.iterate(v)
        if x[0] != "conc":
            raise Unsupported("reversed")
        return it.mklist(list(reversed(x[1])))
    d("reversed", rev)

    def enum(v, start=0):
        if hasattr(v, "enumerate_"):
            return v.enumerate_(it)
        x = it.iterate(v) if not isinstance(v, GenV) else it.iterate(v)
        if x[0] == "conc":
            return it.mklist([(i + start, y) for i, y in enumerate(x[1])])
        return EnumV(v, start)
    d("enumerate", enum)

    def zip_(*vs):
        xs = [it.iterate(v) for v in vs]
        if any(x[0] != "conc" for x in xs):
            raise Unsupported("zip of symbolic sequences")
        return it.mklist(list(zip(*[x[1] for x in xs])))
    d("zip", zip_)

    def rng(*a):
        if not all(isinstance(x, int) for x in a):
            raise Unsupported("range")
        return it.mklist(list(range(*a)))
    d("range", rng)

    def sum_(v, start=0):
        v = it.force(v)
        if isinstance(v, GenV):
            v = it.comp_list(v.node, v.env)
        x = it.iterate(v)
        if x[0] == "conc":
            r = start
            for y in x[1]:
                r = r + (z3.If(y, 1, 0) if isinstance(y, z3.BoolRef) else y)
            return r
        e = folds.elem_const(x[2].sort(), x[2])
        return folds.mk_hom(it.ctx, "sum", x[2], e, it.to_term(INT, x[3](e))) + start
    d("sum", sum_)

    def map_(f, *vs):
        if len(vs) != 1:
            raise Unsupported("map")
        x = it.iterate(vs[0])
        if x[0] == "conc":
            return it.mklist([it.call(f, [y], {}) for y in x[1]])
        acc = it.mklist([])
        cur = {}
        it.sym_loop(x[2], x[1], lambda e: cur.__setitem__("x", x[3](e)), lambda: list_append(it, acc, it.call(f, [cur["x"]], {})), it.new_env(None, None), [], [])
        return acc
    d("map", map_)

    def filter_(f, v):
        x = it.iterate(v)
        acc = it.mklist([])

        def body(y):
            c = it.truth(y) if f is None else it.truth(it.call(f, [y], {}))
            if it.ctx.branch(c):
                list_append(it, acc, y)
        if x[0] == "conc":
            for y in x[1]:
                body(y)
            return acc
        cur = {}
        it.sym_loop(x[2], x[1], lambda e: cur.__setitem__("x", x[3](e)), lambda: body(cur["x"]), it.new_env(None, None), [], [])
        return acc
    d("filter", filter_)

    def next_(i, *default):
        return it.prog.next_(it, i, default)
    d("next", next_)
    d("iter", lambda v: v if isinstance(v, IterV) else v.iter_(it) if hasattr(v, "iter_") else IterV(to_list(it, v)))
    d("open", lambda *a, **k: b_open(it, *a, **k))
    d("hash", lambda v: str_uf(it, "hash", fs(it, v), out=INT))
    d("chr", lambda v: chr(v))
    d("ord", lambda v: ord(v) if isinstance(v, str) else (_ for _ in ()).throw(Unsupported("ord")))
    d("id", lambda v: (_ for _ in ()).throw(Unsupported("id")))
    d("callable", lambda v: isinstance(v, (FuncV, BoundV, BuiltinV, ClassV)))

    def getattr_(o, n, *default):
        if not isinstance(n, str):
            r = it.prog.getattr_sym(it, o, n)
            if r is not None:
                return r[0]
            raise Unsupported("getattr with a symbolic name")
        try:
            return it.getattr(o, n)
        except PyRaise as e:
            if default and e.exc == "AttributeError":
                return default[0]
            raise
    d("getattr", getattr_)

    def hasattr_(o, n):
        try:
            it.getattr(o, n)
            return True
        except PyRaise as e:
            if e.exc == "AttributeError":
                return False
            raise
    d("hasattr", hasattr_)
    d("setattr", lambda o, n, v: it.setattr(o, n, v))
    d("object", lambda: it.cell(Obj(ClassV("object", None, "", [], {}))))

    def type_(v):
        if isinstance(v, (Obj, RefV)):
            return it.classof(v)
        raise Unsupported("type()")
    d("type", type_)
    for n in ("property", "staticmethod", "classmethod", "UserList"):
        b[n] = F(n, lambda *a, **k: (_ for _ in ()).throw(Unsupported("call of a builtin")))
    b["__name__"] = "module"
    b["NotImplemented"] = F("NotImplemented", None)
    it.builtins = b
    it.libs = make_libs(it, F)


# ---------------------------------------------------------------- libraries
def make_libs(it, F):
    L = {}
    P = {}

    def p(name):
        def deco(f):
            P[name] = F("os.path." + name, f)
            return f
        return deco

    @p("basename")
    def basename(x):
        x = fs(it, x)
        if isinstance(x, str):
            import os
            return os.path.basename(x)
        ps = list(sparts(x))
        for i in range(len(ps) - 1, -1, -1):
            q = ps[i]
            if isinstance(q, str):
                if "/" in q:
                    return mkstr([q[q.rindex("/") + 1:]] + ps[i + 1:])
            elif "/" in q.cls:
                if i == 0 and False:
                    return x
                return mkstr([Str([basename_atom(it, q)])] + ps[i + 1:])
        return x

    @p("dirname")
    def dirname(x):
        x = fs(it, x)
        if isinstance(x, str):
            import os
            return os.path.dirname(x)
        ps = list(sparts(x))
        for i in range(len(ps) - 1, -1, -1):
            q = ps[i]
            if isinstance(q, str):
                if "/" in q:
                    head = mkstr(ps[:i] + [q[:q.rindex("/") + 1]])
                    r, ok = tmpl.rstrip(head, CharSet.of("/"))
                    if ok and r != "":
                        return r
                    break
            elif "/" in q.cls:
                break
        else:
            return ""
        t = uf("py_dirname", [S(x)], z3.StringSort())
        it.prog.dirname_facts(it, S(x), t)
        return Str([Atom(t)])

    @p("splitext")
    def splitext(x):
        x = fs(it, x)
        if isinstance(x, str):
            import os
            return os.path.splitext(x)
        h = it.prog.hooks.get("splitext")
        r = h(it, x) if h else None
        if r is None:
            r = splitext_t(x)
        if r is not None:
            return r
        note(it, "os.path.splitext splits the text: root + ext == text")
        root = uf("py_splitext_root", [S(x)], z3.StringSort())
        ext = uf("py_splitext_ext", [S(x)], z3.StringSort())
        return (Str([Atom(root)]), Str([Atom(ext)]))

    @p("join")
    def join(a, *bs):
        r = fs(it, a)
        for b in bs:
            b = fs(it, b)
            ab = tmpl.startswith(b, "/")
            if ab is True:
                r = b
                continue
            if ab is None:
                hook = it.prog.path_join_hook
                note(it, "os.path.join is an uninterpreted function where its arguments are unknown")
                r = str_uf(it, "pathjoin", r, b)
                continue
            e = tmpl.endswith(r, "/")
            if e is None and not (isinstance(r, str)):
                # r is followed by a slash unless it is empty or ends with one
                r = mkstr([Str([Atom(uf("py_joinbase", [S(r)], z3.StringSort()))]), b])
            elif e or r == "":
                r = mkstr([r, b])
            else:
                r = mkstr([r, "/", b])
        return r

    @p("abspath")
    def abspath(x):
        x = fs(it, x)
        t = uf("py_abspath", [S(x)], z3.StringSort())
        k = ("abs", t.get_id())
        if z3.is_app(S(x)) and S(x).decl().name() == "py_abspath":
            return x
        h = it.prog.hooks.get("abspath")
        r = h(it, x) if h else None
        if r is not None:
            return r
        if it.prog.abspath_id(it, x):
            return x
        return Str([Atom(t, None, 1)])
    for n in ("normpath", "realpath"):
        P[n] = F("os.path." + n, lambda x, n=n: str_uf(it, n, fs(it, x)))
    P["isabs"] = F("os.path.isabs", lambda x: affix(it, fs(it, x), "/", tmpl.startswith, z3.PrefixOf))
    for n in ("exists", "isfile", "isdir"):
        P[n] = F("os.path." + n, lambda x, n=n: it.prog.fs_query(it, n, fs(it, x)))
    path = ModV("os.path", P)
    path.ns["sep"] = "/"
    L["os.path"] = path
    L["os"] = ModV("os", {"path": path, "sep": "/"})
    R = {}
    for n in ("match", "search", "sub", "split", "finditer", "fullmatch"):
        R[n] = F("regex." + n, lambda *a, n=n, **k: it.prog.regex_call(it, n, a, k))
    R["compile"] = F("regex.compile", lambda pat, flags=0: PatternV(pat, flags))
    R["escape"] = F("regex.escape", lambda x: escape(it, fs(it, x)))
    for n, v in (("MULTILINE", 8), ("M", 8), ("DOTALL", 16), ("S", 16), ("IGNORECASE", 2), ("I", 2)):
        R[n] = v
    L["regex"] = ModV("regex", R)
    R["regex"] = L["regex"]
    R["Pattern"] = F("Pattern", None)
    R["Match"] = F("Match", None)
    R["Scanner"] = F("Scanner", None)
    L["re"] = L["regex"]
    L["functools"] = ModV("functools", {"cache": F("cache", lambda f: f), "lru_cache": F("lru_cache", lambda *a, **k: (lambda f: f)),
                                        "reduce": F("reduce", lambda f, xs, *i: reduce_(it, f, xs, i))})
    L["glob"] = ModV("glob", {"glob": F("glob", lambda x: it.prog.glob(it, fs(it, x)))})
    L["hashlib"] = ModV("hashlib", {"sha1": F("sha1", lambda x=None: it.prog.sha1(it, x))})
    L["copy"] = ModV("copy", {"deepcopy": F("deepcopy", lambda x: it.prog.deepcopy(it, x)), "copy": F("copy", lambda x: shallow(it, x))})
    L["urllib.parse"] = ModV("urllib.parse", {"urlparse": F("urlparse", lambda x: it.prog.urlparse(it, x))})
    L["urllib"] = ModV("urllib", {"parse": L["urllib.parse"]})
    UL = F("UserList", None)
    L["collections"] = ModV("collections", {"UserList": UL, "OrderedDict": F("OrderedDict", lambda v=None: it.builtins["dict"].fn(v)),
                                            "defaultdict": F("defaultdict", lambda *a: (_ for _ in ()).throw(Unsupported("defaultdict")))})
    L["textwrap"] = ModV("textwrap", {"dedent": F("dedent", lambda x: x if isinstance(x, str) and not x else str_uf(it, "dedent", fs(it, x)))})
    L["json"] = ModV("json", {"load": F("load", lambda f: it.prog.json_load(it, f)), "JSONDecodeError": F("JSONDecodeError", None)})

    class Std(Value):
        def getattr_(self, it, n):
            return BuiltinV("std." + n, lambda *a: None)
    L["sys"] = ModV("sys", {"stderr": Std(), "stdout": Std(), "modules": None})
    L["typing"] = ModV("typing", {n: F(n, None) for n in ("Iterable", "List", "Set", "Union", "Tuple", "Dict", "Optional", "Any", "Iterator")})
    L["itertools"] = ModV("itertools", {"chain": F("chain", lambda *a: chain(it, a))})
    return L


def chain(it, vs):
    r = it.mklist([])
    for v in vs:
        list_extend(it, r, v)
    return r


def reduce_(it, f, xs, init):
    x = it.iterate(xs)
    if x[0] != "conc":
        raise Unsupported("reduce")
    items = x[1]
    acc = init[0] if init else items.pop(0)
    for y in items:
        acc = it.call(f, [acc, y], {})
    return acc


def shallow(it, x):
    if isinstance(x, ListV):
        return list_copy(it, x)
    if isinstance(x, DictV):
        return dict_copy(it, x)
    return x


def basename_atom(it, q):
    t = uf("py_basename", [q.term], z3.StringSort())
    note(it, "os.path.basename of an unknown path is a text without a slash")
    return Atom(t, q.cls - CharSet.of("/"), 0)


def splitext_t(v):
    """posixpath.splitext on a template without slashes"""
    ps = list(sparts(v))
    # find the last dot
    for i in range(len(ps) - 1, -1, -1):
        q = ps[i]
        if isinstance(q, str):
            if "/" in q and q.rindex("/") > q.rfind("."):
                return None if q.rindex("/") < len(q) - 1 and False else (v, "")
            if "." in q:
                k = q.rindex(".")
                root = mkstr(ps[:i] + [q[:k]])
                ext = mkstr([q[k:]] + ps[i + 1:])
                # leading dots are no extension: root's base name must have a character other than a dot
                base = []
                for r in reversed(sparts(root)):
                    if isinstance(r, str):
                        if "/" in r:
                            base.insert(0, r[r.rindex("/") + 1:])
                            break
                        base.insert(0, r)
                    else:
                        if "/" in r.cls:
                            if r.minlen == 0 or True:
                                # unknown start of the base name
                                if any(isinstance(b, str) and b.strip(".") for b in base) or any(isinstance(b, Atom) and b.minlen and "." not in b.cls for b in base):
                                    return root, ext
                                return None
                        base.insert(0, r)
                if any(isinstance(b, str) and b.strip(".") or isinstance(b, Atom) and b.minlen and "." not in b.cls for b in base):
                    return root, ext
                if all(isinstance(b, str) for b in base):
                    return v, ""
                return None
        elif q.cls == CharSet.of(".") and i > 0 and isinstance(ps[i - 1], str) and ps[i - 1].endswith("/"):
            # nothing but leading dots
            return v, ""
        elif "." in q.cls or "/" in q.cls:
            return None
    return v, ""


def escape(it, v):
    """regex.escape keeps literal meaning: a marker understood by rx"""
    if isinstance(v, str):
        return RxLit.esc(v)
    return Str([EscAtom(p) if isinstance(p, Atom) else RxEsc(p) for p in sparts(v)]) if False else it.prog.regex_escape(it, v)


class RxLit:
    @staticmethod
    def esc(s):
        out = []
        for c in s:
            if c.isalnum() or c == "_":
                out.append(c)
            else:
                out.append("\\" + c)
        return "".join(out)

"""Shared parts of the verification units."""
import z3
from pyvc.vals import *
from pyvc.program import Program
from pyvc import builtins as B, folds

PYVAL = TOpaque("PyVal")
ITEM = TObj("Item")
NOT = NotImplemented


def word(name, cls=None, minlen=0):
    return Atom(z3.String(name), cls, minlen, name)


def text(name):
    """an arbitrary text"""
    return Str([word(name)])


def sym(it, ty, name):
    return it.from_term(ty, z3.Const(name, sort_of(ty)))


def stash(it, **fields):
    o = it.cell(Obj(it.prog.cls(it, "Stash")))
    for k, v in fields.items():
        o.fields[k] = v
    return o


def spec(it, mod, fn, *args):
    f = it.prog.module_get(it, mod, fn)[0]
    return it.call(f, list(args), {})


def eqv(it, name, a, b):
    """obligation: the values a and b are equal"""
    e = it.eq(a, b)
    it.ctx.prove(name, e)


def same_list(it, name, a, b, et):
    ty = TList(et)
    it.ctx.prove(name, it.to_term(ty, a) == it.to_term(ty, b))


def data_of(it, v):
    """the items of a list or stash list"""
    v = it.force(v)
    if isinstance(v, Obj):
        return v.fields["data"]
    return v


def cover(it, name):
    """the state is reachable (the assumptions do not contradict each other)"""
    r = it.ctx.check()
    it.ctx.run.covers[name] = it.ctx.run.covers.get(name, False) or r != z3.unsat


def item_attrs(P, fields, extra=None):
    """symbolic items: the named attributes are arbitrary values of the given type"""
    def h(it, v, name):
        if name in fields:
            ty = fields[name]
            if name in it.mutable_fields:
                return NOT
            return it.from_term(ty, z3.Function("fld_" + name, Ref, sort_of(ty))(v.term))
        if extra and name in extra:
            return extra[name](it, v)
        return NOT
    P.hooks["ref_attr"] = h


def words(it, *vs):
    """the words of a template are words over their classes"""
    for v in vs:
        for p in sparts(v):
            if isinstance(p, Atom) and (p.cls != ANYCHAR or p.minlen):
                r = p.cls.z3re()
                r = z3.Star(r) if p.minlen == 0 else z3.Plus(r) if p.minlen == 1 else z3.Concat(*([r] * p.minlen + [z3.Star(r)]))
                it.ctx.assume(z3.InRe(p.term, r))


def each(P, name, cases, one):
    """one exploration per case"""
    from pyvc.ctx import Run
    r = Run(name, P.factory())
    for c in cases:
        r.explore(lambda it: one(it, c))
    return r

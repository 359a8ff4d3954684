"""Canonical symbols for iteration over sequences.

Hom : monoid homomorphism  h(p ++ [x]) = h(p) (+) step(x)
Fold: left fold            f(p ++ [x], i) = step(f(p, i), x)

Both are uninterpreted functions whose defining equations are applied by the
rewriter below (never asserted as quantified axioms).  Two symbols over the
same sequence are identified when the solver proves their steps equal for an
arbitrary element (and state): that is the induction step, the base case being
equal initial values.
"""
import z3

_reg = {}        # decl name -> Hom | Fold | Sorter
_key = {}        # canonical key -> symbol
_count = [0]


def free_consts(t, skip=()):
    """0-ary uninterpreted constants of t in order of occurrence."""
    seen = set()
    out = []
    sk = {s.get_id() for s in skip}
    st = [t]
    while st:
        u = st.pop()
        i = u.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(u):
            st.append(u.body())
            continue
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if i not in sk:
                out.append(u)
            continue
        st.extend(reversed(u.children()))
    return out


class Hom:
    def __init__(self, monoid, seqsort, out, params, x, step):
        self.monoid, self.seqsort, self.out = monoid, seqsort, out
        self.params, self.x, self.step = params, x, step
        _count[0] += 1
        self.name = "hom_%s_%d" % (monoid, _count[0])
        self.decl = z3.Function(self.name, seqsort, *[p.sort() for p in params], out)
        _reg[self.name] = self

    def ident(self):
        return ident(self.monoid, self.out)

    def at(self, e, ps):
        return z3.substitute(self.step, [(self.x, e)] + list(zip(self.params, ps)))


class Fold:
    def __init__(self, seqsort, st, params, s, x, step):
        self.seqsort, self.out = seqsort, st
        self.params, self.s, self.x, self.step = params, s, x, step
        _count[0] += 1
        self.name = "fold_%d" % _count[0]
        self.decl = z3.Function(self.name, seqsort, st, *[p.sort() for p in params], st)
        _reg[self.name] = self

    def at(self, s, e, ps):
        return z3.substitute(self.step, [(self.s, s), (self.x, e)] + list(zip(self.params, ps)))


def ident(m, out):
    if m == "list":
        return z3.Empty(out)
    if m == "set":
        return z3.K(out.domain(), False)
    if m == "any":
        return z3.BoolVal(False)
    if m == "sum":
        return z3.IntVal(0)
    if m == "cat":
        return z3.StringVal("")
    raise ValueError(m)


def combine(m, parts, out):
    if not parts:
        return ident(m, out)
    if len(parts) == 1:
        return parts[0]
    if m in ("list", "cat"):
        return z3.Concat(*parts)
    if m == "set":
        r = parts[0]
        for p in parts[1:]:
            r = z3.SetUnion(r, p)
        return r
    if m == "any":
        return z3.Or(*parts)
    if m == "sum":
        return z3.Sum(*parts)
    raise ValueError(m)


def canon(t, consts):
    ph = [(c, z3.Const("$%d" % i, c.sort())) for i, c in enumerate(consts)]
    return z3.substitute(t, ph).sexpr() + "|" + ",".join(str(c.sort()) for c in consts)


def flat(t):
    """pieces of a sequence term"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out += flat(c)
        return out
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return []
    if z3.is_string_value(t) and t.as_string() == "":
        return []
    return [t]


def is_unit(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT


def same(a, b):
    return a.eq(b)


def mk_hom(ctx, monoid, S, x, step):
    """Term for the homomorphism over S with the given step."""
    step = ctx.rw(step)
    out = step.sort()
    idt = ident(monoid, out)
    if same(step, idt) or same(z3.simplify(step), z3.simplify(idt)):
        return idt
    if monoid == "list" and same(z3.simplify(step), z3.simplify(z3.Unit(x))):
        return S
    if monoid == "cat" and same(step, x):
        pass
    if monoid == "sum" and not free_in(step, x) and not free_consts(step):
        return step * z3.Length(S)
    if monoid in ("any", "all"):
        # any over a disjunction is the disjunction of the anys, dually for all
        ps = split_bool(z3.simplify(step), monoid == "any")
        if len(ps) > 1:
            return combine(monoid, [mk_hom(ctx, monoid, S, x, p) for p in ps], out)
    return apply_hom(ctx, _hom_symbol(ctx, monoid, S.sort(), out, x, step), S)


def split_bool(t, disj):
    if z3.is_or(t) if disj else z3.is_and(t):
        return [q for c in t.children() for q in split_bool(c, disj)]
    if z3.is_not(t):
        a = t.arg(0)
        if z3.is_not(a):
            return split_bool(a.arg(0), disj)
        if z3.is_and(a) if disj else z3.is_or(a):
            return [q for c in a.children() for q in split_bool(z3.Not(c), disj)]
    return [t]


def _hom_symbol(ctx, monoid, seqsort, out, x, step):
    step = z3.simplify(step)
    params = free_consts(step, skip=(x,))
    key = (monoid, str(seqsort), str(out), canon(step, [x] + params))
    h = _key.get(key)
    if h is None:
        h = Hom(monoid, seqsort, out, params, x, step)
        _key[key] = h
    return (h, params)


def free_in(t, x):
    return any(c.eq(x) for c in free_consts(t))


def apply_hom(ctx, hp, S):
    h, ps = hp
    S = ctx.seq_expand(S)
    if z3.is_string_value(S) and len(S.as_string()) <= 64:
        from .vals import unesc
        return combine(h.monoid, [ctx.rw(h.at(z3.CharVal(ord(c)), ps)) for c in unesc(S.as_string())], h.out)
    if z3.is_app(S) and S.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = S.children()
        return ctx.rw(z3.If(c, apply_hom(ctx, hp, a), apply_hom(ctx, hp, b)))
    pieces = flat(S)
    if len(pieces) != 1:
        return combine(h.monoid, [apply_hom(ctx, hp, p) for p in pieces], h.out)
    p = pieces[0]
    if is_unit(p):
        return ctx.rw(h.at(p.arg(0), ps))
    g = _reg.get(p.decl().name()) if z3.is_app(p) else None
    if isinstance(g, Hom) and g.monoid == "list":
        gps = [p.arg(i) for i in range(1, p.num_args())]
        y = elem_const(g.seqsort, p)
        inner = apply_hom(ctx, hp, ctx.rw(g.at(y, gps)))
        return mk_hom(ctx, h.monoid, p.arg(0), y, inner)
    ne = ctx.noexit.get(p.get_id())
    if ne is not None and not ctx.equiv_busy:
        # a step that gives nothing for such elements gives nothing at all
        ctx.equiv_busy += 1
        try:
            goal = z3.Or(z3.substitute(ne[2], (ne[1], h.x)), ctx.rw(h.at(h.x, ps)) == ident(h.monoid, h.out))
            if ctx.valid(goal, 1500):
                ctx.stats.lemmas += 1
                return ident(h.monoid, h.out)
        finally:
            ctx.equiv_busy -= 1
    t = h.decl(p, *ps)
    return ctx.hom_equiv(h, p, ps, t)


_el = [0]


def elem_const(seqsort, t):
    _el[0] += 1
    if seqsort == z3.StringSort():
        return z3.Const("el!%d" % _el[0], z3.CharSort())
    return z3.Const("el!%d" % _el[0], seqsort.basis())


def mk_fold(ctx, S, init, s, x, step):
    step = z3.simplify(ctx.rw(step))
    if same(step, s):
        return init
    params = free_consts(step, skip=(s, x))
    key = ("fold", str(S.sort()), str(s.sort()), canon(step, [s, x] + params))
    f = _key.get(key)
    if f is None:
        f = Fold(S.sort(), s.sort(), params, s, x, step)
        _key[key] = f
    return apply_fold(ctx, (f, params), S, init)


def apply_fold(ctx, fp, S, init):
    f, ps = fp
    S = ctx.seq_expand(S)
    if z3.is_string_value(S) and 0 < len(S.as_string()) <= 32:
        from .vals import unesc
        st = init
        for c in unesc(S.as_string()):
            st = ctx.rw(f.at(st, z3.CharVal(ord(c)), ps))
        return st
    if z3.is_app(S) and S.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = S.children()
        return ctx.rw(z3.If(c, apply_fold(ctx, fp, a, init), apply_fold(ctx, fp, b, init)))
    st = init
    for p in flat(S):
        if is_unit(p):
            st = ctx.rw(f.at(st, p.arg(0), ps))
            continue
        g = _reg.get(p.decl().name()) if z3.is_app(p) else None
        if isinstance(g, Hom) and g.monoid == "list":
            # a pass over the elements made from a sequence is a pass over that sequence
            y = elem_const(g.seqsort, p)
            inner = apply_fold(ctx, fp, ctx.rw(g.at(y, [p.arg(i) for i in range(1, p.num_args())])), f.s)
            st = mk_fold(ctx, p.arg(0), st, f.s, y, inner)
        else:
            st = ctx.fold_equiv(f, p, st, ps, f.decl(p, st, *ps))
    return st


def rewrite(ctx, t, memo=None):
    """Expand fold symbols over constructed sequences, bottom up."""
    memo = {} if memo is None else memo
    r = _rewrite(ctx, t, memo)
    return r


def _mentions(t, memo={}):
    i = t.get_id()
    k = memo.get(i)
    if k is not None and k[0].eq(t):
        return k[1]
    r = False
    if isinstance(t, z3.ReRef):
        pass
    elif z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() in _reg:
            r = True
        else:
            r = any(_mentions(c) for c in t.children())
    elif z3.is_quantifier(t):
        r = _mentions(t.body())
    if len(memo) > 200000:
        memo.clear()
    memo[i] = (t, r)
    return r


def _rewrite(ctx, t, memo):
    if not z3.is_app(t) or not _mentions(t):
        return t
    k = memo.get(t.get_id())
    if k is not None:
        return k
    ch = [_rewrite(ctx, c, memo) for c in t.children()]
    sym = _reg.get(t.decl().name()) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
    if isinstance(sym, Hom):
        r = apply_hom(ctx, (sym, ch[1:]), ch[0])
    elif isinstance(sym, Fold):
        r = apply_fold(ctx, (sym, ch[2:]), ch[0], ch[1])
    elif all(a.eq(b) for a, b in zip(ch, t.children())):
        r = t
    else:
        r = t.decl()(*ch)
    memo[t.get_id()] = r
    memo[("keep", t.get_id())] = t
    return r

"""Line readers, loops by conservation invariants, and arbitrary regular expression answers."""
import ast
import hashlib
import re
import z3
from pyvc.vals import *
from pyvc.interp import assigned_names, UNDEF
from pyvc.ctx import Brk, Cnt
from pyvc.program import BuiltinV
from pyvc import rx, folds

S = z3.StringSort()
EMPTY = z3.StringVal("")


class Lines(Value):
    """the lines of a text"""

    def __init__(self, text):
        self.text = text

    def enumerate_(self, it):
        return it.cell(LineIter(self.text, True))

    def iter_(self, it):
        return it.cell(LineIter(self.text, False))


class LineIter(Cell):
    """an iterator over the lines of a text; rest is the text not read yet"""

    def __init__(self, rest, enum):
        self.rest, self.enum = rest, enum

    def save(self):
        return (self.rest, self.enum)

    def load(self, s):
        self.rest, self.enum = s

    def iter_(self, it):
        return self

    def getattr_(self, it, name):
        if name == "__next__":
            return BuiltinV("__next__", lambda: advance(it, self, None))
        return None


def advance(it, i, default):
    if it.ctx.branch(i.rest == EMPTY):
        if default:
            return default[0]
        raise PyRaise("StopIteration")
    line, rest = it.ctx.fresh("line", S), it.ctx.fresh("rest", S)
    it.ctx.assume(i.rest == z3.Concat(line, rest))
    it.ctx.assume(z3.Length(line) >= 1)
    i.touched(it.ctx)
    i.rest = rest
    v = Str([Atom(line, ANYCHAR, 1)])
    return (it.ctx.fresh("lineno", z3.IntSort()), v) if i.enum else v


def readers(P):
    P.hooks["next"] = lambda it, i, default: [advance(it, i, default)] if isinstance(i, LineIter) else None


# ---------------------------------------------------------------- regular expressions
def optional_groups(pat):
    """(names of groups, those that need not take part in a match)"""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            from re import _parser as sp
        except ImportError:
            import sre_parse as sp
        try:
            t = sp.parse(pat)
        except Exception:
            return None
    opt = set()

    def walk(x, o):
        for op, av in x:
            n = str(op)
            if n == "SUBPATTERN":
                if av[0] is not None and o:
                    opt.add(av[0])
                walk(av[3], o)
            elif n == "BRANCH":
                for b in av[1]:
                    walk(b, True)
            elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                walk(av[2], o or av[0] == 0)
            elif n in ("ASSERT", "ASSERT_NOT"):
                walk(av[1], True)
            elif n == "ATOMIC_GROUP":
                walk(av, o)
            elif n == "GROUPREF_EXISTS":
                walk(av[1], True)
                if av[2]:
                    walk(av[2], True)
    walk(t, False)
    names = {k: v for k, v in t.state.groupdict.items()}

    def outside(x, g):
        """least width of what is matched outside of group g, None if it is not in x"""
        total, found = 0, None
        for item in x:
            op, av = item
            n = str(op)
            w = item_width(t, item)
            inner = None
            if n == "SUBPATTERN":
                inner = 0 if av[0] == g else outside(av[3], g)
            elif n == "BRANCH":
                rs = [outside(b, g) for b in av[1]]
                rs = [r for r in rs if r is not None]
                inner = min(rs) if rs else None
            elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                inner = outside(av[2], g)
            elif n == "ATOMIC_GROUP":
                inner = outside(av, g)
            elif n in ("ASSERT", "ASSERT_NOT", "GROUPREF_EXISTS"):
                inner = outside(av[1], g)
                if inner is not None:
                    return -10 ** 6     # a look ahead: no bound
            if inner is not None and found is None:
                found = inner
            else:
                total += w
        return None if found is None else found + total
    return names, t.state.groups, opt, {g: max(0, outside(t, g) or 0) for g in range(1, t.state.groups)}, t.getwidth()[0]


def item_width(t, item):
    import copy
    try:
        from re import _parser as sp
    except ImportError:
        import sre_parse as sp
    q = sp.SubPattern(t.state, [item])
    return q.getwidth()[0]


def tag(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()[:10]


class AnyMatch(MatchV):
    """some match of a pattern in a text"""

    def __init__(self, pat, flags, string, mode):
        self.pat, self.string, self.key = pat, string, tag(pat, flags, mode)
        self.info = optional_groups(pat)
        if self.info is None:
            raise Unsupported("groups of %r" % pat)

    def truth_(self, it):
        return True

    def group(self, it, g=0):
        names, n, opt, out, least = self.info
        g = it.force(g)
        if isinstance(g, str):
            if g not in names:
                raise PyRaise("IndexError", "no such group")
            g = names[g]
        if not isinstance(g, int):
            raise Unsupported("symbolic group")
        if g >= n or g < 0:
            raise PyRaise("IndexError", "no such group")
        ty = TOpt(STR) if g in opt else STR
        q = z3.Function("rxgroup_%s_%d" % (self.key, g), S, sort_of(ty))(self.string)
        size = z3.Length(q.sort().accessor(1, 0)(q) if g in opt else q) + out.get(g, 0) <= z3.Length(self.string)
        if it.prog.hooks.get("lengths"):
            it.ctx.assume(z3.Implies(q.sort().recognizer(1)(q), size) if g in opt else size)
        return it.from_term(ty, q)

    def names(self):
        return list(self.info[0])

    def getattr_(self, it, name):
        names, n, opt, out, least = self.info
        if name == "group":
            return BuiltinV("group", lambda *a: self.group(it, *a) if len(a) < 2 else tuple(self.group(it, x) for x in a))
        if name == "groupdict":
            return BuiltinV("groupdict", lambda: it.mkdict([[k, self.group(it, v)] for k, v in names.items()]))
        if name == "groups":
            return BuiltinV("groups", lambda: tuple(self.group(it, i) for i in range(1, n)))
        if name in ("start", "end"):
            return BuiltinV(name, lambda g=0: z3.Function("rx%s_%s_%s" % (name, self.key, it.force(g)), S, z3.IntSort())(self.string))
        return None

    def getitem_(self, it, g):
        return self.group(it, g)


def any_regex(P):
    """regular expressions give some answer, the same one for the same text"""
    empty = {}

    def h(it, name, args, kw):
        kw = dict(kw)
        names = {"match": ["pattern", "string", "flags"], "search": ["pattern", "string", "flags"], "fullmatch": ["pattern", "string", "flags"],
                 "split": ["pattern", "string", "maxsplit", "flags"], "sub": ["pattern", "repl", "string", "count", "flags"]}.get(name)
        if names is None:
            return NotImplemented
        kw.update(zip(names, args))
        pat, flags = kw["pattern"], kw.get("flags", 0) or 0
        if isinstance(pat, PatternV):
            if flags and name == "match":
                return NotImplemented
            pat, flags = pat.pattern, pat.flags
        pat, s = it.force(pat), it.force(kw["string"])
        if not isinstance(pat, str) or not isinstance(s, Str):
            return NotImplemented
        t = sterm(s)
        k = tag(pat, flags, name)
        if name in ("match", "search", "fullmatch"):
            b = z3.Function("rxhit_" + k, S, z3.BoolSort())(t)
            if k not in empty:
                try:
                    empty[k] = bool(rx.decide(pat, flags, "", name if name != "fullmatch" else "match").matched)
                except (rx.Undecided, Unsupported):
                    empty[k] = True
            if not empty[k]:
                it.ctx.assume(z3.Implies(b, t != EMPTY))
            if not it.ctx.branch(b):
                return None
            m = AnyMatch(pat, flags, t, name)
            if it.prog.hooks.get("lengths"):
                it.ctx.assume(z3.Length(t) >= m.info[4])
            return m
        if name == "split":
            q = z3.Function("rxsplit_" + k, S, z3.SeqSort(S))(t)
            it.ctx.assume(z3.Length(q) >= 1)
            return it.cell(ListV(et=STR, seq=q))
        if isinstance(it.force(kw["repl"]), (str, Str)):
            return Str([Atom(z3.Function("rxsub_" + k, S, S, S)(sterm(it.force(kw["repl"])), t))])
        return NotImplemented
    P.hooks["regex_call"] = h


# ---------------------------------------------------------------- loops
def names_of(body):
    return {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name)}


def cell_of(v):
    return v if isinstance(v, Cell) else None


def changed_cells(it, run):
    """the cells that one round may change"""
    before = {id(c): (c, c.save()) for c in it.ctx.cells}
    out = {}

    def collect():
        for i, (c, s) in before.items():
            n = c.save()
            if not same_state(s, n):
                out[i] = c
    it.ctx.analyse(run, collect)
    return list(out.values())


def same_state(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_state(a[k], b[k]) for k in a)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Str) and isinstance(b, Str):
        return sterm(a).eq(sterm(b))
    try:
        return a is b or type(a) is type(b) and isinstance(a, (str, int, bool, type(None))) and a == b
    except Exception:
        return False


def fresh_like(it, v, name):
    """any value of the type of v, or UNDEF"""
    if isinstance(v, (str, Str)):
        return Str([Atom(it.ctx.fresh(name, S))])
    if isinstance(v, (bool, z3.BoolRef)):
        return it.ctx.fresh(name, z3.BoolSort())
    if isinstance(v, (int, z3.ArithRef)):
        return it.ctx.fresh(name, z3.IntSort())
    return UNDEF


# stands for the members a list had before
MARK = OpaqueV(TOpaque("Earlier"), z3.Const("earlier", sort_of(TOpaque("Earlier"))))


def havoc(it, env, mods, entry, cells, types):
    for n in mods:
        if n in env.vars:
            env.vars[n] = fresh_like(it, entry.get(n, UNDEF), n)
    for c in cells:
        c.touched(it.ctx)
        if isinstance(c, LineIter):
            c.rest = it.ctx.fresh("rest", S)
        elif isinstance(c, ListV) and c.items and c.items[0] is MARK:
            c.items = [MARK]
        elif isinstance(c, ListV):
            et = types(it, c) if types else c.et
            if et is None:
                raise Unsupported("a list changed in a loop: %r" % c)
            c.items, c.et, c.seq = None, et, it.ctx.fresh("list", z3.SeqSort(sort_of(et)))
        elif isinstance(c, SetV):
            et = types(it, c) if types else c.et
            if et is None:
                raise Unsupported("a set changed in a loop")
            c.et, c.arr = et, it.ctx.fresh("set", z3.ArraySort(sort_of(et), z3.BoolSort()))
        elif isinstance(c, DictV):
            if c.kt is None:
                raise Unsupported("a dictionary changed in a loop")
            n = it.from_term(TDict(c.kt, c.vt), it.ctx.fresh("dict", sort_of(TDict(c.kt, c.vt))))
            c.load(n.save())
        else:
            raise Unsupported("%r changes in a loop" % c)
        c.written(it.ctx)


class Loop:
    """While loops by invariants found among candidates.

    candidates(it, env) -> {name: function() -> z3 truth value in the present state}
    progress(it, env) -> function() -> integer term that gets smaller and stays >= 0
    types(it, list cell) -> element type"""

    def __init__(self, candidates, progress=None, types=None, applies=None, facts=None):
        self.candidates, self.progress, self.types, self.applies, self.facts = candidates, progress, types, applies, facts

    def hook(self, it, s, env):
        if not isinstance(s, ast.While) or self.applies and not self.applies(it, s, env):
            return None
        return lambda: self.run(it, s, env)

    def mods(self, s):
        return assigned_names(s.body + [ast.Expr(s.test)])

    def begin(self, it, s, env):
        pass

    def reset(self, it, s, env):
        """any state of the loop itself"""

    def test(self, it, s, env):
        return it.truth(it.eval(s.test, env))

    def next(self, it, s, env):
        """go to the next round; False at the end"""
        return it.ctx.branch(self.test(it, s, env))

    def run(self, it, s, env):
        ctx = it.ctx
        mods = self.mods(s)
        entry = {n: it.force(env.vars[n]) for n in mods if n in env.vars and env.vars[n] is not UNDEF}

        self.begin(it, s, env)

        def any_state():
            havoc(it, env, mods, entry, cells, self.types)
            self.reset(it, s, env)

        def round_():
            if not self.next(it, s, env):
                raise Infeasible()
            it.exec_block(s.body, env)

        # cells changed by a round, from a state where all texts are arbitrary
        cells = []
        while True:
            before = None

            def probe():
                nonlocal before
                any_state()
                before = {id(c): (c, c.save()) for c in ctx.cells}
                round_()
            found = {}

            def collect():
                for i, (c, st) in before.items():
                    if not same_state(st, c.save()) and all(c is not x for x in cells):
                        found[i] = c
            known = {id(c) for c in ctx.cells}
            ctx.coarse = getattr(ctx, "coarse", 0) + 1
            try:
                ctx.analyse(probe, collect)
            finally:
                ctx.coarse -= 1
            new = [c for i, c in found.items() if i in known]
            if not new:
                break
            cells += new
        if getattr(ctx, "coarse", 0):
            # only the cells that change are of interest
            any_state()
            if self.next(it, s, env):
                raise Infeasible()
            return
        keep = dict(self.candidates(it, env))
        if self.progress:
            first = self.progress(it, env)()
            keep["no steps back"] = lambda: self.progress(it, env)() <= first
        keep = {n: f for n, f in keep.items() if ctx.valid(ctx.rw(f()), 1000)}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 30:
                raise Unsupported("loop analysis does not converge")
            bad = set()

            def body():
                any_state()
                for f in keep.values():
                    ctx.assume(ctx.rw(f()))
                if self.facts:
                    self.facts(it, env)
                round_()

            def judge():
                out = set()
                for n, f in keep.items():
                    if n not in bad and not ctx.valid(ctx.rw(f()), 1000):
                        out.add(n)
                return out
            for conds, out, vals in ctx.analyse(body, judge):
                if out[0] in ("normal", "Cnt"):
                    bad |= vals
            if not bad:
                break
            keep = {n: f for n, f in keep.items() if n not in bad}
        any_state()
        for n, f in keep.items():
            ctx.assume(ctx.rw(f()))
        if self.facts:
            self.facts(it, env)
        low = self.progress(it, env)() if self.progress else None
        if not self.next(it, s, env):
            if s.orelse:
                it.exec_block(s.orelse, env)
            return
        pre = [(c, c.save()) for c in ctx.cells]
        try:
            it.exec_block(s.body, env)
        except Brk:
            return
        except Cnt:
            pass
        for c, st in pre:
            if all(c is not x for x in cells) and not same_state(st, c.save()):
                raise Unsupported("%r changes in a loop" % c)
        for n, f in keep.items():
            ctx.prove("loop-invariant", ctx.rw(f()))
        if low is not None:
            new = self.progress(it, env)()
            end = self.test(it, s, env)
            end = z3.Not(end) if isinstance(end, z3.ExprRef) else z3.BoolVal(not end)
            ctx.prove("loop-ends", z3.Or(end, z3.And(new < low, low >= 0)))
        raise Infeasible()


class CharLoop(Loop):
    """For loops over the characters of a text; ghost at: index of the next character"""

    def hook(self, it, s, env, x):
        if x[1] is not CHAR or self.applies and not self.applies(it, s, env):
            return None
        l = CharLoop(self.candidates, None, self.types, None, self.facts)
        l.text, l.start = x[2], x[3] if x[0] == "enum" else None
        return lambda: l.run(it, s, env)

    def mods(self, s):
        return assigned_names(s.body + [ast.Assign(targets=[s.target], value=ast.Constant(0))])

    def begin(self, it, s, env):
        it.ctx.ghost["at"] = z3.IntVal(0)

    def reset(self, it, s, env):
        i = it.ctx.ghost["at"] = it.ctx.fresh("at", z3.IntSort())
        it.ctx.assume(z3.And(i >= 0, i <= z3.Length(self.text)))

    def next(self, it, s, env):
        i = it.ctx.ghost["at"]
        if not it.ctx.branch(i < z3.Length(self.text)):
            return False
        c = Str([Atom(z3.SubString(self.text, i, 1), ANYCHAR, 1)])
        it.ctx.ghost["at"] = i + 1
        it.assign(s.target, c if self.start is None else (i + self.start, c), env)
        return True


def install(P, loop, fname="*"):
    P.while_hooks.setdefault(fname, []).append(loop.hook)


class AnyRound:
    """For loops over sequences of any length where nothing is known about the state: one arbitrary round is run."""

    def __init__(self, types=None, applies=None, each=None, changes=None, facts=None, fields=(), blind=False):
        self.types, self.applies, self.each, self.changes = types, applies, each, changes
        self.blind = blind
        self.facts, self.fields = facts, fields      # facts(it, env, element or None): the invariant; fields: attributes of items that change

    def hook(self, it, s, env, x):
        if self.applies and not self.applies(it, s, env, x):
            return None
        return lambda: self.run(it, s, env, x)

    def run(self, it, s, env, x):
        ctx = it.ctx
        _, et, seq, conv = x
        targets = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        mods = [n for n in assigned_names(s.body) if n not in targets]
        entry = {n: it.force(env.vars[n]) for n in mods if n in env.vars and env.vars[n] is not UNDEF}
        e = folds.elem_const(seq.sort(), seq)

        def round_():
            it.assign(s.target, conv(e), env)
            it.exec_block(s.body, env)

        def any_state(member=True):
            havoc(it, env, mods, entry, cells, self.types)
            for f in self.fields:
                h = it.heap(f, it.field_type(f))
                ctx.heap[f] = ctx.fresh("heap", h.sort())
            if self.facts:
                self.facts(it, env, conv(e) if member else None)
        cells = self.changes(it, env) if self.changes else []
        while not self.changes:
            before = None

            def probe():
                nonlocal before
                any_state()
                before = {id(c): (c, c.save()) for c in ctx.cells}
                round_()
            found = {}

            def collect():
                for i, (c, st) in before.items():
                    if not same_state(st, c.save()) and all(c is not x for x in cells):
                        found[i] = c
            known = {id(c) for c in ctx.cells}
            ctx.coarse = getattr(ctx, "coarse", 0) + 1
            ctx.blind += self.blind
            try:
                ctx.analyse(probe, collect)
            finally:
                ctx.coarse -= 1
                ctx.blind -= self.blind
            new = [c for i, c in found.items() if i in known]
            if not new:
                break
            cells += new
        again = ctx.choose("a round")
        any_state(again)
        if again:
            pre = {id(c): (c, c.save()) for c in ctx.cells}
            heap = dict(ctx.heap)
            try:
                round_()
            except Brk:
                return
            except Cnt:
                pass
            for c, st in pre.values():
                if all(c is not x for x in cells) and not same_state(st, c.save()):
                    raise Unsupported("%r changes in a loop" % c)
            for f, h in ctx.heap.items():
                if f not in self.fields and f in heap and not h.eq(heap[f]):
                    raise Unsupported("%s changes in a loop" % f)
            if self.each:
                self.each(it, env, conv(e), pre)
            raise Infeasible()
        for n in targets:
            env.vars[n] = UNDEF

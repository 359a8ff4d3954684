"""Path exploration, solver access and obligations."""
import time
import z3
from .vals import *
from . import folds

z3.set_param("model.completion", False)


class Frame:
    __slots__ = ("dec", "pos", "conds", "pending", "fresh0")

    def __init__(self, dec, fresh0):
        self.dec = list(dec)
        self.pos = 0
        self.conds = []
        self.pending = []
        self.fresh0 = fresh0


class Obligation:
    def __init__(self, name, status, backend, dt, detail=None, goal=None):
        self.name, self.status, self.backend, self.dt, self.detail, self.goal = name, status, backend, dt, detail, goal


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.lemmas = 0
        self.paths = 0
        self.covers = 0


class Ctx:
    """State of one symbolic execution path."""
    FEAS_MS = 3000
    PROVE_MS = 20000

    def __init__(self, run):
        self.run = run
        self.stats = run.stats
        self.solver = z3.Solver()
        self.solver.set("timeout", self.FEAS_MS)
        self.frames = []
        self.cells = []
        self.envs = []
        self.heap = {}
        self.seqdefs = {}
        self.noexit = {}
        self.loops = []
        self.iterating = []
        self.nfresh = 0
        self.fresh_names = {}
        self.apps = []
        self.fapps = []
        self.memo = {}
        self.ghost = {}
        self.equiv_busy = 0
        self.depth = 0
        self.refine = {}
        self.state_fns = {}

    # ---- fresh symbols
    def fresh(self, name, sort):
        self.nfresh += 1
        n = "%s!%d" % (name, self.nfresh)
        self.fresh_names[n] = self.nfresh
        return z3.Const(n, sort)

    # ---- rewriting
    def rw(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        return folds.rewrite(self, t)

    def seq_expand(self, S):
        out = []
        ch = False
        for p in folds.flat(S):
            d = self.seqdefs.get(p.get_id())
            if d is not None:
                ch = True
                out += folds.flat(self.seq_expand(d[1]))
            else:
                out.append(p)
        if not ch:
            return S
        return z3.Concat(*out) if len(out) > 1 else out[0]

    def hom_equiv(self, h, S, ps, t):
        for (g, S2, gps, u) in self.apps:
            if g is h and u.eq(t):
                return t
            if g.monoid == h.monoid and g.out == h.out and S2.eq(S) and (g is not h or not u.eq(t)):
                x = self.fresh("eqx", h.x.sort())
                key = ("homeq", h.name, g.name, tuple(p.get_id() for p in ps), tuple(p.get_id() for p in gps), len(self.frames), self.pc_id())
                r = self.memo.get(key)
                if r is None:
                    self.equiv_busy += 1
                    try:
                        goal = self.rw(h.at(x, ps)) == self.rw(g.at(x, gps))
                        r = self.valid(goal, 1500)
                    finally:
                        self.equiv_busy -= 1
                    self.memo[key] = r
                    self.memo[("keep", key)] = (ps, gps)
                if r:
                    self.stats.lemmas += 1
                    return u
        self.apps.append((h, S, list(ps), t))
        return t

    def fold_equiv(self, f, S, init, ps, t):
        for (g, S2, i2, gps, u) in self.fapps:
            if g is f and u.eq(t):
                return t
            if g.out == f.out and S2.eq(S) and not u.eq(t):
                key = ("foldeq", f.name, g.name, init.get_id(), i2.get_id(), tuple(p.get_id() for p in ps), tuple(p.get_id() for p in gps), self.pc_id())
                r = self.memo.get(key)
                if r is None:
                    self.equiv_busy += 1
                    try:
                        x = self.fresh("eqx", f.x.sort())
                        s = self.fresh("eqs", f.s.sort())
                        r = bool(init.eq(i2)) or self.valid(init == i2, 1500)
                        if r:
                            r = self.valid(self.rw(f.at(s, x, ps)) == self.rw(g.at(s, x, gps)), 6000)
                    finally:
                        self.equiv_busy -= 1
                    self.memo[key] = r
                    self.memo[("keep", key)] = (init, i2, ps, gps)
                if r:
                    self.stats.lemmas += 1
                    return u
        self.fapps.append((f, S, init, list(ps), t))
        return t

    def pc_id(self):
        return len(self.solver.assertions())

    # ---- solver
    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def valid(self, goal, ms):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        self.solver.set("timeout", ms)
        self.solver.push()
        self.solver.add(z3.Not(goal))
        r = self.check()
        self.solver.pop()
        self.solver.set("timeout", self.FEAS_MS)
        return r == z3.unsat

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        f = self.rw(f)
        if z3.is_true(f):
            return
        self.solver.add(f)

    blind = 0

    def feasible(self, c):
        if self.blind:
            # only what may change is of interest: both branches are looked at
            return True
        self.solver.push()
        self.solver.add(c)
        r = self.check()
        self.solver.pop()
        return r != z3.unsat

    # ---- branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(self.rw(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.dec):
            d, forced = fr.dec[fr.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                fr.pending.append(fr.dec[:fr.pos] + [(False, False)])
                d, forced = True, False
            elif t:
                d, forced = True, True
            else:
                d, forced = False, True
            fr.dec.append((d, forced))
        fr.pos += 1
        cc = c if d else z3.Not(c)
        self.solver.add(cc)
        if not forced:
            fr.conds.append(cc)
        return d

    def choose(self, name="choice"):
        return self.branch(self.fresh(name, z3.BoolSort()))

    # ---- mutation tracking
    def new_cell(self, c):
        self.cells.append(c)
        return c

    def on_mutate(self, cell):
        if any(cell is c for c in self.iterating):
            raise Unsupported("a list changes while it is iterated")
        for lr in self.loops:
            if id(cell) in lr.known and id(cell) not in lr.mods:
                lr.add(("cell", cell))
                raise Redo(lr)

    def on_heap(self, field):
        for lr in self.loops:
            if ("heap", field) not in lr.mods:
                lr.add(("heap", field))
                raise Redo(lr)

    # ---- snapshots
    def snapshot(self):
        return ([(c, c.save()) for c in self.cells], [(e, dict(e.vars)) for e in self.envs], dict(self.heap),
                len(self.cells), len(self.envs), dict(self.seqdefs), dict(self.ghost), dict(self.refine), dict(self.noexit))

    def restore(self, s):
        for c, v in s[0]:
            c.load(v)
        for e, v in s[1]:
            e.vars = dict(v)
        self.heap = dict(s[2])
        del self.cells[s[3]:]
        del self.envs[s[4]:]
        self.seqdefs = dict(s[5])
        self.noexit = dict(s[8])
        self.ghost = dict(s[6])
        self.refine = dict(s[7])

    def sub_explore(self, thunk, collect, limit=400):
        """Run thunk on every path from the current state; the state is restored afterwards."""
        snap = self.snapshot()
        out = []
        work = [[]]
        na, nf = len(self.apps), len(self.fapps)
        nfresh0 = self.nfresh
        try:
            while work:
                dec = work.pop()
                fr = Frame(dec, self.nfresh)
                self.frames.append(fr)
                self.solver.push()
                self.restore(snap)
                try:
                    try:
                        r = ("normal", thunk())
                    except Infeasible:
                        r = None
                    except (Ret, Brk, Cnt, PyRaise) as e:
                        r = (type(e).__name__, e)
                    if r is not None:
                        out.append((list(fr.conds), r, collect()))
                finally:
                    self.solver.pop()
                    self.frames.pop()
                    # equalities found under the assumptions of this path end with it
                    del self.apps[na:]
                    del self.fapps[nf:]
                work.extend(fr.pending)
                if len(out) > limit:
                    raise Unsupported("too many paths")
        finally:
            self.restore(snap)
        self.stats.paths += len(out)
        return out

    def analyse(self, thunk, collect, limit=400):
        """sub_explore from states that are not known to occur: obligations are not recorded"""
        self.quiet += 1
        try:
            return self.sub_explore(thunk, collect, limit)
        finally:
            self.quiet -= 1

    # ---- obligations
    quiet = 0        # > 0 while a loop is analysed: its rounds are run from states that are not known to occur

    def prove(self, name, goal):
        if self.quiet:
            return
        self.run.obligation(self, name, goal)

    def fail(self, name, why):
        """An obligation that is violated on this (feasible) path."""
        if self.quiet:
            return
        r = self.check()
        if r == z3.unsat:
            self.run.record(name, "discharged", "z3", 0, None)
        else:
            m = None
            try:
                m = str(self.solver.model()) if r == z3.sat else None
            except z3.Z3Exception:
                pass
            self.run.record(name, "failed", "z3", 0, "%s (%s) %s" % (why, r, m or ""))


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Redo(Exception):
    def __init__(self, lr):
        self.lr = lr


ENOUGH = 12


class Enough(Exception):
    """The unit has failed often enough."""


class Run:
    """All paths of one verification harness."""

    def __init__(self, name, interp_factory, opts=None):
        self.name = name
        self.stats = Stats()
        self.obls = {}
        self.opts = opts or {}
        self.factory = interp_factory
        self.unsupported = []
        self.assumptions = set()
        self.functions = set()
        self.covers = {}
        self.nfailed = 0

    def record(self, name, status, backend, dt, detail, goal=None):
        o = self.obls.setdefault(name, [])
        o.append(Obligation(name, status, backend, dt, detail, goal))
        if status != "discharged":
            self.nfailed += 1
            if self.nfailed >= ENOUGH:
                raise Enough()

    def obligation(self, ctx, name, goal):
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = ctx.rw(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.record(name, "discharged", "simplifier", time.time() - t0, None)
            return True
        ctx.solver.set("timeout", ctx.PROVE_MS if self.nfailed < 3 else 4000)
        ctx.solver.push()
        ctx.solver.add(z3.Not(goal))
        r = ctx.check()
        detail = None
        if r == z3.sat:
            try:
                detail = "counterexample: " + str(ctx.solver.model())[:4000]
            except z3.Z3Exception as e:
                detail = str(e)
        elif r == z3.unknown:
            detail = "unknown: " + ctx.solver.reason_unknown()
        if r != z3.unsat and self.opts.get("dump"):
            print("FAILED", name)
            print(ctx.solver.sexpr())
        be = "z3"
        if r == z3.unknown and self.nfailed < 3:
            r2 = cvc5_check(ctx.solver, 20)
            if r2 == "unsat":
                r = z3.unsat
                be = "cvc5"
        ctx.solver.pop()
        ctx.solver.set("timeout", ctx.FEAS_MS)
        self.record(name, "discharged" if r == z3.unsat else "failed", be, time.time() - t0, detail,
                    str(goal)[:2000] if r != z3.unsat else None)
        if r == z3.unsat:
            ctx.assume(goal)
        return r == z3.unsat

    def explore(self, thunk, limit=3000):
        """thunk(interp) builds its own state each time."""
        work = [[]]
        n = 0
        while work and self.nfailed < ENOUGH:
            dec = work.pop()
            ctx = Ctx(self)
            fr = Frame(dec, 0)
            ctx.frames.append(fr)
            it = self.factory(ctx)
            try:
                thunk(it)
                self.stats.paths += 1
            except Infeasible:
                pass
            except Unsupported as e:
                self.unsupported.append(str(e))
            except Enough:
                break
            except PyRaise as e:
                try:
                    ctx.fail(self.name + ".no-exception", "uncaught %s %s" % (e.exc, e.msg or ""))
                except Enough:
                    break
            work.extend(fr.pending)
            n += 1
            if n > limit:
                self.unsupported.append("more than %d paths" % limit)
                break
        return self


def cvc5_check(solver, tlimit):
    """Second opinion by cvc5 on the same query; only 'unsat' is used."""
    try:
        import cvc5
    except ImportError:
        return "unknown"
    try:
        txt = "(set-logic ALL)\n" + solver.to_smt2().replace("(set-info :status unknown)", "")
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption("tlimit-per", str(tlimit * 1000))
        slv.setOption("strings-exp", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            o = str(o).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception:
        return "unknown"

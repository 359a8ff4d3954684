"""While loops by invariant and variant."""
import ast
import z3
from pyvc.vals import *
from pyvc.interp import assigned_names
from pyvc.ctx import Brk, Cnt


def str_loop(P, fname, N, step_facts, variant=True):
    """a loop over one text: N(state) is invariant, len(state) decreases

    N(term) -> term: the specified answer seen from a state; step_facts(it, term): defining equation of N at that state"""
    def hook(it, s, env):
        if not isinstance(s, ast.While):
            return None

        def run():
            mods = assigned_names(s.body + [ast.Expr(s.test)])
            state = []
            for n in mods:
                v = it.lookup(env, n) if n in env.vars else None
                if n in env.vars and isinstance(it.force(env.vars[n]), (str, Str)):
                    state.append(n)
                elif n in env.vars:
                    raise Unsupported("loop over %r" % n)
            if len(state) != 1:
                raise Unsupported("loop over other than one text: %s" % state)
            n = state[0]
            start = it.force(env.vars[n])
            exp = it.ctx.ghost["expected"]
            it.ctx.prove("loop-invariant-holds-on-entry", N(sterm(start)) == exp)
            cur = it.ctx.fresh("cur", z3.StringSort())
            env.vars[n] = Str([Atom(cur)])
            for m in mods:
                if m != n:
                    env.vars.pop(m, None)
            it.ctx.assume(N(cur) == exp)
            step_facts(it, cur)
            if not it.ctx.branch(it.truth(it.eval(s.test, env))):
                it.exec_block(s.orelse, env)
                return
            try:
                it.exec_block(s.body, env)
            except Brk:
                return
            except Cnt:
                pass
            new = sterm(it.force(env.vars[n]))
            it.ctx.prove("loop-invariant-is-kept", N(new) == exp)
            it.ctx.prove("loop-ends:text-gets-shorter", z3.Length(new) < z3.Length(cur))
            raise Infeasible()
        return run
    P.while_hooks.setdefault(fname, []).append(hook)

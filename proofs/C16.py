"""C16: the regex helpers equal the regex engine, except that timeouts give a default."""
from proofs.common import *

ASSUMPTIONS = ["the engine raises TimeoutError, raises another error, or returns a value determined by operation, pattern, text and options",
               "finditer of the engine may raise TimeoutError while it is iterated, too"]
TRUSTED = ["model of the regex engine: any outcome per call"]

RES = TOpaque("EngineResult")
PAT = TOpaque("Pattern")
OPTS = {"search": ["flags"], "match": ["flags"], "split": ["maxsplit", "flags"], "sub": ["count", "flags"], "finditer": ["flags"]}
FIRST = {"search": ["pattern", "string"], "match": ["pattern", "string"], "split": ["pattern", "string"], "sub": ["pattern", "repl", "string"], "finditer": ["pattern", "string"]}
EXTRA = ["pos", "endpos", "partial", "concurrent"]
OTHER = ["RegexError", "ValueError", "TypeError", "KeyError", "OSError", "RecursionError"]


def key(it, v):
    v = it.force(v)
    if v is None:
        return z3.StringVal("none")
    if isinstance(v, (bool, z3.BoolRef)):
        return it.to_term(BOOL, v)
    if isinstance(v, (int, z3.ArithRef)):
        return it.to_term(INT, v)
    if isinstance(v, (str, Str)):
        return sterm(v)
    if isinstance(v, OpaqueV):
        return v.term
    raise Unsupported("engine argument %r" % (v,))


class EngineIter(Value):
    def __init__(self, term, lazy):
        self.term, self.lazy = term, lazy

    def iterate_(self, it):
        if it.ctx.branch(self.lazy):
            it.ctx.ghost["timeout"] = True
            raise PyRaise("TimeoutError")
        return ("sym", RES, self.term, lambda x: it.from_term(RES, x))

    def isinstance_(self, it, n):
        return False


def outcome(name, kw, it):
    """what the engine does for these arguments: predicates and value"""
    names = sorted(k for k in kw if k != "timeout" and kw[k] is not None)
    # options at their default are the same as options that are not given
    names = [n for n in names if not (n in ("flags", "maxsplit", "count") and isinstance(kw[n], int) and kw[n] == 0)]
    ts = [key(it, kw[n]) for n in names]
    tag = name + "(" + ",".join(names) + ")"
    # an absent option equals its default: make it explicit
    for n in OPTS[name]:
        if n not in names:
            names.append(n)
            ts.append(z3.IntVal(0))
    ts = [t for _, t in sorted(zip(names, ts))]
    tag = name + "(" + ",".join(sorted(names)) + ")" + ",".join(str(t.sort()) for t in ts)
    mk = lambda p, s: z3.Function("engine_" + p + "_" + tag, *[t.sort() for t in ts], s)(*ts)
    sort = z3.SeqSort(sort_of(RES)) if name == "finditer" else z3.SeqSort(z3.StringSort()) if name == "split" else z3.StringSort() if name == "sub" else sort_of(TOpt(RES))
    return mk("timeout", z3.BoolSort()), mk("error", z3.IntSort()), mk("lazytimeout", z3.BoolSort()), mk("value", sort)


def engine(it, name, args, kw):
    kw = dict(kw)
    for n, v in zip(FIRST[name] + OPTS[name], args):
        kw[n] = v
    it.ctx.ghost["calls"] = it.ctx.ghost.get("calls", 0) + 1
    it.ctx.ghost["timeout_arg"] = kw.get("timeout")
    if name not in OPTS:
        raise Unsupported("engine operation " + name)
    to, er, lazy, val = outcome(name, kw, it)
    if it.ctx.branch(to):
        it.ctx.ghost["timeout"] = True
        raise PyRaise("TimeoutError")
    for i, e in enumerate(OTHER):
        if it.ctx.branch(er == i + 1):
            it.ctx.ghost["error"] = e
            raise PyRaise(e)
    if name == "finditer":
        return EngineIter(val, lazy)
    if name == "split":
        return it.from_term(TList(STR), val)
    if name == "sub":
        return it.from_term(STR, val)
    return it.from_term(TOpt(RES), val)


def unit(name, compiled, opts, dflt):
    def run(P):
        P.hooks["regex_call"] = engine
        P.hooks[("opaque_method", "Pattern")] = lambda it, v, n: BuiltinV("pattern." + n, lambda *a, **k: engine(it, n, (v,) + a, k)) if n in OPTS else None
        P.hooks[("opaque_isinstance", "Pattern")] = lambda it, v, n: n == "Pattern"
        P.hooks[("opaque_isinstance", "EngineResult")] = lambda it, v, n: n == "Match"

        def thunk(it):
            kw = {"pattern": sym(it, PAT, "pattern") if compiled else text("pattern"), "string": text("string")}
            if name == "sub":
                kw["repl"] = text("repl")
            for o in opts:
                kw[o] = z3.Int(o)
            given = dict(kw)
            call = dict(kw)
            if "timeout" in opts:
                del given["timeout"]
            none = dflt is None
            if not none:
                call["default"] = d = {"search": lambda: text("default"), "match": lambda: text("default"), "sub": lambda: text("default"),
                                       "split": lambda: sym(it, TList(STR), "default"), "finditer": lambda: sym(it, TList(RES), "default")}[name]()
                if name in ("search", "match"):
                    call["default"] = d = OpaqueV(RES, z3.Const("default", sort_of(RES)))
                    P.hooks[("opaque_truth", "EngineResult")] = lambda it, v: True
            else:
                d = None
            cover(it, name)
            f = it.prog.func(it, "rpl_regex.RegexRpl." + name)
            to, er, lazy, val = outcome(name, given, it)
            if name != "finditer":
                lazy = z3.BoolVal(False)
            pos = [call.pop(n) for n in FIRST[name]]
            try:
                r = it.call(f, pos, call)
            except PyRaise as e:
                exp = z3.And(z3.Not(to), z3.Or(*[er == i + 1 for i, n in enumerate(OTHER) if n == e.exc])) if e.exc in OTHER else z3.BoolVal(False)
                it.ctx.prove("only-errors-of-the-engine-other-than-timeouts-reach-the-caller", exp)
                return
            ta = it.ctx.ghost.get("timeout_arg")
            it.ctx.prove("the-engine-gets-the-time-limit", ta is not None and (it.eq(ta, z3.Int("timeout")) if "timeout" in opts else True))
            it.ctx.prove("other-errors-are-passed-on", z3.Or(to, z3.And(*[er != i + 1 for i in range(len(OTHER))])))
            timed = z3.Or(to, lazy)
            if it.ctx.branch(timed):
                if name == "finditer":
                    got = it.to_term(TList(RES), B.to_list(it, r)) if not (isinstance(r, B.IterV) and r.lst.items == []) else z3.Empty(val.sort())
                    exp = z3.Empty(val.sort()) if none else it.to_term(TList(RES), d)
                    it.ctx.prove("a-timeout-gives-the-default", got == exp)
                elif name == "split":
                    it.ctx.prove("a-timeout-gives-the-default", it.to_term(TList(STR), r) == (z3.Empty(val.sort()) if none else it.to_term(TList(STR), d)))
                elif name == "sub":
                    eqv(it, "a-timeout-gives-the-default", r, "" if none else d)
                else:
                    it.ctx.prove("a-timeout-gives-the-default", (r is None) if none else it.to_term(TOpt(RES), r) == it.to_term(TOpt(RES), d))
            else:
                if name == "finditer":
                    x = it.iterate(r)
                    got = x[2] if x[0] == "sym" else it.to_term(TList(RES), it.mklist(x[1])) if x[1] else z3.Empty(val.sort())
                elif name == "split":
                    got = it.to_term(TList(STR), r)
                elif name == "sub":
                    got = it.to_term(STR, r)
                else:
                    got = it.to_term(TOpt(RES), r)
                it.ctx.prove("result-is-the-one-of-the-engine", got == val)
        return P.run(name, thunk)
    return ("%s[%s%s%s]" % (name, "compiled" if compiled else "text", "".join("," + o for o in opts), "" if dflt is None else ",default"), run)


def units(tier):
    out = []
    for n in OPTS:
        for compiled in (False, True):
            for opts in ([], OPTS[n] + ["timeout"], ["pos", "endpos"], OPTS[n] + ["pos", "partial"]):
                if compiled and "flags" in opts:
                    opts = [o for o in opts if o != "flags"]
                if n == "split" and "endpos" in opts or n == "split" and "pos" in opts:
                    opts = [o for o in opts if o not in ("pos", "endpos", "partial")] + ["concurrent"]
                for d in (None, "d"):
                    if tier == "quick" and d and opts not in ([], OPTS[n] + ["timeout"]):
                        continue
                    out.append(unit(n, compiled, list(opts), d))
    return out

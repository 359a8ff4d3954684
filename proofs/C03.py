"""C03: inline conditionals resolve to the branch that was selected."""
import itertools
from proofs.common import *
from pyvc import rx
from pyvc.ctx import Run

LEVEL = "proof"
ASSUMPTIONS = ["a plain argument holds no quotes, commas, parentheses or line breaks",
               "blanks around the call and behind its opening bracket and its commas only",
               "the last argument of the data store is d"]
TRUSTED = ["exact automaton decisions about the patterns (pyvc/rx.py, cross-checked against the real engine)"]
NOTE = "every helper, both modes, both quote characters, for arguments of any length; optional arguments present or not; texts without a call in general"

ARG = CharSet.of(",'\"()\n").inv()
BL = CharSet.of(" \t")
D = None            # the data store, written unquoted
# helper -> (arguments, position of the value when true, when false); None is the empty text
FORMS = {
    "bb.utils.contains": [(["v", "c", "t", "f", D], 2, 3)],
    "bb.utils.contains_any": [(["v", "c", "t", "f", D], 2, 3)],
    "bb.utils.filter": [(["v", "c", D], 0, "")],
    "oe.utils.conditional": [(["v", "c", "t", "f", D], 2, 3)],
    "oe.utils.ifelse": [(["v", "t", "f"], 1, 2)],
    "oe.utils.any_distro_features": [([D, "c", "t", "f"], 2, 3), ([D, "c", "t"], 2, ""), ([D, "c"], "1", "")],
    "oe.utils.all_distro_features": [([D, "c", "t", "f"], 2, 3), ([D, "c", "t"], 2, ""), ([D, "c"], "1", "")],
    "oe.utils.vartrue": [(["v", "t", "f", D], 1, 2)],
    "oe.utils.less_or_equal": [(["v", "c", "t", "f", D], 2, 3)],
    "oe.utils.version_less_or_equal": [(["v", "c", "t", "f", D], 2, 3)],
    "oe.utils.both_contain": [(["v", "w", "c", D], 2, "")],
}


def blanks(n):
    return word(n, BL)


def call_text(it, name, args, quotes):
    vals = []
    parts = ["${@", blanks("s0"), name + "(", blanks("s1")]
    k = 0
    for i, a in enumerate(args):
        if i:
            parts += [",", blanks("b%d" % i)]
        if a is D:
            parts.append("d")
            vals.append("d")
            continue
        q = quotes[k % len(quotes)]
        k += 1
        # an argument may be empty, where it is a value
        w = [word("%s%d" % (a, i), ARG)]
        vals.append(mkstr(w))
        parts += [q] + w + [q]
    parts += [")", blanks("s2"), "}"]
    return mkstr(parts), vals


def merge(f):
    """a helper that gives the same on all of its paths is one step"""
    return (f.qual or "").startswith("inlinerep.") and f.name != "inlinerep"


def run_helper(name, cases):
    def run(P):
        P.merge_calls = merge
        P.hooks["contains_open"] = True
        def one(it, c):
            (args, t, f), quotes, neg = c
            txt, vals = call_text(it, name, args, quotes)
            cover(it, name)
            got = it.call(it.prog.module_get(it, "inlinerep", "inlinerep")[0], [txt, neg], {})
            pick = f if neg else t
            exp = pick if isinstance(pick, str) else vals[pick]
            tag = "[%s,%d arguments,%s]" % (name, len(args), "negative" if neg else "positive")
            eqv(it, "the-selected-branch" + tag, got, exp)
        return each(P, name, cases, one)
    return run


def unit_getvar(P):
    P.merge_calls = merge
    P.hooks["contains_open"] = True

    def one(it, c):
        q, extra, neg = c
        v = word("v", ARG, 1)
        parts = ["${@", blanks("s0"), "d.getVar(", blanks("s1"), q, v, q]
        for i, e in enumerate(extra):
            parts += [",", blanks("b%d" % i), e]
        parts += [")", blanks("s2"), "}"]
        txt = mkstr(parts)
        cover(it, "getVar")
        got = it.call(it.prog.module_get(it, "inlinerep", "inlinerep")[0], [txt, neg], {})
        eqv(it, "a-reference-to-the-variable[%s,%s]" % ("".join(extra), neg), got, mkstr(["${", v, "}"]))
    return each(P, "d.getVar", [(q, e, n) for q in "'\"" for e in ((), ("True",), ("False",), ("True", "False"), ("expand=True",)) for n in (False, True)], one)


NAMES = sorted(FORMS) + ["d.getVar"]


def unit_nothing(P):
    """no call: nothing is resolved. Each pattern only matches texts with a call of one of the helpers."""
    P.merge_calls = merge
    P.hooks["contains_open"] = True
    CALLS = [n + "(" for n in NAMES]
    RS = z3.ReSort(z3.StringSort())
    full = z3.Full(RS)
    seen = {}

    def stripped(v):
        """the block, or what strip leaves of it: it holds no call either"""
        if isinstance(v, str) or len(v.parts) != 1:
            return False
        t = v.parts[0].term
        while z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith(("py_lstrip_", "py_rstrip_")):
            t = t.arg(0)
        return z3.is_const(t) and t.decl().name() == "block"

    def rc(it, name, args, kw):
        if name != "match":
            return NOT
        pat = args[0]
        txt = args[1]
        if not isinstance(pat, PatternV) or not stripped(txt):
            return NOT
        key = (pat.pattern, pat.flags)
        if key not in seen:
            r = rx.z3re(pat.pattern, pat.flags, name)
            if r is None:
                # an optional tail does not matter for the call itself
                return NOT
            has = z3.Union(*[z3.Concat(full, z3.Re(strval(c)), full) for c in CALLS])
            s = z3.Solver()
            s.set("timeout", 20000)
            x = z3.String("any")
            s.add(z3.InRe(x, r), z3.Not(z3.InRe(x, has)))
            seen[key] = s.check()
            it.ctx.run.record("pattern-needs-a-call: " + pat.pattern[:60], "discharged" if seen[key] == z3.unsat else "failed", "z3 (regular languages)", 0,
                              None if seen[key] == z3.unsat else str(seen[key]))
        # the text holds no call, so it is not in the language
        return None
    P.hooks["regex_call"] = rc

    def one(it, neg):
        txt = text("block")
        cover(it, "nothing")
        got = it.call(it.prog.module_get(it, "inlinerep", "inlinerep")[0], [txt, neg], {})
        it.ctx.prove("not-resolvable", z3.BoolVal(got is None))
    return each(P, "no-call", [False, True], one)


def units(tier):
    out = []
    for name, forms in FORMS.items():
        qs = ["'", '"', "'\""] + (["\"'", "''\"", "\"\"'"] if tier == "thorough" else [])
        cases = [(fm, q, n) for fm in forms for q in qs for n in (False, True)]
        out.append((name, run_helper(name, cases)))
    out.append(("d.getVar", unit_getvar))
    out.append(("no-call", unit_nothing))
    return out

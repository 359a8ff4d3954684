"""C21: values and operators of an assignment are reported as written."""
import itertools
from proofs.common import *
from pyvc import rx

ASSUMPTIONS = ["a value is taken apart at blanks and at the mark left by a continued line, unless an x follows the mark (known finding)"]
NOTE = "for all values, operators and override lists; operators by case distinction, override lists of any length"
TRUSTED = ["regex.split by a pattern that matches exactly the single characters of a class gives the pieces between them"]

BLANK = r"\s|\x1b(?!x)"
SPEC = '''
import regex

def elements(stripped):
    return [x for x in regex.split(r"\\s|\\x1b(?!x)", stripped) if x]

def appending(op, subs):
    return op in ["+=", "=+", ".=", "=."] or "append" in subs or "prepend" in subs

def immediate(subs):
    return not ("append" in subs or "prepend" in subs or "remove" in subs)

def modifiers(rawop, op, subs):
    return ([rawop] if op in ["+=", "=+", ".=", "=."] else []) + [x for x in ["append", "prepend", "remove"] if x in subs]

def distro(subs, known):
    return next((x for x in subs if x in known), "")

CLASSES = ["class-native", "class-nativesdk", "class-cross", "class-target"]

def class_override(subs):
    return next((x for x in subs if x in CLASSES), "")

def machine(subs):
    return next((x for x in subs if x not in CLASSES + ["append", "prepend", "remove", "machine"]), "")
'''
OPS = ["=", "+=", "=+", ".=", "=.", "?=", "??=", ":="]
Q = CharSet.of('"')


def same_breaks(p1, f1, p2):
    """do both patterns match exactly the same single characters, whatever follows?"""
    try:
        a, b = rx.Prog(p1, f1), rx.Prog(p2, 0)
        reps = {"x", "a", "\x1b", " ", "\t", "\n"}
        cuts = set()
        for p in (a, b):
            for s in p.sets:
                for lo, hi in s.r:
                    cuts |= {lo, hi + 1, lo - 1, hi}
            for ins in p.code:
                for z in ins[1:]:
                    if isinstance(z, str) and len(z) == 1:
                        cuts |= {ord(z) - 1, ord(z), ord(z) + 1}
        reps |= {chr(c) for c in cuts if 0 <= c <= 0x10ffff and not 0xd800 <= c < 0xe000}

        def what(p, f, s):
            r = rx.decide(p, f, s, "match")
            if r.matched is None:
                raise rx.Undecided("break")
            return r.position(1) if r.matched else None
        reps = sorted(reps)
        for c in reps:
            for d in [""] + reps:
                x, y = what(p1, f1, c + d), what(p2, 0, c + d)
                if x != y:
                    return False
        return what(p1, f1, "") is None
    except rx.Undecided:
        return False


def break_hook(P, blank=BLANK):
    cache = {}

    def h(it, name, args, kw):
        if name != "split":
            return NotImplemented
        names = ["pattern", "string", "maxsplit", "flags"]
        kw = dict(kw)
        kw.update(zip(names, args))
        pat, flags = kw["pattern"], kw.get("flags", 0) or 0
        if isinstance(pat, PatternV):
            pat, flags = pat.pattern, pat.flags
        pat = it.force(pat)
        if not isinstance(pat, str) or kw.get("maxsplit", 0) not in (0, None):
            return NotImplemented
        k = (pat, flags)
        if k not in cache:
            cache[k] = same_breaks(pat, flags, blank)
        if not cache[k]:
            return NotImplemented
        return it.cell(ListV(et=STR, seq=z3.Function("pieces_between_blanks", z3.StringSort(), z3.SeqSort(z3.StringSort()))(sterm(it.force(kw["string"])))))
    P.hooks["regex_call"] = h


def variable(it, value, op):
    C = it.prog.cls(it, "Variable")
    v = it.call(C, ["A", value, op, text("origin"), 1, 1, text("raw"), text("realraw"), it.mklist([]), False], {})
    return v


def subitems(P):
    """contract: the overrides (C13) are any list"""
    def subs(it, b):
        return sym(it, TList(STR), "subs")
    P.contracts["cls_item.Variable.SubItems"] = subs
    P.overrides[("constants", "CONSTANTS")] = lambda it: it.cell(Obj(it.prog.cls(it, "Constants")))
    P.contracts["constants.Constants.DistrosKnown"] = lambda it, b: sym(it, TList(STR), "known")


def unit_values(P):
    P.add_spec("spec", SPEC)
    break_hook(P)
    end = ANYCHAR - Q - WS
    inner = ANYCHAR - Q
    bodies = {
        "empty": [],
        "one": [word("b0", end, 1)],
        "more": [word("b0", end, 1), word("mid"), word("b1", end, 1)],
        "quoted": [word("b0", inner, 1), word("mid"), word("b1", inner, 1)],
        "quoted-one": [word("b0", inner, 1)],
    }
    cases = [(w1, q1, n, q2, w2) for n in bodies for w1 in (0, 1) for w2 in (0, 1) for q1 in (0, 1, 2) for q2 in (0, 1, 2)
             if not n.startswith("quoted") or (q1 and q2)]

    def one(it, c):
        w1, q1, n, q2, w2 = c
        if n == "empty" and (q1 and q2):
            return
        body = bodies[n]
        quotes = lambda k, i: [] if k == 0 else ['"'] if k == 1 else ['"', word("q%d" % i, Q, 1)]
        parts = ([word("w1", WS, 1)] if w1 else []) + quotes(q1, 1) + body + quotes(q2, 2) + ([word("w2", WS, 1)] if w2 else [])
        if n == "empty" and not q1 and not q2:
            parts = parts[:1]
        value = mkstr(parts)
        v = variable(it, value, " = ")
        cover(it, "value")
        tag = "[%s]" % ",".join(map(str, c))
        core = mkstr(body)
        eqv(it, "stripped-value" + tag, it.force(it.getattr(v, "VarValueStripped")), core)
        eqv(it, "value-as-written" + tag, it.force(it.getattr(v, "VarValue")), value)
        got = it.call(it.getattr(v, "get_items"), [], {})
        exp = spec(it, "spec", "elements", core)
        same_list(it, "elements" + tag, data_of(it, got), data_of(it, exp), STR)
    return each(P, "values", cases, one)


def unit_operators(P, part):
    P.add_spec("spec", SPEC)
    subitems(P)
    cases = [(o, l, r) for o in OPS + [None] for l in (0, 1) for r in (0, 1)]

    def one(it, c):
        o, l, r = c
        core = o if o is not None else mkstr([word("o", WS.inv(), 1)])
        if o is None:
            for x in OPS:
                it.ctx.assume(it.not_(it.eq(core, x)))
        op = mkstr(([word("w1", WS, 1)] if l else []) + [core] + ([word("w2", WS, 1)] if r else []))
        v = variable(it, text("value"), op)
        subs = sym(it, TList(STR), "subs")
        tag = "[%s]" % ",".join(map(str, c))
        cover(it, "operator")
        ask = lambda n: it.call(it.getattr(v, n), [], {})
        truth = lambda x: it.to_term(BOOL, x) if not isinstance(x, bool) else z3.BoolVal(x)
        it.ctx.prove("appending" + tag, truth(ask("IsAppend")) == truth(spec(it, "spec", "appending", core, subs)))
        it.ctx.prove("immediate" + tag, truth(ask("IsImmediateModify")) == truth(spec(it, "spec", "immediate", subs)))
        same_list(it, "modifiers" + tag, ask("AppendOperation"), spec(it, "spec", "modifiers", op, core, subs), STR)
        eqv(it, "operator-as-written" + tag, it.force(it.getattr(v, "VarOp")), op)
    return each(P, "operators", cases[part::2], one)


def unit_overrides(P):
    P.add_spec("spec", SPEC)
    subitems(P)

    def one(it, which):
        v = variable(it, text("value"), " = ")
        subs = sym(it, TList(STR), "subs")
        known = sym(it, TList(STR), "known")
        cover(it, "override")
        if which == "distro":
            eqv(it, "distro-override", it.call(it.getattr(v, "GetDistroEntry"), [], {}), spec(it, "spec", "distro", subs, known))
        elif which == "class":
            eqv(it, "class-override", it.call(it.getattr(v, "GetClassOverride"), [], {}), spec(it, "spec", "class_override", subs))
        else:
            eqv(it, "machine-override", it.call(it.getattr(v, "GetMachineEntry"), [], {}), spec(it, "spec", "machine", subs))
    return each(P, "overrides", ["distro", "class", "machine"], one)


def units(tier):
    return [("values", unit_values), ("operators-0", lambda P: unit_operators(P, 0)), ("operators-1", lambda P: unit_operators(P, 1)), ("overrides", unit_overrides)]

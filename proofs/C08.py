"""C08: expanding variables applies every operator in bitbake's order."""
from proofs.common import *
from proofs.C21 import break_hook, same_breaks
from pyvc import rx

SPEC = '''
def operate(op, old, value):
    """the value of a variable after one assignment; None stands for no value"""
    if op == "=" or op == ":=":
        return value
    if op == "?=" or op == "??=":
        return value if old is None else old
    before = "" if old is None else old
    if op == "+=":
        return before + " " + value
    if op == "=+":
        return value + " " + before
    if op == ".=":
        return before + value
    if op == "=.":
        return value + before
    return old

def immediate(d, items):
    for x in items:
        if is_unset(x):
            if not x.Flag:
                d.pop(x.VarName, None)
        elif x.IsImmediateModify():
            d[x.VarNameCompleteNoModifiers] = operate(x.VarOp.strip(), d.get(x.VarNameCompleteNoModifiers), value_of(x))

def added(x, old, value):
    if "append" in x.SubItems:
        return ("" if old is None else old) + value
    if "prepend" in x.SubItems:
        return value + ("" if old is None else old)
    return old

def additions(d, items):
    for x in items:
        if not is_unset(x) and not x.IsImmediateModify():
            d[x.VarNameCompleteNoModifiers] = added(x, d.get(x.VarNameCompleteNoModifiers), value_of(x))

def without(old, value):
    """the text without every element that value names"""
    names = pieces(value)
    return "".join(p for p in pieces_and_blanks("" if old is None else old) if p not in [n for n in names if n])

def removals(d, items):
    for x in items:
        if not is_unset(x) and not x.IsImmediateModify():
            old = d.get(x.VarNameCompleteNoModifiers)
            d[x.VarNameCompleteNoModifiers] = without(old, value_of(x)) if "remove" in x.SubItems else old

def elements(text):
    return [p for p in pieces(text) if p]

def result(d, expand):
    out = {}
    for k, v in d.items():
        n = expand(k)
        out[n] = out.get(n, []) + elements(expand("" if v is None else v))
    return out

def lines(a, b):
    return sorted(a + b, key=lambda x: x.Line)

def run(defaults, base, variables, unsets, expand):
    d = {"PN": defaults[0], "PV": defaults[1] or "1.0", "BPN": defaults[2]}
    for k, v in base.items():
        d[k] = v
    items = lines(variables, unsets)
    immediate(d, items)
    additions(d, items)
    removals(d, items)
    return result(d, expand)
'''
ASSUMPTIONS = ["the visible statements are what GetItemsFor answers (C05)", "sorted() is stable",
               "a value is taken apart at blanks and at the mark left by a continued line (C21)"]
TRUSTED = ["contracts: GetItemsFor (C05), GuessRecipeName, GuessRecipeVersion, GuessBaseRecipeName (C12), _ReverseInlineBlock (C02), ExpandTerm (C07), "
           "IsImmediateModify (C21), names and overrides of an assignment (C13)",
           "regex.split by a pattern that matches exactly the single characters of a class gives the pieces between them, with a group the characters too"]
NOTE = "for any sequence of assignments and unsets of any length, by induction over the statements"
BLANKS = r"\s|\x1b"


def blanks_hook(P):
    break_hook(P)
    inner = P.hooks["regex_call"]
    cache = {}

    def ok(pat, flags):
        # one group around the whole match, the same single characters
        if not same_breaks(pat, flags, BLANKS):
            return False
        try:
            p = rx.Prog(pat, flags)
            if p.groups != 2:
                return False
            for c in " \t\n\x1b\x0b\u2003":
                r = rx.decide(pat, flags, c, "match")
                if not r.matched or r.position(2) != r.position(0) or r.position(3) != r.position(1):
                    return False
            return True
        except rx.Undecided:
            return False

    def h(it, name, args, kw):
        if name == "split":
            k2 = dict(kw)
            k2.update(zip(["pattern", "string", "maxsplit", "flags"], args))
            pat, flags = k2["pattern"], k2.get("flags", 0) or 0
            if isinstance(pat, PatternV):
                pat, flags = pat.pattern, pat.flags
            pat = it.force(pat)
            if isinstance(pat, str) and k2.get("maxsplit", 0) in (0, None):
                if (pat, flags) not in cache:
                    cache[pat, flags] = ok(pat, flags)
                if cache[pat, flags]:
                    return seqof(it, "pieces_and_blanks", k2["string"])
        return inner(it, name, args, kw)
    P.hooks["regex_call"] = h


def seqof(it, name, s):
    return it.cell(ListV(et=STR, seq=z3.Function(name, z3.StringSort(), z3.SeqSort(z3.StringSort()))(sterm(it.force(s)))))


FIELDS = {"VarName": STR, "VarOp": STR, "VarNameCompleteNoModifiers": STR, "Flag": STR, "SubItems": TList(STR), "Line": INT, "Origin": STR}


def program(P, filename):
    P.add_spec("spec", SPEC)
    blanks_hook(P)
    P.field_types.update(Line=INT)
    unset = z3.Function("is_unset", Ref, z3.BoolSort())
    P.hooks["ref_isinstance"] = lambda it, v, c: unset(v.term) if c.name == "Unset" else None

    def imm(it, v):
        return BuiltinV("IsImmediateModify", lambda: z3.Function("is_immediate", Ref, z3.BoolSort())(v.term))
    item_attrs(P, FIELDS, {"IsImmediateModify": imm})

    def items(it, b):
        c = it.force(b["classifier"])
        it.ctx.prove("asks-for-variables-and-unsets", z3.BoolVal(c in ("Variable", "Unset")))
        eqv(it, "asks-for-the-file", b["filename"], filename(it))
        if c == "Variable":
            eqv(it, "passes-attribute", b["attribute"], sym(it, TOpt(STR), "attribute"))
            eqv(it, "passes-value", b["attributeValue"], sym(it, TOpt(STR), "attval"))
            it.ctx.prove("passes-nolink", it.to_term(BOOL, b["nolink"]) == z3.Bool("nolink"))
        SL = it.getattr(it.prog.cls(it, "Stash"), "StashList")
        return it.call(SL, [b["self"], sym(it, TList(ITEM), c)], {})
    P.contracts["cls_stash.Stash.GetItemsFor"] = items
    S = z3.StringSort()
    one = lambda n: lambda it, b: Str([Atom(z3.Function(n, S, S)(sterm(it.force(b["_file"]))))])
    P.contracts["cls_stash.Stash.GuessRecipeName"] = one("recipe_name")
    P.contracts["cls_stash.Stash.GuessBaseRecipeName"] = one("base_name")
    P.contracts["cls_stash.Stash.GuessRecipeVersion"] = lambda it, b: it.from_term(TOpt(STR), z3.Function("version", S, sort_of(TOpt(STR)))(sterm(it.force(b["_file"]))))
    P.contracts["cls_stash.Stash._ReverseInlineBlock"] = lambda it, b: Str([Atom(z3.Function("value_of", Ref, S)(it.force(b["varref"]).term))])
    P.contracts["cls_stash.Stash.ExpandTerm"] = lambda it, b: Str([Atom(z3.Function("expanded", S, S, S)(sterm(it.force(b["_file"])), sterm(it.force(b["value"]))))])
    P.overrides[("constants", "CONSTANTS")] = lambda it: it.cell(Obj(it.prog.cls(it, "Constants")))
    P.contracts["constants.Constants.SetsBase"] = lambda it, b: sym(it, TDict(STR, STR), "base")
    P.overrides[("spec", "is_unset")] = lambda it: BuiltinV("is_unset", lambda v: unset(it.force(v).term))
    P.overrides[("spec", "value_of")] = lambda it: BuiltinV("value_of", lambda v: Str([Atom(z3.Function("value_of", Ref, S)(it.force(v).term))]))
    P.overrides[("spec", "pieces")] = lambda it: BuiltinV("pieces", lambda s: seqof(it, "pieces_between_blanks", s))
    P.overrides[("spec", "pieces_and_blanks")] = lambda it: BuiltinV("pieces_and_blanks", lambda s: seqof(it, "pieces_and_blanks", s))


def unit(P):
    program(P, lambda it: text("filename"))
    S = z3.StringSort()

    def thunk(it):
        st = stash(it)
        fn = text("filename")
        cover(it, "expand")
        got = it.call(it.getattr(st, "ExpandVar"), [], dict(filename=fn, attribute=sym(it, TOpt(STR), "attribute"), attributeValue=sym(it, TOpt(STR), "attval"), nolink=z3.Bool("nolink")))
        t = z3.String("filename")
        defaults = (Str([Atom(z3.Function("recipe_name", S, S)(t))]), it.from_term(TOpt(STR), z3.Function("version", S, sort_of(TOpt(STR)))(t)), Str([Atom(z3.Function("base_name", S, S)(t))]))
        ex = BuiltinV("expand", lambda v: Str([Atom(z3.Function("expanded", S, S, S)(t, sterm(it.force(v))))]))
        exp = spec(it, "spec", "run", defaults, sym(it, TDict(STR, STR), "base"), sym(it, TList(ITEM), "Variable"), sym(it, TList(ITEM), "Unset"), ex)
        ty = TDict(STR, TList(STR))
        it.ctx.prove("every-operator-in-order", it.to_term(ty, it.force(got)) == it.to_term(ty, it.force(exp)))
    return P.run("ExpandVar", thunk)


def units(tier):
    return [("ExpandVar", unit)]

"""C18: facts derived about a recipe follow from its visible statements."""
from proofs.common import *
from proofs.C21 import break_hook

SPEC = '''
def is_image(inherits, classes, variables, items):
    return any(c in classes for i in inherits for c in i.get_items()) or any(True for v in variables for _ in items(v))

def is_group(inherits):
    return any("packagegroup" in i.get_items() for i in inherits)

def standard(name):
    out = []
    for n in ["${PN}", name]:
        out += [n, n + "-ptest", n + "-src", n + "-dbg", n + "-staticdev", n + "-dev", n + "-doc", n + "-locale"]
    return out

def valid(k, name, texts, strip):
    return (k in standard(name)
            or any(p != "" and k == p.replace("${PN}", "" if strip else "${PN}") for t in texts for p in pieces(t))
            or any(p != "" and k == p.replace("${PN}", "" if strip else name) for t in texts for p in pieces(t)))

def resource(k, name, values, options):
    return k == name or any(p != "" and "name" in options(p) and k == options(p)["name"].replace("${PN}", name) for t in values for p in pieces(t))

def dynamic(k, texts):
    return any(p != "" and k == p for t in texts for p in pieces(t))

def is_dynamic(patterns, name, matches):
    return any(matches(p, name) for p in patterns)
'''

ASSUMPTIONS = ["the visible statements are what GetItemsFor answers (C05), elements of an inherit what get_items answers (C21)",
               "constant tables hold lists of text (C11)"]
TRUSTED = ["contracts: GetItemsFor (C05), ExpandTerm (C07), GuessRecipeName (C12), GetScrComponents (C15), get_items (C21), constant tables (C11)"]
NOTE = "for any set of visible statements, any constants and any values"
FILE = "thefile"


def program(P):
    P.add_spec("spec", SPEC)
    break_hook(P, r"\s|\x1b")
    def items(it, b):
        v = lambda x: it.force(b[x])
        a, av = v("attribute"), v("attributeValue")
        it.ctx.prove("asks-for-the-statements-visible-to-the-file", it.eq(v("filename"), text(FILE)))
        nl = v("nolink")
        it.ctx.prove("asks-for-linked-files-too", z3.BoolVal(nl is False or nl is None))
        return visible(it, v("classifier"), a, av)
    P.contracts["cls_stash.Stash.GetItemsFor"] = items
    P.contracts["cls_stash.Stash.GuessRecipeName"] = lambda it, b: text("recipename")
    def expand(it, b):
        sp = it.force(b["spare"])
        keep = "none" if sp is None else ",".join(B.to_list(it, sp).items)
        it.ctx.prove("expands-for-the-file", it.eq(b["_file"], text(FILE)))
        return Str([Atom(expf(keep)(sterm(it.force(b["value"]))))])
    P.contracts["cls_stash.Stash.ExpandTerm"] = expand
    P.contracts["cls_stash.Stash.GetScrComponents"] = lambda it, b: it.mkdict([["scheme", text("scheme")], ["src", text("src")], ["options", options(it, b["string"])]])
    P.field_types.update(VarValueStripped=STR, Line=INT)
    def get_items(it, v):
        return BuiltinV("get_items", lambda *a, **k: it.from_term(TList(STR), z3.Function("elements_of", Ref, sort_of(TList(STR)))(v.term)))
    item_attrs(P, {"VarValueStripped": STR, "VarValue": STR, "Line": INT, "VarName": STR}, {"get_items": get_items})
    P.overrides[("constants", "CONSTANTS")] = lambda it: it.cell(Obj(it.prog.cls(it, "Constants")))
    P.contracts["constants.Constants.ImagesClasses"] = lambda it, b: sym(it, TList(STR), "image_classes")
    P.contracts["constants.Constants.ImagesVariables"] = lambda it, b: sym(it, TList(STR), "image_variables")


def expf(keep):
    return z3.Function("expanded_keeping_" + keep, z3.StringSort(), z3.StringSort())


def options(it, s):
    return it.from_term(TDict(STR, STR), z3.Function("options_of", z3.StringSort(), sort_of(TDict(STR, STR)))(sterm(it.force(s))))


def visible(it, cls, att, val):
    S = z3.StringSort()
    f = z3.Function("visible", S, S, S, sort_of(TList(ITEM)))
    t = lambda x: strval("<none>") if x is None else sterm(x)
    return it.from_term(TList(ITEM), f(t(cls), t(att), t(val)))


def pieces(it):
    def f(s):
        return it.cell(ListV(et=STR, seq=z3.Function("pieces_between_blanks", z3.StringSort(), z3.SeqSort(z3.StringSort()))(sterm(it.force(s)))))
    return f


def call(it, st, name, *args):
    return it.force(it.call(it.getattr(st, name), list(args), {}))


def iff(it, name, a, b):
    t = lambda x: it.to_term(BOOL, x) if not isinstance(x, bool) else z3.BoolVal(x)
    it.ctx.prove(name, t(it.truth(a)) == t(it.truth(b)))


def unit(name, fn):
    def run(P):
        program(P)
        P.overrides[("spec", "pieces")] = lambda it: BuiltinV("pieces", pieces(it))
        return P.run(name, fn)
    return (name, run)


def image(it):
    st = stash(it)
    cover(it, "image")
    got = call(it, st, "IsImage", text(FILE))
    var = lambda v: visible(it, "Variable", "VarName", it.force(v))
    exp = spec(it, "spec", "is_image", visible(it, "Inherit", None, None), sym(it, TList(STR), "image_classes"), sym(it, TList(STR), "image_variables"),
               BuiltinV("items", var))
    iff(it, "an-image-exactly-by-class-or-variable", got, exp)


def group(it):
    st = stash(it)
    cover(it, "group")
    iff(it, "a-group-exactly-by-class", call(it, st, "IsPackageGroup", text(FILE)), spec(it, "spec", "is_group", visible(it, "Inherit", None, None)))


def member(it, got, k):
    return it.contains(got, k)


def packages(strip):
    def run(it):
        st = stash(it)
        cover(it, "packages")
        got = call(it, st, "GetValidPackageNames", text(FILE), strip) if strip is not None else call(it, st, "GetValidPackageNames", text(FILE))
        k = text("k")
        both = []
        for v in ("PACKAGES", "PACKAGE_BEFORE_PN"):
            both.append(spec(it, "spec2", "expanded", visible(it, "Variable", "VarName", v), BuiltinV("ex", lambda s: Str([Atom(expf("PN")(sterm(it.force(s))))]))))
        ts = spec(it, "spec2", "join", both[0], both[1])
        iff(it, "exactly-the-standard-names-and-the-elements", member(it, got, k), spec(it, "spec", "valid", k, text("recipename"), ts, bool(strip)))
    return run


SPEC2 = '''
def expanded(items, ex):
    return [ex(x.VarValueStripped) for x in items]

def join(a, b):
    return a + b
'''


def resources(it):
    st = stash(it)
    cover(it, "resources")
    got = call(it, st, "GetValidNamedResources", text(FILE))
    k = text("k")
    vals = spec(it, "spec2", "expanded", visible(it, "Variable", "VarName", "SRC_URI"), BuiltinV("same", lambda s: s))
    iff(it, "exactly-the-recipe-and-the-name-options", member(it, got, k),
        spec(it, "spec", "resource", k, text("recipename"), vals, BuiltinV("options", lambda s: options(it, s))))


def dynamic(it):
    st = stash(it)
    cover(it, "dynamic")
    got = call(it, st, "GetPackagesDynamic", text(FILE))
    k = text("k")
    vals = spec(it, "spec2", "expanded", visible(it, "Variable", "VarName", "PACKAGES_DYNAMIC"), BuiltinV("ex", lambda s: Str([Atom(expf("none")(sterm(it.force(s))))])))
    iff(it, "exactly-the-elements", member(it, got, k), spec(it, "spec", "dynamic", k, vals))


def is_dynamic(it):
    st = stash(it)
    cover(it, "is_dynamic")
    it.prog.contracts["cls_stash.Stash.GetPackagesDynamic"] = lambda it, b: sym(it, TSet(STR), "patterns")
    got = call(it, st, "IsDynamicPackage", text(FILE), text("name"))
    pats = B.to_list(it, sym(it, TSet(STR), "patterns"))
    m = BuiltinV("matches", lambda p, n: B.uf("rx_match", [sterm(it.force(p)), z3.IntVal(0), sterm(it.force(n))], z3.BoolSort()))
    iff(it, "exactly-if-a-pattern-matches", got, spec(it, "spec", "is_dynamic", pats, Str([Atom(expf("none")(z3.String("name")))]), m))


def units(tier):
    us = [unit("IsImage", image), unit("IsPackageGroup", group), unit("GetValidPackageNames", packages(None)), unit("GetValidPackageNames-strip", packages(True)),
          unit("GetValidNamedResources", resources), unit("GetPackagesDynamic", dynamic), unit("IsDynamicPackage", is_dynamic)]
    def with2(f):
        def g(P):
            P.add_spec("spec2", SPEC2)
            return f(P)
        return g
    return [(n, with2(f)) for n, f in us]

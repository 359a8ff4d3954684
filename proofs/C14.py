"""C14: layer lookups terminate and find the nearest match."""
from proofs.common import *
from proofs.loops import str_loop

ASSUMPTIONS = ["the file system does not change during a lookup", "os.path.dirname(p) is p or shorter than p", "names to look up are relative"]
TRUSTED = ["os.path.isfile, isdir and exists answer by the path only"]
NOTE = "for all paths and all directory trees; the loops by invariant (the specified answer of the remaining walk) and variant (length of the path)"

STR_ = z3.StringSort()
ROOT = z3.Function("spec_nearest_root_above", STR_, STR_)
HAS = z3.Function("spec_has_root_above", STR_, z3.BoolSort())


def fs(n, x):
    return z3.Function("fs_" + n, STR_, z3.BoolSort())(x)


def dirname(x):
    return z3.Function("py_dirname", STR_, STR_)(x)


def joinbase(x):
    return z3.Function("py_joinbase", STR_, STR_)(x)


def conf(x):
    return z3.Concat(joinbase(x), z3.StringVal("conf/layer.conf"))


def is_top(x):
    return dirname(x) == x


def spec_step(it, x):
    """nothing above the top, nor above what is no directory; else the parent if it is a root, else what is above it"""
    p = dirname(x)
    end = z3.Or(z3.Not(fs("isdir", x)), is_top(x))
    it.ctx.assume(HAS(x) == z3.And(z3.Not(end), z3.Or(fs("exists", conf(p)), HAS(p))))
    it.ctx.assume(ROOT(x) == z3.If(end, z3.StringVal(""), z3.If(fs("exists", conf(p)), p, ROOT(p))))


def program(P):
    def dirname_facts(it, x, t):
        it.ctx.assume(z3.Or(t == x, z3.Length(t) < z3.Length(x)))
    P.dirname_facts = dirname_facts


def unit_root(P):
    program(P)
    str_loop(P, "cls_stash.Stash.GetLayerRoot", ROOT, spec_step)

    def thunk(it):
        st = stash(it)
        name = text("name")
        n = sterm(name)
        start = z3.If(fs("isfile", n), dirname(n), n)
        dirname_of = dirname(n)
        it.ctx.ghost["expected"] = ROOT(start)
        spec_step(it, n)
        spec_step(it, dirname_of)
        cover(it, "root")
        got = it.call(it.getattr(st, "GetLayerRoot"), [name], {})
        it.ctx.prove("nearest-root-above-the-directory-or-nothing", it.to_term(STR, got) == ROOT(start))
    return P.run("GetLayerRoot", thunk)


def unit_find(P):
    program(P)
    name = Str([word("N0", CharSet.of("/").inv(), 1), word("N1")])

    def at(x):
        return z3.Concat(joinbase(x), sterm(name))

    def N(x):
        return z3.If(z3.Or(z3.Not(HAS(x)), z3.Not(fs("exists", at(ROOT(x))))), z3.StringVal(""), at(ROOT(x)))

    str_loop(P, "cls_stash.Stash.FindLocalOrLayer", N, spec_step)

    def thunk(it):
        st = stash(it)
        local = text("localdir")
        l = sterm(local)
        it.ctx.ghost["expected"] = N(l)
        spec_step(it, l)
        cover(it, "find")
        got = it.call(it.getattr(st, "FindLocalOrLayer"), [name, local], {})
        exp = z3.If(fs("exists", at(l)), at(l), N(l))
        it.ctx.prove("next-to-the-file-else-in-the-nearest-root-only", it.to_term(STR, got) == exp)
    return P.run("FindLocalOrLayer", thunk)


def units(tier):
    return [("GetLayerRoot", unit_root), ("FindLocalOrLayer", unit_find)]

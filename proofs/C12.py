"""C12: recipe name, base name and version come from the file name."""
from proofs.common import *

ASSUMPTIONS = ["paths use / as separator", "names contain no line break, a recipe name does not start with a dot and carries at most one leading and one trailing affix"]
NOTE = "for all paths D/N[_V[_W]].E; the base name by exhaustive case distinction on the affixes of N, each case for all texts"

NAME = CharSet.of("_/\n").inv()
FIRST = CharSet.of("_/\n.").inv()
EXT = CharSet.of("./_\n").inv()
LEAD = "nativesdk-"
TAILS = ("-native", "-cross")


def paths(name):
    """the forms of a file name with recipe name `name` (a list of pieces)"""
    d = word("D")
    ext = word("E", EXT, 1)
    v = [word("V", NAME, 1)]
    w = [word("W", CharSet.of("/\n.").inv(), 0)]
    for k, pre in enumerate(([d, "/"], [])):
        yield "%d" % k, mkstr(pre + name + [".", ext]), None
        yield "%dv" % k, mkstr(pre + name + ["_"] + v + [".", ext]), mkstr(v)
        yield "%dvw" % k, mkstr(pre + name + ["_"] + v + ["_"] + w + [".", ext]), mkstr(v)
        yield "%dx" % k, mkstr(pre + name + ["_"] + [".", ext]), ""


def name_pieces():
    return [word("N1", FIRST, 1), word("N2", NAME, 0)]


def run_name(P):
    def thunk(it):
        st = stash(it)
        for tag, path, ver in paths(name_pieces()):
            cover(it, tag)
            got = it.call(it.getattr(st, "GuessRecipeName"), [path], {})
            eqv(it, "recipe-name-is-the-part-before-the-underscore:" + tag, got, mkstr(name_pieces()))
            got = it.call(it.getattr(st, "GuessRecipeVersion"), [path], {})
            got = it.force(got)
            eqv(it, "version-is-the-part-between-the-underscores:" + tag, got, ver)
    return P.run("names", thunk)


def rights():
    """(class of the character before the tail, tail, what remains of the tail) covering every ending"""
    out = []

    def mism(tails, keep):
        # longest suffix shared with one of the tails: a trie on the reversed tails
        seen = {}
        for t in tails:
            for j in range(len(t)):
                seen.setdefault(t[len(t) - j:], set()).add(t[len(t) - j - 1])
        for suf, nxt in sorted(seen.items()):
            out.append((nxt, suf + keep, suf))
    mism(TAILS, "")
    mism(["-cross"], "-native")
    mism(["-native"], "-cross")
    return out


def strip(s):
    """the specification, on constants"""
    if s.startswith(LEAD) and len(s) > len(LEAD):
        s = s[len(LEAD):]
    for t in TAILS:
        if s.endswith(t) and len(s) > len(t):
            return s[:-len(t)]
    return s


def bpn_cases():
    """(name, expected base name) covering every recipe name with at most one affix at each end"""
    out = []
    x = word("X", NAME, 0)
    for i in range(len(LEAD)):
        head = LEAD[:i]
        for nxt, tail, rest in rights():
            d = word("D1", NAME - CharSet.of("".join(nxt)), 1)

            c = word("C", NAME - CharSet.of(LEAD[i]), 1)
            # c: one or more characters, the first of which is not the next one of the affix; at least the last one before the tail is not in nxt
            cc = word("C1", NAME - CharSet.of(LEAD[i]), 1)
            both = word("B", NAME - CharSet.of(LEAD[i] + "".join(nxt)), 1)
            for k in (0, 1):
                lead = [LEAD] if k else []
                tag = "%d.%d.%s|%s" % (k, i, rest, tail)
                out.append((tag + ".far", lead + [head, cc, x, d, tail], [head, cc, x, d, rest]))
                out.append((tag + ".one", lead + [head, both, tail], [head, both, rest]))
            # head and tail meet or overlap
    consts = set()
    stems = {LEAD[:i] for i in range(len(LEAD))} | {""}
    ends = {t[j:] for t in TAILS for j in range(len(t) + 1)} | {r[1] for r in rights()}
    for a in stems:
        for b in ends:
            for o in range(min(len(a), len(b)) + 1):
                if a[len(a) - o:] == b[:o]:
                    consts.add(a + b[o:])
    for s in sorted(consts):
        if not s or s.startswith(LEAD) or s in TAILS or s.endswith(("-cross-native", "-native-cross")):
            continue
        if s[0] == "." or "_" in s:
            continue
        out.append(("const:" + s, [s], [strip(s)]))
        out.append(("const:%s%s" % (LEAD, s), [LEAD + s], [strip(LEAD + s)]))
    return out


def run_bpn(cases):
    def run(P):
        def thunk(it):
            for tag, name, exp in cases:
                st = stash(it)
                path = mkstr([word("D"), "/"] + name + ["_", word("V", NAME, 1), ".", word("E", EXT, 1)])
                got = it.call(it.getattr(st, "GuessBaseRecipeName"), [path], {})
                eqv(it, "base-name-has-no-affix:" + tag, got, mkstr(exp))
            cover(it, "cases")
        return P.run("bpn", thunk)
    return run


def units(tier):
    cs = bpn_cases()
    n = 8
    return [("names", run_name)] + [("base-name-%d" % i, run_bpn(cs[i::n])) for i in range(n)]

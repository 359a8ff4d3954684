"""C02: inline python blocks of the items of a file."""
import os
from util import *

RULE = "statements with inline python expressions, nested, cut off, repeated, over several lines, resolvable or not; trivial without an expression"
PLACE = "!!!inlineblock!!!"
EXPR = ["bb.utils.contains('F', 'a', 'yes', 'no', d)", "bb.utils.contains('F', 'a', '', 'no', d)", "oe.utils.conditional('A', 'b', 'x y', 'z', d)", "d.getVar('X')", "d.getVar('Y', True)", "f(d)", "{'a': '{'}[0]", "{'a': 1}", "'}'", "", " ", "a \\\n b", "bb.utils.contains('F', 'a', '${B}', '', d)",
        "oe.utils.ifelse(x, '${@f()}', 'n')", "${@g(d)}", "bb.utils.filter('F', 'a b', d)", "oe.utils.any_distro_features(d, 'a', 'q')", "{", "(", "\"q\"", "bb.utils.contains('F', 'a', '$', '{', d)", "oe.utils.vartrue('A', '$', '{@', d)", "x if y else \"z\"", "d.getVar('Z') or '!'"]
LIT = ["a", " ", "b ", "$", "{", "}", "@", "${C}", "\\\n  ", "#", "'", "-", "${", "="]
FORM = ['A = "%s"\n', "B += '%s'\n", 'A:append = "%s"\n', 'A = "%s\n', "do_x() {\n  a %s\n  b\n}\n", "python do_p() {\n  %s\n}\n", "# %s\n", "def f(x):\n    return '%s'\nZ = \"1\"\n", 'C[f] = "%s"\n', "inherit %s\n", "include %s\n", "require %s\n", 'export E = "%s"\n', "%s\n", "A = \"x \\\n  %s \\\n y\"\n", "addtask t after %s\n", 'INHERIT += "%s"\n',
        "unset %s\n", "N_%s = \"1\"\n"]


def gen(rng):
    t = ""
    for _ in range(rng.randint(1, 4)):
        v = ""
        for _ in range(rng.randint(0, 5)):
            k = rng.random()
            if k < 0.5:
                v += "${@" + rng.choice(EXPR) + rng.choice(["}", "}", "}", "}", "}", "", "}}"])
            elif k < 0.6 and "${@" in v:
                v += v[v.index("${@"):]
            else:
                v += rng.choice(LIT)
        t += rng.choice(FORM).replace("%s", v)
    return {"text": t, "neg": rng.random() < 0.4}


def fixed():
    for e in EXPR:
        for t in ('A = "${@%s}"\n', 'A = "${@%s} b ${@%s} ${@f(d)}"\n', 'A = "${@%s'):
            for n in (False, True):
                yield {"text": t.replace("%s", e), "neg": n}


def trivial(c):
    return "${@" not in c["text"]


def shrink(c):
    t = c["text"]
    for n in (8, 4, 1):
        for i in range(0, len(t), n):
            yield dict(c, text=t[:i] + t[i + n:])


def end(t):
    """a block: from the expression start to the matching brace"""
    lvl = 0
    for i, ch in enumerate(t[3:]):
        lvl += (ch == "{") - (ch == "}")
        if lvl < 0:
            return t[:i + 4]
    return t


def run(c, tmp):
    from oelint_parser.inlinerep import inlinerep
    write(tmp, {"a.bb": c["text"]})
    s = stash(negative_inline=c["neg"])
    f = os.path.join(tmp, "a.bb")
    for x in s.AddFile(f):
        if "${@" in x.Raw:
            return "an expression is left in %r" % x.Raw
        t = x.RealRaw
        for old, new in x.InlineBlocks:
            i = t.find("${@")
            if i < 0 or end(t[i:]) != old:
                return "recorded %r, the next block of %r is another" % (old, t)
            exp = inlinerep(old, c["neg"])
            if new != (PLACE if exp is None else exp):
                return "%r is recorded to become %r instead of %r" % (old, new, exp)
            if old not in t:
                return "recorded %r is not in %r" % (old, t)
            t = t.replace(old, new, 1)
        if t != x.Raw:
            return "replacing the recorded blocks gives %r instead of %r" % (t, x.Raw)
        if type(x).__name__ == "Variable" and PLACE not in c["text"]:
            v = x.VarValueStripped.split(PLACE)
            un = [o for o, n in x.InlineBlocks if n == PLACE]
            # blocks in other parts of the statement
            if len(un) == len(v) - 1:
                exp = v[0] + "".join(a + b for a, b in zip(un, v[1:]))
                got = s._ReverseInlineBlock(x)
                if got != exp:
                    return "restoring %r gives %r instead of %r" % (x.VarValueStripped, got, exp)
                got = s.ExpandTerm(f, x.VarValueStripped, objref=x)
                if "${" not in "".join(v) and "${" not in "".join(o[3:] for o in un) and "read_file" not in exp and "getVar" not in exp and got != exp:
                    return "expanding %r gives %r instead of %r" % (x.VarValueStripped, got, exp)
    return None

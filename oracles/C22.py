"""C22: fingerprints of equal and of different stashes."""
import os
import subprocess
import sys
from graph import *

RULE = "two stashes over one set of files, the second with other options, another file order, or one statement changed; trivial when no file is added"


def gen(rng):
    c = gen_graph(rng)
    names = [n for n in c["files"] if c["files"][n]]
    c["opt"] = [rng.random() < 0.5, rng.random() < 0.5]
    c["how"] = rng.choice(["same", "opt", "order", "edit", "edit", "edit", "proc" if rng.random() < 0.15 else "edit"])
    c["opt2"] = rng.choice([[not c["opt"][0], c["opt"][1]], [c["opt"][0], not c["opt"][1]], [not c["opt"][0], not c["opt"][1]]])
    n = rng.choice(names) if names else None
    c["edit"] = [n, rng.randint(0, 9), rng.choice(["1", "2", "a  b", "x-y", "", "ä", "a_b", "a:b"]), rng.choice(["name", "value", "op", "comment", "func", "flag", "gone", "task", "inline"])]
    return c


def fixed():
    f = {"r0.bb": [["c", ["c0", "c1", "c2"], "inherit"], ["v", "one"]], "c0.bbclass": [["v", "one"]], "c1.bbclass": [["v", "one"]], "c2.bbclass": [["v", "func"]]}
    for how in ("proc", "proc", "opt"):
        yield {"files": f, "order": ["r0.bb"], "opt": [False, True], "opt2": [True, False], "how": how, "edit": ["r0.bb", 1, "2", "value"]}


def trivial(c):
    return not c["order"]


EDIT = {"name": ('E%s = "1"\n',), "value": ('E = "%s"\n',), "op": ('E += "%s"\n', 'E .= "%s"\n'), "comment": ("# c %s\n",), "func": ("do_e() {\n  a %s\n}\n",), "flag": ('E[f] = "%s"\n', 'E[g] = "%s"\n'), "gone": ("\n",),
        "task": ("addtask do_%s after a before b\n",), "inline": ('E = "${@bb.utils.contains(\'a\', \'b\', \'%s\', \'z\', d)}"\n',)}


def build(c, root, opt, order):
    s = stash(new_style_override_syntax=opt[0], negative_inline=opt[1])
    items = []
    for n in order:
        s.AddFile(Reader(c, root).where(n, None))
    return s.FingerPrint, [(type(x).__name__, sorted((k, sorted(v) if isinstance(v, set) else v) for k, v in x.GetAttributes().items() if k != "Line")) for x in s.GetItemsFor()]


def run(c, tmp):
    root = setup(c, tmp)
    a, ia = build(c, root, c["opt"], c["order"])
    if not isinstance(a, str) or len(a) != 40:
        return "the fingerprint is %r" % (a,)
    if c["how"] == "proc":
        code = "import sys; sys.path.insert(0, %r); from oelint_parser.cls_stash import Stash; s = Stash(True, %r, %r); [s.AddFile(x) for x in %r]; print(s.FingerPrint)" % (
            os.environ.get("VERIF_REPO", "/repo"), c["opt"][0], c["opt"][1], [Reader(c, root).where(n, None) for n in c["order"]])
        for h in ("1", "2", "3"):
            b = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True).stdout.strip()
            if a != b:
                return "another process computes %s instead of %s" % (b, a)
        return None
    opt, order = c["opt"], c["order"]
    if c["how"] == "opt":
        opt = c["opt2"]
    if c["how"] == "order":
        order = c["order"][::-1]
    if c["how"] == "edit" and c["edit"][0]:
        n, k, v, what = c["edit"]
        f = ["classes/", "recipes/"][not n.endswith(".bbclass")] + n
        k = k % len(c["files"][n])
        t = render(n, c["files"][n])
        cut = len(render(n, c["files"][n][:k]))
        t = t[:cut] + EDIT[what][0].replace("%s", v) + t[cut:] if what != "gone" else t[:cut]
        write(root, {f: t})
    b, ib = build(c, root, opt, order)
    same = opt == c["opt"] and ia == ib
    if (a == b) != same and not (c["how"] == "order" and a != b):
        return "the fingerprints are %s although the %s" % ("equal" if a == b else "different", "options or items differ" if a == b else "options and items are the same")
    return None

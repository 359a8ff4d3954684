"""C01: the source texts of the items are the text of the file."""
import os
from util import *

RULE = "a text of random lines out of fragments, of random characters, or both; trivial with an empty text"
FRAG = ['A = "b"', 'A = "b \\', '  c \\', '  d"', "\\", "  \\", "\\ ", "do_x() {", "do_y () {", "  a", "}", "{", "  ${@f(d)}", "python do_z() {", "fakeroot python do_w () {", "def f(a):", "def g():", "    return 1", "    \\", "# c", "#", " # c", "## x \\", "#\\",
        "", "", " ", "\t", "inherit x", "include y.inc", "require", "addtask a after b before c", "unset A[b]", 'A[b] = "c"', "export X", 'B = "${@ {"a": "b"} }"', 'B = "${@', "C = \"${@d.getVar('x')}", "deltask a", "x y z", "{ }", "() {", "do_q() { :; }",
        "do_p() {}", "A:append() = \"x\"", "EXPORT_FUNCTIONS a b", "addhandler h", "python h() {", "  def f():", "def", "def ", "deff x", "def h(x):  # (", '"', "'", "a = '() {'", "=", "\x0c", "ä = \"ö\"", "\x1b", "\x1c", "\x85", "\u2028", "A = \"\x0b\"", "\ufeff", "pn() { \\"]
CHARS = "ab \\\n\n\n\t{}()#\"'=$@:def python"


def gen(rng):
    k = rng.random()
    if k < 0.75:
        t = "".join(x + rng.choice(["\n", "\n", "\n", "\n", "\\\n", " \\\n", "\n\n"]) for x in pick(rng, FRAG, 0, 12))
        if rng.random() < 0.4:
            t = t[:len(t) - rng.randint(0, min(3, len(t)))]
    else:
        t = "".join(pick(rng, CHARS, 0, 40))
    return {"text": t, "ext": rng.choice([".bb", ".inc", ".conf", ".bbclass", ".bbappend"])}


def fixed():
    for t in ("", "\n", "\\", "\\\n", "a \\\n", "do_a() {", "do_a() {\n", "# a", "# a\n", "def f():", "def f():\n", "def f():\n  x", "# a\n# b\ndef f():\n  x\n# c\nA = \"b\"\n", "python () {\n}\n\nA = \"b\"", "A = \"a \\\n\\\n b\"\nB = \"c\"\n", "addhandler h\npython h() {\n x\n}\n"):
        yield {"text": t, "ext": ".bb"}


def trivial(c):
    return not c["text"]


def shrink(c):
    t = c["text"]
    ls = t.split("\n")
    for i in range(len(ls)):
        yield dict(c, text="\n".join(ls[:i] + ls[i + 1:]))
    if len(t) < 60:
        for i in range(len(t)):
            yield dict(c, text=t[:i] + t[i + 1:])


def run(c, tmp):
    write(tmp, {"a" + c["ext"]: c["text"]})
    s = stash()
    f = os.path.join(tmp, "a" + c["ext"])
    items = s.AddFile(f)
    got = "".join(x.RealRaw for x in items)
    if got != c["text"]:
        return "the texts are %r instead of %r" % (got, c["text"])
    line = 1
    for x in items:
        if x.InFileLine != line:
            return "%r is said to be on line %r instead of %r" % (x.RealRaw, x.InFileLine, line)
        if x.Line != line:
            return "%r has overall line %r instead of %r" % (x.RealRaw, x.Line, line)
        line += x.RealRaw.count("\n")
    return None

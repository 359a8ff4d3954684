"""C13: names put together from known chunks."""
import os
from util import *

RULE = "names of variables and functions put together from known chunks, parsed from a file or built directly; trivial when there is one chunk"
MODS = ["append", "prepend", "remove"]
MARKER = MODS + ["class-native", "class-cross", "class-target"]
LOW = set("abcdefghijklmnopqrstuvwxyz0123456789{}$")
PLAIN = ["A", "FOO", "SRC", "PV", "RDEPENDS", "Do", "X-y", "F-append", "B.b", "Append", "CLASS", "PN", "-x", "Z9", ".a"]
OVER = MODS * 3 + ["class-native", "class-nativesdk", "qemux86", "poky", "${PN}", "${PN}-dev", "${PN}-append", "libc-musl", "x-", "0", "1.0", "k", "arm-A", "${A}", "a.b", "b--c", "append-x"]
FIRST = PLAIN + ["foo", "pkg", "pkg", "a", "${PN}", "b-c", "x1"]
FFIRST = ["do", "foo", "pkg", "A", "base", "x-y", "autotools", "_", "do_install", "do_compile"]
FCH = MARKER * 2 + ["install", "compile", "postinst", "${PN}", "x", "class-nativesdk", "qemux86", "append-x", "Append", "do", "preinst"]


def gen(rng):
    kind = rng.choice(["var", "var", "func"])
    delim = rng.choice("_:")
    if kind == "var":
        c = [rng.choice(FIRST)] + [rng.choice(rng.choice([PLAIN, OVER, OVER])) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))]
    else:
        c = [rng.choice(FFIRST)] + [rng.choice(FCH) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        if delim == "_":
            c = [y for x in c for y in x.split("_") if y]
            c = c or ["do"]
    return {"kind": kind, "delim": delim, "chunks": c, "file": rng.random() < 0.7, "known": rng.choice([[], [], ["foo"], ["do" + delim + "install", "A"]]),
            "seen": rng.random() < 0.3, "op": rng.choice(["=", "+=", "?=", ".=", "=.", "=+", ":=", "??="])}


def trivial(c):
    return len(c["chunks"]) < 2


def shrink(c):
    for i in range(1, len(c["chunks"])):
        yield dict(c, chunks=c["chunks"][:i] + c["chunks"][i + 1:])
    for k, v in (("file", False), ("known", []), ("seen", False), ("op", "=")):
        if c[k] != v:
            yield dict(c, **{k: v})


def run(c, tmp):
    from oelint_parser.cls_item import Variable, Function
    from oelint_parser.constants import CONSTANTS
    st = stash()
    d, ch = c["delim"], c["chunks"]
    name = d.join(ch)
    if d == "_" and any("_" in x for x in ch) or (c["kind"] == "func" and name == "__anonymous"):
        return None
    if c["known"]:
        CONSTANTS.AddConstants({"functions": {"known": c["known"]}})
    style = d == ":" and (c["seen"] or len(ch) == 1)
    if c["file"]:
        pre = "OVR:x = \"1\"\n" if style else ""
        if c["kind"] == "var":
            body = "%s %s \"some value\"\n" % (name, c["op"])
        else:
            body = "%s () {\n  true\n}\n" % name
        write(tmp, {"a_1.0.bb": pre + body})
        items = [x for x in st.AddFile(os.path.join(tmp, "a_1.0.bb")) if isinstance(x, Variable if c["kind"] == "var" else Function)]
        items = items[1:] if style and c["kind"] == "var" else items
        if len(items) != 1:
            return "%r is not taken for one %s: %r" % (body, c["kind"], items)
        x = items[0]
    else:
        rest = ["/a_1.0.bb", 1, 1, "raw", "raw", [], style]
        x = Variable(name, "value", " %s " % c["op"], *rest) if c["kind"] == "var" else Function(name, "body", None, None, *rest)
    if c["kind"] == "var":
        j = len(ch)
        for i in range(1, len(ch)):
            if ch[i].split("-")[0] == "${PN}" or (ch[0] != "pkg" and ch[i][0] in LOW):
                j = i
                break
        subs = ch[j:]
        got = (x.VarName, x.RawVarName, list(x.SubItems), x.SubItem, x.VarNameComplete, x.VarNameCompleteNoModifiers)
        exp = (d.join(ch[:j]), d.join(ch[:j]), subs, d.join(subs), name, d.join(ch[:j] + [y for y in subs if y not in MODS]))
        if got != exp:
            return "%r gives %r instead of %r" % (name, got, exp)
        g = sorted(y.strip() for y in x.AppendOperation())
        e = sorted(([c["op"]] if c["op"] in ("+=", ".=", "=+", "=.") else []) + [m for m in MODS if m in subs])
        if g != e:
            return "%r %s has the modifiers %r instead of %r" % (name, c["op"], g, e)
    else:
        j = len(ch)
        known = list(CONSTANTS.FunctionsKnown)
        for i in range(1, len(ch)):
            if ch[i] in MARKER or d.join(ch[:i]) in known:
                j = i
                break
        subs = ch[j:]
        got = (x.FuncName, list(x.SubItems), x.SubItem, x.FuncNameComplete)
        exp = (d.join(ch[:j]), subs, d.join(subs), name)
        if got != exp:
            return "%r gives %r instead of %r" % (name, got, exp)
    return None

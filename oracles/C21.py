"""C21: assignments put together from known elements, operators and overrides."""
import os
from util import *

RULE = "assignments put together from known elements, blanks, quotes, operators and overrides, parsed from a file or built directly; trivial when the value is empty and there is no override"
OPS = ["=", "+=", "=+", ".=", "=.", "?=", "??=", ":="]
CLASSES = ["class-native", "class-nativesdk", "class-cross", "class-target"]
MODS = ["append", "prepend", "remove"]
OVER = MODS * 2 + CLASSES + ["poky", "nodistro", "poky-tiny", "qemux86", "machine", "musl", "${PN}", "x86-64", "append-x", "arm"]
ELEM = ["a", "file://x.patch;a=b", "-O2", "a'b", "'", "${A}", "a\"b", "=", "\\x20", "x:y", "~", "ä", "b.c", "${B}/c", "^", "0"]


def gen(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4])
    direct = rng.random() < 0.4
    seps = [" ", "  ", "\t", " \t ", "   "] + (["\x1b", " \x1b  ", "\n"] if direct else [" \\\n", " \\\n    ", "\\\n "])
    return {"direct": direct, "op": rng.choice(OPS), "ow": [rng.choice(["", " ", "  ", "\t"]), rng.choice(["", " ", "  "])],
            "over": pick(rng, OVER, 0, 3), "elems": [rng.choice(ELEM) for _ in range(n)], "seps": [rng.choice(seps) for _ in range(max(n - 1, 0))],
            "pad": [rng.choice(["", "", " ", "  "]), rng.choice(["", "", " ", "\t", seps[-1]])], "tail": rng.choice(["", "", "", " ", "\t  "]),
            "quote": rng.choice([True, True, True, False])}


def trivial(c):
    return not c["elems"] and not c["over"]


def shrink(c):
    for i in range(len(c["over"])):
        yield dict(c, over=c["over"][:i] + c["over"][i + 1:])
    if c["elems"]:
        yield dict(c, elems=c["elems"][:-1], seps=c["seps"][:-1][:max(len(c["elems"]) - 2, 0)])
    for k, v in (("pad", ["", ""]), ("tail", ""), ("ow", [" ", " "]), ("op", "="), ("direct", True)):
        if c[k] != v:
            yield dict(c, **{k: v})


def run(c, tmp):
    from oelint_parser.cls_item import Variable
    from oelint_parser.constants import CONSTANTS
    st = stash()
    es = list(c["elems"])
    body = c["pad"][0] if c["quote"] else ""
    for i, e in enumerate(es):
        body += (c["seps"][i - 1] if i else "") + e
    body += c["pad"][1] if es and c["quote"] else ""
    if es and (es[0].startswith('"') or es[-1].endswith('"')):
        return None
    if not c["quote"]:
        if not body:
            return None
    written = ('"' + body + '"' if c["quote"] else body) + c["tail"]
    name = ":".join(["VAR"] + c["over"])
    if c["direct"]:
        op = c["ow"][0] + c["op"] + c["ow"][1]
        if "\\" in body:
            return None
        v = Variable(name, written, op, "/a_1.0.bb", 1, 1, "raw", "raw", [], False)
        value = written
    else:
        op = c["ow"][0] + c["op"] + c["ow"][1]
        write(tmp, {"a_1.0.bb": name + op + written + "\n"})
        items = st.AddFile(os.path.join(tmp, "a_1.0.bb"))
        if len(items) != 1 or not isinstance(items[0], Variable):
            return "%r is not taken for one assignment: %r" % (name + op + written, items)
        v = items[0]
        value = written.replace("\\\n", "\x1b").replace("\\", "\x1b")
        body = body.replace("\\\n", "\x1b").replace("\\", "\x1b")
    if v.VarValue != value:
        return "the value of %r is %r" % (written, v.VarValue)
    if v.VarOp != op:
        return "the operator %r is reported as %r" % (op, v.VarOp)
    if "\x1bx" in value:
        # known finding: the mark of a continued line followed by x is no break
        return None
    stripped = body if c["quote"] else body.strip()
    if not (body.startswith('"') or body.endswith('"')) and v.VarValueStripped != stripped:
        return "the stripped value of %r is %r instead of %r" % (written, v.VarValueStripped, stripped)
    exp = [e.replace("\\", "\x1b") if not c["direct"] else e for e in es]
    got = v.get_items()
    if got != exp:
        return "the elements of %r are %r instead of %r" % (written, got, exp)
    subs = c["over"]
    if subs and subs[0] in ("",):
        return None
    o = c["op"]
    app = o in ("+=", "=+", ".=", "=.")
    if v.IsAppend() != (app or "append" in subs or "prepend" in subs):
        return "%s %s: appending is %r" % (name, o, v.IsAppend())
    if v.IsImmediateModify() != (not any(m in subs for m in MODS)):
        return "%s %s: immediate is %r" % (name, o, v.IsImmediateModify())
    e = ([o] if app else []) + [m for m in MODS if m in subs]
    if [x.strip() for x in v.AppendOperation()] != e:
        return "%s %s: the modifiers are %r instead of %r" % (name, o, v.AppendOperation(), e)
    d = next((x for x in subs if x in CONSTANTS.DistrosKnown), "")
    if v.GetDistroEntry() != d:
        return "%s: the distro override is %r instead of %r" % (name, v.GetDistroEntry(), d)
    k = next((x for x in subs if x in CLASSES), "")
    if v.GetClassOverride() != k:
        return "%s: the class override is %r instead of %r" % (name, v.GetClassOverride(), k)
    m = next((x for x in subs if x not in CLASSES + MODS + ["machine"]), "")
    if v.GetMachineEntry() != m:
        return "%s: the machine override is %r instead of %r" % (name, v.GetMachineEntry(), m)
    return None

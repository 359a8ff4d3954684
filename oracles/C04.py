"""C04: statements put together from known parts."""
import os
from util import *

RULE = "one statement of every form put together from known parts, between two known assignments; trivial when it is a plain assignment of one letter"
OPS = ["=", "+=", "=+", ".=", "=.", "?=", "??=", ":="]
B = ["", " ", " ", " ", "  ", "\t"]
BB = [" ", " ", " ", "  ", "\t", " \t "]
NAMES = ["A", "FOO_BAR", "SRC_URI", "foo", "a.b", "X-y", "PN${X}", "INHERIT_X", "inherit_foo", "include_dirs", "exporter", "EXPORTS", "pythonpath", "unsetme", "defaults", "addtasks", "deltasks",
         "requirements", "fakerootdir", "include_all_x", "addpylibs", "addfragmentsx", "_x", "${PN}", "k9", "RDEPENDS:${PN}", "A_append", "FILES:${PN}-dev", "python3", "export2"]
VALS = ["", "x", "a b", "a = b", "${PN}", "foo()", "x { y }", "# no comment", "inherit x", "'q'", "a\\\\b", "\xe4", "k=v;x", "python a() {", "a: b", "addtask x after y"]
TASKS = ["do_x", "do_install", "x", "do_before_x", "do_beforehand", "after_y", "do_thereafter", "do_a-b", "before_all"]
FLAGS = ["noexec", "doc", "a-b", "vardeps", "file.x", "a/b", "x@y", "1"]
FUNCS = ["do_install", "do_install:append", "do_x_prepend", "pkg_postinst:${PN}", "foo", "a.b", "x-y", "base_do_x", "python_x", "fakeroot_y", "F00"]
GENERIC = ["foo bar", "{ x", "-", "foo", "\"x\"", "a b = c", "inherit", "export", "1 + 1", ")", "= x", "include", "}", "foo(", "addtask", "unset"]
PATHS = ["a.inc", "recipes/a_1.0.inc", "${BPN}.inc", "../x-y.inc", "conf/${MACHINE}.conf"]
CLASSES = ["base", "autotools", "a-b", "${X}", "foo.bbclass", "x_y"]


def gen(rng):
    p = rng.choice
    f = p(["var", "var", "flag", "unset", "unsetflag", "inherit", "INHERIT", "include", "includeall", "export", "exportval", "addtask", "addtask", "deltask", "expfunc", "addpylib", "addfragments",
           "func", "func", "pydef", "comment", "generic", "blank"])
    c = {"form": f, "b": [p(B) for _ in range(3)], "w": [p(BB) for _ in range(6)]}
    if f == "var":
        c.update(name=p(NAMES), op=p(OPS), value=p(VALS), q=p("\"\"\"'"), cont=rng.random() < 0.15)
    elif f == "flag":
        c.update(name=p(NAMES), flag=p(FLAGS), op=p(OPS), value=p(VALS), q=p("\"'"))
    elif f in ("unset", "unsetflag"):
        c.update(name=p(NAMES), flag=p(FLAGS))
    elif f in ("inherit", "INHERIT", "expfunc"):
        c.update(stmt=p(["inherit", "inherit_defer"]), items=pick(rng, CLASSES if f != "expfunc" else FUNCS, 1, 3), op=p(OPS), q=p("\"'"), lead=p(["", "", " ", "\t"]))
    elif f in ("include", "includeall"):
        c.update(stmt=p(["include", "require"]), path=p(PATHS), lead=p(["", "", " "]))
    elif f in ("export", "exportval"):
        c.update(name=p([n for n in NAMES if "{" not in n]), value=p(VALS))
    elif f == "addtask":
        c.update(name=p(TASKS), before=pick(rng, TASKS, 0, 2), after=pick(rng, TASKS, 0, 2), first=p(["before", "after"]), comment=p(["", "", "# x", "#before y"]), cont=rng.random() < 0.15)
    elif f == "deltask":
        c.update(name=p(TASKS), comment=p(["", "", "# x"]))
    elif f == "addpylib":
        c.update(path="${LAYERDIR}/" + p(["lib", "a/b"]), ns=p(["oe", "x.y"]))
    elif f == "addfragments":
        c.update(parts=[p(["conf/fragments", "x"]), p(["OE_FRAGMENTS", "Y"]), p(["OE_META", "Z"])])
    elif f == "func":
        c.update(name=p(FUNCS), py=p(["", "", "python", "fakeroot", "fakeroot python", "python fakeroot"]), body=pick(rng, ["    true", "    if x; then", "    echo \"{}\"", "", "    # c", "    a = {'b': 1}"], 0, 3), anon=rng.random() < 0.1)
    elif f == "pydef":
        c.update(name=p(["foo", "Foo9", "get_x", "_p"]), args=p(["", "d", "a, b=1", "d: dict"]), ret=p(["", " -> str"]), body=pick(rng, ["    return 1", "    x = {}", "", "    # y"], 1, 3))
    elif f == "comment":
        c.update(lines=pick(rng, ["# a", "#", "#A = \"1\"", "## x {", "# addtask x"], 1, 3))
    elif f == "generic":
        c.update(text=p(GENERIC))
    return c


def trivial(c):
    return c["form"] == "var" and len(c["name"]) + len(c["value"]) < 3


def shrink(c):
    if c["b"] != [" "] * 3:
        yield dict(c, b=[" "] * 3)
    if c["w"] != [" "] * 6:
        yield dict(c, w=[" "] * 6)
    for k in ("items", "before", "after", "body", "lines"):
        for i in range(len(c.get(k, []))):
            if k in ("before", "after", "body") or len(c[k]) > 1:
                yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
    for k, v in (("value", "x"), ("comment", ""), ("cont", False), ("lead", ""), ("name", "foo")):
        if k in c and c[k] != v:
            yield dict(c, **{k: v})


def build(c):
    """text, class, {attribute: value}"""
    f, b, w = c["form"], c["b"], c["w"]
    if f == "var":
        v = c["value"]
        if c["q"] in v:
            v = v.replace(c["q"], "")
        if c["cont"]:
            v = v + " \\\n    tail"
        op = b[0] + c["op"] + b[1]
        if not b[0] and c["op"][0] in ".:+" and c["name"][-1] in ".:+":
            op = " " + op
        raw = c["q"] + v + c["q"]
        return c["name"] + op + raw + "\n", "Variable", {"VarOp": op, "VarValue": raw.replace("\n", "").replace("\\", "\x1b"), "VarNameComplete": c["name"]}
    if f == "flag":
        v = c["value"].replace(c["q"], "")
        op = b[0] + c["op"] + b[1]
        raw = c["q"] + v + c["q"]
        return c["name"] + "[" + c["flag"] + "]" + op + raw + "\n", "FlagAssignment", {"VarName": c["name"], "Flag": c["flag"], "VarOp": op, "Value": raw.replace("\\", "\x1b")}
    if f == "unset":
        return "unset" + w[0] + c["name"] + "\n", "Unset", {"VarName": c["name"], "Flag": ""}
    if f == "unsetflag":
        return "unset" + w[0] + c["name"] + "[" + c["flag"] + "]\n", "Unset", {"VarName": c["name"], "Flag": c["flag"]}
    if f == "inherit":
        t = w[1].join(c["items"])
        return c["lead"] + c["stmt"] + w[0] + t + "\n", "Inherit", {"Statement": c["stmt"], "Class": t, "get_items": c["items"]}
    if f == "INHERIT":
        t = " ".join(c["items"])
        return "INHERIT" + b[0] + c["op"] + b[1] + c["q"] + t + c["q"] + "\n", "Inherit", {"Statement": "INHERIT", "Class": t, "get_items": c["items"]}
    if f == "include":
        return c["lead"] + c["stmt"] + w[0] + c["path"] + "\n", "Include", {"Statement": c["stmt"], "IncName": c["path"], "FileIncluded": ""}
    if f == "includeall":
        return "include_all" + w[0] + c["path"] + "\n", "IncludeAll", {"File": c["path"]}
    if f == "export":
        return "export" + w[0] + c["name"] + "\n", "Export", {"Name": c["name"], "Value": ""}
    if f == "exportval":
        v = c["value"].replace('"', "").replace("=", "")
        return "export" + w[0] + c["name"] + b[0] + "=" + b[1] + '"' + v + '"\n', "Export", {"Name": c["name"], "Value": v.replace("\\", "\x1b")}
    if f == "addtask":
        parts = {k: (k + w[1] + " ".join(c[k])) if c[k] else "" for k in ("before", "after")}
        o = [parts[c["first"]], parts["after" if c["first"] == "before" else "before"]]
        o = [x for x in o if x]
        sep = " \\\n    " if c["cont"] else w[2]
        t = "addtask" + w[0] + c["name"]
        for x in o:
            t += sep + x
        if c["comment"] and not c["cont"]:
            t += " " + c["comment"]
        return t + "\n", "TaskAdd", {"FuncName": c["name"], "Before": c["before"], "After": c["after"]}
    if f == "deltask":
        return "deltask" + w[0] + c["name"] + (" " + c["comment"] if c["comment"] else "") + "\n", "TaskDel", {"FuncName": c["name"], "Comment": c["comment"]}
    if f == "expfunc":
        return "EXPORT_FUNCTIONS" + w[0] + " ".join(c["items"]) + "\n", "FunctionExports", {"get_items": c["items"]}
    if f == "addpylib":
        return "addpylib" + w[0] + c["path"] + w[1] + c["ns"] + "\n", "AddPylib", {"Path": c["path"], "Namespace": c["ns"]}
    if f == "addfragments":
        p = c["parts"]
        return "addfragments " + " ".join(p) + "\n", "AddFragements", {"Path": p[0], "Variable": p[1], "Flagged": p[2]}
    if f == "func":
        py = c["py"]
        name = "" if c["anon"] and "python" in py else c["name"]
        head = (py.replace(" ", w[1].replace("\t", " ")) + " " if py else "") + name
        t = head + b[0] + "(" + ")" + b[1] + "{\n" + "".join(x + "\n" for x in c["body"]) + "}\n"
        return t, "Function", {"FuncNameComplete": name, "IsPython": "python" in py, "IsFakeroot": "fakeroot" in py,
                               "FuncBody": "".join(c["body"]).replace("\\", "\x1b")}
    if f == "pydef":
        return "def " + c["name"] + "(" + c["args"] + ")" + c["ret"] + ":\n" + "".join(x + "\n" for x in c["body"]), "PythonBlock", {"FuncName": c["name"]}
    if f == "comment":
        return "".join(x + "\n" for x in c["lines"]), "Comment", {"get_items": c["lines"]}
    if f == "generic":
        return c["text"] + "\n", "Item", {}
    return "\n", "Item", {}


def run(c, tmp):
    text, cls, exp = build(c)
    pre, post = 'BEFORE = "1"\n', 'AFTER = "2"\n'
    write(tmp, {"a_1.0.bb": pre + text + post})
    st = stash()
    items = st.AddFile(os.path.join(tmp, "a_1.0.bb"))
    if len(items) != 3 or [type(items[0]).__name__, getattr(items[0], "VarName", None), type(items[2]).__name__, getattr(items[2], "VarName", None)] != ["Variable", "BEFORE", "Variable", "AFTER"]:
        return "%r between two assignments gives %r" % (text, [type(x).__name__ for x in items])
    x = items[1]
    if type(x).__name__ != cls:
        return "%r is a %s instead of a %s" % (text, type(x).__name__, cls)
    for k, v in exp.items():
        if v is None:
            continue
        g = getattr(x, k)
        g = g() if callable(g) else g
        if k == "get_items" and cls == "Comment":
            g = [y for y in g if y]
        if g != v:
            return "%r has %s %r instead of %r" % (text, k, g, v)
    if x.RealRaw != text:
        return "%r is kept as %r" % (text, x.RealRaw)
    return None

"""C04: statements are classified by form, with their parts taken verbatim."""
from proofs.common import *
from pyvc.ctx import Run

LEVEL = "proof"
ASSUMPTIONS = ["a statement is one prepared line (how lines are prepared is C01 and C02)",
               "names start with a letter that starts no keyword, or are one of the listed names that start like a keyword",
               "the names of variables and functions are passed on unchanged to extract_sub and extract_sub_func (what these do is C13)"]
TRUSTED = ["exact automaton decisions about the patterns (pyvc/rx.py, cross-checked against the real engine)",
           "contracts of the stash: ExpandTerm gives some text, FindLocalOrLayer a path or nothing, AddFile some items"]
BOUNDED = ["at most three listed names per inherit, EXPORT_FUNCTIONS and task order"]
NOTE = "per statement form, for names, values, flags and blanks of any length"

NAMECH = CharSet([(48, 57), (65, 90), (97, 122)]) | CharSet.of("_.-")
UP = CharSet([(65, 90)]) - CharSet.of("EI")
LOW = CharSet([(97, 122)]) - CharSet.of("raeiudpf")
ANY = CharSet.of("\n").inv()
BL = CharSet.of(" \t")
KEYLIKE = ["INHERIT_X", "inherit_foo", "include_dirs", "exporter", "EXPORT_FUNCTIONS_X", "pythonpath", "unsetme", "addtasks", "deltasks", "requirements", "fakerootdir",
           "include_all_x", "addpylibs", "addfragmentsx", "defaults", "INHERIT:x", "export:x"]
OPS = ["=", "+=", "=+", ".=", "=.", "?=", "??=", ":="]
TASKCH = CharSet([(48, 57), (65, 90), (97, 122)]) | CharSet.of("_-")
FILECH = CharSet([(48, 57), (65, 90), (97, 122)]) | CharSet.of("_-./${}")
PATHCH = CharSet.of(" \t\n\r\x0b\x0c\x1b=()[]{}").inv() - WS
LASTCH = CharSet([(48, 57), (65, 90), (97, 122)])
N = [0]


def w(name, cs=ANY, minlen=0):
    return word(name, cs, minlen)


def bl(n, minlen=0):
    return word(n, BL, minlen)


def name_of(kind):
    """a name written in a statement"""
    if kind == "upper":
        return [w("n0", UP, 1), w("n1", NAMECH), w("n9", LASTCH, 1)]
    if kind == "lower":
        return [w("n0", LOW, 1), w("n1", NAMECH), w("n9", LASTCH, 1)]
    if kind == "pn":
        return [w("n0", UP, 1), w("n1", NAMECH), ":${PN}", w("n2", NAMECH), w("n9", LASTCH, 1)]
    if kind == "ref":
        return ["${", w("n1", NAMECH, 1), "}"]
    return [kind]


NAMES = ["upper", "lower", "pn", "ref"]


def fork_get(it, x, n):
    x = it.force(it.getattr(x, n))
    return x


def setup(P, found=False):
    P.contracts["cls_item.Item.extract_sub"] = lambda it, b: (b["name"], "")
    P.contracts["cls_item.Item.extract_sub_func"] = lambda it, b: (b["name"], "")
    P.contracts["cls_stash.Stash.ExpandTerm"] = lambda it, b: "x" if found else ""
    P.contracts["cls_stash.Stash.FindLocalOrLayer"] = lambda it, b: "/l/found" if found else ""
    P.contracts["cls_stash.Stash.AddFile"] = lambda it, b: it.mklist([])
    P.contracts["cls_stash.Stash.GetLastLine"] = lambda it, b: it.from_term(INT, z3.Int("lastline"))
    P.contracts["constants.Constants.ClassIgnore"] = lambda it, b: it.mklist([])
    P.contracts["constants.Constants.IncludeIgnore"] = lambda it, b: it.mklist([])
    P.overrides[("constants", "CONSTANTS")] = lambda it: it.cell(Obj(it.prog.cls(it, "Constants")))


def parse(it, cnt):
    """the items the parser makes of one prepared line"""
    raw = text("raw")
    d = {"line": 1, "raw": raw, "realraw": raw, "inline_blocks": it.mklist([]), "cnt": cnt}
    it.prog.contracts["parser.prepare_lines"] = lambda it, b: it.mklist([it.mkdict(list(d.items()))])
    g = it.prog.module_get(it, "parser", "get_items")[0]
    return B.to_list(it, it.call(g, [stash(it), "/l/a.bb"], {}))


def same(it, name, got, exp):
    if isinstance(exp, list):
        exp = it.mklist([mkstr(e) if isinstance(e, list) else e for e in exp])
        it.ctx.prove(name, it.to_term(TList(STR), it.force(got)) == it.to_term(TList(STR), exp))
    elif isinstance(exp, bool):
        g = it.truth(got)
        it.ctx.prove(name, g == z3.BoolVal(exp) if isinstance(g, z3.ExprRef) else z3.BoolVal(g == exp))
    else:
        eqv(it, name, got, exp)


def check(it, tag, cnt, cls, attrs):
    cover(it, tag)
    items = parse(it, cnt)
    it.ctx.prove("exactly-one-item[%s]" % tag, z3.BoolVal(items.items is not None and len(items.items) == 1))
    x = it.force(items.items[0])
    it.ctx.prove("of-the-matching-class[%s]" % tag, z3.BoolVal(isinstance(x, Obj) and x.cls.name == cls))
    if not isinstance(x, Obj) or x.cls.name != cls:
        return
    for k, v in attrs.items():
        g = it.getattr(x, k)
        if isinstance(g, (BoundV, FuncV)):
            g = it.call(g, [], {})
        same(it, "%s-as-written[%s]" % (k, tag), g, v)


def t(*parts):
    out = []
    for p in parts:
        out += p if isinstance(p, list) else [p]
    return mkstr(out)


def run(form, cases, found=False):
    def go(P):
        setup(P, found)
        return each(P, form, cases, lambda it, c: FORMS[form](it, c))
    return go


def f_var(it, c):
    kind, op = c
    n = name_of(kind)
    o = [bl("b0"), op, bl("b1")]
    v = ['"', w("v"), '"']
    check(it, "variable %s %s" % (kind, op), t(n, o, v), "Variable", {"VarName": t(n), "VarOp": t(o), "VarValue": t(v)})


def f_flag(it, c):
    kind, op = c
    n = name_of(kind)
    fl = [w("f", TASKCH | CharSet.of("./@"), 1)]
    o = [bl("b0"), op, bl("b1")]
    v = ['"', w("v"), '"']
    check(it, "flag %s %s" % (kind, op), t(n, "[", fl, "]", o, v), "FlagAssignment", {"VarName": t(n), "Flag": t(fl), "VarOp": t(o), "Value": t(v)})


def f_unset(it, c):
    kind, flag = c
    n = name_of(kind)
    if flag:
        f = [w("f", TASKCH | CharSet.of("./@"), 1)]
        check(it, "unset %s[flag]" % kind, t("unset", bl("b", 1), n, "[", f, "]"), "Unset", {"VarName": t(n), "Flag": t(f)})
    else:
        check(it, "unset %s" % kind, t("unset", bl("b", 1), n), "Unset", {"VarName": t(n), "Flag": ""})


def f_inherit(it, c):
    stmt, k = c
    cl = [w("c0", PATHCH, 1)] + [x for i in range(1, k) for x in (" ", w("c%d" % i, PATHCH, 1))]
    items = [[w("c%d" % i, PATHCH, 1)] for i in range(k)]
    if stmt == "INHERIT":
        cl = [w("c0", PATHCH - CharSet.of("'\""), 1)] + [x for i in range(1, k) for x in (" ", w("c%d" % i, PATHCH - CharSet.of("'\""), 1))]
        items = [[w("c%d" % i, PATHCH - CharSet.of("'\""), 1)] for i in range(k)]
        for op in OPS:
            check(it, "INHERIT %d %s" % (k, op), t("INHERIT", bl("b0"), op, bl("b1"), '"', cl, '"'), "Inherit", {"Statement": "INHERIT", "Class": t(cl), "get_items": items})
        return
    check(it, "%s %d" % (stmt, k), t(bl("b0"), stmt, bl("b1", 1), cl), "Inherit", {"Statement": stmt, "Class": t(cl), "get_items": items})


def f_include(it, c):
    stmt, found = c
    p = [w("p", FILECH, 1)]
    check(it, "%s %s" % (stmt, found), t(bl("b0"), stmt, bl("b1", 1), p), "Include", {"Statement": stmt, "IncName": t(p), "FileIncluded": "/l/found" if found else ""})


def f_includeall(it, c):
    p = [w("p", PATHCH, 1)]
    check(it, "include_all", t("include_all", bl("b1", 1), p), "IncludeAll", {"File": t(p)})


def f_export(it, c):
    kind, val = c
    n = name_of(kind)
    if val:
        v = [w("v", ANY - CharSet.of('"='))]
        check(it, "export %s with value" % kind, t("export", bl("b0", 1), n, bl("b1"), "=", bl("b2"), '"', v, '"'), "Export", {"Name": t(n), "Value": t(v)})
    else:
        check(it, "export %s" % kind, t("export", bl("b0", 1), n), "Export", {"Name": t(n), "Value": ""})


def f_addtask(it, c):
    order, nb, na, comment, pre = c
    T = TASKCH
    # no task is called before or after
    def task(n):
        return [w(n + "h", TASKCH - CharSet.of("ab"), 1), w(n, T)]
    # names starting with pkg_ are those of package scripts: they belong to the variables
    name = [w("nh", TASKCH - CharSet.of("abp"), 1), w("n", T)] if pre == "" else [pre, w("n", T)]
    bs = [task("x%d" % i) for i in range(nb)]
    as_ = [task("y%d" % i) for i in range(na)]
    def part(k, xs):
        out = []
        for i, x in enumerate(xs):
            out += [" "] * (i > 0) + x
        return [" " + k + " "] + out if xs else []
    pb, pa = part("before", bs), part("after", as_)
    parts = pb + pa if order == "before" else pa + pb
    if comment:
        parts = parts + [" #", w("c")]
    check(it, "addtask %s %d %d %s %s" % c, t("addtask", bl("b0", 1), name, parts), "TaskAdd", {"FuncName": t(name), "Before": bs, "After": as_})


def f_deltask(it, c):
    n = [w("n", TASKCH, 1)]
    cm = ["#", w("c")] if c else []
    check(it, "deltask %d" % c, t("deltask", bl("b0", 1), n, " " if c else "", cm), "TaskDel", {"FuncName": t(n), "Comment": t(cm)})


def f_expfunc(it, c):
    items = [[w("c%d" % i, PATHCH, 1)] for i in range(c)]
    cl = [x for i in range(c) for x in ([" "] * (i > 0) + items[i])]
    check(it, "EXPORT_FUNCTIONS %d" % c, t("EXPORT_FUNCTIONS", bl("b", 1), cl), "FunctionExports", {"get_items": items})


def f_addpylib(it, c):
    p = ["${LAYERDIR}/", w("p", PATHCH, 1)]
    n = [w("n", PATHCH, 1)]
    check(it, "addpylib", t("addpylib", bl("b0", 1), p, bl("b1", 1), n), "AddPylib", {"Path": t(p), "Namespace": t(n)})


def f_addfragments(it, c):
    a, b, d = [w("a", PATHCH, 1)], [w("b", PATHCH, 1)], [w("d", PATHCH, 1)]
    check(it, "addfragments", t("addfragments", bl("b0", 1), a, bl("b1", 1), b, bl("b2", 1), d), "AddFragements", {"Path": t(a), "Variable": t(b), "Flagged": t(d)})


FUNC0 = CharSet([(48, 57), (65, 90), (97, 122)]) - CharSet.of("pf")
FUNCCH = NAMECH


def f_func(it, c):
    kind, py, fr, anon = c
    n = [] if anon else {"any": [w("n0", FUNC0, 1), w("n1", FUNCCH)], "over": [w("n0", FUNC0, 1), w("n1", FUNCCH), ":append"], "pn": [w("n0", FUNC0, 1), ":${PN}"]}.get(kind, [kind])
    head = []
    if fr:
        head += ["fakeroot", bl("b3", 1)]
    if py:
        head += ["python", bl("b4", 1)]
    body = [w("body")]
    cnt = t(head, n, bl("b0"), "()", bl("b1"), "{", body, "}")
    check(it, "function %s %d %d %d" % c, cnt, "Function", {"FuncName": t(n), "IsPython": bool(py), "IsFakeroot": bool(fr), "FuncBody": t(body)})


def f_pydef(it, c):
    n = [w("n", CharSet([(48, 57), (65, 90), (97, 122)]) | CharSet.of("_"), 1)]
    args = [w("args", ANY - CharSet.of("():{}"))]
    cnt = t("def", bl("b", 1), n, "(", args, ")", c, ":", w("body", ANY - CharSet.of("{}")))
    check(it, "def %s" % c, cnt, "PythonBlock", {"FuncName": t(n)})


def f_comment(it, c):
    check(it, "comment", t(bl("b"), "#", w("c")), "Comment", {})


def f_generic(it, c):
    P_ = {"blank": [bl("b")], "word": [w("n0", LOW, 1), w("n1", NAMECH)], "words": [w("n0", LOW, 1), w("n1", NAMECH), " ", w("n2", ANY - CharSet.of("=(){}[]"))],
          "close": ["}"], "quote": ['"', w("v", ANY - CharSet.of("=(){}[]"))]}[c]
    check(it, "generic %s" % c, t(P_), "Item", {})


FORMS = {"variable": f_var, "flag": f_flag, "unset": f_unset, "inherit": f_inherit, "include": f_include, "includeall": f_includeall, "export": f_export, "addtask": f_addtask,
         "deltask": f_deltask, "expfunc": f_expfunc, "addpylib": f_addpylib, "addfragments": f_addfragments, "func": f_func, "pydef": f_pydef, "comment": f_comment, "generic": f_generic}


def units(tier):
    kmax = 3 if tier == "quick" else 4
    keys = [(k, o) for k in NAMES + KEYLIKE for o in OPS]
    out = [("variable-%d" % i, run("variable", keys[i::4])) for i in range(4)]
    out += [("flag-%d" % i, run("flag", keys[i::4])) for i in range(4)]
    out.append(("unset", run("unset", [(k, f) for k in NAMES + KEYLIKE for f in (0, 1)])))
    inh = [(s, k) for s in ("inherit", "inherit_defer", "INHERIT") for k in range(1, kmax + 1)]
    out.append(("inherit", run("inherit", inh)))
    out.append(("inherit-found", run("inherit", inh, True)))
    out.append(("include", run("include", [(s, 0) for s in ("include", "require")])))
    out.append(("include-found", run("include", [(s, 1) for s in ("include", "require")], True)))
    out.append(("include_all", run("includeall", [0])))
    out.append(("export", run("export", [(k, v) for k in ("upper", "lower", "exporter") for v in (0, 1)])))
    tasks = [(o, b, a, c, "") for o in ("before", "after") for b in range(kmax) for a in range(kmax) for c in (0, 1)]
    tasks += [("before", 1, 1, 0, p) for p in ("before_", "after", "pkg_config", "p_")]
    out += [("addtask-%d" % i, run("addtask", tasks[i::3])) for i in range(3)]
    out.append(("deltask", run("deltask", [0, 1])))
    out.append(("EXPORT_FUNCTIONS", run("expfunc", list(range(1, kmax + 1)))))
    out.append(("addpylib", run("addpylib", [0])))
    out.append(("addfragments", run("addfragments", [0])))
    fn = [(k, p, f, 0) for k in ("any", "over", "pn", "pythonx", "python_x", "fakeroot_y", "pkg_postinst") for p in (0, 1) for f in (0, 1)] + [("any", 1, 0, 1), ("any", 1, 1, 1)]
    out += [("function-%d" % i, run("func", fn[i::3])) for i in range(3)]
    out.append(("def", run("pydef", ["", " -> str"])))
    out.append(("comment", run("comment", [0])))
    out.append(("generic", run("generic", ["blank", "word", "words", "close", "quote"])))
    return out

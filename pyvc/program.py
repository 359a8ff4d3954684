"""The program under contract: the sources of /repo as they are now, and the contracts."""
import ast
import os
import z3
from .vals import *
from . import folds, rx, tmpl
from .interp import PropV, mangle, Env, Interp, DictItems, GenV
from .ctx import Run
from . import builtins as B

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "oelint_parser"
SKIP = {"util"}


class Module:
    def __init__(self, name, path, src=None):
        self.name = name
        self.path = path
        if src is None:
            with open(path) as f:
                src = f.read()
        self.src = src
        self.tree = ast.parse(self.src)
        self.top = {}
        for s in self.tree.body:
            self.index(s)

    def index(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.top[s.name] = s
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.top[t.id] = s
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.top[s.target.id] = s
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.top[(a.asname or a.name).split(".")[0]] = s
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body:
                self.index(b)


class MV:
    """a module of the package as a value (per path)"""

    def __init__(self, mod):
        self.mod = mod
        self.cache = {}
        self.env = None


class Program:
    def __init__(self):
        self.mods = {}
        for fn in sorted(os.listdir(os.path.join(REPO, PKG))):
            if fn.endswith(".py") and fn != "__init__.py":
                n = fn[:-3]
                self.mods[n] = Module(n, os.path.join(REPO, PKG, fn))
        self.contracts = {}
        self.merge_calls = None
        self.field_types = {}
        self.mutable_fields = set()
        self.on_field_write = None
        self.elem_facts = None
        self.str_replace_hook = None
        self.path_join_hook = None
        self.while_hooks = {}
        self.for_hooks = {}
        self.regex_exact = True
        self.overrides = {}          # (module, name) -> fn(it)
        self.cache_clear_hook = None
        self.hooks = {}

    def add_spec(self, name, src):
        """specification functions, written in Python and read by the same interpreter"""
        import textwrap
        self.mods[name] = Module(name, "<%s>" % name, textwrap.dedent(src))

    # ---------------------------------------------------------------- interpretation
    def factory(self):
        def make(ctx):
            it = Interp(ctx, self)
            it.mvs = {n: MV(m) for n, m in self.mods.items()}
            it.classes = {}
            return it
        return make

    def run(self, name, thunk, **opts):
        r = Run(name, self.factory(), opts)
        r.explore(thunk)
        return r

    def mv(self, it, name):
        m = it.mvs[name]
        if m.env is None:
            m.env = it.new_env(None, name)
            m.env.vars["__name__"] = PKG + "." + name
            m.env.vars["__file__"] = m.mod.path
        return m

    def module_get(self, it, mname, name):
        if mname is None:
            return None
        if (mname, name) in self.overrides:
            m = self.mv(it, mname)
            if name not in m.cache:
                m.cache[name] = self.overrides[(mname, name)](it)
            return (m.cache[name],)
        if mname not in it.mvs:
            return None
        m = self.mv(it, mname)
        if name in m.cache:
            return (m.cache[name],)
        s = m.mod.top.get(name)
        if s is None:
            return None
        env = m.env
        if isinstance(s, ast.FunctionDef):
            v = it.make_func(s, env, None, prefix=mname + ".")
        elif isinstance(s, ast.ClassDef):
            v = self.make_class(it, s, env)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            v = it.eval(s.value, env)
            if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                it.assign(s.targets[0], v, env)
                v = env.vars[name]
        elif isinstance(s, ast.Import):
            for a in s.names:
                if (a.asname or a.name).split(".")[0] == name:
                    v = self.import_module(it, a.name if a.asname else a.name.split(".")[0])
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                if (a.asname or a.name) == name:
                    v = self.import_from(it, s.module, a.name)
        m.cache[name] = v
        return (v,)

    def import_module(self, it, name):
        if name in it.libs:
            return it.libs[name]
        if name.startswith(PKG + "."):
            return ModV(name)
        if name == PKG:
            return ModV(name)
        raise Unsupported("import of %s" % name)

    def import_from(self, it, module, name):
        if module.startswith(PKG + "."):
            v = self.module_get(it, module[len(PKG) + 1:], name)
            if v is None:
                raise Unsupported("import of %s from %s" % (name, module))
            return v[0]
        if module in it.libs:
            ns = it.libs[module].ns
            if name in ns:
                return ns[name]
            if module + "." + name in it.libs:
                return it.libs[module + "." + name]
        raise Unsupported("import of %s from %s" % (name, module))

    def mod_attr(self, it, v, name):
        if name in v.ns:
            return v.ns[name]
        if v.name.startswith(PKG + "."):
            r = self.module_get(it, v.name[len(PKG) + 1:], name)
            if r is not None:
                return r[0]
        if v.name == PKG and name in self.mods:
            return ModV(PKG + "." + name)
        raise Unsupported("%s.%s" % (v.name, name))

    def make_class(self, it, node, env):
        outer = env.cls
        name = (outer.name + "." if outer is not None else "") + node.name
        bases = [it.eval(b, env) for b in node.bases]
        ns = {}
        c = ClassV(name, node, env.module, bases, ns, outer)
        e = it.new_env(env, env.module, c, env.func)
        e.vars["__qualname__"] = name
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = it.make_func(s, env, c, prefix="%s.%s." % (env.module, name))
                f.cached = any("cache" in ast.unparse(d) for d in s.decorator_list)
                n = mangle(s.name, c)
                if f.kind == "property":
                    ns[n] = PropV(f)
                elif f.kind == "setter":
                    old = ns.get(n)
                    f.qual += ".setter"
                    ns[n] = PropV(old.get, f)
                else:
                    ns[n] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                v = it.eval(s.value, e) if s.value is not None else None
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name):
                        ns[mangle(t.id, c)] = v
                        e.vars[t.id] = v
            elif isinstance(s, ast.ClassDef):
                k = self.make_class(it, s, e)
                ns[s.name] = k
                e.vars[s.name] = k
            elif isinstance(s, (ast.Expr, ast.Pass)):
                pass
            else:
                raise Unsupported("class body statement %s" % type(s).__name__)
        it.classes[name] = c
        # methods see the module, not the class body
        return c

    def get_class(self, it, name):
        if name in it.classes:
            return it.classes[name]
        top = name.split(".")[0]
        for m in self.mods.values():
            s = m.top.get(top)
            if isinstance(s, ast.ClassDef):
                self.module_get(it, m.name, top)
                return it.classes[name]
        raise Unsupported("class %s" % name)

    def cls(self, it, name):
        return self.get_class(it, name)

    def func(self, it, qual):
        """module.func or module.Class.method"""
        ps = qual.split(".")
        v = self.module_get(it, ps[0], ps[1])
        if v is None:
            raise Unsupported("%s is gone" % qual)
        v = v[0]
        for p in ps[2:]:
            if isinstance(v, ClassV):
                x, owner = v.lookup(mangle(p, v))
                if x is None:
                    x, owner = v.lookup(p)
                if x is None:
                    raise Unsupported("%s is gone" % qual)
                v = x
        return v

    # ---------------------------------------------------------------- contracts
    def contract_for(self, q):
        return self.contracts.get(q) if q else None

    def while_hook(self, it, s, env):
        for h in self.while_hooks.get(self.fname(env), []) + self.while_hooks.get("*", []):
            r = h(it, s, env)
            if r is not None:
                return r
        return None

    def for_hook(self, it, s, env, x):
        for h in self.for_hooks.get(self.fname(env), []) + self.for_hooks.get("*", []):
            r = h(it, s, env, x)
            if r is not None:
                return r
        return None

    def fname(self, env):
        e = env
        while e is not None:
            if e.func is not None:
                return e.func.qual or e.func.name
            e = e.parent
        return None

    def on_cache_clear(self, it, f):
        memo = it.ctx.ghost.get("memo", {})
        it.ctx.ghost["memo"] = {k: v for k, v in memo.items() if k[0] != f.qual}
        if self.cache_clear_hook:
            self.cache_clear_hook(it, f)

    # ---------------------------------------------------------------- environment models
    def opaque_method(self, it, v, name):
        h = self.hooks.get(("opaque_method", v.ty.a[0]))
        return h(it, v, name) if h else None

    def opaque_isinstance(self, it, v, n):
        h = self.hooks.get(("opaque_isinstance", v.ty.a[0]))
        return h(it, v, n) if h else None

    def getattr_sym(self, it, o, n):
        h = self.hooks.get("getattr_sym")
        return h(it, o, n) if h else None

    def next_(self, it, i, default):
        h = self.hooks.get("next")
        if h:
            r = h(it, i, default)
            if r is not None:
                return r[0]
        if isinstance(i, B.IterV) and i.lst.items is not None:
            if i.pos < len(i.lst.items):
                i.pos += 1
                return i.lst.items[i.pos - 1]
            if default:
                return default[0]
            raise PyRaise("StopIteration")
        if isinstance(i, GenV):
            # the generator expression is not used again: its first element, if any
            l = it.comp_list(i.node, i.env)
            i.node = None
            if l.items is None:
                ne = it.truth(l)
                if ne if isinstance(ne, bool) else it.ctx.branch(ne):
                    return it.getitem(l, 0)
            elif l.items:
                return l.items[0]
            if default:
                return default[0]
            raise PyRaise("StopIteration")
        raise Unsupported("next() of %r" % (i,))

    def file_lines(self, it, path):
        h = self.hooks.get("file_lines")
        if h:
            return h(it, path)
        return it.cell(ListV(et=STR, seq=B.uf("fs_lines", [sterm(path)], B.SEQ_STR)))

    def file_text(self, it, path):
        return Str([Atom(B.uf("fs_text", [sterm(path)], z3.StringSort()))])

    def open_file(self, it, path):
        h = self.hooks.get("open")
        if h:
            return h(it, path)
        B.note(it, "open() may fail with any OSError or ValueError")
        ok = B.uf("fs_readable", [sterm(path)], z3.BoolSort())
        if it.ctx.branch(ok):
            return B.FileV(path)
        k = B.uf("fs_openerror", [sterm(path)], z3.IntSort())
        errs = ["FileNotFoundError", "IsADirectoryError", "PermissionError", "OSError", "ValueError"]
        for i, e in enumerate(errs[:-1]):
            if it.ctx.branch(k == i):
                raise PyRaise(e)
        raise PyRaise(errs[-1])

    def fs_query(self, it, n, x):
        B.note(it, "the file system does not change during a call")
        return B.uf("fs_" + n, [sterm(x)], z3.BoolSort())

    def dirname_facts(self, it, x, t):
        pass

    def abspath_id(self, it, x):
        h = self.hooks.get("abspath_id")
        return h(it, x) if h else False

    def glob(self, it, x):
        B.note(it, "glob.glob returns a list of paths that depends on the file system and the pattern only")
        return it.cell(ListV(et=STR, seq=B.uf("fs_glob", [sterm(x)], B.SEQ_STR)))

    def sha1(self, it, x):
        h = self.hooks.get("sha1")
        if h:
            return h(it, x)
        return OpaqueV(TOpaque("sha1"), it.ctx.fresh("sha1", sort_of(TOpaque("sha1"))))

    def deepcopy(self, it, x):
        h = self.hooks.get("deepcopy")
        if h:
            return h(it, x)
        x = it.force(x)
        if x is None or isinstance(x, (str, Str, int, bool, z3.ExprRef)):
            return x
        if isinstance(x, DictV):
            r = B.dict_copy(it, x)
            if r.pairs is not None:
                for p in r.pairs:
                    p[1] = self.deepcopy(it, p[1])
            return r
        if isinstance(x, ListV):
            r = B.list_copy(it, x)
            if r.items is not None:
                r.items = [self.deepcopy(it, y) for y in r.items]
            return r
        raise Unsupported("deepcopy of %r" % (x,))

    def json_load(self, it, f):
        raise Unsupported("json.load")

    def urlparse(self, it, x):
        h = self.hooks.get("urlparse")
        if h:
            return h(it, x)
        raise Unsupported("urlparse")

    def regex_escape(self, it, v):
        out = []
        for p in sparts(v):
            if isinstance(p, str):
                out.append(B.RxLit.esc(p))
            else:
                out.append(EscAtom(B.uf("py_rxescape", [p.term], z3.StringSort()), p))
        return mkstr(out)

    # ---------------------------------------------------------------- regular expressions
    def regex_call(self, it, name, args, kw):
        h = self.hooks.get("regex_call")
        if h:
            r = h(it, name, args, kw)
            if r is not NotImplemented:
                return r
        args = list(args)
        kw = dict(kw)
        kw.pop("timeout", None)
        B.note(it, "regular expressions are matched within their time limit")
        names = {"match": ["pattern", "string", "flags"], "search": ["pattern", "string", "flags"], "fullmatch": ["pattern", "string", "flags"],
                 "split": ["pattern", "string", "maxsplit", "flags"], "sub": ["pattern", "repl", "string", "count", "flags"],
                 "finditer": ["pattern", "string", "flags"]}[name]
        for n, v in zip(names, args):
            kw[n] = v
        pat = kw["pattern"]
        flags = kw.get("flags", 0)
        if isinstance(pat, PatternV):
            if flags not in (0, None) and name == "match":
                raise PyRaise("ValueError", "cannot process flags argument with a compiled pattern")
            flags = pat.flags
            pat = pat.pattern
        pat = it.force(pat)
        string = it.force(kw["string"])
        if not isinstance(string, (str, Str)):
            raise PyRaise("TypeError", "expected string or buffer")
        if not isinstance(pat, (str, Str)):
            raise PyRaise("TypeError", "first argument must be a string or compiled pattern")
        if isinstance(flags, z3.ExprRef):
            raise Unsupported("symbolic flags")
        if name in ("match", "search"):
            return RxMatch.make(it, pat, flags, string, name)
        if name == "sub":
            return rx_sub(it, pat, flags, it.force(kw["repl"]), string, kw.get("count", 0))
        if name == "split":
            return rx_split(it, pat, flags, string, kw.get("maxsplit", 0))
        if name == "finditer":
            return rx_finditer(it, pat, flags, string)
        raise Unsupported("regex." + name)


class EscAtom(Atom):
    __slots__ = ("of",)

    def __init__(self, term, of):
        Atom.__init__(self, term, None, 0)
        self.of = of


def compile_pattern(pat):
    """pattern text and the words it quotes"""
    if isinstance(pat, str):
        return pat, {}
    out = []
    atoms = {}
    n = 0xE000
    for p in pat.parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, EscAtom):
            out.append(chr(n))
            atoms[n] = p.of
            n += 1
        else:
            return None, None
    return "".join(out), atoms


class RxMatch(MatchV):
    """a successful match: exact (Result) or symbolic"""

    def __init__(self, it, pat, flags, string, mode, res):
        self.pat, self.flags, self.string, self.mode, self.res = pat, flags, string, mode, res
        ptext, _ = compile_pattern(pat)
        self.prog = rx.Prog(ptext, flags) if ptext is not None else None

    def names(self):
        return list(self.prog.names)

    @staticmethod
    def make(it, pat, flags, string, mode):
        ptext, atoms = compile_pattern(pat)
        res = None
        if ptext is not None:
            try:
                res = rx.decide(ptext, flags, string, mode, atoms)
                m = res.matched
                if m is True:
                    return RxMatch(it, pat, flags, string, mode, res)
                if m is False:
                    return None
            except rx.Undecided:
                res = None
        if isinstance(string, str) and ptext is not None and not atoms:
            raise Unsupported("undecided match of a constant")
        t = B.uf("rx_%s" % mode, [sterm(pat), z3.IntVal(flags), sterm(string)], z3.BoolSort())
        B.note(it, "where undecided, a regex match is an uninterpreted predicate of pattern and text")
        RxMatch.facts(it, ptext, atoms, flags, string, mode, t)
        if it.ctx.branch(t):
            return RxMatch(it, pat, flags, string, mode, res)
        return None

    @staticmethod
    def facts(it, ptext, atoms, flags, string, mode, t):
        """the predicate is membership in a regular language, where the pattern is one"""
        if ptext is None or atoms:
            return
        r = rx.z3re(ptext, flags, mode)
        if r is not None:
            it.ctx.assume(t == z3.InRe(sterm(string), r))

    def group(self, it, n):
        if self.res is not None:
            try:
                return self.res.group(n)
            except rx.Undecided:
                pass
        if isinstance(n, str) and self.prog is not None:
            if n not in self.prog.names:
                raise PyRaise("IndexError", "no such group")
            n = self.prog.names[n]
        if not isinstance(n, int):
            raise Unsupported("symbolic group")
        d = sort_of(TOpt(STR))
        args = [sterm(self.pat), z3.IntVal(self.flags), sterm(self.string)]
        if n == 0 or (self.prog is not None and always_set(self.prog, n)):
            return Str([Atom(B.uf("rx_%s_g%d" % (self.mode, n), args, z3.StringSort()))])
        return it.from_term(TOpt(STR), B.uf("rx_%s_og%d" % (self.mode, n), args, d))


def always_set(prog, n):
    """group n is set in every match"""
    # reachable match without passing save 2n+1?
    code = prog.code
    seen = set()
    st = [0]
    while st:
        pc = st.pop()
        if pc in seen:
            continue
        seen.add(pc)
        ins = code[pc]
        if ins[0] == "match":
            return False
        if ins[0] == "save" and ins[1] == 2 * n + 1:
            continue
        if ins[0] == "split":
            st += [ins[1], ins[2]]
        elif ins[0] in ("jmp", "loop"):
            st.append(ins[1])
        else:
            st.append(pc + 1)
    return True


def expand_repl(it, repl, group):
    """replacement template with \\N references"""
    if not isinstance(repl, str):
        raise Unsupported("symbolic replacement template")
    out = []
    i = 0
    while i < len(repl):
        c = repl[i]
        if c == "\\" and i + 1 < len(repl):
            d = repl[i + 1]
            if d.isdigit():
                out.append(group(int(d)) or "")
            elif d == "\\":
                out.append("\\")
            else:
                raise Unsupported("replacement escape")
            i += 2
        else:
            out.append(c)
            i += 1
    return mkstr(out)


def successive(it, ptext, atoms, flags, string, limit=30):
    """exact successive matches on a template: list of (start, end, Result); raises Undecided"""
    p = rx.program(ptext, flags, True, atoms)
    parts = list(sparts(string))
    out = []
    pos = (0, 0)
    end = (len(parts), 0)
    prev = rx.START
    for _ in range(limit):
        s = rx.Sim(p, parts)
        r = rx.Result(p, parts, s.run(pos, prev))
        if r.matched is False:
            return out
        if r.matched is None:
            raise rx.Undecided("successive")
        a, b = r.position(0), r.position(1)
        if a[0] != "p" or b[0] != "p":
            raise rx.Undecided("successive")
        if a == b:
            raise rx.Undecided("empty match")
        out.append((a[1:], b[1:], r))
        pos = b[1:]
        i, off = pos
        if off > 0:
            prev = ("ch", parts[i][off - 1])
        elif i > 0:
            q = parts[i - 1]
            prev = ("ch", q[-1]) if isinstance(q, str) else ("cls", q.cls)
        if pos == end or (i >= len(parts)):
            return out
    raise rx.Undecided("many matches")


def rx_sub(it, pat, flags, repl, string, count):
    ptext, atoms = compile_pattern(pat)
    if ptext is not None and count == 0:
        try:
            ms = successive(it, ptext, atoms, flags, string)
            parts = list(sparts(string))
            out = []
            pos = (0, 0)
            for a, b, r in ms:
                out.append(rx.cut(parts, pos, a))
                out.append(expand_repl(it, repl, r.group))
                pos = b
            out.append(rx.cut(parts, pos, (len(parts), 0)))
            return mkstr(out)
        except rx.Undecided:
            pass
        if not atoms:
            r = rx.z3re(ptext, flags, "search")
            if r is not None and not it.ctx.branch(z3.InRe(sterm(string), r)):
                return string
    return Str([Atom(B.uf("rx_sub", [sterm(pat), z3.IntVal(flags), sterm(repl), sterm(string), z3.IntVal(count)], z3.StringSort()))])


def rx_split(it, pat, flags, string, maxsplit):
    ptext, atoms = compile_pattern(pat)
    if ptext is not None and maxsplit == 0:
        try:
            ms = successive(it, ptext, atoms, flags, string)
            parts = list(sparts(string))
            out = []
            pos = (0, 0)
            p = rx.program(ptext, flags, True, atoms)
            for a, b, r in ms:
                out.append(rx.cut(parts, pos, a))
                for g in range(1, p.groups):
                    out.append(r.group(g))
                pos = b
            out.append(rx.cut(parts, pos, (len(parts), 0)))
            return it.mklist(out)
        except rx.Undecided:
            pass
    return it.cell(ListV(et=STR, seq=B.uf("rx_split", [sterm(pat), z3.IntVal(flags), sterm(string), z3.IntVal(maxsplit)], B.SEQ_STR)))


def rx_finditer(it, pat, flags, string):
    ptext, atoms = compile_pattern(pat)
    if ptext is not None:
        try:
            ms = successive(it, ptext, atoms, flags, string)
            return it.mklist([RxMatch(it, pat, flags, string, "search", r) for a, b, r in ms])
        except rx.Undecided:
            pass
    h = it.prog.hooks.get("finditer")
    if h:
        return h(it, pat, flags, string)
    raise Unsupported("finditer on an unknown text")

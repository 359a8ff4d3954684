"""Ghost state for caches: which cached answers may be out of date.

For every method of a class the verification conditions of a two-point ghost
variable per cached function are generated: writing a field that the cached
function reads (directly or through the methods it calls) makes a filled cache
`stale`, cache_clear makes it `empty`, asking fills it. Contracts: public methods start and end with all
caches fresh, a cached function is only called fresh, cached functions write
nothing. Joins take the worse of both branches, loops run to the fixpoint."""
import ast

MUT = {"append", "extend", "insert", "remove", "pop", "clear", "update", "add", "discard", "setdefault", "sort", "reverse", "popitem",
       "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "__iadd__", "appendleft"}
FRESH = {"list", "set", "dict", "tuple", "sorted", "max", "min", "len", "any", "all", "str", "repr", "sum", "frozenset", "bool", "int", "isinstance", "deepcopy", "copy"}


class Effects:
    def __init__(self, cls, settable, reentrant):
        self.cls = cls
        self.settable = settable            # attributes of other objects that can be set
        self.reentrant = reentrant          # functions that get self and call back
        self.methods = {}
        for s in cls.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = s
        self.cached = {n for n, f in self.methods.items() if any("cache" in ast.unparse(d) for d in f.decorator_list)}
        self.props = {n for n, f in self.methods.items() if any(ast.unparse(d) == "property" for d in f.decorator_list)}
        # caches assigned or wrapped in the class body:  X = functools.cache(f)
        for s in cls.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and "cache" in ast.unparse(s.value.func):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.cached.add(t.id)
                        for a in s.value.args:
                            if isinstance(a, ast.Name) and a.id in self.methods:
                                self.methods[t.id] = self.methods[a.id]
        self._reads = {}
        self.obls = []
        self.active = []

    # ---- what a method reads
    def selfname(self, f):
        return f.args.args[0].arg if f.args.args and not any(ast.unparse(d) == "staticmethod" for d in f.decorator_list) else None

    def reads(self, name, seen=()):
        if name in self._reads:
            return self._reads[name]
        if name in seen:
            return set()
        f = self.methods[name]
        me = self.selfname(f)
        out = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute):
                base = n.value
                if isinstance(base, ast.Name) and base.id in (me, self.cls.name):
                    if n.attr in self.methods:
                        out |= self.reads(n.attr, seen + (name,))
                    else:
                        out.add(n.attr)
                elif n.attr == "GetAttributes":
                    out |= {"@" + a for a in self.settable}
                elif n.attr in self.settable and isinstance(n.ctx, ast.Load):
                    out.add("@" + n.attr)
        if not seen:
            self._reads[name] = out
        return out

    # ---- taint: the fields an expression may be part of
    def taint(self, e, env, me):
        T = lambda x: self.taint(x, env, me)
        if isinstance(e, ast.Name):
            return env.get(e.id, set())
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == me:
                if e.attr in self.methods:
                    return self.ret_taint(e.attr) if e.attr in self.props else set()
                return {e.attr}
            return T(e.value)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return set()
            return T(e.value)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                return set()
            if isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Name) and f.value.id == me and f.attr in self.methods:
                    return self.ret_taint(f.attr)
                if f.attr in ("copy", "deepcopy") or f.attr in FRESH:
                    return set()
                return T(f.value)
            return set()
        if isinstance(e, ast.IfExp):
            return T(e.body) | T(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[T(x) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            return T(e.value)
        if isinstance(e, (ast.Tuple, ast.List)):
            return set().union(*[T(x) for x in e.elts]) if e.elts else set()
        if isinstance(e, ast.Starred):
            return T(e.value)
        return set()

    def ret_taint(self, name, seen=[]):
        if name in self.cached:
            return {"result of " + name}
        if name in seen:
            return set()
        f = self.methods[name]
        me = self.selfname(f)
        seen.append(name)
        try:
            env = self.local_taints(f, me)
            out = set()
            for n in ast.walk(f):
                if isinstance(n, ast.Return) and n.value is not None:
                    out |= self.taint(n.value, env, me)
            return out
        finally:
            seen.pop()

    def local_taints(self, f, me):
        env = {}
        for _ in range(4):
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind(t, self.taint(n.value, env, me), env)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.bind(n.target, self.taint(n.iter, env, me), env)
                elif isinstance(n, ast.NamedExpr):
                    self.bind(n.target, self.taint(n.value, env, me), env)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self.bind(n.target, self.taint(n.value, env, me), env)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    self.bind(n.optional_vars, self.taint(n.context_expr, env, me), env)
        return env

    def bind(self, t, ts, env):
        if isinstance(t, ast.Name):
            env[t.id] = env.get(t.id, set()) | ts
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, ts, env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, ts, env)

    # ---- ghost state
    def stale_by(self, fields):
        return {c for c in self.cached if self.reads(c) & fields}

    def oblige(self, name, ok, why=""):
        self.obls.append((name, ok, why))

    def method(self, name, state, top):
        """state after the method, starting in state; obligations are recorded for this method"""
        f = self.methods[name]
        me = self.selfname(f)
        fr = Frame(self, f, me, top)
        fr.env = self.local_taints(f, me)
        out = fr.block(f.body, frozenset(state))
        exits = list(fr.exits) + ([out] if out is not None else [])
        return frozenset().union(*exits) if exits else frozenset()

    def writes_of(self, name):
        f = self.methods[name]
        me = self.selfname(f)
        fr = Frame(self, f, me, name)
        fr.env = self.local_taints(f, me)
        fr.dry = True
        fr.block(f.body, frozenset())
        return fr.written


class Frame:
    def __init__(self, eff, f, me, top):
        self.e, self.f, self.me, self.top = eff, f, me, top
        self.exits = []
        self.loop = []
        self.written = set()
        self.dry = False
        self.const = {}
        self.falsy = set()

    # ---- names that hold a false value all the time (arguments that are not given)
    def empty(self, x):
        if isinstance(x, ast.Constant):
            return not x.value
        if isinstance(x, ast.Name):
            return x.id in self.falsy
        if isinstance(x, (ast.List, ast.Tuple, ast.Set)):
            return not x.elts
        if isinstance(x, ast.Dict):
            return not x.keys
        if isinstance(x, ast.IfExp):
            return (self.empty(x.test) or self.empty(x.body)) and self.empty(x.orelse)
        if isinstance(x, ast.BoolOp):
            return (any if isinstance(x.op, ast.And) else all)(self.empty(v) for v in x.values)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "set", "dict", "sorted", "bool") and not x.keywords:
            return all(self.empty(a) and not isinstance(a, ast.Constant) for a in x.args)
        return False

    def settle(self):
        """keep only the names every assignment gives a false value"""
        f = self.f
        while True:
            bad = set()
            for n in ast.walk(f):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            if not self.empty(n.value):
                                bad.add(t.id)
                        else:
                            bad |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension, ast.NamedExpr)):
                    bad |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    bad |= {x.id for x in ast.walk(n.func.value) if isinstance(x, ast.Name)}
                elif isinstance(n, (ast.withitem, ast.ExceptHandler)):
                    bad |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | ({n.name} if getattr(n, "name", None) else set())
            if not bad & self.falsy:
                return
            self.falsy -= bad

    def arguments(self, fr, call, f, me):
        """the parameters of f that are false in this call"""
        if call is None or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return
        ps = [a.arg for a in f.args.args]
        dflt = dict(zip(ps[len(ps) - len(f.args.defaults):], f.args.defaults))
        for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults):
            dflt[a.arg] = d
        pos = [p for p in ps if p != me]
        given = dict(zip(pos, call.args))
        given.update({k.arg: k.value for k in call.keywords})
        for p in list(dict.fromkeys(pos + list(dflt))):
            if p in given:
                if self.empty(given[p]):
                    fr.falsy.add(p)
            elif isinstance(dflt.get(p), ast.Constant) and not dflt[p].value:
                fr.falsy.add(p)
        fr.settle()

    def write(self, fields, state, line):
        self.written |= fields
        for r in fields:
            if r.startswith("result of "):
                self.e.oblige("%s: %s is not changed (line %d)" % (self.top, r, line), False, "a cached answer is modified")
        # an empty cache cannot be out of date
        return state | frozenset(c for c in self.e.stale_by(fields) if "+" + c in state)

    def block(self, body, state):
        for s in body:
            if state is None:
                return None
            state = self.stmt(s, state)
        return state

    def stmt(self, s, st):
        e = self.e
        if isinstance(s, ast.Return):
            if s.value is not None:
                st = self.expr(s.value, st)
            self.exits.append(st)
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, ast.Break):
            self.loop[-1][0].append(st)
            return None
        if isinstance(s, ast.Continue):
            self.loop[-1][1].append(st)
            return None
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            if self.empty(s.test):
                return self.block(s.orelse, st)
            if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) and self.empty(s.test.operand):
                return self.block(s.body, st)
            a = self.block(s.body, st)
            b = self.block(s.orelse, st)
            return b if a is None else a if b is None else a | b
        if isinstance(s, (ast.For, ast.While)):
            st = self.expr(s.iter if isinstance(s, ast.For) else s.test, st)
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) and isinstance(s.target, ast.Name) and not any(isinstance(x, ast.Starred) for x in s.iter.elts):
                brk = []
                for x in s.iter.elts:
                    self.const[s.target.id] = x
                    self.loop.append((brk, []))
                    out = self.block(s.body, st)
                    cnt = self.loop.pop()[1]
                    outs = cnt + ([out] if out is not None else [])
                    if not outs:
                        st = None
                        break
                    st = frozenset().union(*outs)
                self.const.pop(s.target.id, None)
                outs = brk + ([st] if st is not None else [])
                return frozenset().union(*outs) if outs else None
            acc = st
            brk = []
            for _ in range(6):
                self.loop.append((brk, []))
                out = self.block(s.body, acc)
                cnt = self.loop.pop()[1]
                new = acc.union(*cnt) | (out or frozenset())
                if isinstance(s, ast.While):
                    new = self.expr(s.test, new)
                if new == acc:
                    break
                acc = new
            endless = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            out = None if endless else self.block(s.orelse, acc) if s.orelse else acc
            outs = brk + ([out] if out is not None else [])
            return frozenset().union(*outs) if outs else None
        if isinstance(s, ast.Try):
            n0 = len(self.exits)
            a = self.block(s.body, st)
            mid = st | (a or frozenset())
            outs = []
            if a is not None:
                b = self.block(s.orelse, a)
                if b is not None:
                    outs.append(b)
            for h in s.handlers:
                # an exception may come from anywhere in the body
                b = self.block(h.body, mid)
                if b is not None:
                    outs.append(b)
            if s.finalbody:
                for i in range(n0, len(self.exits)):
                    x = self.block(s.finalbody, self.exits[i])
                    if x is not None:
                        self.exits[i] = x
                outs = [x for x in (self.block(s.finalbody, o) for o in outs) if x is not None]
            return frozenset().union(*outs) if outs else None
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.expr(i.context_expr, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.target(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                st = self.expr(s.value, st)
                st = self.target(s.target, st)
            return st
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                return self.write(set(e.taint(s.target, self.env, self.me)), st, s.lineno)
            return self.target(s.target, st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                st = self.target(t, st)
            return st
        if isinstance(s, ast.Expr):
            return self.expr(s.value, st)
        if isinstance(s, ast.Assert):
            return self.expr(s.test, st)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(s, ast.FunctionDef):
                # a helper defined inside may run any number of times from here on
                out = self.block(s.body, st)
                return st | (out or frozenset())
            return st
        raise NotImplementedError(type(s).__name__)

    def target(self, t, st):
        e = self.e
        if isinstance(t, ast.Name):
            return st
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.target(x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, st)
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.me:
                return self.write({t.attr}, st, t.lineno)
            st = self.expr(t.value, st)
            return self.write({"@" + t.attr}, st, t.lineno)
        if isinstance(t, ast.Subscript):
            st = self.expr(t.slice, st)
            return self.write(set(e.taint(t.value, self.env, self.me)), self.expr(t.value, st), t.lineno)
        return st

    def resolve(self, x):
        """the method an expression names"""
        if isinstance(x, ast.Name) and x.id in self.const:
            return self.resolve(self.const[x.id])
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in (self.me, self.e.cls.name, "cls"):
            return x.attr
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "type":
            return x.attr
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" and len(x.args) >= 2:
            a = x.args[1]
            if isinstance(a, ast.Name) and a.id in self.const:
                a = self.const[a.id]
            if isinstance(a, ast.Constant):
                n = str(a.value)
                p = "_%s__" % self.e.cls.name
                return "__" + n[len(p):] if n.startswith(p) else n
        return None

    def expr(self, x, st):
        """effects of evaluating x, in evaluation order"""
        e = self.e
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Attribute):
                m = None
                if f.attr in ("cache_clear", "cache_info", "cache_parameters"):
                    m = self.resolve(f.value)
                    if f.attr == "cache_clear" and m is not None:
                        return st - {m, "+" + m}
                    return st
                st = self.expr(f.value, st)
            for a in x.args:
                st = self.expr(a, st)
            for k in x.keywords:
                st = self.expr(k.value, st)
            m = self.resolve(f) if not isinstance(f, ast.Name) else self.resolve(f) if f.id in self.const else None
            if m in e.methods:
                return self.call(m, st, x.lineno, x)
            if isinstance(f, ast.Name) and f.id in e.reentrant:
                if not self.dry:
                    for c in sorted(e.cached):
                        e.oblige("%s: %s is fresh when %s is called" % (self.top, c, f.id), c not in st)
                # it may ask and change through methods, which leave the caches fresh
                return st | frozenset("+" + c for c in e.cached)
            if isinstance(f, ast.Attribute) and f.attr in MUT:
                return self.write(set(e.taint(f.value, self.env, self.me)), st, x.lineno)
            return st
        if isinstance(x, ast.Attribute):
            if isinstance(x.value, ast.Name) and x.value.id == self.me and x.attr in e.props:
                return self.call(x.attr, st, x.lineno)
            return self.expr(x.value, st)
        if isinstance(x, ast.Lambda):
            return st | self.expr(x.body, st)
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in x.generators:
                st = self.expr(g.iter, st)
                for c in g.ifs:
                    st = st | self.expr(c, st)
            for p in ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]):
                st = st | self.expr(p, st)
            return st
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.expr):
                st = self.expr(c, st) if not isinstance(x, (ast.IfExp, ast.BoolOp)) else st | self.expr(c, st)
        return st

    def fills(self, m, seen=None):
        """the caches an evaluation of m may fill"""
        seen = set() if seen is None else seen
        if m in seen:
            return set()
        seen.add(m)
        out = {m} & self.e.cached
        f = self.e.methods[m]
        me = self.e.selfname(f)
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in (me, self.e.cls.name) and n.attr in self.e.methods:
                out |= self.fills(n.attr, seen)
        return out

    def call(self, m, st, line, node=None):
        e = self.e
        if m in e.cached:
            if not self.dry:
                e.oblige("%s: %s is fresh when it is asked (%s)" % (self.top, m, self.f.name), m not in st, "line %d" % line)
            return st | frozenset("+" + c for c in self.fills(m))
        if m in e.active:
            return st | frozenset("+" + c for c in self.fills(m))
        e.active.append(m)
        try:
            f = e.methods[m]
            me = e.selfname(f)
            fr = Frame(e, f, me, self.top)
            fr.dry = self.dry
            fr.env = e.local_taints(f, me)
            self.arguments(fr, node, f, me)
            out = fr.block(f.body, st)
            self.written |= fr.written
            exits = list(fr.exits) + ([out] if out is not None else [])
            return frozenset().union(*exits) if exits else st
        finally:
            e.active.pop()


def check(cls, settable, reentrant, skip=()):
    """obligations (name, holds, detail) for all methods of the class"""
    e = Effects(cls, settable, reentrant)
    for n in sorted(e.cached):
        w = {x for x in e.writes_of(n) if any(x in e.reads(c) for c in e.cached)}
        e.oblige("%s writes nothing a cached answer depends on" % n, not w, ", ".join(sorted(w)))
    for n in sorted(e.methods):
        f = e.methods[n]
        private = n.startswith("_")
        if n in e.cached or (private and n != "__init__") or n in skip:
            continue
        e.active = [n]
        out = e.method(n, frozenset(e.cached | {"+" + c for c in e.cached}) if n == "__init__" else frozenset("+" + c for c in e.cached), n)
        for c in sorted(e.cached):
            if n == "__init__" and not e.reads(c):
                continue
            e.oblige("%s: %s is fresh at the end" % (n, c), c not in out)
    return e

"""C06: answers never go stale when the stash changes."""
import ast
from proofs.common import *
from pyvc import effects
from pyvc.ctx import Run

ASSUMPTIONS = ["the file system, the constants and (other than by the stash) the items do not change",
               "functools.cache gives the stored answer for equal arguments until cache_clear",
               "parser.get_items changes the stash only through its methods",
               "an exception ends the history"]
NOTE = "ghost freshness of every cached function over every path of every method; what a cached function reads is computed from its code"


def unit(P):
    r = Run("caches", P.factory())
    m = P.mods["cls_stash"]
    cls = m.top["Stash"]
    items = P.mods["cls_item"]
    settable = set()
    for c in ast.walk(items.tree):
        if isinstance(c, ast.FunctionDef):
            for d in c.decorator_list:
                if isinstance(d, ast.Attribute) and d.attr == "setter":
                    settable.add(c.name)
    # module functions that get the stash and call back
    back = {n.func.id for f in ast.walk(cls) if isinstance(f, ast.FunctionDef) for n in ast.walk(f)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and any(isinstance(a, ast.Name) and a.id == "self" for a in list(n.args) + [k.value for k in n.keywords])}
    back -= {"type", "super", "isinstance", "getattr", "hasattr", "str", "repr", "id", "hash"}
    e = effects.check(cls, settable, back)
    # several sites may have the same name
    for n, ok, why in e.obls:
        r.record(n, "discharged" if ok else "failed", "effect calculus", 0, None if ok else (why or "may be out of date"))
    r.functions |= {"cls_stash.Stash." + n for n in e.methods}
    r.covers["cached-functions"] = bool(e.cached)
    r.covers["cached-functions-that-read-the-stash"] = any(e.reads(c) for c in e.cached)
    # the parser touches the stash only through methods
    pm = P.mods["parser"]
    for f in ast.walk(pm.tree):
        if isinstance(f, ast.FunctionDef) and any(a.arg == "stash" for a in f.args.args):
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "stash":
                    r.record("the-parser-uses-methods-only: " + n.attr, "discharged" if n.attr in e.methods and isinstance(n.ctx, ast.Load) else "failed", "effect calculus", 0, None)
    # equal arguments are the same items: no class of items defines equality
    for c in ast.walk(items.tree):
        if isinstance(c, ast.ClassDef):
            own = {f.name for f in c.body if isinstance(f, ast.FunctionDef)}
            r.record("items-are-equal-only-if-identical: " + c.name, "failed" if own & {"__eq__", "__hash__"} else "discharged", "effect calculus", 0, None)
    return r


def units(tier):
    return [("caches", unit)]

"""C01: parsing splits a file into items without losing or moving text."""
from proofs.common import *
from proofs.scan import *

ASSUMPTIONS = ["a file is opened in text mode; its text is what the lines read from it make up", "a line read from a file is not empty", "the loop over the inline blocks of a chunk ends (C02)"]
TRUSTED = ["enumerate, next and file iteration", "str.count counts single characters"]
NOTE = "for every text: the decisions taken by the regular expressions are left open, so the result holds whatever they answer; loops by invariants found among candidates and a variant (the text left to read)"

SPEC = '''
def source(chunks):
    return "".join(realraw_of(x) for x in chunks)

def next_line(chunks, offset):
    "the line after the chunks, None if one of them does not start on its line or holds no text"
    n = 1
    for x in chunks:
        if n is not None:
            if line_of(x) == n + offset and realraw_of(x) != "":
                n = n + realraw_of(x).count("\\n")
            else:
                n = None
    return n
'''
CHUNK = TOpaque("Chunk")


def nl(it, t):
    return it.to_term(INT, B.str_count(it, Str([Atom(t)]), "\n"))


def texts(it, env):
    return {n: v for n, v in ((n, env.vars[n]) for n in sorted(env.vars)) if isinstance(v, (str, Str)) and not n.startswith("$")}


def guards(env, mods):
    out = {"": lambda: z3.BoolVal(True)}
    for n in mods:
        if isinstance(env.vars.get(n), (bool, z3.BoolRef)):
            g = lambda n=n: z3.BoolVal(env.vars[n]) if isinstance(env.vars[n], bool) else env.vars[n]
            out[n] = g
            out["not " + n] = lambda g=g: z3.Not(g())
    return out


def conservation(it, env):
    """the text held by one or two variables and the text left to read make up the whole"""
    total, src = it.ctx.ghost["total"], it.ctx.ghost["iter"]
    out = {}
    mods = list(env.vars)
    ts = texts(it, env)

    def val(n):
        v = env.vars.get(n, UNDEF)
        return sterm(v) if isinstance(v, (str, Str)) else None

    def same(gn, g, *ns):
        def f():
            vs = [val(n) for n in ns]
            if any(v is None for v in vs):
                return z3.BoolVal(False)
            return z3.Implies(g(), z3.Concat(*vs, src.rest) == total)
        out["%s=>%s" % (gn, "+".join(ns))] = f
    for gn, g in guards(env, mods).items():
        for a in ts:
            same(gn, g, a)
            for b in ts:
                if a != b:
                    same(gn, g, a, b)
    for a in ts:
        out[a + " is not empty"] = lambda a=a: val(a) != EMPTY if val(a) is not None else z3.BoolVal(False)
    return out


def reads(it, s, env):
    """the loop reads lines"""
    for n in names_of(s.body + [ast.Expr(s.test)]):
        e = env
        while e is not None:
            if n in e.vars:
                if isinstance(e.vars[n], LineIter):
                    return True
                break
            e = e.parent
    return False


def left(it, env):
    return lambda: z3.Length(it.ctx.ghost["iter"].rest)


class Replaced(Loop):
    """the loop over the inline blocks: only that it ends with something (C02)"""

    def run(self, it, s, env):
        mods = assigned_names(s.body + [ast.Expr(s.test)])
        entry = {n: it.force(env.vars[n]) for n in mods if n in env.vars and env.vars[n] is not UNDEF}
        cells = [env.vars[n] for n in names_of(s.body) if isinstance(env.vars.get(n), ListV)]
        havoc(it, env, mods, entry, cells, lambda it, c: TTup(STR, STR))


def unit_chunk(P):
    readers(P)
    any_regex(P)
    install(P, Loop(conservation, left, applies=reads))
    install(P, Replaced(None, applies=lambda it, s, env: not reads(it, s, env)))
    P.contracts["inlinerep.inlinerep"] = lambda it, b: it.from_term(TOpt(STR), z3.Function("inlinerep", S, sort_of(TOpt(STR)))(sterm(it.force(b["_in"]))))

    def thunk(it):
        buf, rest = z3.String("buf"), z3.String("unread")
        it.ctx.assume(buf != EMPTY)
        src = it.cell(LineIter(rest, True))
        it.ctx.ghost.update(total=z3.Concat(buf, rest), iter=src)
        num, off = z3.Int("num"), z3.Int("lineOffset")
        cover(it, "chunk")
        f = it.prog.module_get(it, "parser", "prepare_lines_subparser")[0]
        res, nxt, n = it.force(it.call(f, [src, off, num, Str([Atom(buf)])], dict(negative=z3.Bool("negative"))))
        real = it.force(it.getitem(res, "realraw"))
        it.ctx.prove("no-text-is-lost-or-moved", z3.Concat(sterm(real), sterm(it.force(nxt)), src.rest) == z3.Concat(buf, rest))
        it.ctx.prove("a-chunk-holds-text", sterm(real) != EMPTY)
        it.ctx.prove("counts-its-lines", it.to_term(INT, n) == nl(it, sterm(real)))
        it.ctx.prove("starts-on-its-line", it.to_term(INT, it.getitem(res, "line")) == num + off)
    return P.run("chunk", thunk)


def chunk_hooks(P):
    P.add_spec("spec", SPEC)
    fn = {"realraw": (STR, "realraw_of"), "line": (INT, "line_of"), "raw": (STR, "raw_of"), "cnt": (STR, "cnt_of"), "inline_blocks": (TList(TTup(STR, STR)), "blocks_of")}

    def get(it, v, k):
        k = it.force(k)
        if k not in fn:
            raise Unsupported("part %r of a chunk" % (k,))
        ty, n = fn[k]
        return it.from_term(ty, z3.Function(n, sort_of(CHUNK), sort_of(ty))(v.term))
    P.hooks[("opaque_getitem", "Chunk")] = get
    P.hooks[("opaque_method", "Chunk")] = lambda it, v, n: BuiltinV("get", lambda k, *d: get(it, v, k)) if n == "get" else None
    for n in ("realraw_of", "line_of"):
        P.overrides[("spec", n)] = lambda it, n=n: BuiltinV(n, lambda c: get(it, c, n[:-3]))


def chunker(it, b):
    """the contract proved by prepare_lines_subparser"""
    src, ctx = it.force(b["_iter"]), it.ctx
    if not isinstance(src, LineIter) or not src.enum:
        raise Unsupported("chunks are read from %r" % src)
    buf = sterm(it.force(b["line"]))
    if b.get("raw_line") is not None:
        raise Unsupported("raw_line")
    ctx.prove("chunk-starts-with-text", buf != EMPTY)
    c = ctx.fresh("chunk", sort_of(CHUNK))
    nxt, rest = ctx.fresh("next", S), ctx.fresh("rest", S)
    real = z3.Function("realraw_of", sort_of(CHUNK), S)(c)
    ctx.assume(z3.Concat(real, nxt, rest) == z3.Concat(buf, src.rest))
    ctx.assume(z3.Length(real) >= 1)
    ctx.assume(z3.Length(rest) <= z3.Length(src.rest))
    ctx.assume(z3.Function("line_of", sort_of(CHUNK), z3.IntSort())(c) == it.to_term(INT, b["num"]) + it.to_term(INT, b["lineOffset"]))
    src.touched(ctx)
    src.rest = rest
    return (OpaqueV(CHUNK, c), Str([Atom(nxt)]), nl(it, real))


def is_chunks(v):
    return isinstance(v, ListV) and not v.tup and (v.et is CHUNK or v.items is not None and all(isinstance(x, OpaqueV) and x.ty is CHUNK for x in v.items))


NUM = TOpt(INT)


def over(it, fn, ty, chunks, *args):
    """the value of a function of the specification, evaluated once per exploration for a list of any kind"""
    any_ = z3.Const("any_chunks", z3.SeqSort(sort_of(CHUNK)))
    g = it.ctx.ghost.setdefault("spec", {})
    if fn not in g:
        g[fn] = it.to_term(ty, spec(it, "spec", fn, it.from_term(TList(CHUNK), any_), *args))
    return it.ctx.rw(z3.substitute(g[fn], (any_, it.to_term(TList(CHUNK), it.force(chunks)))))


def next_line(it, chunks):
    return over(it, "next_line", NUM, chunks, z3.Int("lineOffset"))


def source(it, chunks):
    return over(it, "source", STR, chunks)


def tiling(it, env):
    """the chunks so far, the text held back and the text left to read make up the whole; the lines are right"""
    total = it.ctx.ghost["total"]
    src = it.ctx.ghost["iter"]
    out = {}
    ts = texts(it, env)
    ls = {n: v for n, v in env.vars.items() if is_chunks(v)}
    ns = [n for n, v in env.vars.items() if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)]

    def val(n):
        v = env.vars.get(n, UNDEF)
        return sterm(v) if isinstance(v, (str, Str)) else EMPTY

    def sofar(l):
        return source(it, env.vars[l])
    for l in ls:
        out[l] = lambda l=l: z3.Concat(sofar(l), src.rest) == total
        for t in ts:
            out[l + "+" + t] = lambda l=l, t=t: z3.Concat(sofar(l), val(t), src.rest) == total
        for n in ns:
            out["%s counts %s" % (n, l)] = lambda l=l, n=n: next_line(it, env.vars[l]) == it.to_term(NUM, env.vars[n])
    for t in ts:
        out[t + " empty"] = lambda t=t: val(t) == EMPTY
    return out


def spent(it, env):
    """the text that is in no chunk yet"""
    def f():
        ls = [v for k, v in sorted(env.vars.items()) if is_chunks(v)]
        if not ls:
            raise Unsupported("no list of chunks")
        return z3.Length(it.ctx.ghost["total"]) - z3.Length(source(it, ls[0]))
    return f


class Text(Lines):
    """the lines of the file"""

    def enumerate_(self, it):
        it.ctx.ghost["iter"] = super().enumerate_(it)
        return it.ctx.ghost["iter"]

    def iter_(self, it):
        it.ctx.ghost["iter"] = super().iter_(it)
        return it.ctx.ghost["iter"]


class Opened(Value):
    def __init__(self, text):
        self.text = text

    def getattr_(self, it, name):
        if name == "readlines":
            return BuiltinV("readlines", lambda: Text(self.text))
        return None

    def enumerate_(self, it):
        return Text(self.text).enumerate_(it)

    def iter_(self, it):
        return Text(self.text).iter_(it)


def unit_lines(P):
    readers(P)
    chunk_hooks(P)
    P.contracts["parser.prepare_lines_subparser"] = chunker
    install(P, Loop(tiling, spent, types=lambda it, c: CHUNK))

    def opened(it, path):
        eqv(it, "opens-the-file", it.force(path), text("file"))
        return Opened(z3.String("content"))
    P.hooks["open"] = opened

    def thunk(it):
        it.ctx.ghost.update(total=z3.String("content"), iter=None, spec={})
        source(it, it.mklist([]))
        next_line(it, it.mklist([]))
        cover(it, "lines")
        f = it.prog.module_get(it, "parser", "prepare_lines")[0]
        got = it.force(it.call(f, [text("file"), z3.Int("lineOffset")], dict(negative=z3.Bool("negative"))))
        it.ctx.prove("chunks-make-up-the-text", source(it, got) == z3.String("content"))
        it.ctx.prove("chunks-hold-text-and-start-on-their-lines", next_line(it, got) != it.to_term(NUM, None))
    return P.run("lines", thunk)


class Chunks(AnyRound):
    """the loop over the chunks: one round adds exactly one item, which holds the text of the chunk"""

    def run(self, it, s, env, x):
        seq = x[2]
        it.ctx.prove("goes-over-all-chunks", seq == z3.Const("chunks", z3.SeqSort(sort_of(CHUNK))))
        lists = [v for v in env.vars.values() if isinstance(v, ListV) and not v.tup and v.items == []]
        for v in lists:
            v.touched(it.ctx)
            v.items = [MARK]
        return super().run(it, s, env, x)


def marked(it, env):
    return [v for v in env.vars.values() if isinstance(v, ListV) and not v.tup and v.items and v.items[0] is MARK]


def one_more(it, env, chunk, pre):
    new = [v for v in marked(it, env) if len(v.items) > 1]
    it.ctx.prove("one-item-per-chunk", z3.BoolVal(len(new) == 1 and len(new[0].items) == 2))
    if len(new) != 1 or len(new[0].items) != 2:
        return
    it.ctx.ghost["res"] = new[0]
    it.ctx.ghost["keeps"](it, it.force(new[0].items[1]), chunk)


def part(chunk, n, ty):
    return z3.Function(n + "_of", sort_of(CHUNK), sort_of(ty))(chunk.term)


def keeps(it, x, chunk):
    it.ctx.prove("an-item", z3.BoolVal(isinstance(x, Obj)))
    if not isinstance(x, Obj):
        return
    for attr, exp in (("RealRaw", Str([Atom(part(chunk, "realraw", STR))])), ("InFileLine", part(chunk, "line", INT) - z3.Int("lineOffset")), ("Origin", text("file"))):
        eqv(it, "keeps-" + attr, it.force(it.getattr(x, attr)), exp)


def unit_items(P, keeps=keeps):
    any_regex(P)
    chunk_hooks(P)
    P.contracts["cls_item.Item.extract_sub"] = lambda it, b: (Str([Atom(it.ctx.fresh("esub", S))]), Str([Atom(it.ctx.fresh("esub", S))]))
    P.contracts["cls_item.Item.extract_sub_func"] = lambda it, b: (Str([Atom(it.ctx.fresh("esub", S))]), Str([Atom(it.ctx.fresh("esub", S))]))
    P.contracts["cls_stash.Stash.ExpandTerm"] = lambda it, b: Str([Atom(it.ctx.fresh("expanded", S))])
    P.contracts["cls_stash.Stash.FindLocalOrLayer"] = lambda it, b: Str([Atom(it.ctx.fresh("found", S))])
    P.contracts["cls_stash.Stash.AddFile"] = lambda it, b: it.cell(ListV(et=ITEM, seq=it.ctx.fresh("added", z3.SeqSort(Ref))))
    P.contracts["cls_stash.Stash.GetLastLine"] = lambda it, b: it.ctx.fresh("lastline", z3.IntSort())
    for n in ("ClassIgnore", "IncludeIgnore"):
        P.contracts["constants.Constants." + n] = lambda it, b, n=n: it.from_term(TList(STR), z3.Const(n, z3.SeqSort(S)))
    P.overrides[("constants", "CONSTANTS")] = lambda it: it.cell(Obj(it.prog.cls(it, "Constants")))

    def chunks(it, b):
        eqv(it, "reads-the-file", it.force(b["_file"]), text("file"))
        it.ctx.prove("with-the-offset", it.to_term(INT, b["lineOffset"]) == z3.Int("lineOffset"))
        return it.from_term(TList(CHUNK), z3.Const("chunks", z3.SeqSort(sort_of(CHUNK))))
    P.contracts["parser.prepare_lines"] = chunks
    get = P.hooks[("opaque_getitem", "Chunk")]

    def has_text(it, v, k):
        r = get(it, v, k)
        if it.force(k) == "realraw":
            it.ctx.assume(part(v, "realraw", STR) != EMPTY)
        return r
    P.hooks[("opaque_getitem", "Chunk")] = has_text
    P.for_hooks.setdefault("parser.get_items", []).append(Chunks(applies=lambda it, s, env, x: x[1] is CHUNK, each=one_more, changes=marked).hook)
    P.for_hooks["parser.get_items"].append(AnyRound(types=lambda it, c: STR).hook)

    def thunk(it):
        it.ctx.assume(z3.PrefixOf(z3.StringVal("/"), z3.String("file")))
        it.ctx.ghost["keeps"] = keeps
        cover(it, "items")
        f = it.prog.module_get(it, "parser", "get_items")[0]
        got = it.force(it.call(f, [stash(it), text("file"), z3.Int("lineOffset"), z3.Bool("nsyntax")], dict(negative=z3.Bool("negative"))))
        it.ctx.prove("gives-the-items-made", z3.BoolVal(isinstance(got, ListV) and got.items is not None and len(got.items) == 1 and got.items[0] is MARK))
    return P.run("items", thunk)


def units(tier):
    return [("prepare_lines_subparser", unit_chunk), ("prepare_lines", unit_lines), ("get_items", unit_items)]

"""C02: inline python blocks are replaced, recorded and restorable."""
import ast
from proofs.common import *
from proofs.scan import *
from proofs import C01

ASSUMPTIONS = ["a text that spells out the placeholder itself is not covered when values are restored"]
TRUSTED = ["str.find, str.replace with count 1, slices", "a group of a match is not longer than the matched text without what the rest of the pattern needs at least"]
NOTE = "for every text, any number and nesting of blocks; loops by invariants found among candidates and a variant (the text behind the first expression start)"

SPEC = '''
def replay(text, blocks, negative):
    "the text with the recorded blocks replaced one after the other, None if a record is wrong"
    t = text
    for old, new in blocks:
        if t is not None:
            if "${@" in t and first_block(t) == old and new == answer(old, negative):
                t = t.replace(old, new, 1)
            else:
                t = None
    return t

def restore(text, blocks):
    t = text
    for old, new in blocks:
        if new == "!!!inlineblock!!!":
            t = t.replace(new, old, 1)
    return t
'''
BLOCK = TTup(STR, STR)
START = z3.StringVal("${@")
PLACE = "!!!inlineblock!!!"
OSTR = TOpt(STR)
BODY, OP, CL = z3.String("text"), z3.String("op"), z3.String("cl")
END = z3.Function("END", z3.IntSort(), z3.IntSort(), z3.IntSort())


# ---------------------------------------------------------------- the matching brace
def scope_step(i, lvl):
    """defining equation of END: the index behind the brace that closes level 0, counted from index i at level lvl"""
    c = z3.SubString(BODY, i, 1)
    l2 = z3.If(c == OP, lvl + 1, z3.If(c == CL, lvl - 1, lvl))
    return END(i, lvl) == z3.If(z3.Or(i < 0, i >= z3.Length(BODY)), i, z3.If(l2 < 0, i + 1, END(i + 1, l2)))


def numbers(env):
    return [n for n, v in sorted(env.vars.items()) if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool)]


def num(it, env, n):
    v = env.vars.get(n, UNDEF)
    return it.to_term(INT, v) if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool) else None


def levels(env, first):
    """terms that may be the level: the change of a number since the loop began"""
    out = []
    for n in numbers(env):
        for base in [0] + ([first[n]] if isinstance(first.get(n), int) and first[n] else []):
            out += [(n, 1, base), (n, -1, base)]
    return out


def scoping(it, env):
    first = {n: env.vars[n] for n in numbers(env)}
    it.ctx.ghost["first"] = first
    out = {}

    def at(n):
        return it.ctx.ghost.get("at") if n is None else num(it, env, n)

    def level(n, sign, base, m):
        def f():
            v, i = num(it, env, n), at(m)
            if v is None or i is None:
                return z3.BoolVal(False)
            v = sign * (v - base)
            return z3.If(v < 0, i == END(0, 0), END(i, v) == END(0, 0))
        return f

    def pos(n, base):
        def f():
            v = num(it, env, n)
            return z3.BoolVal(False) if v is None or at(None) is None else v == at(None) + base
        return f
    places = ([None] if "at" in it.ctx.ghost else []) + numbers(env)
    for n, sign, base in levels(env, first):
        for m in places:
            if m != n:
                out["level %s %d %s at %s" % (n, sign, base, m)] = level(n, sign, base, m)
        out["not below %s %d %s" % (n, sign, base)] = lambda n=n, sign=sign, base=base: sign * (num(it, env, n) - base) >= 0 if num(it, env, n) is not None else z3.BoolVal(False)
    for n in numbers(env):
        for base in (0, 3, -1, 1):
            out["pos %s %d" % (n, base)] = pos(n, base)
        out["in %s" % n] = lambda n=n: z3.And(num(it, env, n) >= 0, num(it, env, n) <= z3.Length(BODY)) if num(it, env, n) is not None else z3.BoolVal(False)
    return out


def scope_facts(it, env):
    """the specified answer one character on, for every number that may be the level"""
    first = it.ctx.ghost["first"]
    places = ([it.ctx.ghost["at"]] if "at" in it.ctx.ghost else []) + [num(it, env, n) for n in numbers(env)]
    for i in places:
        it.ctx.assume(z3.Implies(z3.And(i >= 0, i < z3.Length(BODY)), z3.SubString(z3.Concat(START, BODY), i + 3, 1) == z3.SubString(BODY, i, 1)))
        for n, sign, base in levels(env, first):
            it.ctx.assume(scope_step(i, sign * (num(it, env, n) - base)))


class Scan(Loop):
    def hook(self, it, s, env):
        if not isinstance(s, ast.While):
            return None
        test = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
        step = {n.target.id for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name)}
        ns = [n for n in numbers(env) if n in step & test] or [n for n in numbers(env) if n in step] or [None]

        def left(it, env):
            if ns[0] is None:
                raise Unsupported("a loop that does not count")
            return lambda: z3.Length(BODY) - num(it, env, ns[0])
        l = Loop(scoping, left, facts=scope_facts)
        return lambda: l.run(it, s, env)


def unit_scope(P):
    P.hooks["enum_chars"] = True
    P.for_hooks.setdefault("*", []).append(CharLoop(scoping, facts=scope_facts).hook)
    install(P, Scan(None))

    def thunk(it):
        it.ctx.assume(z3.And(z3.Length(OP) == 1, z3.Length(CL) == 1, OP != CL))
        it.ctx.assume(scope_step(z3.IntVal(0), z3.IntVal(0)))
        cover(it, "scope")
        f = it.prog.module_get(it, "parser", "get_full_scope")[0]
        got = sterm(it.force(it.call(f, [Str(["${@", Atom(BODY)]), 3, Str([Atom(OP)]), Str([Atom(CL)])], {})))
        e = it.ctx.fresh("end", z3.IntSort())
        it.ctx.assume(e == END(0, 0))
        it.ctx.prove("up-to-the-matching-brace", got == z3.SubString(z3.Concat(START, BODY), 0, e + 3))
        it.ctx.prove("is-the-start-of-the-text", z3.PrefixOf(got, z3.Concat(START, BODY)))
    return P.run("scope", thunk)


# ---------------------------------------------------------------- the answer to a block
def emulations(P):
    """the functions of inlinerep.py that answer one text"""
    top = P.mods["inlinerep"].top
    used = [n.id for n in ast.walk(top["inlinerep"]) if isinstance(n, ast.Name)]
    return [n for n in dict.fromkeys(used) if isinstance(top.get(n), ast.FunctionDef) and top[n].args.args and top[n].args.args[0].arg == "_in"]


def unit_emulation(P):
    """no answer of an emulated function is longer than the text it is asked about"""
    any_regex(P)
    P.hooks["lengths"] = True

    def one(it, fn):
        t = z3.String("text")
        cover(it, fn)
        f = it.prog.module_get(it, "inlinerep", fn)[0]
        n = len(f.node.args.args)
        got = it.force(it.call(f, [Str([Atom(t)])] + [z3.Bool("negative")] * (n - 1), {}))
        if got is not None:
            it.ctx.prove("an-answer-is-no-longer", z3.Length(sterm(got)) <= z3.Length(t))
    return each(P, "emulation", emulations(P), one)


def unit_answer(P):
    any_regex(P)
    P.hooks["lengths"] = True

    def contract(fn):
        def h(it, b):
            t = sterm(it.force(list(b.values())[0]))
            r = z3.Function("answer_" + fn, S, sort_of(OSTR))(t)
            it.ctx.assume(z3.Implies(r.sort().recognizer(1)(r), z3.Length(r.sort().accessor(1, 0)(r)) <= z3.Length(t)))
            return it.from_term(OSTR, r)
        return h
    for fn in emulations(P):
        P.contracts["inlinerep." + fn] = contract(fn)

    def thunk(it):
        t = z3.String("text")
        cover(it, "answer")
        f = it.prog.module_get(it, "inlinerep", "inlinerep")[0]
        got = it.force(it.call(f, [Str(["${@", Atom(t)]), z3.Bool("negative")], {}))
        if got is None:
            return
        it.ctx.prove("an-answer-is-shorter", z3.Length(sterm(got)) <= z3.Length(t))
    return P.run("answer", thunk)


# ---------------------------------------------------------------- facts about texts
def texts_():
    return [z3.String(n) for n in ("pre", "b", "rest", "r", "x", "u", "v", "t")]


def first(pre, raw):
    return z3.IndexOf(raw, START, 0) == z3.Length(pre)


def lemma_replace(pre, block, rest, r):
    """a text that starts with the expression start is replaced where the first expression starts"""
    raw = z3.Concat(pre, block, rest)
    return z3.Implies(z3.And(first(pre, raw), z3.PrefixOf(START, block)), z3.Replace(raw, block, r) == z3.Concat(pre, r, rest))


def lemma_later(pre, x):
    """what follows the first expression start is replaced: the next one starts at most two characters earlier"""
    new = z3.Concat(pre, x)
    return z3.Or(z3.Not(z3.Contains(new, START)), z3.IndexOf(new, START, 0) >= z3.Length(pre) - 2)


def lemma_place(pre, x):
    new = z3.Concat(pre, z3.StringVal(PLACE), x)
    return z3.Or(z3.Not(z3.Contains(new, START)), z3.IndexOf(new, START, 0) >= z3.Length(pre) + len(PLACE))


def unit_lemmas(P):
    pre, b, rest, r, x, u, v, t = texts_()
    B_ = z3.Concat(START, b)
    raw = z3.Concat(pre, B_, rest)
    j = z3.IndexOf(raw, B_, 0)
    alone = {
        "found-at-or-before": z3.And(j >= 0, j <= z3.Length(pre)),
        "found-text-splits": z3.Implies(z3.IndexOf(t, x, 0) >= 0, t == z3.Concat(z3.SubString(t, 0, z3.IndexOf(t, x, 0)), x, z3.SubString(t, z3.IndexOf(t, x, 0) + z3.Length(x), z3.Length(t)))),
        "none-starts-earlier": z3.Implies(z3.And(z3.Concat(u, B_, v) == raw, z3.Length(u) < z3.Length(pre)), z3.Not(first(pre, raw))),
        "replaced-where-found": z3.Implies(j == z3.Length(pre), z3.Replace(raw, B_, r) == z3.Concat(pre, r, rest)),
        "length-of-the-part-before": z3.Implies(j >= 0, z3.Length(z3.SubString(raw, 0, j)) == j),
        "next-start": z3.Implies(first(pre, z3.Concat(pre, START, t)), lemma_later(pre, x)),
        "next-start-behind-placeholder": z3.Implies(first(pre, z3.Concat(pre, START, t)), lemma_place(pre, x)),
    }

    def thunk(it):
        cover(it, "lemmas")
        it.ctx.PROVE_MS = 1000
        for n in sorted(alone):
            if it.ctx.choose(n):
                it.ctx.prove(n, alone[n])
                raise Infeasible()
        # the first occurrence of the block is where the first expression starts: by the facts above, the texts left out
        uu, vv = z3.SubString(raw, 0, j), z3.SubString(raw, j + z3.Length(B_), z3.Length(raw))
        facts = [alone["found-at-or-before"], z3.substitute(alone["found-text-splits"], (t, raw), (x, B_)),
                 z3.substitute(alone["none-starts-earlier"], (u, uu), (v, vv)), alone["replaced-where-found"], alone["length-of-the-part-before"]]
        goal = z3.And(*facts)
        goal = z3.Implies(goal, z3.Implies(first(pre, raw), z3.Replace(raw, B_, r) == z3.Concat(pre, r, rest)))
        cut = [(first(pre, raw), z3.Bool("q1")), (z3.Concat(uu, B_, vv) == raw, z3.Bool("q2")), (raw == z3.Concat(uu, B_, vv), z3.Bool("q2")), (z3.Replace(raw, B_, r) == z3.Concat(pre, r, rest), z3.Bool("q3")),
               (z3.Length(uu), z3.Int("i1")), (j, z3.Int("i2")), (z3.Length(pre), z3.Int("i3"))]
        it.ctx.prove("replaced-where-the-expression-starts", z3.substitute(goal, *cut))
    return P.run("lemmas", thunk)


# ---------------------------------------------------------------- the loop over the blocks of a chunk
def is_blocks(v):
    return isinstance(v, ListV) and not v.tup and (v.et == BLOCK or v.items is not None and all(isinstance(x, tuple) and len(x) == 2 for x in v.items))


def over(it, t, blocks):
    """replay, evaluated once per exploration"""
    lst, tt = z3.Const("any_blocks", z3.SeqSort(sort_of(BLOCK))), z3.String("any_text")
    g = it.ctx.ghost["spec"]
    if "replay" not in g:
        g["replay"] = it.to_term(OSTR, spec(it, "spec", "replay", Str([Atom(tt)]), it.from_term(TList(BLOCK), lst), z3.Bool("negative")))
    return it.ctx.rw(z3.substitute(g["replay"], (lst, it.to_term(TList(BLOCK), it.force(blocks))), (tt, t)))


def val(env, n):
    v = env.vars.get(n, UNDEF)
    return sterm(v) if isinstance(v, (str, Str)) else None


def replaying(it, env):
    out = {}
    ts = [n for n, v in sorted(env.vars.items()) if isinstance(v, (str, Str))]
    for l in [n for n, v in sorted(env.vars.items()) if is_blocks(v)]:
        for a in ts:
            for b in ts:
                if a != b:
                    def f(l=l, a=a, b=b):
                        x, y = val(env, a), val(env, b)
                        if x is None or y is None:
                            return z3.BoolVal(False)
                        return over(it, x, env.vars[l]) == it.to_term(OSTR, Str([Atom(y)]))
                    out["%s %s %s" % (a, l, b)] = f
    for n in numbers(env):
        for t in ts:
            def g(n=n, t=t):
                v, x = num(it, env, n), val(env, t)
                return z3.BoolVal(False) if v is None or x is None else v == z3.If(HAS(x), POS(x), z3.IntVal(-1))
            out["%s finds in %s" % (n, t)] = g
    return out


def HAS(t):
    """the text holds an expression start (as py_contains)"""
    if z3.is_string_value(t):
        return z3.BoolVal("${@" in t.as_string())
    return z3.Function("py_contains", S, S, z3.BoolSort())(t, START)


POS = z3.Function("first_start", S, z3.IntSort())
BLK = z3.Function("first_block", S, S)
AT = z3.Function("block_at", S, S)
REPL = z3.Function("replace_first", S, S, S, S)


def scanned(it, s, env):
    """the texts whose expressions the loop replaces"""
    seen = it.ctx.ghost.setdefault("scanned", {})
    if id(s) not in seen:
        seen[id(s)] = scanned_(it, s, env)
    return seen[id(s)]


def scanned_(it, s, env):
    test = [n.id for n in ast.walk(s.test) if isinstance(n, ast.Name) and val(env, n.id) is not None]
    return test or [n for n in sorted(names_of(s.body)) if n in assigned_names(s.body) and val(env, n) is not None]


def behind(s):
    def start(it, env):
        ns = scanned(it, s, env)
        if not ns:
            raise Unsupported("no text in the loop")

        def f():
            t = val(env, ns[0])
            return z3.If(HAS(t), z3.Length(t) - POS(t), z3.IntVal(0))
        return f
    return start


def heads(s):
    def facts(it, env):
        """a text with an expression is the text before, the start and the text behind"""
        for n in scanned(it, s, env):
            t = val(env, n)
            if not z3.is_const(t) or z3.is_string_value(t):
                continue
            ns = [k for k in numbers(env) if it.ctx.valid(num(it, env, k) == z3.If(HAS(t), POS(t), z3.IntVal(-1)), 1000)]
            if not it.ctx.branch(HAS(t)):
                for k in ns:
                    env.vars[k] = -1
            else:
                pre, tail = it.ctx.fresh("pre", S), it.ctx.fresh("tail", S)
                v = Str([Atom(pre), "${@", Atom(tail)])
                w = sterm(v)
                it.ctx.assume(t == w)
                it.ctx.assume(z3.And(HAS(w), POS(w) == z3.Length(pre), BLK(t) == AT(z3.Concat(START, tail))))
                env.vars[n] = v
                for k in ns:
                    env.vars[k] = z3.Length(pre)
                it.ctx.ghost["heads"] = it.ctx.ghost.get("heads", ()) + ((v, pre, tail),)
    return facts


def found(it, v, x, start):
    """the first expression start of a text"""
    if x != "${@" or start != 0:
        return None
    for h, pre, tail in it.ctx.ghost.get("heads", ()):
        if sterm(h).eq(sterm(v)):
            return z3.Length(pre)
    t = sterm(v)
    return z3.If(HAS(t), POS(t), z3.IntVal(-1))


class Inline(Loop):
    def hook(self, it, s, env):
        if not isinstance(s, ast.While) or C01.reads(it, s, env):
            return None
        l = Loop(replaying, behind(s), lambda it, c: BLOCK, facts=heads(s))
        return lambda: l.run(it, s, env)


def unit_blocks(P):
    readers(P)
    any_regex(P)
    P.add_spec("spec", SPEC)
    install(P, Loop(lambda it, env: {}, applies=C01.reads))
    install(P, Inline(None))

    def answer(it, b):
        t = sterm(it.force(b["_in"]))
        r = z3.Function("inlinerep", S, z3.BoolSort(), sort_of(OSTR))(t, z3.Bool("negative"))
        neg = it.truth(b["negative_clause"])
        it.ctx.prove("asks-for-the-branch-wanted", neg == z3.Bool("negative"))
        it.ctx.assume(z3.Implies(z3.And(z3.PrefixOf(START, t), r.sort().recognizer(1)(r)), z3.Length(r.sort().accessor(1, 0)(r)) + 3 <= z3.Length(t)))
        return it.from_term(OSTR, r)
    P.contracts["inlinerep.inlinerep"] = answer

    def spec_answer(it, old, neg):
        r = z3.Function("inlinerep", S, z3.BoolSort(), sort_of(OSTR))(sterm(it.force(old)), z3.Bool("negative"))
        return Str([Atom(z3.If(r.sort().recognizer(1)(r), r.sort().accessor(1, 0)(r), z3.StringVal(PLACE)))])
    P.overrides[("spec", "answer")] = lambda it: BuiltinV("answer", lambda o, n: spec_answer(it, o, n))
    P.overrides[("spec", "first_block")] = lambda it: BuiltinV("first_block", lambda x: Str([Atom(BLK(sterm(it.force(x))))]))

    def scope(it, b):
        x = sterm(it.force(b["_string"]))
        at = [1 for h, pre, tail in it.ctx.ghost.get("heads", ()) if x.eq(z3.Concat(START, tail))]
        it.ctx.prove("a-block-starts-at-the-first-expression-start", z3.BoolVal(bool(at)))
        it.ctx.prove("a-block-ends-with-the-matching-brace", z3.BoolVal(it.force(b["offset"]) == 3 and it.force(b["_sstart"]) == "{" and it.force(b["_send"]) == "}"))
        r = AT(x)
        rest = it.ctx.fresh("behind", S)
        it.ctx.assume(z3.And(x == z3.Concat(r, rest), z3.PrefixOf(START, r)))
        it.ctx.ghost["blocks"] = it.ctx.ghost.get("blocks", ()) + ((x, r, rest),)
        if cuts(it):
            a = z3.Function("inlinerep", S, z3.BoolSort(), sort_of(OSTR))(r, z3.Bool("negative"))
            for h, pre, tail in it.ctx.ghost.get("heads", ()):
                for q in (z3.StringVal(PLACE), a.sort().accessor(1, 0)(a)):
                    put(it, sterm(h), r, q)
        return Str([Atom(r)])
    P.contracts["parser.get_full_scope"] = scope
    P.hooks["find"] = found
    P.hooks["contains_open"] = True

    def replaced(it, v, a, b, n):
        if n != 1:
            return None
        return Str([Atom(put(it, sterm(v), sterm(a), sterm(b)))])

    def put(it, t, block, r):
        """the block at the first expression start is replaced where it is (unit lemmas)"""
        new = REPL(t, block, r)
        for h, pre, tail in it.ctx.ghost.get("heads", ()):
            for x, blk, rest in it.ctx.ghost.get("blocks", ()):
                if t.eq(sterm(h)) and blk.eq(block) and x.eq(z3.Concat(START, tail)):
                    low = z3.Length(pre) + (len(PLACE) if r.eq(z3.StringVal(PLACE)) else -2)
                    cat = z3.Concat(pre, r, rest)
                    it.ctx.assume(z3.And(z3.Length(new) == z3.Length(pre) + z3.Length(r) + z3.Length(rest), z3.Length(tail) + 3 == z3.Length(block) + z3.Length(rest),
                                         z3.Implies(HAS(new), z3.And(POS(new) >= low, POS(new) >= 0))))
                    if cuts(it):
                        it.ctx.assume(z3.And(new == cat, HAS(cat) == HAS(new), POS(cat) == POS(new)))
        return new

    def cuts(it):
        """the text is put together from slices"""
        f = it.prog.mods["parser"].top["prepare_lines_subparser"]
        return any(isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.upper is not None for n in ast.walk(f))

    def cut(it, v, a):
        """what is behind the block"""
        for h, pre, tail in it.ctx.ghost.get("heads", ()):
            for x, blk, rest in it.ctx.ghost.get("blocks", ()):
                if sterm(v).eq(sterm(h)) and x.eq(z3.Concat(START, tail)) and it.ctx.valid(a == z3.Length(pre) + z3.Length(blk), 1000):
                    return Str([Atom(rest)])
        return None
    P.hooks["slice_from"] = cut
    P.str_replace_hook = replaced

    def thunk(it):
        src = it.cell(LineIter(z3.String("unread"), True))
        it.ctx.ghost.update(total=z3.String("total"), iter=src, spec={})
        over(it, EMPTY, it.mklist([]))
        cover(it, "blocks")
        f = it.prog.module_get(it, "parser", "prepare_lines_subparser")[0]
        res, nxt, n = it.force(it.call(f, [src, z3.Int("lineOffset"), z3.Int("num"), text("buf")], dict(negative=z3.Bool("negative"))))
        raw, real = it.force(it.getitem(res, "raw")), it.force(it.getitem(res, "realraw"))
        it.ctx.prove("no-expression-is-left", z3.Not(HAS(sterm(raw))))
        it.ctx.prove("replaying-the-records-gives-the-text", over(it, sterm(real), it.getitem(res, "inline_blocks")) == it.to_term(OSTR, raw))
    return P.run("blocks", thunk)


# ---------------------------------------------------------------- the items
def keeps(it, x, chunk):
    if not isinstance(x, Obj):
        it.ctx.prove("an-item", z3.BoolVal(False))
        return
    for attr, exp in (("Raw", Str([Atom(C01.part(chunk, "raw", STR))])), ("RealRaw", Str([Atom(C01.part(chunk, "realraw", STR))]))):
        eqv(it, "keeps-" + attr, it.force(it.getattr(x, attr)), exp)
    ty = TList(BLOCK)
    it.ctx.prove("keeps-InlineBlocks", it.to_term(ty, it.force(it.getattr(x, "InlineBlocks"))) == z3.Function("blocks_of", sort_of(CHUNK), sort_of(ty))(chunk.term))


CHUNK = C01.CHUNK


def unit_items(P):
    return C01.unit_items(P, keeps)


# ---------------------------------------------------------------- restoring
def restored(P):
    P.add_spec("spec", SPEC)
    item_attrs(P, {"VarValueStripped": STR, "InlineBlocks": TList(BLOCK)})
    P.str_replace_hook = lambda it, v, a, b, n: Str([Atom(REPL(sterm(v), sterm(a), sterm(b)))]) if n == 1 else None


def expected(it, x):
    return spec(it, "spec", "restore", it.getattr(x, "VarValueStripped"), it.getattr(x, "InlineBlocks"))


def unit_restore(P):
    restored(P)

    def thunk(it):
        x = sym(it, TObj("Variable"), "x")
        cover(it, "restore")
        eqv(it, "unresolved-blocks-are-put-back", it.call(it.getattr(stash(it), "_ReverseInlineBlock"), [x], {}), expected(it, x))
    return P.run("restore", thunk)


def unit_expand(P):
    """a value without references to variables"""
    restored(P)
    P.hooks["contains_open"] = True
    P.hooks["finditer"] = lambda it, *a: it.mklist([])
    P.contracts["constants.Constants.SetsBase"] = lambda it, b: it.mkdict([])
    P.overrides[("constants", "CONSTANTS")] = lambda it: it.cell(Obj(it.prog.cls(it, "Constants")))
    back = z3.Function("put_back", Ref, S)
    P.contracts["cls_stash.Stash._ReverseInlineBlock"] = lambda it, b: Str([Atom(back(it.to_term(ITEM, b["varref"])))])

    def one(it, c):
        x = sym(it, TObj("Variable"), "x") if c else None
        v = z3.String("value")
        cover(it, "expand %d" % c)
        got = it.call(it.getattr(stash(it), "ExpandTerm"), [text("file"), Str([Atom(v)])], dict(objref=x))
        holds = z3.Function("py_contains", S, S, z3.BoolSort())(v, z3.StringVal(PLACE))
        exp = z3.If(holds, back(it.to_term(ITEM, x)), v) if c else v
        it.ctx.prove("placeholders-are-put-back", sterm(it.force(got)) == exp)
    return each(P, "expand", [0, 1], one)


def units(tier):
    return [("get_full_scope", unit_scope), ("emulations", unit_emulation), ("inlinerep", unit_answer), ("lemmas", unit_lemmas), ("blocks", unit_blocks),
            ("get_items", unit_items), ("_ReverseInlineBlock", unit_restore), ("ExpandTerm", unit_expand)]

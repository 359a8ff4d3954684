"""C13: override chains are split from names and reassemble to them."""
import itertools
from proofs.common import *

ASSUMPTIONS = ["names have no empty chunks between two delimiters"]
NOTE = "for all names of up to N chunks (N below), each chunk any text, by exhaustive distinction of the kinds of chunks"
LEVEL = "bounded"
BOUNDED = ["names of up to 4 chunks (thorough: a sample of those with 5)"]

SPEC = '''
MODS = ["append", "prepend", "remove"]
MARKER = ["append", "prepend", "class-native", "class-cross", "class-target", "remove"]

def without_modifiers(chunks, j):
    return chunks[:j] + [x for x in chunks[j:] if x not in MODS]

def func_split(delim, chunks, known):
    for j in range(1, len(chunks)):
        if chunks[j] in MARKER or delim.join(chunks[:j]) in known:
            return j
    return len(chunks)
'''

LOW = CharSet([(ord("a"), ord("z")), (ord("0"), ord("9"))]) | CharSet.of("{}$")
MODS = ["append", "prepend", "remove"]
MARKER = ["append", "prepend", "class-native", "class-cross", "class-target", "remove"]


def kinds(any_):
    """the kinds of chunk: (pieces, literals it is not, can be an override, is ${PN})"""
    nodash = any_ - CharSet.of("-")
    low, up = nodash & LOW, nodash - LOW
    return {
        "low": (lambda n: [word("l%d" % n, low, 1), word("L%d" % n, nodash)], MODS + ["${PN}"], True, False),
        "low-": (lambda n: [word("l%d" % n, low, 1), word("L%d" % n, nodash), "-", word("M%d" % n, any_)], [], True, False),
        "up": (lambda n: [word("u%d" % n, up, 1), word("U%d" % n, nodash)], [], False, False),
        "up-": (lambda n: [word("u%d" % n, up, 1), word("U%d" % n, nodash), "-", word("V%d" % n, any_)], [], False, False),
        "-": (lambda n: ["-", word("D%d" % n, any_)], [], False, False),
        "append": (lambda n: ["append"], [], True, False),
        "prepend": (lambda n: ["prepend"], [], True, False),
        "remove": (lambda n: ["remove"], [], True, False),
        "pn": (lambda n: ["${PN}"], [], True, True),
        "pn-": (lambda n: ["${PN}-", word("P%d" % n, any_)], [], True, True),
    }


def item(it, cls, first, new_style, origin=None):
    C = it.prog.cls(it, cls)
    return it.call(C, first + [origin or text("origin"), 1, 1, text("raw"), text("realraw"), it.mklist([]), new_style], {})


def modes():
    """(delimiter, class of the characters of a chunk, new style requested, needs a second chunk)"""
    yield "_", CharSet.of("_:").inv(), False
    yield ":", CharSet.of(":").inv(), False
    yield ":", CharSet.of(":").inv(), True


def run_var(combos, mode):
    delim, any_, new = mode
    ks = kinds(any_)

    def run(P):
        P.add_spec("spec", SPEC)

        def one(it, c):
            first, rest = c
            nots = []
            if first == "pkg":
                chunks = ["pkg"]
            else:
                w = [word("n0", any_, 1)]
                chunks = [mkstr(w)]
                nots.append((chunks[0], "pkg"))
            over = []
            for n, k in enumerate(rest):
                f, ne, o, pn = ks[k]
                x = mkstr(f(n))
                chunks.append(x)
                over.append(pn if first == "pkg" else o)
                nots += [(x, s) for s in ne]
                if k == "low-":
                    nots.append((mkstr(f(n)[:2]), "${PN}"))
            for x, s in nots:
                it.ctx.assume(it.not_(it.eq(x, s)))
            j = next((i + 1 for i, o in enumerate(over) if o), len(chunks))
            parts = []
            for i, x in enumerate(chunks):
                parts += ([delim] if i else []) + [x]
            name = mkstr(parts)
            tag = "[%s]" % ",".join((first,) + rest)
            if len(chunks) == 1 and delim == ":" and not new:
                return
            v = item(it, "Variable", [name, text("value"), text("op")], new)
            cover(it, "split")
            B_ = lambda xs: it.mklist(xs)
            joined = lambda xs: mkstr(sum([([delim] if i else []) + [x] for i, x in enumerate(xs)], []))
            ga = lambda n: it.force(it.getattr(v, n))
            eqv(it, "plain-name-ends-before-the-first-override" + tag, ga("VarName"), joined(chunks[:j]))
            eqv(it, "raw-name" + tag, ga("RawVarName"), joined(chunks[:j]))
            subs = ga("SubItems")
            it.ctx.prove("overrides-in-the-order-written" + tag, it.to_term(TList(STR), subs) == it.to_term(TList(STR), B_(chunks[j:])))
            eqv(it, "overrides-as-one-text" + tag, ga("SubItem"), joined(chunks[j:]))
            eqv(it, "joining-gives-the-written-name" + tag, ga("VarNameComplete"), name)
            exp = spec(it, "spec", "without_modifiers", B_(chunks), j)
            eqv(it, "name-without-modifiers" + tag, ga("VarNameCompleteNoModifiers"), it.call(it.getattr(delim, "join"), [exp], {}))
        return each(P, "variable", combos, one)
    return run


def run_func(combos, mode):
    delim, any_, new = mode

    def run(P):
        P.add_spec("spec", SPEC)
        P.overrides[("constants", "CONSTANTS")] = lambda it: it.cell(Obj(it.prog.cls(it, "Constants")))
        P.contracts["constants.Constants.FunctionsKnown"] = lambda it, b: sym(it, TList(STR), "known")

        def one(it, rest):
            # names are written without surrounding blanks
            chunks = [mkstr([word("n0", any_ - WS, 1)])]
            for n, k in enumerate(rest):
                if k == "other":
                    x = mkstr([word("c%d" % n, any_ - WS, 1)])
                    for s in MARKER:
                        it.ctx.assume(it.not_(it.eq(x, s)))
                else:
                    x = k
                chunks.append(x)
            name = mkstr(sum([([delim] if i else []) + [x] for i, x in enumerate(chunks)], []))
            if len(chunks) == 1 and delim == ":" and not new:
                return
            it.ctx.assume(it.not_(it.eq(name, "__anonymous")))
            tag = "[%s]" % ",".join(rest)
            f = item(it, "Function", [name, text("body"), None, None], new)
            cover(it, "split")
            known = sym(it, TList(STR), "known")
            j = it.force(spec(it, "spec", "func_split", delim, it.mklist(chunks), known))
            joined = lambda xs: mkstr(sum([([delim] if i else []) + [x] for i, x in enumerate(xs)], []))
            ga = lambda n: it.force(it.getattr(f, n))
            eqv(it, "function-name" + tag, ga("FuncName"), joined(chunks[:j]))
            it.ctx.prove("overrides-in-the-order-written" + tag, it.to_term(TList(STR), ga("SubItems")) == it.to_term(TList(STR), it.mklist(chunks[j:])))
            eqv(it, "overrides-as-one-text" + tag, ga("SubItem"), joined(chunks[j:]))
            eqv(it, "joining-gives-the-written-name" + tag, ga("FuncNameComplete"), name)
        return each(P, "function", combos, one)
    return run


def units(tier):
    out = []
    nmax = 3 if tier == "quick" else 4
    for m, mode in enumerate(modes()):
        ks = list(kinds(mode[1]))
        cases = []
        for n in range(nmax + 1):
            for rest in itertools.product(ks, repeat=n):
                # a sample of the longest
                if n > 3 and (hash_(rest) + m) % 8:
                    continue
                for first in ("any", "pkg"):
                    cases.append((first, rest))
        k = 6
        for i in range(k):
            out.append(("variable-%s%d-%d" % (mode[0], mode[2], i), run_var(cases[i::k], mode)))
        fcases = []
        for n in range(nmax + 1):
            for rest in itertools.product(["other", "append", "prepend", "class-native", "class-cross", "class-target", "remove"], repeat=n):
                fcases.append(rest)
        for i in range(2):
            out.append(("function-%s%d-%d" % (mode[0], mode[2], i), run_func(fcases[i::2], mode)))
    return out


def hash_(xs):
    n = 7
    for x in xs:
        for c in x:
            n = (n * 31 + ord(c)) % 1000003
    return n

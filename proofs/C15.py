"""C15: SRC_URI entries are taken apart without loss."""
import itertools
from proofs.common import *
from pyvc import tmpl
from pyvc.interp import Interp

ASSUMPTIONS = ["scheme and host are written in ASCII without brackets, the scheme in lower case", "the path holds none of ; ? #, the query none of ; #, neither a tab or line break, and the path starts with one slash",
               "the mirror table: two references with any address that holds no other reference"]
TRUSTED = ["urllib.parse.urlparse (contract below: its documented splitting at :// / ? # and, for the schemes of uses_params, at ; in the last path segment)"]
NOTE = "for all schemes, hosts, paths, keys and values; entries of up to N options by case distinction (quick 3, thorough 4)"
LEVEL = "bounded"
BOUNDED = ["entries with up to 3 options (thorough: 4)"]

USES_PARAMS = ["", "ftp", "hdl", "prospero", "http", "imap", "https", "shttp", "rtsp", "rtsps", "rtspu", "sip", "sips", "mms", "sftp", "tel"]
ASCII = CharSet([(0x21, 0x7e)])
SCHEME0 = CharSet([(ord("a"), ord("z"))])
SCHEME = SCHEME0 | CharSet([(ord("0"), ord("9"))]) | CharSet.of("+-.")
HOST = ASCII - CharSet.of("/?#;[]$")
NOBREAK = CharSet.of("\t\r\n").inv()
PATH = NOBREAK - CharSet.of(";?#$")
QUERY = NOBREAK - CharSet.of(";#$")
FRAG = NOBREAK - CharSet.of(";$")

SPEC = '''
def options(pairs):
    res = {}
    for k, v in pairs:
        res[k] = v
    return res
'''


def cut_first(v, chars):
    """(before, after) at the first of the characters; (v, None) if there is none; Unsupported if undecided"""
    ps = list(sparts(v))
    for i, p in enumerate(ps):
        if isinstance(p, str):
            at = [n for n, c in enumerate(p) if c in chars]
            if at:
                return mkstr(ps[:i] + [p[:at[0]]]), mkstr([p[at[0]:]] + ps[i + 1:])
        elif not (p.cls & CharSet.of(chars)).empty():
            raise Unsupported("urlparse: undecided")
    return v, None


def drop(v, n):
    ps = list(sparts(v))
    return mkstr([ps[0][n:]] + ps[1:])


class Url(Value):
    def __init__(self, **kw):
        self.f = kw

    def getattr_(self, it, name):
        if name not in self.f:
            raise Unsupported("urlparse result: " + name)
        return self.f[name]


def urlparse(it, x):
    x = it.force(x)
    ps = list(sparts(x))
    bad = CharSet.of("\t\r\n")
    for p in ps:
        if (any(c in bad for c in p) if isinstance(p, str) else not (p.cls & bad).empty()):
            raise Unsupported("urlparse: line breaks")
    scheme, rest = cut_first(x, ":")
    if rest is None or tmpl.over(scheme, SCHEME) is not True or tmpl.length_min(scheme) < 1:
        raise Unsupported("urlparse: no scheme")
    first = sparts(scheme)[0]
    if not (first[0] in SCHEME0 if isinstance(first, str) else first.cls.sub(SCHEME0)):
        raise Unsupported("urlparse: no scheme")
    rest = drop(rest, 1)
    if tmpl.startswith(rest, "//") is not True:
        raise Unsupported("urlparse: no host")
    rest = drop(rest, 2)
    netloc, path = cut_first(rest, "/?#")
    path = path or ""
    if tmpl.over(netloc, ASCII - CharSet.of("[]")) is not True and netloc != "":
        raise Unsupported("urlparse: host")
    path, frag = cut_first(path, "#")
    path, query = cut_first(path, "?")
    frag = drop(frag, 1) if frag is not None else ""
    query = drop(query, 1) if query is not None else ""
    params = ""
    if tmpl.contains(path, ";") is not False:
        if not isinstance(scheme, str):
            raise Unsupported("urlparse: parameters")
        if scheme in USES_PARAMS:
            occ = tmpl.find_all(path, "/")
            if occ is None or len(occ) > 1:
                raise Unsupported("urlparse: parameters")
            path, params = cut_first(path, ";")
            params = drop(params, 1) if params is not None else ""
    return Url(scheme=scheme, netloc=netloc, path=path, params=params, query=query, fragment=frag)


def schemes(c):
    return c if c != "*" else mkstr([word("s0", SCHEME0, 1), word("s1", SCHEME)])


def option(n, kind):
    """(text, (key, value) or None); the value may hold equals signs"""
    if kind == "plain":
        k, v = mkstr([word("k%d" % n, CharSet.of(";=").inv())]), mkstr([word("v%d" % n, CharSet.of(";=").inv())])
        return mkstr([k, "=", v]), (k, v)
    if kind == "equals":
        k, v = mkstr([word("k%d" % n, CharSet.of(";=").inv())]), mkstr([word("v%d" % n, CharSet.of(";=").inv()), "=", word("w%d" % n, CharSet.of(";").inv())])
        return mkstr([k, "=", v]), (k, v)
    if kind == "flag":
        return mkstr([word("f%d" % n, CharSet.of(";=").inv())]), None
    raise ValueError(kind)


def check(it, entry, scheme, src, pairs, tag):
    st = stash(it)
    got = it.call(it.getattr(st, "GetScrComponents"), [entry], {})
    cover(it, "entry")
    eqv(it, "scheme" + tag, it.getitem(got, "scheme"), scheme)
    eqv(it, "source" + tag, it.getitem(got, "src"), src)
    exp = spec(it, "spec", "options", it.mklist([(k, v) for k, v in pairs]))
    o = it.force(it.getitem(got, "options"))
    if pairs:
        ty = TDict(STR, STR)
        it.ctx.prove("options" + tag, it.to_term(ty, o) == it.to_term(ty, exp))
    else:
        n = it.truth(o)
        it.ctx.prove("options" + tag, z3.BoolVal(n is False) if isinstance(n, bool) else z3.Not(n))
    return got


def setup(P, table):
    P.add_spec("spec", SPEC)
    P.hooks["urlparse"] = urlparse
    P.overrides[("constants", "CONSTANTS")] = lambda it: it.cell(Obj(it.prog.cls(it, "Constants")))
    P.contracts["constants.Constants.MirrorsKnown"] = table


def nothing(it, b):
    return spec(it, "spec", "options", it.mklist([]))


def run_entries(cases, dollar):
    def run(P):
        setup(P, nothing)

        def one(it, c):
            s, host, path, q, f, opts = c
            D = CharSet.of("$") if dollar else CharSet(())
            scheme = schemes(s)
            h = word("h", HOST | D)
            parts = [scheme, "://"] + ([h] if host else [])
            src = [h] if host else []
            if path:
                w = [word("p0", (PATH | D) - CharSet.of("/"), 1), word("p1", PATH | D)] if path == 1 else []
                parts += ["/"] + w
                src += ["/"] + w
            if q:
                w = ["?", word("q", QUERY | D, 1)]
                parts += w
                src += w
            if f:
                w = ["#", word("g", FRAG | D, 1)]
                parts += w
                src += w
            pairs = []
            for n, k in enumerate(opts):
                t, kv = option(n, k)
                parts += [";", t]
                if kv:
                    pairs.append(kv)
            check(it, mkstr(parts), scheme, mkstr(src), pairs, "[%s]" % ",".join(map(str, c)))
        return each(P, "entries", cases, one)
    return run


def run_mirrors(cases):
    def run(P):
        def addr(n):
            return mkstr([word("a%ds" % n, SCHEME0, 1), "://", word("a%dh" % n, HOST), "/", word("a%dp" % n, PATH - CharSet.of("/"), 1)])

        def table(it, b):
            return spec(it, "spec", "options", it.mklist([("${A_MIRROR}", addr(1)), ("${B_MIRROR}", addr(2))]))
        setup(P, table)

        def one(it, c):
            which, path, opts = c
            n = 1 if which == "A" else 2
            w = [] if path == 0 else ["/", word("p", PATH)] if path in (1, 3, 4) else ["/", word("p", PATH), "${PV}", word("r", PATH)]
            x = w
            if path > 2:
                w, x = w + ["${%s_MIRROR}" % "AB"[path - 3], word("r", PATH)], x + [addr(path - 2), word("r", PATH)]
            src = [word("a%dh" % n, HOST), "/", word("a%dp" % n, PATH - CharSet.of("/"), 1)] + x
            parts = ["${%s_MIRROR}" % which] + w
            pairs = []
            for i, k in enumerate(opts):
                k_, v = word("k%d" % i, CharSet.of(";=$").inv()), word("v%d" % i, CharSet.of(";$").inv())
                if k == 1:
                    parts += [";", k_, "=", v]
                    pairs.append((mkstr([k_]), mkstr([v])))
                else:
                    # another mirror, or the same again, in the value
                    z = word("z%d" % i, CharSet.of(";$").inv())
                    parts += [";", k_, "=", v, "${%s_MIRROR}" % "AB"[k - 2], z]
                    pairs.append((mkstr([k_]), mkstr([v, addr(k - 1), z])))
            check(it, mkstr(parts), mkstr([word("a%ds" % n, SCHEME0, 1)]), mkstr(src), pairs, "[%s]" % ",".join(map(str, c)))
        return each(P, "mirrors", cases, one)
    return run


def unit_broken(P):
    """an entry urlparse refuses gives empty parts"""
    setup(P, nothing)

    def refuse(it, x):
        raise PyRaise("ValueError", "Invalid IPv6 URL")
    P.hooks["urlparse"] = refuse

    def one(it, c):
        check(it, text("entry"), "", "", [], "[refused]")
    return each(P, "refused", [0], one)


def units(tier):
    kinds = ["plain", "equals", "flag"]
    nmax = 3 if tier == "quick" else 4
    opts = [o for n in range(nmax + 1) for o in itertools.product(kinds, repeat=n)]
    cases = [(s, h, p, q, f, o) for s in ("*", "https", "file") for h in (0, 1) for p in (0, 1, 2) for q in (0, 1) for f in (0, 1) for o in opts]
    out = [("entries-%d" % i, run_entries(cases[i::6], True)) for i in range(6)]
    out.append(("mirrors", run_mirrors([(w, p, o) for w in "AB" for p in (0, 1, 2, 3, 4) for o in ((), (1,), (1, 1), (2,), (3,), (2, 3), (3, 1, 3))])))
    out.append(("refused", unit_broken))
    return out

"""C16: the helpers against the engine itself."""
import regex
from util import *

RULE = "random operation, pattern, text and options compared with the regex module; slow patterns with a tiny time limit; trivial when the pattern is empty"
PATS = [r"a", r"(a)|b", r"\s+", r"(\s|,)", r"a(?=b)", r"^x", r"x$", r"(?P<n>a+)b?", r"[", r"(", r"a{2,1}", r"\bfoo\b", r"", r"A", r".", r"(.+?),", r"(?i)FOO", r"a*", r"(?r)a", "\xe4"]
SLOW = [r"(a|aa)+$", r"(a+)+$", r"(.*a){25}x"]
TEXTS = ["", "a", "ab", "a b,c", "aab\nxab", "foo bar", "FOO", "x\nx", ",,a,", "AaA b", "a\tb  c", "\xe4\xe4x", "aaaa"]


def gen(rng):
    op = rng.choice(["search", "match", "split", "sub", "finditer"])
    slow = rng.random() < 0.06
    kw = {}
    if rng.random() < 0.4:
        kw["flags"] = rng.choice([0, int(regex.I), int(regex.M), int(regex.S), int(regex.I | regex.M), int(regex.V1)])
    if op == "split" and rng.random() < 0.4:
        kw["maxsplit"] = rng.randint(0, 2)
    if op == "sub" and rng.random() < 0.4:
        kw["count"] = rng.randint(0, 2)
    if op != "split" and rng.random() < 0.3:
        kw["pos"] = rng.randint(0, 3)
        if rng.random() < 0.5:
            kw["endpos"] = rng.randint(0, 4)
    if rng.random() < 0.1 and op in ("search", "match", "finditer"):
        kw["partial"] = True
    if rng.random() < 0.05:
        kw["bogus"] = 1
    return {"op": op, "slow": slow, "pat": rng.choice(SLOW if slow else PATS), "compiled": rng.random() < 0.4, "text": "a" * rng.randint(60, 90) + "b" if slow else rng.choice(TEXTS + ([None] if rng.random() < 0.1 else [])),
            "kw": kw, "repl": rng.choice(["", "z", r"<\g<0>>", r"\1", "\\"]), "default": rng.random() < 0.5, "timeout": rng.random() < 0.3, "positional": rng.random() < 0.2}


def trivial(c):
    return not c["pat"]


def norm(op, r):
    if r is None:
        return None
    if op in ("search", "match"):
        return (r.span(), r.groups(), r.groupdict(), getattr(r, "partial", None)) if hasattr(r, "span") else r
    if op == "finditer":
        return [(m.span(), m.groups(), m.groupdict()) if hasattr(m, "span") else m for m in r]
    return r


def run(c, tmp):
    from oelint_parser.rpl_regex import RegexRpl
    op, kw = c["op"], dict(c["kw"])
    pat = c["pat"]
    if c["compiled"]:
        kw.pop("flags", None)
        try:
            pat = regex.compile(pat)
        except regex.error:
            return None
    args = [pat, c["repl"], c["text"]] if op == "sub" else [pat, c["text"]]
    f = getattr(RegexRpl, op)
    if c["slow"]:
        for k in ("pos", "endpos", "partial", "bogus", "count", "maxsplit"):
            kw.pop(k, None)
        kw.pop("flags", None)
        # the time limit only counts while the engine is slow; check that it is
        try:
            e = getattr(regex, op)(*args, timeout=0.02, **kw)
            if op == "finditer":
                list(e)
            return None
        except TimeoutError:
            pass
        except Exception:
            return None      # the engine refuses the arguments
        d = {"search": "D", "match": "D", "split": ["D"], "sub": "D", "finditer": iter(["D"])}[op]
        want = {"search": "D", "match": "D", "split": ["D"], "sub": "D", "finditer": ["D"]}[op]
        none = {"search": None, "match": None, "split": [], "sub": "", "finditer": []}[op]
        try:
            r = f(*args, timeout=0.02, default=d, **kw) if c["default"] else f(*args, timeout=0.02, **kw)
            r = list(r) if op == "finditer" else r
        except TimeoutError:
            return "%s: a timeout reaches the caller" % op
        if r != (want if c["default"] else none):
            return "%s: a timeout gives %r" % (op, r)
        return None
    ek = dict(kw)
    exp = err = None
    try:
        exp = norm(op, getattr(regex, op)(*args, **ek))
    except Exception as e:
        err = type(e)
    ck = dict(kw)
    if c["timeout"]:
        ck["timeout"] = 7
    if c["default"]:
        ck["default"] = {"search": "D", "match": "D", "split": ["D"], "sub": "D", "finditer": ["D"]}[op]
    try:
        got = norm(op, f(*args, **ck))
    except Exception as e:
        if err is None:
            return "%s%r raises %s: %s" % (op, (c["pat"], c["text"], ck), type(e).__name__, e)
        if type(e) is not err:
            return "%s%r raises %s instead of %s" % (op, (c["pat"], c["text"], ck), type(e).__name__, err.__name__)
        return None
    if err is not None:
        return "%s%r gives %r instead of raising %s" % (op, (c["pat"], c["text"], ck), got, err.__name__)
    if got != exp:
        return "%s%r gives %r instead of %r" % (op, (c["pat"], c["text"], ck), got, exp)
    return None

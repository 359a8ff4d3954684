"""Decisions about string templates: concatenations of literals and words over character classes."""
from .vals import *


def kmp(lit):
    n = len(lit)

    def step(st, c):
        # longest prefix of lit that is a suffix of lit[:st]+c
        w = lit[:st] + c
        for k in range(min(n, len(w)), -1, -1):
            if w.endswith(lit[:k]):
                return k
        return 0
    return step


def find_all(v, lit):
    """Non-overlapping occurrences of lit in the template as (part index, offset just behind) or None if undecided.
    Every occurrence found is definite and ends inside (or at the end of) a literal part."""
    n = len(lit)
    step = kmp(lit)
    states = {0}
    out = []
    chars = sorted(set(lit))
    for pi, p in enumerate(sparts(v)):
        if isinstance(p, str):
            for i, c in enumerate(p):
                states = {step(s, c) for s in states}
                if n in states:
                    if len(states) > 1:
                        return None
                    out.append((pi, i + 1))
                    states = {0}
        else:
            # any word over the class
            pos = [c for c in chars if c in p.cls]
            other = not (p.cls - CharSet.of("".join(chars))).empty()
            first = True
            cur = set(states)
            seen = set(cur)
            k = 0
            reach_min = set()
            # words of length >= minlen: closure
            layers = [set(states)]
            todo = set(states)
            for _ in range(p.minlen):
                nxt = set()
                for s in todo:
                    for c in pos:
                        nxt.add(step(s, c))
                    if other:
                        nxt.add(0)
                if n in nxt:
                    return None
                todo = nxt
            clo = set(todo)
            work = list(todo)
            while work:
                s = work.pop()
                for t in [step(s, c) for c in pos] + ([0] if other else []):
                    if t == n:
                        return None
                    if t not in clo:
                        clo.add(t)
                        work.append(t)
            states = clo
    return out


def split_at(v, occ, n):
    """pieces of the template between the occurrences (each n characters long, ending at occ)"""
    parts = list(sparts(v))
    pieces = []
    cur = []
    occ = list(occ)
    # positions as global (part, offset); an occurrence may start in an earlier literal only if parts are merged (they are)
    oi = 0
    for pi, p in enumerate(parts):
        if not isinstance(p, str):
            cur.append(p)
            continue
        start = 0
        while oi < len(occ) and occ[oi][0] == pi:
            end = occ[oi][1]
            beg = end - n
            if beg < start:
                return None           # spans an atom boundary
            cur.append(p[start:beg])
            pieces.append(mkstr(cur))
            cur = []
            start = end
            oi += 1
        cur.append(p[start:])
    pieces.append(mkstr(cur))
    return pieces


def split(v, sep, maxsplit=-1):
    """exact split, or (pieces, tail) when only a prefix is decided: returns list of pieces and the undecided tail (or None)"""
    occ = find_all(v, sep)
    if occ is not None:
        if maxsplit >= 0:
            occ = occ[:maxsplit]
        return split_at(v, occ, len(sep)), None
    # longest decided prefix: parts before the first undecided atom
    ps = list(sparts(v))
    for cut in range(len(ps) - 1, 0, -1):
        head = mkstr(ps[:cut])
        occ = find_all(head, sep)
        if not occ:
            continue
        pieces = split_at(head, occ, len(sep))
        if pieces is None:
            continue
        # the last piece continues into the rest
        if maxsplit >= 0 and len(occ) >= maxsplit:
            pieces2 = split_at(head, occ[:maxsplit], len(sep))
            return pieces2[:-1] + [mkstr([pieces2[-1]] + ps[cut:])], None
        # an occurrence must not span the cut: true when head ends exactly behind the last piece start
        rest = mkstr([pieces[-1]] + ps[cut:])
        return pieces[:-1], rest
    return None, None


def startswith(v, lit):
    ps = list(sparts(v))
    if lit == "":
        return True
    s = lit
    for p in ps:
        if isinstance(p, str):
            k = min(len(p), len(s))
            if p[:k] != s[:k]:
                return False
            s = s[k:]
            if not s:
                return True
        else:
            if s[0] not in p.cls:
                if p.minlen > 0:
                    return False
                # the atom may be empty: continue only if it must be empty for a match
                continue_ok = startswith(mkstr(ps[ps.index(p) + 1:]), s)
                return False if continue_ok is False else None if continue_ok is None else None
            # may match partly: can the whole be excluded?
            if all(not isinstance(q, str) for q in ps[ps.index(p):]):
                # only atoms follow: excluded if some character of s fits in none of them
                for c in s:
                    if not any(c in q.cls for q in ps[ps.index(p):]):
                        return False
            return None
    return False


def endswith(v, lit):
    return startswith(reverse(v), lit[::-1])


def reverse(v):
    return mkstr([p[::-1] if isinstance(p, str) else p for p in reversed(sparts(v))])


def contains(v, lit):
    if lit == "":
        return True
    occ = find_all(v, lit)
    if occ is not None:
        return bool(occ)
    # a literal part already holds it
    for p in sparts(v):
        if isinstance(p, str) and lit in p:
            return True
    return None


def lstrip(v, cs):
    """(result, decided): strip leading characters of the CharSet cs"""
    ps = list(sparts(v))
    while ps:
        p = ps[0]
        if isinstance(p, str):
            q = p
            while q and q[0] in cs:
                q = q[1:]
            if q:
                ps[0] = q
                return mkstr(ps), True
            ps.pop(0)
            continue
        if p.cls.sub(cs):
            ps.pop(0)
            continue
        if (p.cls & cs).empty():
            if p.minlen > 0:
                return mkstr(ps), True
            # empty or not: what follows must not start with cs either
            rest, ok = lstrip(mkstr(ps[1:]), cs)
            if ok and rest == mkstr(ps[1:]) or ok and _same(rest, mkstr(ps[1:])):
                return mkstr(ps), True
            return mkstr(ps), False
        return mkstr(ps), False
    return "", True


def _same(a, b):
    pa, pb = sparts(a), sparts(b)
    return len(pa) == len(pb) and all(x == y if isinstance(x, str) and isinstance(y, str) else x is y for x, y in zip(pa, pb))


def rstrip(v, cs):
    r, ok = lstrip(reverse(v), cs)
    return reverse(r), ok


def strip_word(v, cs):
    """literals over cs around words free of cs: the words, whether they are empty or not (None if the template has another form)"""
    ps = list(sparts(v))
    for end in (0, -1):
        while ps and isinstance(ps[end], str):
            q = ps[end]
            while q and q[end] in cs:
                q = q[1:] if end == 0 else q[:-1]
            if q:
                return None
            ps.pop(end)
    if all(not isinstance(p, str) and (p.cls & cs).empty() for p in ps):
        return mkstr(ps)
    return None


def length_min(v):
    return sum(len(p) if isinstance(p, str) else p.minlen for p in sparts(v))


def over(v, cs):
    """all characters in cs? True / False(definitely not) / None"""
    r = True
    for p in sparts(v):
        if isinstance(p, str):
            if not all(c in cs for c in p):
                return False
        elif not p.cls.sub(cs):
            if p.minlen > 0 and (p.cls & cs).empty():
                return False
            r = None
    return r

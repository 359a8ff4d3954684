"""Exact decisions about regular expressions on string templates.

The pattern (parsed with the standard library's parser; the dialect used in the
repository is the common subset of `re` and `regex`) becomes a prioritized NFA.
It is run over a template: literal characters step every thread; a symbolic word
over a character class steps it through every word of the class at once, by
closing the finite set of thread configurations.  Thread priorities follow
backtracking order, so the winner and its groups are those of the real engine.
Capture positions inside a symbolic word stay abstract ('in'); a result is only
given when all configurations agree."""
import re._parser as sre
import re._constants as C
from .vals import *


class Undecided(Exception):
    pass


# `regex` matches \s against the Unicode property White_Space, which lacks \x1c-\x1f
import json as _json
import os as _os
_tab = _json.load(open(_os.path.join(_os.path.dirname(__file__), "charclasses.json")))
RXWS = CharSet([tuple(x) for x in _tab["space"]])
DIGIT = CharSet([tuple(x) for x in _tab["digit"]])
WORD = CharSet([tuple(x) for x in _tab["word"]])
NL = CharSet.of("\n")
CAT = {C.CATEGORY_SPACE: RXWS, C.CATEGORY_NOT_SPACE: RXWS.inv(), C.CATEGORY_DIGIT: DIGIT, C.CATEGORY_NOT_DIGIT: DIGIT.inv(),
       C.CATEGORY_WORD: WORD, C.CATEGORY_NOT_WORD: WORD.inv()}


class Prog:
    def __init__(self, pattern, flags=0, atoms=None):
        self.code = []
        self.atoms = atoms or {}
        self.sets = []
        self.dotall = bool(flags & 16)
        self.multiline = bool(flags & 8)
        self.icase = bool(flags & 2)
        p = sre.parse(pattern, 0)
        self.groups = p.state.groups
        self.names = dict(p.state.groupdict)
        self.add("save", 0)
        self.emit_seq(p)
        self.code.append(("match",))

    def add(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1

    def charset(self, cs):
        if self.icase:
            extra = []
            for a, b in cs.r:
                for c in range(a, min(b, 0x24f) + 1):
                    ch = chr(c)
                    for d in (ch.lower(), ch.upper()):
                        if len(d) == 1:
                            extra.append((ord(d), ord(d)))
            cs = cs | CharSet(extra)
        self.sets.append(cs)
        self.add("char", cs)

    def emit_seq(self, seq):
        for op, av in seq:
            self.emit(op, av)

    def emit(self, op, av):
        if op is C.LITERAL:
            if av in self.atoms:
                self.add("atom", self.atoms[av])
            else:
                self.charset(CharSet([(av, av)]))
        elif op is C.NOT_LITERAL:
            self.charset(CharSet([(av, av)]).inv())
        elif op is C.ANY:
            self.charset(ANYCHAR if self.dotall else NL.inv())
        elif op is C.IN:
            neg = False
            cs = CharSet([])
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    cs = cs | CharSet([(a, a)])
                elif o is C.RANGE:
                    cs = cs | CharSet([a])
                elif o is C.CATEGORY:
                    cs = cs | CAT[a]
                else:
                    raise Unsupported("regex set %s" % o)
            self.charset(cs.inv() if neg else cs)
        elif op is C.SUBPATTERN:
            g, add_f, del_f, p = av
            if add_f or del_f:
                raise Unsupported("inline flags")
            if g is not None:
                self.add("save", 2 * g)
            self.emit_seq(p)
            if g is not None:
                self.add("save", 2 * g + 1)
        elif op is C.BRANCH:
            _, alts = av
            ends = []
            for i, a in enumerate(alts):
                if i < len(alts) - 1:
                    s = self.add("split", None, None)
                    self.emit_seq(a)
                    ends.append(self.add("jmp", None))
                    self.code[s] = ("split", s + 1, len(self.code))
                else:
                    self.emit_seq(a)
            for e in ends:
                self.code[e] = ("jmp", len(self.code))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            if lo > 20:
                raise Unsupported("counted repeat")
            for _ in range(lo):
                self.emit_seq(p)
            greedy = op is C.MAX_REPEAT
            if p.getwidth()[0] == 0 and hi > 1:
                # what groups hold after an empty last round differs between engines
                if has_branch(p):
                    raise Unsupported("repeated alternatives that may be empty")
                self.weak = getattr(self, "weak", frozenset()) | frozenset(groups_of(p))
            if hi is C.MAXREPEAT:
                s = self.add("split", None, None)
                self.add("mark", s)
                self.emit_seq(p)
                self.add("loop", s)
                e = len(self.code)
                self.code[s] = ("split", s + 1, e) if greedy else ("split", e, s + 1)
            else:
                if hi - lo > 20:
                    raise Unsupported("counted repeat")
                ss = []
                for _ in range(hi - lo):
                    ss.append(self.add("split", None, None))
                    self.emit_seq(p)
                e = len(self.code)
                for s in ss:
                    self.code[s] = ("split", s + 1, e) if greedy else ("split", e, s + 1)
        elif op is C.AT:
            if av is C.AT_BEGINNING or av is C.AT_BEGINNING_STRING:
                self.add("bol" if self.multiline and av is C.AT_BEGINNING else "bos")
            elif av is C.AT_END:
                self.add("eol" if self.multiline else "eos_nl")
            elif av is C.AT_END_STRING:
                self.add("eos")
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                self.sets.append(WORD)
                self.add("wordb", av is C.AT_BOUNDARY)
            else:
                raise Unsupported("regex anchor")
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            sub = Prog.__new__(Prog)
            sub.code, sub.atoms, sub.sets, sub.dotall, sub.multiline, sub.icase = [], self.atoms, self.sets, self.dotall, self.multiline, self.icase
            if direction > 0:
                sub.emit_seq(p)
                sub.code.append(("match",))
                self.add("look", op is C.ASSERT, sub)
            else:
                # look behind: one character
                items = list(p)
                if len(items) != 1:
                    raise Unsupported("look behind")
                sub.emit(*items[0])
                if len(sub.code) != 1 or sub.code[0][0] != "char":
                    raise Unsupported("look behind")
                self.add("behind", op is C.ASSERT, sub.code[0][1])
        else:
            raise Unsupported("regex operator %s" % op)


def blocks(sets, cls):
    """partition of cls into blocks no set distinguishes"""
    out = [cls]
    for s in sets:
        nxt = []
        for b in out:
            x, y = b & s, b - s
            if not x.empty():
                nxt.append(x)
            if not y.empty():
                nxt.append(y)
        out = nxt
    return out


def groups_of(p):
    """numbers of the groups inside a parsed pattern"""
    out = []
    for op, av in p:
        if op is C.SUBPATTERN:
            out += ([av[0]] if av[0] is not None else []) + groups_of(av[3])
        elif op is C.BRANCH:
            for a in av[1]:
                out += groups_of(a)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            out += groups_of(av[2])
        elif op in (C.ASSERT, C.ASSERT_NOT):
            out += groups_of(av[1])
    return out


def has_branch(p):
    for op, av in p:
        if op is C.BRANCH or op is C.SUBPATTERN and has_branch(av[3]) or op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_branch(av[2]):
            return True
    return False


START = ("start",)


class Sim:
    """simulation of one program over one template"""
    LIMIT = 6000

    def __init__(self, prog, parts, search=False):
        self.p = prog
        self.parts = parts
        self.search = search
        self.ncap = 2 * getattr(prog, "groups", 1)

    # ---- positions: ('p', part, off) exact, 'cur', ('in', part)
    def run(self, start=(0, 0), prev=START):
        """set of outcomes: each None (no match) or the tuple of captures of the winner"""
        i, off = start
        cfgs = {((), None, prev)}
        init = True
        # a configuration: ordered threads waiting at char instructions (pc, caps), best, previous char info
        caps0 = (None,) * self.ncap
        first = {self.begin(caps0, (i, off), prev)}
        cfgs = set()
        for c in first:
            cfgs |= c
        parts = self.parts
        while i < len(parts):
            q = parts[i]
            if isinstance(q, str):
                for j in range(off, len(q)):
                    nxt = set()
                    for cf in cfgs:
                        nxt |= self.step(cf, q[j], CharSet([(ord(q[j]), ord(q[j]))]), (i, j + 1))
                    cfgs = nxt
                i, off = i + 1, 0
            else:
                cfgs = self.atom(cfgs, i, q)
                i, off = i + 1, 0
            if len(cfgs) > self.LIMIT:
                raise Undecided("too many configurations")
        out = set()
        for threads, best, prev in cfgs:
            out.add(best)
        return out

    def norm(self, pos):
        i, off = pos
        while i < len(self.parts) and isinstance(self.parts[i], str) and off == len(self.parts[i]):
            i, off = i + 1, 0
        return ("p", i, off)

    def begin(self, caps, pos, prev):
        return frozenset(self.enter([(0, caps)], pos, self.norm(pos), prev, None))

    def atom(self, cfgs, i, q):
        bl = blocks(self.p.sets, q.cls)
        # zero characters
        seen = set()
        layer = set(cfgs)
        layer_at = [layer]
        # whole-word instructions
        whole = set()
        for cf in cfgs:
            whole |= self.step_atom(cf, q, i)
        n = 0
        out = set()
        cur = {(cf, False) for cf in layer}
        allseen = set()
        if q.minlen == 0:
            out |= {self.empty(cf, i) for cf, _ in cur}
        ahead = any(ins[0] in ("eos", "eos_nl", "eol", "wordb", "look") for ins in self.p.code)
        while cur:
            n += 1
            nxt = set()
            for cf, inside in cur:
                for b in bl:
                    if not ahead:
                        for c2 in self.step(cf, None, b, ("cur", i)):
                            nxt.add((c2, True))
                        continue
                    # the word goes on, or ends here
                    for c2 in self.step(cf, None, b, ("cur", i, 1)):
                        nxt.add((c2, True))
                    if n >= q.minlen:
                        out |= {self.leave(c2, i) for c2 in self.step(cf, None, b, ("cur", i, 2))}
            if ahead:
                nxt -= allseen
                if n >= q.minlen:
                    allseen |= nxt
            elif n >= q.minlen:
                nxt -= allseen
                allseen |= nxt
                out |= {self.leave(cf, i) for cf, _ in nxt}
            if len(allseen) > self.LIMIT or len(nxt) > self.LIMIT:
                raise Undecided("too many configurations")
            cur = nxt
        has_atom = any(ins[0] == "atom" for ins in self.p.code)
        if has_atom:
            out = {self.merge_whole(o, None) for o in out} | whole if whole else out
        return out

    def merge_whole(self, cf, w):
        return cf

    def step_atom(self, cf, q, i):
        """threads waiting for exactly this word"""
        threads, best, prev = cf
        out = set()
        for pc, caps in threads:
            if pc < len(self.p.code) and self.p.code[pc][0] == "atom" and self.p.code[pc][1] is q:
                for r in self.enter([(pc + 1, caps)], (i + 1, 0), self.norm((i + 1, 0)), ("cls", q.cls), best):
                    out.add(r)
        return out

    def leave(self, cf, i):
        """the word ends: the current position is the boundary behind it"""
        b = self.norm((i + 1, 0))
        threads, best, prev = cf
        f = lambda caps: tuple(b if c == "cur" else c for c in caps) if caps is not None else None
        th = []
        for pc, caps in threads:
            th.append((pc, f(caps)))
        return (tuple(th), f(best), prev)

    def empty(self, cf, i):
        """the word is empty: the boundaries before and behind it are the same position"""
        b = self.norm((i + 1, 0))

        def one(c):
            if c == ("p", i, 0):
                return ("e", frozenset([(i, 0), b[1:]]))
            if c is not None and c[0] == "e" and (i, 0) in c[1]:
                return ("e", c[1] | {b[1:]})
            return c
        f = lambda caps: tuple(one(c) for c in caps) if caps is not None else None
        threads, best, prev = cf
        return (tuple((pc, f(caps)) for pc, caps in threads), f(best), prev)

    def step(self, cf, ch, cs, pos):
        threads, best, prev = cf
        inside = pos[0] == "cur"
        nt = []
        for pc, caps in threads:
            ins = self.p.code[pc]
            if ins[0] == "char":
                if cs.sub(ins[1]):
                    nt.append((pc + 1, caps))
            elif ins[0] == "atom":
                continue
            elif ins[0] == "pend":
                continue
        if inside:
            i = pos[1]
            ag = lambda caps: tuple(("in", i) if c == "cur" else c for c in caps) if caps is not None else None
            nt = [(pc, ag(caps)) for pc, caps in nt]
            best = ag(best)
            p = "cur"
        else:
            p = self.norm(pos)
        return set(self.enter(nt, pos, p, ("ch", ch) if ch is not None else ("cls", cs), best))

    def enter(self, threads, pos, p, prev, best):
        """follow empty transitions; several results when an assertion is undecided"""
        results = []

        def go(work, done, seen, choices):
            # work: stack of (pc, caps, marks); returns list of (threads, best)
            work = list(work)
            done = list(done)
            seen = set(seen)
            b = best
            while work:
                pc, caps, marks = work.pop()
                if pc in seen:
                    continue
                ins = self.p.code[pc]
                op = ins[0]
                if op in ("char", "atom"):
                    seen.add(pc)
                    done.append((pc, caps))
                    continue
                if op == "match":
                    seen.add(pc)
                    c = list(caps)
                    if len(c) > 1:
                        c[1] = p
                    results.append((tuple(done), tuple(c)))
                    return
                seen.add(pc)
                if op == "jmp":
                    work.append((ins[1], caps, marks))
                elif op == "split":
                    work.append((ins[2], caps, marks))
                    work.append((ins[1], caps, marks))
                elif op == "mark":
                    work.append((pc + 1, caps, marks + (ins[1],)))
                elif op == "loop":
                    if ins[1] in marks:
                        # empty iteration: leave the loop
                        s = self.p.code[ins[1]]
                        e = max(s[1], s[2])
                        work.append((e, caps, marks))
                    else:
                        work.append((ins[1], caps, marks))
                elif op == "save":
                    c = list(caps)
                    c[ins[1]] = p
                    work.append((pc + 1, tuple(c), marks))
                else:
                    r = self.cond(ins, pos, prev)
                    if r is None:
                        # both ways
                        go(work + [(pc + 1, caps, marks)], done, seen, choices)
                        go(work, done, seen, choices)
                        return
                    if r:
                        work.append((pc + 1, caps, marks))
            results.append((tuple(done), b))
        st = []
        for pc, caps in reversed(threads):
            st.append((pc, caps, ()))
        go(st, [], set(), None)
        return [(t, b, prev) for t, b in results]

    # ---- assertions at the current position
    def cond(self, ins, pos, prev):
        op = ins[0]
        if op == "bos":
            return prev == START
        if op == "bol":
            if prev == START:
                return True
            return self.prev_in(prev, NL)
        if op in ("eos", "eos_nl", "eol"):
            r = self.rest(pos)
            if op == "eos":
                return self.rest_empty(r)
            if op == "eol":
                return self.rest_starts(r, NL, True)
            e = self.rest_empty(r)
            if e:
                return True
            if len(r) == 1 and r[0] == "\n":
                return True
            f = self.rest_starts(r, NL, False)
            if e is False and f is False:
                return False
            # exactly "\n" possible?
            if tmin(r) > 1:
                return False
            return None
        if op == "wordb":
            a = False if prev == START else self.prev_in(prev, WORD)
            b = self.rest_starts(self.rest(pos), WORD, False)
            if a is None or b is None:
                return None
            return (a != b) == ins[1]
        if op == "behind":
            r = False if prev == START else self.prev_in(prev, ins[2])
            return None if r is None else (r if ins[1] else not r)
        if op == "look":
            sim = Sim(ins[2], self.rest(pos))
            sim.ncap = 0
            sub = ins[2]
            try:
                out = Sim0(sub, self.rest(pos)).run()
            except Undecided:
                return None
            if out == {None}:
                return not ins[1]
            if None not in out:
                return ins[1]
            return None
        raise Unsupported("regex instruction %s" % op)

    def prev_in(self, prev, cs):
        if prev[0] == "ch":
            return prev[1] in cs
        return True if prev[1].sub(cs) else False if (prev[1] & cs).empty() else None

    def rest(self, pos):
        if pos[0] == "cur":
            i = pos[1]
            q = self.parts[i]
            if len(pos) > 2:
                return ([Atom(q.term, q.cls, 1, q.name + "~")] if pos[2] == 1 else []) + list(self.parts[i + 1:])
            return [Atom(q.term, q.cls, 0, q.name + "~")] + list(self.parts[i + 1:])
        i, off = pos
        if i >= len(self.parts):
            return []
        q = self.parts[i]
        if isinstance(q, str):
            return ([q[off:]] if off < len(q) else []) + list(self.parts[i + 1:])
        return list(self.parts[i:])

    def rest_empty(self, r):
        if not r:
            return True
        if tmin(r) > 0:
            return False
        return None

    def rest_starts(self, r, cs, at_end):
        """does the rest start with a character of cs (at_end: answer for an empty rest)"""
        res = set()
        for q in r:
            if isinstance(q, str):
                res.add(q[0] in cs)
                break
            if q.cls.sub(cs):
                res.add(True)
            elif (q.cls & cs).empty():
                res.add(False)
            else:
                res |= {True, False}
            if q.minlen > 0:
                break
        else:
            res.add(at_end)
        return res.pop() if len(res) == 1 else None


class Sim0(Sim):
    """without captures"""

    def __init__(self, prog, parts):
        self.p, self.parts, self.search = prog, parts, False
        self.ncap = 1


def tmin(r):
    return sum(len(x) if isinstance(x, str) else x.minlen for x in r)


_cache = {}


def program(pattern, flags, search, atoms=None):
    key = (pattern, flags, search, tuple(sorted((k, id(v)) for k, v in (atoms or {}).items())))
    if key not in _cache:
        p = Prog(pattern, flags, atoms)
        if search:
            # lazy skip in front
            q = Prog.__new__(Prog)
            q.__dict__.update(p.__dict__)
            n = 3
            q.code = [("split", 3, 1), ("char", ANYCHAR), ("jmp", 0)] + [sh_(ins, n) for ins in p.code]
            p = q
        _cache[key] = p
    return _cache[key]


def sh_(ins, n):
    if ins[0] == "split":
        return ("split", ins[1] + n, ins[2] + n)
    if ins[0] in ("jmp", "mark", "loop"):
        return (ins[0], ins[1] + n)
    return ins


class Result:
    def __init__(self, prog, parts, outs):
        self.prog, self.parts, self.outs = prog, parts, outs

    @property
    def matched(self):
        if self.outs == {None}:
            return False
        if None not in self.outs:
            return True
        return None

    def position(self, slot):
        ps = {o[slot] for o in self.outs if o is not None}
        if len(ps) == 1 and next(iter(ps)) is None:
            return None
        if None in ps or not ps:
            raise Undecided("ambiguous group")
        if len(ps) == 1 and next(iter(ps))[0] == "in":
            return next(iter(ps))
        # positions around empty words have several names
        cs = [frozenset([p[1:]]) if p[0] == "p" else p[1] if p[0] == "e" else frozenset() for p in ps]
        c = frozenset.intersection(*cs)
        if not c:
            raise Undecided("ambiguous group")
        return ("p",) + min(c)

    def group(self, n):
        if isinstance(n, str):
            n = self.prog.names[n]
        if n in getattr(self.prog, "weak", ()):
            raise Undecided("group in an empty round")
        a, b = self.position(2 * n), self.position(2 * n + 1)
        if a is None or b is None:
            return None
        if a[0] != "p" or b[0] != "p":
            raise Undecided("group boundary inside a symbolic word")
        return cut(self.parts, a[1:], b[1:])


def cut(parts, a, b):
    out = []
    for i, q in enumerate(parts):
        if i < a[0] or i > b[0]:
            continue
        if isinstance(q, str):
            s = a[1] if i == a[0] else 0
            e = b[1] if i == b[0] else len(q)
            out.append(q[s:e])
        elif i < b[0]:
            out.append(q)
    return mkstr(out)


class SearchSim(Sim):
    def enter(self, threads, pos, p, prev, best):
        return Sim.enter(self, threads, pos, p, prev, best)


def decide(pattern, flags, text, mode="match", atoms=None):
    parts = list(sparts(text))
    p = program(pattern, flags, mode == "search", atoms)
    s = Sim(p, parts)
    if mode == "fullmatch":
        raise Unsupported("fullmatch")
    if atoms or any(type(q) not in (str, Atom) for q in parts):
        return Result(p, parts, s.run())
    # the outcomes depend on the shape of the text only
    key = (pattern, flags, mode, tuple(q if isinstance(q, str) else (q.cls.id, q.minlen) for q in parts))
    r = _decided.get(key)
    if r is None:
        try:
            r = s.run()
        except Undecided as e:
            r = e
        _decided[key] = r
    if isinstance(r, Undecided):
        raise r
    return Result(p, parts, r)


_decided = {}


# ---------------------------------------------------------------- regular languages
class NotRegular(Exception):
    pass


_z3re = {}


def z3re(pattern, flags, mode):
    k = (pattern, flags, mode)
    if k not in _z3re:
        _z3re[k] = _make_z3re(*k)
    return _z3re[k]


def _make_z3re(pattern, flags, mode):
    """z3 regular expression for the texts on which the pattern matches (mode match or search); None if not expressible"""
    import z3
    if flags & ~(16 | 32):
        return None
    RS = z3.ReSort(z3.StringSort())
    full = z3.Full(RS)
    eps = z3.Re(z3.StringVal(""))
    nl = z3.Re(z3.StringVal("\\u{a}"))
    try:
        p = sre.parse(pattern, 0)
    except Exception:
        return None

    def cat(xs):
        return eps if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)

    def sets(av):
        neg = False
        cs = CharSet([])
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                cs = cs | CharSet([(a, a)])
            elif o is C.RANGE:
                cs = cs | CharSet([a])
            elif o is C.CATEGORY:
                cs = cs | CAT[a]
            else:
                raise NotRegular()
        if len(cs.r) > 60:
            raise NotRegular()      # the word class of unicode: beyond what the string solver handles in time
        return cs.inv() if neg else cs

    def seq(items, first, last):
        """items at the very start / very end of the pattern may carry anchors"""
        out = []
        items = list(items)
        for i, (op, av) in enumerate(items):
            f = first and all(items[j][0] is C.AT for j in range(i))
            l = last and i == len(items) - 1
            out.append(one(op, av, f, l))
        return cat(out)

    def one(op, av, first, last):
        if op is C.LITERAL:
            return CharSet([(av, av)]).z3re()
        if op is C.NOT_LITERAL:
            return CharSet([(av, av)]).inv().z3re()
        if op is C.ANY:
            return (ANYCHAR if flags & 16 else NL.inv()).z3re()
        if op is C.IN:
            return sets(av).z3re()
        if op is C.SUBPATTERN:
            g, a, d, q = av
            if a or d:
                raise NotRegular()
            return seq(q, first, last)
        if op is C.BRANCH:
            rs = [seq(x, first, last) for x in av[1]]
            return rs[0] if len(rs) == 1 else z3.Union(*rs)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, q = av
            r = seq(q, False, False)
            if hi is C.MAXREPEAT:
                return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(*([r] * lo + [z3.Star(r)]))
            return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and first:
                anchors.add("b")
                return eps
            if av in (C.AT_END, C.AT_END_STRING) and last:
                anchors.add("e")
                return z3.Option(nl) if av is C.AT_END else eps
        raise NotRegular()
    anchors = set()
    try:
        r = seq(p, True, True)
    except NotRegular:
        return None
    has_branch_anchor = any(a for a in anchors) and any(op is C.BRANCH for op, _ in p)
    if has_branch_anchor:
        return None
    if "e" not in anchors:
        r = z3.Concat(r, full)
    if mode == "search" and "b" not in anchors:
        r = z3.Concat(full, r)
    return r

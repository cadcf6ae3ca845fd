"""Backtracking regular-expression matcher for symbolic subjects (semantics of `re`, branches recorded)."""
from __future__ import annotations
import re, bisect, functools, sys
import re._parser as _p
import re._constants as _c
import re._casefix as _cf
import z3
from . import core, values as V
from .values import SymInt, SymStr, is_sym, mkbool, pin, plain
from .core import note

MAXCP = 0x10FFFF


@functools.lru_cache(maxsize=2000)
def _parse(pattern, flags):
    t = _p.parse(pattern, flags)
    return t, t.state.flags, t.state.groupdict, t.state.groups


@functools.lru_cache(maxsize=None)
def _category(name, ascii_):
    if ascii_:
        return {"d": ((48, 57),), "s": ((9, 13), (32, 32)), "w": ((48, 57), (65, 90), (95, 95), (97, 122))}[name]
    pat = re.compile("\\" + name)
    out = []
    start = None
    for cp in range(MAXCP + 2):
        ok = cp <= MAXCP and pat.match(chr(cp)) is not None
        if ok and start is None:
            start = cp
        elif not ok and start is not None:
            out.append((start, cp - 1))
            start = None
    return tuple(out)


def _negate(rs):
    out = []
    prev = 0
    for a, b in rs:
        if a > prev:
            out.append((prev, a - 1))
        prev = b + 1
    if prev <= MAXCP:
        out.append((prev, MAXCP))
    return tuple(out)


def _union(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


@functools.lru_cache(maxsize=None)
def _casevariants(cp, uni):
    s = {cp}
    if uni:
        for x in (chr(cp).lower(), chr(cp).upper()):
            if len(x) == 1:
                s.add(ord(x))
        low = chr(cp).lower()
        if len(low) == 1:
            for e in _cf._EXTRA_CASES.get(ord(low), ()):
                s.add(e)
    elif cp < 128:
        s.add(ord(chr(cp).lower()))
        s.add(ord(chr(cp).upper()))
    return tuple((x, x) for x in s)


@functools.lru_cache(maxsize=5000)
def _charset(op, av, flags, isb):
    """ranges of code points matched by a single-char node"""
    ascii_ = isb or bool(flags & re.ASCII)
    ic = bool(flags & re.IGNORECASE)
    if op is _c.ANY:
        return ((0, MAXCP),) if flags & re.DOTALL else _negate(((10, 10),))
    if op in (_c.LITERAL, _c.NOT_LITERAL):
        rs = _union(_casevariants(av, not ascii_)) if ic else ((av, av),)
        return rs if op is _c.LITERAL else _negate(rs)
    neg = False
    rs = []
    for o, a in av:
        if o is _c.NEGATE:
            neg = True
        elif o is _c.LITERAL:
            rs += _casevariants(a, not ascii_) if ic else [(a, a)]
        elif o is _c.RANGE:
            rs.append(a)
            if ic:
                for cp in range(a[0], min(a[1], 0x2ff) + 1):
                    rs += _casevariants(cp, not ascii_)
        elif o is _c.CATEGORY:
            nm = str(a)
            n = {"DIGIT": "d", "SPACE": "s", "WORD": "w"}[nm.rsplit("_", 1)[1]]
            r = _category(n, ascii_)
            rs += _negate(r) if "_NOT_" in nm else r
        else:
            raise NotImplementedError(str(o))
    rs = _union(rs)
    return _negate(rs) if neg else rs


def _hash_av(op, av):
    if op is _c.IN:
        return tuple((o, tuple(a) if isinstance(a, list) else a) for o, a in av)
    return av


def in_ranges(item, rs):
    """does item fall in the ranges (branches when symbolic)"""
    if type(item) is not SymInt:
        i = bisect.bisect_right(rs, (item, MAXCP + 1)) - 1
        return i >= 0 and rs[i][0] <= item <= rs[i][1]
    w = item.t.size()
    ts = []
    v = int.__int__(item)
    hit = False
    for a, b in rs:
        a2, b2 = max(a, item.lo), min(b, item.hi)
        if a2 > b2:
            continue
        if a2 <= item.lo and b2 >= item.hi:
            return True
        if a2 <= v <= b2:
            hit = True
        if a2 == b2:
            ts.append(item.t == z3.BitVecVal(a2, w))
        elif a2 <= item.lo:
            ts.append(item.t <= z3.BitVecVal(b2, w))
        elif b2 >= item.hi:
            ts.append(item.t >= z3.BitVecVal(a2, w))
        else:
            ts.append(z3.And(item.t >= z3.BitVecVal(a2, w), item.t <= z3.BitVecVal(b2, w)))
    if not ts:
        return False
    return bool(mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0], hit))


class _M:
    """one match attempt"""
    def __init__(self, items, flags, isb, pos, endpos, ngroups):
        self.s = items
        self.flags = flags
        self.isb = isb
        self.start = 0
        self.end = endpos
        self.g = [None] * ngroups

    def seq(self, nodes, i, pos, flags):
        if i == len(nodes):
            yield pos
            return
        op, av = nodes[i]
        last = i + 1 == len(nodes)
        for p in self.node(op, av, pos, flags):
            if last:
                yield p
            else:
                yield from self.seq(nodes, i + 1, p, flags)

    def single(self, op, av, flags):
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
            return _charset(op, _hash_av(op, av), flags & (re.IGNORECASE | re.DOTALL | re.ASCII), self.isb)
        return None

    def node(self, op, av, pos, flags):
        cs = self.single(op, av, flags)
        if cs is not None:
            if pos < self.end and in_ranges(self.s[pos], cs):
                yield pos + 1
            return
        if op is _c.SUBPATTERN:
            group, add, dele, p = av
            f2 = (flags | add) & ~dele
            if group is None:
                yield from self.seq(p, 0, pos, f2)
                return
            old = self.g[group]
            for e in self.seq(p, 0, pos, f2):
                self.g[group] = (pos, e)
                yield e
                self.g[group] = old
            self.g[group] = old
            return
        if op is _c.BRANCH:
            for alt in av[1]:
                yield from self.seq(alt, 0, pos, flags)
            return
        if op in (_c.MAX_REPEAT, _c.MIN_REPEAT, _c.POSSESSIVE_REPEAT):
            lo, hi, p = av
            hi = self.end + 1 if hi is _c.MAXREPEAT else hi
            if len(p) == 1:
                cs = self.single(p[0][0], p[0][1], flags)
            if len(p) == 1 and cs is not None:
                if op is _c.MIN_REPEAT:
                    n = 0
                    q = pos
                    while n < lo:
                        if not (q < self.end and in_ranges(self.s[q], cs)):
                            return
                        q += 1
                        n += 1
                    while True:
                        yield q
                        if n >= hi or not (q < self.end and in_ranges(self.s[q], cs)):
                            return
                        q += 1
                        n += 1
                q = pos
                n = 0
                while n < hi and q < self.end and in_ranges(self.s[q], cs):
                    q += 1
                    n += 1
                if op is _c.POSSESSIVE_REPEAT:
                    if n >= lo:
                        yield q
                    return
                while n >= lo:
                    yield q
                    q -= 1
                    n -= 1
                return
            if op is _c.POSSESSIVE_REPEAT:
                for e in self.maxrep(p, lo, hi, 0, pos, flags, -1):
                    yield e
                    return
                return
            if op is _c.MAX_REPEAT:
                yield from self.maxrep(p, lo, hi, 0, pos, flags, -1)
            else:
                yield from self.minrep(p, lo, hi, 0, pos, flags)
            return
        if op is _c.AT:
            if self.at(av, pos, flags):
                yield pos
            return
        if op in (_c.ASSERT, _c.ASSERT_NOT):
            d, p = av
            ok = False
            saved = list(self.g)
            if d >= 0:
                for _ in self.seq(p, 0, pos, flags):
                    ok = True
                    break
            else:
                lo, hi = p.getwidth()
                st = pos - lo
                if st >= 0:
                    for e in self.seq(p, 0, st, flags):
                        if e == pos:
                            ok = True
                            break
            if op is _c.ASSERT_NOT:
                self.g[:] = saved
            if ok == (op is _c.ASSERT):
                yield pos
            return
        if op is _c.GROUPREF:
            g = self.g[av]
            if g is None:
                return
            a, b = g
            if pos + (b - a) > self.end:
                return
            for k in range(b - a):
                x, y = self.s[a + k], self.s[pos + k]
                if flags & re.IGNORECASE:
                    x, y = V._lower(x), V._lower(y)
                if not (x == y):
                    return
            yield pos + (b - a)
            return
        if op is _c.GROUPREF_EXISTS:
            g, yes, no = av
            if self.g[g] is not None:
                yield from self.seq(yes, 0, pos, flags)
            elif no:
                yield from self.seq(no, 0, pos, flags)
            else:
                yield pos
            return
        if op is _c.ATOMIC_GROUP:
            for e in self.seq(av, 0, pos, flags):
                yield e
                return
            return
        if op is _c.FAILURE:
            return
        raise NotImplementedError(str(op))

    def maxrep(self, p, lo, hi, n, pos, flags, lastpos):
        if n < hi and not (n >= lo and pos == lastpos):
            for e in self.seq(p, 0, pos, flags):
                if e == pos and n >= lo:
                    continue
                yield from self.maxrep(p, lo, hi, n + 1, e, flags, pos)
        if n >= lo:
            yield pos

    def minrep(self, p, lo, hi, n, pos, flags):
        if n >= lo:
            yield pos
        if n < hi:
            for e in self.seq(p, 0, pos, flags):
                if e == pos and n >= lo:
                    continue
                yield from self.minrep(p, lo, hi, n + 1, e, flags)

    def at(self, av, pos, flags):
        nl = ((10, 10),)
        if av is _c.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(flags & re.MULTILINE) and in_ranges(self.s[pos - 1], nl)
        if av is _c.AT_BEGINNING_STRING:
            return pos == 0
        if av is _c.AT_END:
            if pos == self.end:
                return True
            if flags & re.MULTILINE:
                return in_ranges(self.s[pos], nl)
            return pos == self.end - 1 and in_ranges(self.s[pos], nl)
        if av is _c.AT_END_STRING:
            return pos == self.end
        if av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            w = _category("w", self.isb or bool(flags & re.ASCII))
            a = pos > 0 and in_ranges(self.s[pos - 1], w)
            b = pos < self.end and in_ranges(self.s[pos], w)
            return (a != b) == (av is _c.AT_BOUNDARY)
        raise NotImplementedError(str(av))


class SMatch:
    def __init__(self, pat, string, groups, gd, pos, endpos):
        self.re = pat
        self.string = string
        self._g = groups
        self._gd = gd
        self.pos = pos
        self.endpos = endpos

    def _i(self, k):
        if isinstance(k, str):
            k = self._gd[plain(k)]
        if k >= len(self._g):
            raise IndexError("no such group")
        return k

    def _one(self, k, default=None):
        g = self._g[self._i(k)]
        return default if g is None else self.string[g[0]:g[1]]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, len(self._g)))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self._gd.items()}

    def span(self, k=0):
        g = self._g[self._i(k)]
        return (-1, -1) if g is None else g

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    @property
    def lastindex(self):
        best = None
        for i, g in enumerate(self._g[1:], 1):
            if g is not None and (best is None or g[1] >= self._g[best][1]):
                best = i
        return best

    @property
    def lastgroup(self):
        i = self.lastindex
        for n, k in self._gd.items():
            if k == i:
                return n
        return None

    def __bool__(self):
        return True

    def expand(self, template):
        return _expand(self, template)


def _items(s):
    if isinstance(s, str):
        return V.sfull(s)
    return V.bfull(s)


def _pf(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        return pattern.pattern, pattern.flags
    if isinstance(pattern, SymPattern):
        return pattern.pattern, pattern.flags
    return plain(pin(pattern)) if is_sym(pattern) else pattern, int(flags)


class SymPattern:
    """A pattern whose text is symbolic: parsed item-wise (only what like_to_regex-style code builds)."""
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = int(flags)

    def match(self, s, *a):
        return m_match(self, s, 0)

    def fullmatch(self, s, *a):
        return m_fullmatch(self, s, 0)

    def search(self, s, *a):
        return m_search(self, s, 0)


def _parsed(pattern, flags):
    pattern, flags = _pf(pattern, flags)
    if isinstance(pattern, SymStr):
        pattern = pin(pattern)
    isb = isinstance(pattern, bytes)
    base = flags & ~(re.UNICODE if isb else 0)
    t, f, gd, n = _parse(pattern, base & ~re.DEBUG)
    return t, f, gd, n, isb


def _attempt(P, items, start, pos0, end, string, full=False, pat=None):
    t, f, gd, n, isb = P
    m = _M(items, f, isb, pos0, end, n)
    core_rec = sys.getrecursionlimit()
    if core_rec < 20000:
        sys.setrecursionlimit(20000)
    for e in m.seq(t, 0, start, f):
        if full and e != end:
            continue
        g = list(m.g)
        g[0] = (start, e)
        return SMatch(pat, string, g, gd, pos0, end)
    return None


def _run(pattern, s, flags, mode, pos=0, endpos=None):
    if is_sym(pattern) or isinstance(pattern, SymPattern):
        note("symbolic regex pattern pinned")
    P = _parsed(pattern, flags)
    items = _items(s)
    end = len(items) if endpos is None else max(0, min(int(endpos), len(items)))
    pos = max(0, min(int(pin(pos)) if is_sym(pos) else int(pos), end))
    if not is_sym(s):
        s_ = s
    else:
        s_ = s
    if mode == "match":
        return _attempt(P, items, pos, pos, end, s_, pat=pattern)
    if mode == "full":
        return _attempt(P, items, pos, pos, end, s_, True, pattern)
    for st in range(pos, end + 1):
        m = _attempt(P, items, st, pos, end, s_, pat=pattern)
        if m:
            return m
    return None


def m_match(p, s, flags=0):
    return _run(p, s, flags, "match")


def m_search(p, s, flags=0):
    return _run(p, s, flags, "search")


def m_fullmatch(p, s, flags=0):
    return _run(p, s, flags, "full")


def _iter(p, s, flags=0, pos=0, endpos=None):
    P = _parsed(p, flags)
    items = _items(s)
    end = len(items) if endpos is None else min(int(endpos), len(items))
    st = pos
    must_nonempty_at = -1
    while st <= end:
        t, f, gd, n, isb = P
        m = _M(items, f, isb, pos, end, n)
        found = None
        for e in m.seq(t, 0, st, f):
            if e == st and must_nonempty_at == st:
                continue
            g = list(m.g)
            g[0] = (st, e)
            found = SMatch(p, s, g, gd, pos, end)
            break
        if found is None:
            st += 1
            continue
        yield found
        e = found.end()
        must_nonempty_at = e
        st = e
        if False:
            pass


def m_finditer(p, s, flags=0):
    return _iter(p, s, flags)


def m_findall(p, s, flags=0):
    out = []
    e = s[0:0]
    for m in _iter(p, s, flags):
        n = len(m._g) - 1
        if n == 0:
            out.append(m.group())
        elif n == 1:
            out.append(m._one(1, e))
        else:
            out.append(m.groups(e))
    return out


def _join(s, parts):
    if isinstance(s, str):
        return V.rjoin_str("", parts)
    return V.rjoin_bytes(b"", parts)


def _has_backslash(repl):
    for sg in V.ssegs_of(repl):
        if sg[0] == "L":
            for i in sg[1]:
                if i == 92:
                    return True
        elif sg[0] == "T" and sg[1].kind not in ("int", "float"):
            if "\\" in sg[1].s:
                return True
    return False


def _expand(m, repl):
    if isinstance(repl, SymStr):
        if not _has_backslash(repl):
            return repl
        note("symbolic template with backslash")
        repl = pin(repl)
    if isinstance(repl, str):
        if "\\" not in repl:
            return repl
    elif b"\\" not in repl:
        return repl
    pat, fl = _pf(m.re)
    tpl = _p.parse_template(repl, re.compile(pat, fl))
    if isinstance(tpl, tuple):      # older layout
        groups, lits = tpl
        lits = list(lits)
        for i, g in groups:
            lits[i] = m._one(g, m.string[0:0])
        return _join(m.string, [x for x in lits])
    out = []
    for i, x in enumerate(tpl):
        if i % 2:
            out.append(m._one(x, m.string[0:0]))
        else:
            out.append(x)
    return _join(m.string, out)


def m_subn(p, repl, s, count=0, flags=0):
    if not is_sym(s) and (callable(repl)) and not is_sym(p):
        return re.subn(p, repl, s, count, flags) if not isinstance(p, re.Pattern) else p.subn(repl, s, count)
    out = []
    last = 0
    n = 0
    pp = p if isinstance(p, (re.Pattern, SymPattern)) else (re.compile(p, flags) if not is_sym(p) else SymPattern(p, flags))
    count = pin(count)
    # a concrete subject still goes through the matcher: the replacement is symbolic
    for m in _iter(pp, s, 0):
        if count and n >= count:
            break
        a, b = m.span()
        out.append(s[last:a])
        out.append(repl(m) if callable(repl) else _expand(m, repl))
        last = b
        n += 1
    out.append(s[last:])
    return _join(s, out), n


def m_sub(p, repl, s, count=0, flags=0):
    return m_subn(p, repl, s, count, flags)[0]


def m_split(p, s, maxsplit=0, flags=0):
    out = []
    last = 0
    n = 0
    for m in _iter(p, s, flags):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(s[last:a])
        out.extend(m.groups())
        last = b
        n += 1
    out.append(s[last:])
    return out


_SPECIAL = frozenset(map(ord, "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"))


def m_escape(s):
    if not is_sym(s):
        return re.escape(s)
    parts = []
    for sg in V.ssegs_of(s) if isinstance(s, str) else V.segs_of(s):
        if sg[0] == "L":
            o = []
            for i in sg[1]:
                if V._initem(i, _SPECIAL):
                    o.append(92)
                o.append(i)
            parts.append(("L", o))
        elif sg[0] == "B":
            parts.append(sg)
        else:
            note("re.escape of token")
            return re.escape(pin(s))
    return V.mkstr(parts) if isinstance(s, str) else V.mkbytes(parts)


def m_compile(p, flags=0):
    if is_sym(p):
        return SymPattern(p, flags)
    return re.compile(p, flags)


def pattern_method(s, name, a, k):
    """bound method of a concrete re.Pattern called with symbolic arguments"""
    if name in ("match", "search", "fullmatch"):
        string = a[0] if a else k["string"]
        pos = a[1] if len(a) > 1 else k.get("pos", 0)
        endpos = a[2] if len(a) > 2 else k.get("endpos")
        return _run(s, string, 0, {"match": "match", "search": "search", "fullmatch": "full"}[name], pos, endpos)
    if name in ("sub", "subn"):
        repl = a[0] if a else k["repl"]
        string = a[1] if len(a) > 1 else k["string"]
        count = a[2] if len(a) > 2 else k.get("count", 0)
        r = m_subn(s, repl, string, count)
        return r if name == "subn" else r[0]
    if name == "finditer":
        return _iter(s, a[0], 0, pin(a[1]) if len(a) > 1 else 0, pin(a[2]) if len(a) > 2 else None)
    if name == "findall":
        return m_findall(s, a[0])
    if name == "split":
        return m_split(s, a[0], *a[1:], **k)
    note("pattern." + name)
    return getattr(s, name)(*[pin(x) for x in a], **{n: pin(v) for n, v in k.items()})

"""Symbolic values: subclasses of the builtins carrying a concrete witness plus a z3 term / rope."""
from __future__ import annotations
import datetime as _dt
import math, struct as _struct, random as _random, codecs as _codecs
import z3
from . import core
from .core import branch, note

BV = z3.BitVecVal


def need(lo, hi):
    w = 1
    w = max(w, (hi if hi >= 0 else 0).bit_length() + 1, ((-lo - 1) if lo < 0 else 0).bit_length() + 1)
    return w


def fit(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


MAXW = 220


def is_sym(x):
    return type(x) in SYM_SET


def mkint(val, t, lo, hi):
    if lo == hi:
        return val
    w = need(lo, hi)
    if w > MAXW:
        note("int too wide: concretized")
        return int(val)
    return SymInt(val, fit(t, w), lo, hi)


def lin_of(x):
    """linear form (const, {id: (base SymInt, coeff)}) over integers"""
    if type(x) is SymInt:
        l = x.lin
        if l is None:
            l = x.lin = (0, {x.t.get_id(): (x, 1)})
        return l
    return (int(x), {})


LINMAX = 10


def lin_add(a, b, k):
    """a + k*b"""
    (ca, da), (cb, db) = a, b
    d = dict(da)
    for key, (base, co) in db.items():
        o = d.get(key)
        n = (o[1] if o else 0) + k * co
        if n:
            d[key] = (base, n)
        else:
            d.pop(key, None)
    return (ca + k * cb, d)


def with_lin(r, l):
    """attach the linear form; collapse to a constant or a base when the form says so"""
    c, d = l
    if not d:
        return c
    if type(r) is not SymInt:
        return r
    if len(d) > LINMAX:
        return r
    if c == 0 and len(d) == 1:
        (base, co), = d.values()
        if co == 1:
            if base.lo >= r.lo and base.hi <= r.hi:
                return base
            return retype(base, max(base.lo, r.lo), min(base.hi, r.hi))
    r.lin = l
    return r


def retype(x, lo, hi):
    """same value, tighter interval"""
    if type(x) is not SymInt:
        return x
    if lo == hi:
        return lo
    if lo == x.lo and hi == x.hi:
        return x
    r = SymInt(int.__int__(x), fit(x.t, need(lo, hi)), lo, hi)
    r.lin = lin_of(x)
    return r


def term_of(x, w):
    if type(x) is SymInt:
        return fit(x.t, w)
    return BV(int(x), w)


def rng(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    x = int(x)
    return x, x


def as_num(x):
    """SymBool -> SymInt; int stays"""
    if type(x) is SymBool:
        return x.as_int()
    return x


def pin(x):
    """Concretize, recording the choice as a path condition."""
    if type(x) is SymInt:
        core.pin_terms([(x.t, int.__int__(x))])
        return int.__int__(x)
    if type(x) is SymBool:
        return bool(x)
    if isinstance(x, SymFloat):
        pin(x.pat)
        return float.__float__(x)
    if isinstance(x, (SymBytes, SymByteArray, SymStr)):
        rpin(x.segs)
        return plain(x)
    if isinstance(x, SymTimedelta):
        pin(x.us)
        return plain(x)
    if isinstance(x, SymDateBase):
        for f in x.fields():
            pin(f)
        return plain(x)
    return x


def plain(x):
    """Concrete witness, without recording anything."""
    if type(x) is SymInt:
        return int.__int__(x)
    if type(x) is SymBool:
        return x.v
    if isinstance(x, SymFloat):
        return float.__float__(x)
    if isinstance(x, SymBytes):
        return bytes.__getitem__(x, slice(None))
    if isinstance(x, SymByteArray):
        return bytes(bytearray.__getitem__(x, slice(None)))
    if isinstance(x, SymStr):
        return str.__getitem__(x, slice(None))
    if isinstance(x, SymTimedelta):
        return _dt.timedelta.__add__(x, _dt.timedelta(0))
    if isinstance(x, SymDatetime):
        return x.c
    if isinstance(x, SymDate):
        return x.c
    return x


class SymBool:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t = t
        self.v = v

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return branch(self.t, self.v)

    def as_int(self):
        return SymInt(int(self.v), z3.If(self.t, BV(1, 2), BV(0, 2)), 0, 1)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def _l(self, o):
        if type(o) is SymBool:
            return o.t, o.v
        if isinstance(o, bool):
            return z3.BoolVal(o), o
        return None

    def __and__(self, o):
        x = self._l(o)
        if x is None:
            return self.as_int() & o
        return mkbool(z3.And(self.t, x[0]), self.v and x[1])
    __rand__ = __and__

    def __or__(self, o):
        x = self._l(o)
        if x is None:
            return self.as_int() | o
        return mkbool(z3.Or(self.t, x[0]), self.v or x[1])
    __ror__ = __or__

    def __xor__(self, o):
        x = self._l(o)
        if x is None:
            return self.as_int() ^ o
        return mkbool(z3.Xor(self.t, x[0]), self.v != x[1])
    __rxor__ = __xor__

    def __eq__(self, o):
        x = self._l(o)
        if x is None:
            if isinstance(o, (int, float)):
                return self.as_int() == o
            return False
        return mkbool(self.t == x[0], self.v == x[1])

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __repr__(self):
        return repr(bool(self))
    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)


def _num_fwd(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ __rfloordiv__ __mod__ __rmod__ __lshift__ "
           "__rlshift__ __rshift__ __rrshift__ __lt__ __le__ __gt__ __ge__ __neg__ __abs__ to_bytes bit_length").split():
    setattr(SymBool, _n, _num_fwd(_n))


def mkbool(t, v):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t, bool(v))


def not_(r):
    if type(r) is SymBool:
        return SymBool(z3.Not(r.t), not r.v)
    return not r


def and_all(terms, v):
    terms = [t for t in terms if t is not True]
    if not terms:
        return True
    if any(t is False for t in terms):
        return False
    return mkbool(z3.And(*terms) if len(terms) > 1 else terms[0], v)


def _binop(name):
    def deco(fn):
        def fwd(self, o):
            o = as_num(o)
            if isinstance(o, float):
                note("int/float arithmetic")
                return getattr(float(pin(self)), name)(float(pin(o)))
            if not isinstance(o, int):
                return NotImplemented
            return fn(self, o)

        def rev(self, o):
            o = as_num(o)
            if isinstance(o, float):
                note("int/float arithmetic")
                return getattr(float(pin(o)), name)(float(pin(self)))
            if not isinstance(o, int):
                return NotImplemented
            return fn(o, self)
        return fwd, rev
    return deco


def _ival(x):
    return int.__int__(x)


@_binop("__add__")
def _add(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = al + bl, ah + bh
    w = need(lo, hi)
    if w > MAXW:
        return pin(a) + pin(b)
    if bl == bh == 0:
        return a
    if al == ah == 0:
        return b
    return with_lin(mkint(_ival(a) + _ival(b), term_of(a, w) + term_of(b, w), lo, hi), lin_add(lin_of(a), lin_of(b), 1))


@_binop("__sub__")
def _sub(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo, hi = al - bh, ah - bl
    w = max(need(lo, hi), need(bl, bh), need(al, ah))
    if w > MAXW:
        return pin(a) - pin(b)
    if bl == bh == 0:
        return a
    if type(a) is SymInt and type(b) is SymInt and a.t.get_id() == b.t.get_id():
        return 0
    l = lin_add(lin_of(a), lin_of(b), -1)
    if not l[1]:
        return l[0]
    return with_lin(mkint(_ival(a) - _ival(b), z3.simplify(term_of(a, w) - term_of(b, w)), lo, hi), l)


@_binop("__mul__")
def _mul(a, b):
    (al, ah), (bl, bh) = rng(a), rng(b)
    ps = [al * bl, al * bh, ah * bl, ah * bh]
    lo, hi = min(ps), max(ps)
    w = max(need(lo, hi), need(bl, bh), need(al, ah))
    if w > MAXW:
        return pin(a) * pin(b)
    r = mkint(_ival(a) * _ival(b), term_of(a, w) * term_of(b, w), lo, hi)
    if type(a) is not SymInt:
        return with_lin(r, lin_add((0, {}), lin_of(b), int(a)))
    if type(b) is not SymInt:
        return with_lin(r, lin_add((0, {}), lin_of(a), int(b)))
    return r


def _bits(name, pyop):
    @_binop(name)
    def f(a, b):
        (al, ah), (bl, bh) = rng(a), rng(b)
        w = max(need(al, ah), need(bl, bh))
        v = pyop(_ival(a), _ival(b))
        t = {"__and__": lambda x, y: x & y, "__or__": lambda x, y: x | y, "__xor__": lambda x, y: x ^ y}[name](
            term_of(a, w), term_of(b, w))
        if al >= 0 and bl >= 0:
            if name == "__and__":
                lo, hi = 0, min(ah, bh)
            else:
                lo, hi = 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1
        elif name == "__and__" and (al >= 0 or bl >= 0):
            lo, hi = 0, (ah if al >= 0 else bh)
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mkint(v, t, lo, hi)
    return f


_and = _bits("__and__", lambda x, y: x & y)
_or = _bits("__or__", lambda x, y: x | y)
_xor = _bits("__xor__", lambda x, y: x ^ y)


@_binop("__lshift__")
def _shl(a, b):
    if type(b) is SymInt:
        if type(a) is not SymInt and a > 0 and b.lo >= 0 and b.hi <= 64:
            w = need(0, a << b.hi)
            return mkint(_ival(a) << _ival(b), term_of(a, w) << term_of(b, w), a << b.lo, a << b.hi)
        b = pin(b)
    if b > MAXW:
        return pin(a) << b
    return _mul[0](a, 1 << b) if type(a) is SymInt else _ival(a) << b


@_binop("__rshift__")
def _shr(a, b):
    if type(b) is SymInt:
        b = pin(b)
    if type(a) is not SymInt:
        return _ival(a) >> b
    if b < 0:
        raise ValueError("negative shift count")
    w = a.t.size()
    return mkint(_ival(a) >> b, a.t >> BV(min(b, w - 1), w), a.lo >> b, a.hi >> b)


def _addx(a, b):
    return _add[0](a, b) if type(a) is SymInt or type(b) is SymInt else a + b


def _mulx(a, b):
    return _mul[0](a, b) if type(a) is SymInt or type(b) is SymInt else a * b


def _divmod_terms(a, c):
    """floor quotient and remainder of SymInt a by positive int c."""
    if c == 1:
        return a, 0
    if c & (c - 1) == 0:
        k = c.bit_length() - 1
        return _shr[0](a, k), _and[0](a, c - 1)
    qlo, qhi = a.lo // c, a.hi // c
    if qlo != qhi:
        k0, d = lin_of(a)
        div = {k: v for k, v in d.items() if v[1] % c == 0}
        if (div or k0 // c) and len(d) > 1 or div:
            # a = c*D + R:  a // c = D + R // c,  a % c = R % c
            D = k0 // c
            for base, co in div.values():
                D = _addx(D, _mulx(base, co // c))
            R = k0 % c
            for k, (base, co) in d.items():
                if k not in div:
                    R = _addx(R, _mulx(base, co))
            if type(R) is SymInt:
                q, m = _divmod_terms(R, c)
            else:
                q, m = R // c, R % c
            q = _addx(D, q)
            return retype(q, max(qlo, rng(q)[0]), min(qhi, rng(q)[1])), m
    w = max(need(a.lo, a.hi), need(qlo * c, (qhi + 1) * c), need(-c, c)) + 1
    r = core.RUN
    key = ("div", a.t.get_id(), c)
    if r is not None and key in r.aux:
        q, m, _ = r.aux[key]
        return q, m
    if qlo == qhi:
        q = qlo
        m = _sub[0](a, q * c)
        if type(m) is SymInt:
            m = retype(m, max(0, m.lo), min(c - 1, m.hi))
    elif r is None:
        return _ival(a) // c, _ival(a) % c
    else:
        # fresh quotient: a = q*c + m, 0 <= m < c (definitional, deterministic naming)
        r.fresh += 1
        wq = need(qlo, qhi)
        qv = z3.BitVec(f"q!{r.fresh}!{c}", wq)
        q = SymInt(_ival(a) // c, qv, qlo, qhi)
        m_t = fit(a.t, w) - fit(qv, w) * BV(c, w)
        r.domain.append(z3.And(qv >= BV(qlo, wq), qv <= BV(qhi, wq), m_t >= 0, m_t < BV(c, w)))
        m = SymInt(_ival(a) % c, fit(m_t, need(0, c - 1)), 0, c - 1)
        m.lin = lin_add(lin_of(a), lin_of(q), -c)
    if r is not None:
        r.aux[key] = (q, m, a.t)
    return q, m


@_binop("__floordiv__")
def _floordiv(a, b):
    if type(b) is SymInt:
        b = pin(b)
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if type(a) is not SymInt:
        return _ival(a) // b
    if b < 0:
        return _floordiv[0](-a, -b)
    return _divmod_terms(a, b)[0]


@_binop("__mod__")
def _mod(a, b):
    if type(b) is SymInt:
        b = pin(b)
    if b == 0:
        raise ZeroDivisionError("integer modulo by zero")
    if type(a) is not SymInt:
        return _ival(a) % b
    if b < 0:
        return -_mod[0](-a, -b)
    return _divmod_terms(a, b)[1]


def _cmp(name, z):
    def f(self, o):
        o = as_num(o)
        if isinstance(o, float):
            if o != o or o in (math.inf, -math.inf):
                return getattr(int.__int__(self), name)(o) if name in ("__eq__", "__ne__") else \
                    getattr(float(int.__int__(self)), name)(float(o))
            if float(o).is_integer():
                o = int(plain(o))
            else:
                fl = math.floor(o)
                if name in ("__eq__",):
                    return False
                if name == "__ne__":
                    return True
                if name in ("__lt__", "__le__"):
                    return self <= fl
                return self > fl
        if not isinstance(o, int):
            return NotImplemented
        (al, ah), (bl, bh) = rng(self), rng(o)
        if name == "__lt__":
            if ah < bl:
                return True
            if al >= bh:
                return False
        elif name == "__le__":
            if ah <= bl:
                return True
            if al > bh:
                return False
        elif name == "__gt__":
            if al > bh:
                return True
            if ah <= bl:
                return False
        elif name == "__ge__":
            if al >= bh:
                return True
            if ah < bl:
                return False
        elif ah < bl or al > bh:
            return name == "__ne__"
        v = getattr(int.__int__(self), name)(int.__int__(o))
        la = lin_of(self)
        if len(la[1]) > 1 or type(o) is SymInt:
            l = lin_add(la, lin_of(o), -1)
            if not l[1]:
                return v
            if len(l[1]) <= 2 < len(la[1]) + (len(lin_of(o)[1]) if type(o) is SymInt else 0):
                # compare the difference with 0, in lowest terms
                k, d = l
                g = math.gcd(*[co for _, co in d.values()])
                if name in ("__eq__", "__ne__"):
                    if k % g:
                        return name == "__ne__"
                    k //= g
                elif name in ("__lt__", "__ge__"):
                    k = l[0] // g           # g*x + k < 0  <=>  x < ceil(-k/g) = -floor(k/g)
                else:
                    k = -((-l[0]) // g)     # x <= floor(-k/g)
                x = 0
                for base, co in d.values():
                    x = _addx(x, _mulx(base, co // g))
                if type(x) is not SymInt:
                    return v
                lo, hi = x.lo, x.hi
                w = need(min(lo, -k), max(hi, -k))
                return mkbool(z(term_of(x, w), BV(-k, w)), v)
        w = max(need(al, ah), need(bl, bh))
        return mkbool(z(term_of(self, w), term_of(o, w)), v)
    return f


class SymInt(int):
    def __new__(cls, val, t, lo, hi):
        o = int.__new__(cls, val)
        o.t = t
        o.lo = lo
        o.hi = hi
        o.lin = None
        return o

    __add__, __radd__ = _add
    __sub__, __rsub__ = _sub
    __mul__, __rmul__ = _mul
    __and__, __rand__ = _and
    __or__, __ror__ = _or
    __xor__, __rxor__ = _xor
    __lshift__, __rlshift__ = _shl
    __rshift__, __rrshift__ = _shr
    __floordiv__, __rfloordiv__ = _floordiv
    __mod__, __rmod__ = _mod
    __lt__ = _cmp("__lt__", lambda a, b: a < b)
    __le__ = _cmp("__le__", lambda a, b: a <= b)
    __gt__ = _cmp("__gt__", lambda a, b: a > b)
    __ge__ = _cmp("__ge__", lambda a, b: a >= b)
    __eq__ = _cmp("__eq__", lambda a, b: a == b)
    __ne__ = _cmp("__ne__", lambda a, b: a != b)

    def __hash__(self):
        return int.__hash__(self)

    def __neg__(self):
        return _sub[0](0, self)

    def __pos__(self):
        return self

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        hi = max(-self.lo, self.hi)
        w = need(-hi, hi)
        t = fit(self.t, w)
        return mkint(abs(int.__int__(self)), z3.If(t < 0, -t, t), 0, hi)

    def __bool__(self):
        return bool(self != 0)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        note("true division")
        return pin(self) / pin(o)

    def __rtruediv__(self, o):
        note("true division")
        return pin(o) / pin(self)

    def __pow__(self, o, m=None):
        o = pin(o)
        if m is not None or not isinstance(o, int) or o < 0 or o > 8:
            return pow(pin(self), o, m)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        if o == 2:
            return 1 << self
        return pow(o, pin(self))

    def __round__(self, n=None):
        return self
    __trunc__ = __floor__ = __ceil__ = lambda self: self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (int, (int.__int__(self),))

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = pin(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed and length else (0, (1 << (8 * length)) - 1)
        if self < 0 and not signed:
            raise OverflowError("can't convert negative int to unsigned")
        if not (lo <= self) or not (self <= hi):
            raise OverflowError("int too big to convert")
        items = int_to_items(self, length)
        if byteorder == "big":
            items = items[::-1]
        return mkbytes([("L", items)])

    def bit_length(self):
        # one class of values for each result
        v = abs(self)
        if not isinstance(v, SymInt):
            return v.bit_length()
        n = abs(int.__int__(self)).bit_length()
        if not v < (1 << n) or n and not v >= (1 << (n - 1)):
            raise AssertionError("bit_length")
        return n

    @property
    def real(self):
        return self

    @property
    def value(self):     # enum-like
        return self

    def __str__(self):
        return int_to_str(self)

    def __repr__(self):
        return int_to_str(self)

    def __format__(self, spec):
        return fmt_int(self, spec)


def int_to_items(x, n):
    """little-endian byte items of x (already range-checked, two's complement)."""
    if type(x) is not SymInt:
        v = int(x) & ((1 << (8 * n)) - 1)
        return [(v >> (8 * i)) & 0xFF for i in range(n)]
    w = 8 * n
    t = fit(x.t, w)
    v = int.__int__(x) & ((1 << w) - 1)
    out = []
    # bytes that are constant by interval
    for i in range(n):
        if x.lo >= 0 and (x.hi >> (8 * i)) == 0:
            out.append(0)
            continue
        bt = z3.simplify(z3.Extract(8 * i + 7, 8 * i, t))
        bv = (v >> (8 * i)) & 0xFF
        if z3.is_bv_value(bt):
            out.append(bt.as_long())
        else:
            hi = 255
            if x.lo >= 0:
                hi = min(255, x.hi >> (8 * i))
            b = SymInt(bv, z3.ZeroExt(1, bt), 0, hi)
            b.src = (x, i)
            out.append(b)
    return out


def _whole(items, signed):
    """the int whose bytes these are, if they are all of it"""
    s = getattr(items[0], "src", None)
    if s is None:
        return None
    x, n = s[0], len(items)
    if signed:
        if x.lo < -(1 << (8 * n - 1)) or x.hi >= 1 << (8 * n - 1):
            return None
    elif x.lo < 0 or x.hi >= 1 << (8 * n):
        return None
    for i, it in enumerate(items):
        if type(it) is SymInt:
            s = getattr(it, "src", None)
            if s is None or s[0] is not x or s[1] != i:
                return None
        elif it != 0 or x.lo < 0 or x.hi >> (8 * i):
            return None
    return x


def byte_term(it):
    if type(it) is SymInt:
        return z3.simplify(z3.Extract(7, 0, it.t)) if it.t.size() > 8 else fit(it.t, 8)
    return BV(int(it), 8)


def items_to_int(items, signed=False):
    """little-endian items -> int."""
    n = len(items)
    if n == 0:
        return 0
    if not any(type(i) is SymInt for i in items):
        return int.from_bytes(bytes(items), "little", signed=signed)
    x = _whole(items, signed)
    if x is not None:
        return x
    v = 0
    for i, it in enumerate(items):
        v |= int.__int__(it) << (8 * i)
    if signed and v >> (8 * n - 1):
        v -= 1 << (8 * n)
    # drop constant-zero top bytes when unsigned
    m = n
    if not signed:
        while m > 1 and type(items[m - 1]) is not SymInt and items[m - 1] == 0:
            m -= 1
        if m == 1:
            return items[0]
        hi = 0
        for i in range(m):
            hi |= rng(items[i])[1] << (8 * i)
        t = z3.simplify(z3.Concat(*[byte_term(it) for it in reversed(items[:m])]))
        return mkint(v, z3.ZeroExt(1, t), 0, hi)
    if m == 1:
        t = byte_term(items[0])
        return mkint(v, t, -128, 127)
    t = z3.simplify(z3.Concat(*[byte_term(it) for it in reversed(items)]))
    return mkint(v, t, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)


# ---------------------------------------------------------------- ropes
# byte segs:  ("L", [int|SymInt])   ("B", blob, off, len)   ("E", codec, Tok)
# str segs:   ("L", [int|SymInt])   ("B", blob, off, len) (ascii)   ("T", Tok)

class Blob:
    """Opaque content, NUL-free lower-case ascii letters, as long as wanted; identity is its name."""
    __slots__ = ("name", "data", "alphabet")

    def __init__(self, name, n, data=None):
        self.name = name
        if data is not None:
            self.data = data
            self.alphabet = range(256)
            return
        rnd = _random.Random(name)
        # bulk random letters without a short period
        raw = rnd.randbytes(max(n, 1))
        self.data = raw.translate(_TR)
        self.alphabet = frozenset(range(97, 123))


_TR = bytes(97 + (i % 26) for i in range(256))


class Tok:
    """Opaque string token with a concrete witness."""
    __slots__ = ("kind", "id", "s", "n", "info")

    def __init__(self, kind, id, s, n, info=None):
        self.kind, self.id, self.s, self.n, self.info = kind, id, s, n, info

    def same(self, o):
        return self is o or (self.kind == o.kind and self.kind != "int" and self.id == o.id)


def norm_codec(c):
    try:
        return _codecs.lookup(c).name
    except LookupError:
        return c


def ascii_compatible(c):
    c = norm_codec(c)
    return not (c.startswith("utf-16") or c.startswith("utf-32") or c in ("utf-7", "hz", "punycode", "idna")
                or c.startswith("cp037") or c.startswith("cp500"))


def seglen(s):
    k = s[0]
    if k == "L":
        return len(s[1])
    if k == "B":
        return s[3]
    if k == "E":
        tok = s[2]
        if tok.kind == "int":
            return tok.n
        if tok.kind == "dec":
            return rlen(tok.info[1])
        return len(tok.s.encode(s[1]))
    return s[1].n


def rlen(segs):
    n = 0
    for s in segs:
        n = n + seglen(s)
    return n


def segbytes(s):
    k = s[0]
    if k == "L":
        return bytes([int.__int__(i) for i in s[1]])
    if k == "B":
        o = int(s[2])
        return s[1].data[o:o + int(s[3])]
    return s[2].s.encode(s[1]) if s[2].kind != "dec" else b"".join(segbytes(x) for x in s[2].info[1])


def segstr(s):
    k = s[0]
    if k == "L":
        return "".join([chr(int.__int__(i)) for i in s[1]])
    if k == "B":
        o = int(s[2])
        return s[1].data[o:o + int(s[3])].decode("latin1")
    return s[1].s


def segpin(s, isbytes):
    """Pin the content of a seg; returns an L seg."""
    k = s[0]
    if k == "L":
        rpin([s])
        return ("L", [int.__int__(i) for i in s[1]])
    if k == "B":
        o, n = pin(s[2]), pin(s[3])
        note("blob pinned")
        return ("L", list(s[1].data[o:o + n]))
    tok = s[2] if isbytes else s[1]
    if tok.kind == "int":
        pin(tok.info[0])
    elif tok.kind == "dec":
        rpin(tok.info[1])
    else:
        note("opaque token pinned")
    return ("L", list(segbytes(s)) if isbytes else [ord(c) for c in segstr(s)])


def rpin(segs):
    ps = []
    _rpin(segs, ps)
    core.pin_terms(ps)


def _rpin(segs, ps):
    def add(x):
        if type(x) is SymInt:
            ps.append((x.t, int.__int__(x)))
    for s in segs:
        if s[0] == "L":
            for i in s[1]:
                add(i)
        elif s[0] == "B":
            add(s[2])
            add(s[3])
        else:
            tok = s[2] if s[0] == "E" else s[1]
            if tok.kind == "int":
                add(tok.info[0])
            elif tok.kind == "dec":
                _rpin(tok.info[1], ps)


def symbolic_segs(segs):
    for s in segs:
        if s[0] == "L":
            for i in s[1]:
                if type(i) is SymInt:
                    return True
        else:
            return True
    return False


def norm(segs):
    out = []
    for s in segs:
        if s[0] == "L":
            if not s[1]:
                continue
            if out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + s[1])
                continue
        elif s[0] == "B":
            if type(s[3]) is not SymInt and s[3] == 0:
                continue
            if out and out[-1][0] == "B" and out[-1][1] is s[1]:
                p = out[-1]
                j = (p[2] + p[3]) == s[2]
                if j is True or (type(j) is SymBool and j.v and _provable(j)):
                    out[-1] = ("B", s[1], p[2], p[3] + s[3])
                    continue
        out.append(s)
    return out


def _provable(b):
    """Is SymBool b a consequence of the terms alone (syntactically / cheaply)?"""
    t = z3.simplify(b.t)
    if z3.is_true(t):
        return True
    r = core.RUN
    if r is None:
        return False
    s = z3.Solver()
    s.set("timeout", 300)
    for d in r.domain:
        s.add(d)
    for (c, o, _, _) in r.conds:
        s.add(c if o else z3.Not(c))
    s.add(z3.Not(t))
    return s.check() == z3.unsat


def ssub(s, a, b, isbytes):
    k = s[0]
    if k == "L":
        return ("L", s[1][pin(a):pin(b)])
    if k == "B":
        return ("B", s[1], s[2] + a, b - a)
    p = segpin(s, isbytes)
    return ("L", p[1][pin(a):pin(b)])


def rslice(segs, a, b, isbytes):
    out = []
    pos = 0
    for s in segs:
        n = seglen(s)
        end = pos + n
        if not (end > a):
            pos = end
            continue
        if not (pos < b):
            break
        st = (a - pos) if (a > pos) else 0
        en = (b - pos) if (b < end) else n
        if en is n and type(st) is int and st == 0:
            out.append(s)
        elif s[0] in ("E", "T") and st == 0 and en == n:
            out.append(s)
        else:
            out.append(ssub(s, st, en, isbytes))
        pos = end
    return norm(out)


def ritem(segs, i, isbytes):
    """i normalized index within range; returns item."""
    pos = 0
    for s in segs:
        n = seglen(s)
        end = pos + n
        if i < end:
            if s[0] == "L":
                return s[1][pin(i - pos)]
            if s[0] == "B":
                o = pin(s[2] + (i - pos))
                note("blob indexed")
                return s[1].data[o]
            p = segpin(s, isbytes)
            return p[1][pin(i - pos)]
        pos = end
    raise IndexError("index out of range")


def segs_of(x):
    """byte rope of any bytes-like."""
    if isinstance(x, (SymBytes, SymByteArray, SymMemView)):
        return x.segs
    if isinstance(x, memoryview):
        x = bytes(x)
    if len(x) > 8192:
        return [("B", Blob(("lit", hash(bytes(x))), 0, bytes(x)), 0, len(x))]
    return [("L", list(x))] if len(x) else []


def ssegs_of(x):
    if isinstance(x, SymStr):
        return x.segs
    return [("L", [ord(c) for c in x])] if x else []


def teq(a, b):
    """term for equality of ints/SymInts; True/False when constant"""
    r = (a == b) if type(a) is SymInt else (b == a)
    if type(r) is SymBool:
        return r.t
    return bool(r)


def _numprefix(chars):
    """leading number of concrete characters and whether something else follows; None when that is symbolic"""
    p = ""
    for c in chars:
        if type(c) is SymInt:
            return None
        if 48 <= c <= 57 or c == 45 and not p:
            p += chr(c)
        else:
            return p, True
    return p, False


def req(sa, sb, isbytes):
    """SymBool/bool for rope equality."""
    seg = segbytes if isbytes else segstr
    la, lb = rlen(sa), rlen(sb)
    le = (la == lb) if type(la) is SymInt else (lb == la)
    if le is False:
        return False
    if type(le) is SymBool and not le.v:
        return le
    terms = []
    if type(le) is SymBool:
        terms.append(le.t)
    a = list(sa)
    b = list(sb)
    i = j = 0
    val = True
    guard = 0
    while i < len(a) and j < len(b):
        guard += 1
        x, y = a[i], b[j]
        if x[0] == "L" and y[0] == "L":
            m = min(len(x[1]), len(y[1]))
            for p, q in zip(x[1][:m], y[1][:m]):
                if p is q:
                    continue
                if type(p) is SymInt or type(q) is SymInt:
                    t = teq(p, q)
                    if t is False:
                        return False
                    terms.append(t)
                    if int.__int__(p) != int.__int__(q):
                        val = False
                elif p != q:
                    return False
            a[i] = ("L", x[1][m:])
            b[j] = ("L", y[1][m:])
            if not a[i][1]:
                i += 1
            if not b[j][1]:
                j += 1
            continue
        if x[0] == "B" and y[0] == "B" and x[1] is y[1]:
            terms.append(teq(x[2], y[2]))
            if int(x[2]) != int(y[2]):
                val = False
                break
            t = teq(x[3], y[3])
            if int(x[3]) == int(y[3]):
                terms.append(t)
                i += 1
                j += 1
                continue
            # different concrete lengths: split the longer
            if int(x[3]) < int(y[3]):
                b[j] = ("B", y[1], y[2] + x[3], y[3] - x[3])
                i += 1
            else:
                a[i] = ("B", x[1], x[2] + y[3], x[3] - y[3])
                j += 1
            continue
        tx = x[2] if x[0] == "E" else (x[1] if x[0] == "T" else None)
        ty = y[2] if y[0] == "E" else (y[1] if y[0] == "T" else None)
        if tx is not None and ty is not None:
            if tx.kind == ty.kind == "int" and tx.info[1:] == ty.info[1:]:
                terms.append(teq(tx.info[0], ty.info[0]))
                if tx.s != ty.s:
                    val = False
                    break
                i += 1
                j += 1
                continue
            if tx.same(ty) and (x[0] == "T" or x[1] == y[1]):
                i += 1
                j += 1
                continue
        if tx is not None and tx.kind == "int" and y[0] == "L" or ty is not None and ty.kind == "int" and x[0] == "L":
            # int token against literal characters: parse the literal when it is a full canonical number
            tok, lit, ti = (tx, y, 0) if tx is not None else (ty, x, 1)
            n = len(tok.s)
            chars = lit[1][:n]
            if len(chars) == n and not any(type(c) is SymInt for c in chars):
                txt = "".join(map(chr, chars))
                if txt == tok.s:
                    terms.append(teq(tok.info[0], int(plain(tok.info[0]))))
                    rest = ("L", lit[1][n:])
                    if ti == 0:
                        i += 1
                        b[j] = rest
                        if not rest[1]:
                            j += 1
                    else:
                        j += 1
                        a[i] = rest
                        if not rest[1]:
                            i += 1
                    continue
            own = (a[i + 1] if i + 1 < len(a) else None) if ti == 0 else (b[j + 1] if j + 1 < len(b) else None)
            r = _numprefix(lit[1])
            if r is not None:
                p, closed = r
                if not p or p == "-":
                    return False
                if closed and (own is None or own[0] == "L" and type(own[1][0]) is not SymInt
                               and not 48 <= own[1][0] <= 57):
                    # the token can only be the number the literal begins with
                    if str(int(p)) != p:
                        return False
                    if p != tok.s:
                        terms.append(teq(tok.info[0], int(p)))
                        val = False
                        break
        # mixed: fall back to concrete comparison of the remainder with pins
        ca = b"".join(map(segbytes, a[i:])) if isbytes else "".join(map(segstr, a[i:]))
        cb = b"".join(map(segbytes, b[j:])) if isbytes else "".join(map(segstr, b[j:]))
        note("opaque comparison")
        eq = ca == cb
        if eq:
            rpin(a[i:])
            rpin(b[j:])
        else:
            # record the literal/structural facts only
            rpin([s for s in a[i:] if s[0] == "L"])
            rpin([s for s in b[j:] if s[0] == "L"])
        if not eq:
            return False
        i, j = len(a), len(b)
    if val:
        ra = b"".join(map(segbytes, a[i:])) if isbytes else "".join(map(segstr, a[i:]))
        rb = b"".join(map(segbytes, b[j:])) if isbytes else "".join(map(segstr, b[j:]))
        if ra or rb:
            val = False
        for rest in (a[i:], b[j:]):
            for s in rest:
                n = seglen(s)
                terms.append(teq(n, 0))
    return and_all(terms, val)


# ---------------------------------------------------------------- bytes

def mkbytes(segs):
    segs = norm(segs)
    if not symbolic_segs(segs):
        return b"".join([segbytes(s) for s in segs])
    return SymBytes(b"".join([segbytes(s) for s in segs]), segs)


def mkbytearray(segs):
    segs = norm(segs)
    return SymByteArray(b"".join([segbytes(s) for s in segs]), segs)


def _idx(x, n, default, lo=0):
    """normalise a slice bound against length n"""
    if x is None:
        return default
    x = as_num(x)
    if not isinstance(x, int):
        x = x.__index__()
    if x < 0:
        x = x + n
        if x < 0:
            return 0
        return x
    if x > n:
        return n
    return x


def _slice_bounds(sl, n):
    a = _idx(sl.start, n, 0)
    b = _idx(sl.stop, n, n)
    if b < a:
        b = a
    return a, b


class _BytesMixin:
    def _len(self):
        return rlen(self.segs)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                items = self._items()
                return self._mk([("L", items[k])])
            n = self._len()
            a, b = _slice_bounds(k, n)
            return self._mk(rslice(self.segs, a, b, True))
        k = as_num(k)
        n = self._len()
        if k < 0:
            k = k + n
        if k < 0 or not (k < n):
            raise IndexError("index out of range")
        return ritem(self.segs, k, True)

    def _items(self):
        out = []
        for s in self.segs:
            out.extend(s[1] if s[0] == "L" else segpin(s, True)[1])
        return out

    def __iter__(self):
        if all(s[0] == "L" for s in self.segs):
            return iter(self._items())
        return iter(self._items())

    def __bool__(self):
        return bool(self._len() != 0)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview, SymMemView)):
            return NotImplemented
        return req(self.segs, segs_of(o), True)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented
        return self._mk(self.segs + segs_of(o))

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented
        if isinstance(o, bytearray):
            return mkbytearray(segs_of(o) + self.segs)
        return mkbytes(segs_of(o) + self.segs)

    def __mul__(self, n):
        return self._mk(self.segs * pin(n))
    __rmul__ = __mul__

    def __contains__(self, x):
        if isinstance(x, int):
            return bool(any(i == x for i in self._items()))
        return bool(self.find(x) != -1)

    def __lt__(self, o):
        return _lex(self._items(), bfull(o), lambda a, b: a < b)

    def __gt__(self, o):
        return _lex(bfull(o), self._items(), lambda a, b: a < b)

    def __le__(self, o):
        return not (self > o)

    def __ge__(self, o):
        return not (self < o)

    def decode(self, encoding="utf-8", errors="strict"):
        return rdecode(self, str(plain(encoding)), errors)

    def hex(self, *a):
        return pin(self).hex(*a)

    def startswith(self, p, start=0, end=None):
        x = self if start == 0 and end is None else self[start:end]
        if isinstance(p, tuple):
            return any(x.startswith(q) for q in p)
        n = rlen(segs_of(p))
        if isinstance(x, (SymBytes, SymByteArray)):
            return x[:n] == p
        return x.startswith(plain(p))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        n = rlen(segs_of(p))
        if n == 0:
            return True
        L = self._len()
        if L < n:
            return False
        return self[L - n:] == p

    def find(self, sub, start=0, end=None):
        if isinstance(sub, int):
            sub = mkbytes([("L", [sub])])
        if end is not None:
            r = self[start:end]
            k = rfind(segs_of(r), segs_of(sub), True)
        elif type(start) is not SymInt and start == 0:
            start = 0
            k = rfind(self.segs, segs_of(sub), True)
        else:
            k = rfind(segs_of(self[start:]), segs_of(sub), True)
        if k is None:
            return -1
        return k + start

    def index(self, sub, *a):
        k = self.find(sub, *a)
        if k == -1:
            raise ValueError("subsection not found")
        return k

    def rfind(self, sub, start=0, end=None):
        r = self[start:end] if (start != 0 or end is not None) else self
        its = [("L", bfull(r))]
        m = bfull(sub)
        its = its[0][1]
        for k in range(len(its) - len(m), -1, -1):
            if req([("L", its[k:k + len(m)])], [("L", m)], True):
                return k + start
        return -1

    def partition(self, sep):
        k = self.find(sep)
        if k == -1:
            return self._mk(self.segs), b"", b""
        return self[:k], self._mk(segs_of(sep)), self[k + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            note("bytes.split()")
            return pin(self).split(None, maxsplit)
        out = []
        rest = self
        while maxsplit != 0:
            if not isinstance(rest, (SymBytes, SymByteArray)):
                out.extend(rest.split(plain(sep), maxsplit))
                return out
            k = rest.find(sep)
            if k == -1:
                break
            out.append(rest[:k])
            rest = rest[k + len(sep):]
            maxsplit -= 1
        out.append(rest)
        return out

    def strip(self, chars=None):
        x = self.lstrip(chars)
        return x.rstrip(chars)

    def lstrip(self, chars=None):
        cs = set(b" \t\n\r\x0b\f" if chars is None else bytes(pin(chars)))
        its = self._items() if all(s[0] == "L" for s in self.segs) else None
        if its is None:
            segs = list(self.segs)
            while segs and segs[0][0] == "L":
                l = segs[0][1]
                k = 0
                while k < len(l) and _initem(l[k], cs):
                    k += 1
                segs[0] = ("L", l[k:])
                if k < len(l):
                    break
                segs.pop(0)
            return self._mk(segs)
        k = 0
        while k < len(its) and _initem(its[k], cs):
            k += 1
        return self._mk([("L", its[k:])])

    def rstrip(self, chars=None):
        cs = set(b" \t\n\r\x0b\f" if chars is None else bytes(pin(chars)))
        segs = list(self.segs)
        while segs and segs[-1][0] == "L":
            l = segs[-1][1]
            k = len(l)
            while k > 0 and _initem(l[k - 1], cs):
                k -= 1
            segs[-1] = ("L", l[:k])
            if k > 0:
                break
            segs.pop()
        return self._mk(segs)

    def join(self, parts):
        return rjoin_bytes(self, parts)

    def ljust(self, w, fill=b" "):
        n = self._len()
        if n >= w:
            return self._mk(self.segs)
        return self._mk(self.segs + [("L", [fill[0]] * pin(w - n))])

    def rjust(self, w, fill=b" "):
        n = self._len()
        if n >= w:
            return self._mk(self.segs)
        return self._mk([("L", [fill[0]] * pin(w - n))] + self.segs)

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        return rjoin_bytes(b, parts)

    def lower(self):
        return self._mk([("L", [_lower(i) for i in self._items()])])

    def upper(self):
        return self._mk([("L", [_upper(i) for i in self._items()])])

    def __copy__(self):
        return self._mk(self.segs)

    def __deepcopy__(self, memo):
        return self._mk(self.segs)


def bfull(x):
    if isinstance(x, (SymBytes, SymByteArray)):
        return x._items()
    return list(x)


def _lex(a, b, lt):
    for p, q in zip(a, b):
        if p == q:
            continue
        return bool(p < q)
    return len(a) < len(b)


def _initem(it, cs):
    if type(it) is not SymInt:
        return it in cs
    ts = [teq(it, c) for c in cs]
    ts = [t for t in ts if t is not False]
    if not ts:
        return False
    return bool(mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0], int.__int__(it) in cs))


def _shift(i, a, z, d):
    """i + d when a <= i <= z, else i"""
    if i.hi < a or i.lo > z:
        return i
    lo, hi = min(i.lo, a + d), max(i.hi, z + d)
    W = max(i.t.size(), need(lo, hi))
    t = fit(i.t, W)
    v = int.__int__(i)
    return mkint(v + d if a <= v <= z else v, z3.If(z3.And(t >= BV(a, W), t <= BV(z, W)), t + BV(d, W), t), lo, hi)


def _lower(i):
    if type(i) is not SymInt:
        return ord(chr(i).lower()) if i < 128 else i
    return _shift(i, 65, 90, 32)


def _upper(i):
    if type(i) is not SymInt:
        return ord(chr(i).upper()) if i < 128 else i
    return _shift(i, 97, 122, -32)


def rfind(segs, sub, isbytes):
    """first index of `sub` or None.  Blobs are lower-case letters; int tokens digits and '-'."""
    pat = []
    for s in sub:
        pat.extend(s[1] if s[0] == "L" else segpin(s, isbytes)[1])
    m = len(pat)
    if m == 0:
        return 0
    pos = 0
    segs = list(segs)
    for si, s in enumerate(segs):
        n = seglen(s)
        if s[0] == "L":
            its = s[1]
            for k in range(len(its)):
                # enough literal items?
                tail = its[k:k + m]
                if len(tail) < m:
                    for t in segs[si + 1:]:
                        if t[0] != "L":
                            tail = None if _maycont(t, pat[len(tail)]) else tail
                            break
                        tail = tail + t[1][:m - len(tail)]
                        if len(tail) >= m:
                            break
                    if tail is None:
                        note("find across opaque")
                        tail = []
                    if len(tail) < m:
                        continue
                if req([("L", tail)], [("L", pat)], isbytes):
                    return pos + k
        else:
            if _maycont(s, pat[0]):
                note("find in opaque")
                c = segbytes(s) if isbytes else segstr(s)
                pb = bytes(map(int, pat)) if isbytes else "".join(map(chr, pat))
                k = c.find(pb)
                if k >= 0:
                    segpin(s, isbytes)
                    return pos + k
        pos = pos + n
    return None


def _maycont(s, ch):
    if s[0] == "B":
        if type(ch) is SymInt:
            return True
        return ch in s[1].alphabet
    tok = s[2] if s[0] == "E" else s[1]
    if tok.kind == "int":
        return type(ch) is SymInt or ch in b"-0123456789"
    return True


def rjoin_bytes(sep, parts):
    segs = []
    first = True
    ss = segs_of(sep)
    mut = isinstance(sep, bytearray)
    for p in parts:
        if not isinstance(p, (bytes, bytearray, memoryview, SymMemView)):
            raise TypeError(f"sequence item: expected a bytes-like object, {type(p).__name__} found")
        if not first and ss:
            segs.extend(ss)
        segs.extend(segs_of(p))
        first = False
    return mkbytearray(segs) if mut else mkbytes(segs)


class SymBytes(_BytesMixin, bytes):
    def __new__(cls, val, segs):
        o = bytes.__new__(cls, val)
        o.segs = segs
        return o

    def _mk(self, segs):
        return mkbytes(segs)

    def __hash__(self):
        return bytes.__hash__(self)

    def __len__(self):
        return bytes.__len__(self)

    def __bytes__(self):
        return self

    def __reduce__(self):
        return (bytes, (plain(self),))

    def __repr__(self):
        return bytes.__repr__(self)


class SymByteArray(_BytesMixin, bytearray):
    def __init__(self, val=b"", segs=None):
        bytearray.__init__(self, val)
        self.segs = segs if segs is not None else segs_of(val)

    def _mk(self, segs):
        return mkbytearray(segs)

    def __len__(self):
        return bytearray.__len__(self)

    __hash__ = None

    def extend(self, x):
        if not isinstance(x, (bytes, bytearray, memoryview, SymMemView)):
            x = mkbytes([("L", list(x))])
        s = segs_of(x)
        bytearray.extend(self, plain(x) if is_sym(x) else x)
        self.segs = norm(self.segs + s)

    def append(self, i):
        bytearray.append(self, int(plain(i)))
        self.segs = norm(self.segs + [("L", [i])])

    def __iadd__(self, x):
        self.extend(x)
        return self

    def clear(self):
        bytearray.clear(self)
        self.segs = []

    def _set(self, segs):
        segs = norm(segs)
        new = b"".join([segbytes(s) for s in segs])
        if len(new) != bytearray.__len__(self):
            bytearray.__setitem__(self, slice(None), new)     # raises BufferError when exported
        else:
            bytearray.__setitem__(self, slice(None), new)
        self.segs = segs

    def __setitem__(self, k, v):
        n = self._len()
        if isinstance(k, slice):
            a, b = _slice_bounds(k, n)
            self._set(rslice(self.segs, 0, a, True) + segs_of(v) + rslice(self.segs, b, n, True))
            return
        if k < 0:
            k = k + n
        if k < 0 or not (k < n):
            raise IndexError("bytearray index out of range")
        v = as_num(v)
        if not (v >= 0) or not (v <= 255):
            raise ValueError("byte must be in range(0, 256)")
        self._set(rslice(self.segs, 0, k, True) + [("L", [v])] + rslice(self.segs, k + 1, n, True))

    def __delitem__(self, k):
        n = self._len()
        if isinstance(k, slice):
            a, b = _slice_bounds(k, n)
        else:
            a, b = k, k + 1
        self._set(rslice(self.segs, 0, a, True) + rslice(self.segs, b, n, True))

    def pop(self, i=-1):
        v = self[i]
        n = self._len()
        if i < 0:
            i = i + n
        del self[i:i + 1]
        return v

    def __repr__(self):
        return bytearray.__repr__(self)

    def __reduce__(self):
        return (bytearray, (plain(self),))

    def copy(self):
        return mkbytearray(self.segs)


class SymMemView:
    """memoryview over a symbolic buffer (keeps a real export on bytearrays)."""

    def __init__(self, obj, a=0, b=None, mv=None):
        self.obj = obj
        self.mv = mv if mv is not None else (memoryview(obj) if isinstance(obj, SymByteArray) else None)
        self.a = a
        self.b = rlen(segs_of(obj)) if b is None else b

    @property
    def segs(self):
        return rslice(segs_of(self.obj), self.a, self.b, True)

    @property
    def nbytes(self):
        return self.b - self.a

    def _len(self):
        return self.b - self.a

    def __len__(self):
        return int(self.b - self.a)

    def __getitem__(self, k):
        n = self.b - self.a
        if isinstance(k, slice):
            x, y = _slice_bounds(k, n)
            return SymMemView(self.obj, self.a + x, self.a + y, self.mv)
        return self.tobytes()[k]

    def tobytes(self):
        return mkbytes(self.segs)

    def __bytes__(self):
        return bytes(pin(self.tobytes()))

    def release(self):
        if self.mv is not None:
            self.mv.release()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.release()

    def __eq__(self, o):
        return self.tobytes() == o

    def __iter__(self):
        return iter(self.tobytes())


# ---------------------------------------------------------------- str

def mkstr(segs):
    segs = norm(segs)
    if not symbolic_segs(segs):
        return "".join([segstr(s) for s in segs])
    return SymStr("".join([segstr(s) for s in segs]), segs)


def _u8seq(run, k, last):
    """strict UTF-8 decoding of the sequence at run[k] (a non-ASCII lead byte): (code point, length); forks on the shape only"""
    def bad():
        raise UnicodeDecodeError("utf-8", bytes([int.__int__(x) for x in run[k:k + 4]]), 0, 1, "invalid")
    c = run[k]
    if c < 0xC2 or c > 0xF4:
        bad()
    n = 2 if c < 0xE0 else 3 if c < 0xF0 else 4
    if k + n > len(run):
        if not last:
            return None
        bad()
    lo, hi = 0x80, 0xBF
    if n == 3:
        if c == 0xE0:
            lo = 0xA0
        elif c == 0xED:
            hi = 0x9F
    elif n == 4:
        if c == 0xF0:
            lo = 0x90
        elif c == 0xF4:
            hi = 0x8F
    v = c & (0x1F if n == 2 else 0x0F if n == 3 else 7)
    for j in range(1, n):
        x = run[k + j]
        if x < lo or x > hi:
            bad()
        lo, hi = 0x80, 0xBF
        v = v * 64 + (x & 0x3F)
    return v, n


def rdecode(b, codec, errors="strict"):
    segs = segs_of(b)
    if not symbolic_segs(segs):
        return b"".join([segbytes(s) for s in segs]).decode(codec, errors)
    _codecs.lookup(codec)
    asc = ascii_compatible(codec)
    nc = norm_codec(codec)
    out = []
    i = 0
    segs = list(segs)
    while i < len(segs):
        s = segs[i]
        if s[0] == "L":
            if not any(type(c) is SymInt for c in s[1]) and (asc and all(c < 128 for c in s[1])):
                out.append(("L", list(s[1])))
                i += 1
                continue
            run = list(s[1])
            i += 1
            if nc == "iso8859-1":
                out.append(("L", run))
                continue
            if asc:
                k = 0
                while k < len(run):
                    c = run[k]
                    if type(c) is SymInt:
                        if c < 128:
                            out.append(("L", [c]))
                            k += 1
                            continue
                    elif c < 128:
                        out.append(("L", [c]))
                        k += 1
                        continue
                    if nc == "utf-8":
                        e = _untag(run, k, nc)
                        if e is not None:
                            out.append(("L", [e[0]]))
                            k += e[1]
                            continue
                        if errors == "strict" and (k + 1 < len(run) or i >= len(segs)):
                            e = _u8seq(run, k, i >= len(segs))
                            if e is not None:
                                out.append(("L", [e[0]]))
                                k += e[1]
                                continue
                    elif sbtable(nc) is not None and type(c) is SymInt:
                        e = _untag(run, k, nc)
                        if e is not None:
                            out.append(("L", [e[0]]))
                            k += 1
                            continue
                        e = _sbdecode(c, nc)
                        if e is not None:
                            out.append(("L", [e]))
                            k += 1
                            continue
                        if errors == "strict":
                            note("undefined byte")
                            raise UnicodeDecodeError(nc, bytes([int.__int__(c)]), 0, 1, "undefined")
                    # non-ascii: decode incrementally the pinned bytes up to the next char boundary
                    buf = []
                    dec = _codecs.getincrementaldecoder(codec)(errors)
                    got = ""
                    while k < len(run):
                        buf.append(pin(run[k]))
                        k += 1
                        got = dec.decode(bytes([buf[-1]]), k >= len(run) and i >= len(segs))
                        if got:
                            break
                    if not got and k >= len(run):
                        got = dec.decode(b"", True)
                    out.append(("L", [ord(ch) for ch in got]))
                continue
            if nc in _WIDE:
                k = 0
                chars = []
                while k < len(run):
                    e = _untag(run, k, nc)
                    if e is None:
                        break
                    chars.append(e[0])
                    k += e[1]
                if k == len(run):
                    out.append(("L", chars))
                    continue
            note(f"decode {nc} literal pinned")
            txt = bytes([pin(c) for c in run]).decode(codec, errors)
            out.append(("L", [ord(ch) for ch in txt]))
        elif s[0] == "B":
            i += 1
            if asc:
                out.append(s)
            else:
                note("decode blob concretely")
                p = segpin(s, True)
                out.append(("L", [ord(c) for c in bytes(p[1]).decode(codec, errors)]))
        else:
            i += 1
            tok = s[2]
            if tok.kind == "int" and asc and ascii_compatible(s[1]):
                out.append(("T", tok))
            elif norm_codec(s[1]) == nc:
                out.append(("T", tok))
            else:
                txt = segbytes(s).decode(codec, errors)
                out.append(("L", [ord(ch) for ch in txt]))
    return mkstr(out)


_SB = {}


def sbtable(nc):
    """code points of a single-byte codec (None where undefined), or None"""
    if nc not in _SB:
        t = None
        if nc == "ascii":
            t = list(range(128)) + [None] * 128
        elif nc == "iso8859-1":
            t = list(range(256))
        else:
            try:
                m = __import__("encodings." + nc.replace("-", "_"), fromlist=["x"])
                dt = getattr(m, "decoding_table", None)
                if isinstance(dt, str) and len(dt) == 256:
                    t = [None if ord(x) == 0xFFFE else ord(x) for x in dt]
            except ImportError:
                pass
        _SB[nc] = t
    return _SB[nc]


def _ite_table(x, pairs, w):
    """pairs (key, value) of constants: value of the first matching key; consecutive runs are merged"""
    runs = []
    for k, v in pairs:
        if runs and k == runs[-1][1] + 1 and v - k == runs[-1][2]:
            runs[-1][1] = k
        else:
            runs.append([k, k, v - k])
    e = None
    W = max(x.t.size(), w)
    t = fit(x.t, W)
    for lo, hi, d in reversed(runs):
        val = t + BV(d, W)
        e = val if e is None else z3.If(z3.And(t >= BV(lo, W), t <= BV(hi, W)), val, e)
    return e


def _sbdecode(c, nc):
    """character of byte c >= 128, or None when undefined"""
    tab = sbtable(nc)
    pairs = [(k, tab[k]) for k in range(128, 256) if tab[k] is not None]
    if len(pairs) < 128:
        ok = z3.Or(*[fit(c.t, 16) == BV(k, 16) for k, _ in pairs]) if pairs else z3.BoolVal(False)
        if not SymBool(ok, tab[int.__int__(c)] is not None):
            return None
    vals = [v for _, v in pairs]
    return mkint(tab[int.__int__(c)], _ite_table(c, pairs, 20), min(vals), max(vals))


def _sbencode(c, nc):
    """byte of character c >= 128, or None when not representable"""
    tab = sbtable(nc)
    pairs = sorted((tab[k], k) for k in range(128, 256) if tab[k] is not None)
    pairs = [(v, k) for v, k in pairs if c.lo <= v <= c.hi]
    if not pairs:
        return None
    rep = {}
    for v, k in pairs:
        rep.setdefault(v, k)
    pairs = sorted(rep.items())
    W = c.t.size()
    if not (c.hi - c.lo + 1 == len(pairs)):
        runs = []
        for v, _ in pairs:
            if runs and v == runs[-1][1] + 1:
                runs[-1][1] = v
            else:
                runs.append([v, v])
        ok = z3.Or(*[z3.And(c.t >= BV(a, W), c.t <= BV(b, W)) for a, b in runs])
        if not SymBool(ok, int.__int__(c) in rep):
            return None
    return mkint(rep[int.__int__(c)], _ite_table(c, pairs, 20), 128, 255)


def rencode(st, codec, errors="strict"):
    segs = ssegs_of(st)
    if not symbolic_segs(segs):
        return "".join([segstr(s) for s in segs]).encode(codec, errors)
    _codecs.lookup(codec)
    asc = ascii_compatible(codec)
    nc = norm_codec(codec)
    out = []
    for s in segs:
        if s[0] == "L":
            for c in s[1]:
                if type(c) is SymInt:
                    if asc and c < 128:
                        out.append(("L", [retype(c, 0, 127)]))
                        continue
                    if nc == "iso8859-1" and c < 256:
                        out.append(("L", [retype(c, 0, 255)]))
                        continue
                    if asc and sbtable(nc) is not None:
                        e = _sbencode(c, nc)
                        if e is not None:
                            out.append(("L", _tagged([e], c, nc)))
                            continue
                        if errors == "replace":
                            out.append(("L", [63]))
                            continue
                        if errors == "strict":
                            note("unrepresentable character")
                            raise UnicodeEncodeError(nc, chr(int.__int__(c)), 0, 1, "character not representable")
                    if nc == "utf-8" and errors == "replace" and not (c >= 0xD800 and c <= 0xDFFF):
                        out.append(("L", _tagged(_utf8(c), c, nc)))
                        continue
                    if nc == "utf-8" and errors == "strict":
                        out.append(("L", _tagged(_utf8(c), c, nc)))
                        continue
                    if nc in _WIDE and errors == "strict":
                        out.append(("L", _tagged(_wide(c, nc), c, nc)))
                        continue
                    c = pin(c)
                elif asc and c < 128:
                    out.append(("L", [c]))
                    continue
                out.append(("L", list(chr(c).encode(codec, errors))))
        elif s[0] == "B":
            if asc:
                out.append(s)
            else:
                note("encode blob concretely")
                p = segpin(s, False)
                out.append(("L", list("".join(map(chr, p[1])).encode(codec, errors))))
        else:
            tok = s[1]
            if tok.kind == "int" and not asc:
                out.append(("L", list("".join(map(chr, segpin(s, False)[1])).encode(codec, errors))))
            else:
                tok.s.encode(codec, errors)      # raises when not representable
                out.append(("E", codec, tok) if tok.kind != "int" else ("E", "ascii", tok))
    return mkbytes(out)


def _tagged(items, c, nc):
    """remember which character the bytes encode"""
    out = []
    for i, it in enumerate(items):
        if type(it) is SymInt:
            it = SymInt(int.__int__(it), it.t, it.lo, it.hi)
            it.enc = (c, i, len(items), nc)
        out.append(it)
    return out


def _untag(run, k, nc):
    """character whose complete encoding starts at run[k], or None"""
    for j in range(min(4, len(run) - k)):
        e = getattr(run[k + j], "enc", None) if type(run[k + j]) is SymInt else None
        if e is not None:
            break
    else:
        return None
    c, i, n, codec = e
    if i != j or codec != nc or k + n > len(run):
        return None
    if nc not in _WIDE and nc != "utf-8":
        return c, n
    ref = _utf8(c) if nc == "utf-8" else _wide(c, nc)
    if len(ref) != n:
        return None
    for j in range(n):
        it = run[k + j]
        if type(it) is SymInt:
            e = getattr(it, "enc", None)
            if e is None or e[0] is not c or e[1] != j:
                return None
        elif type(ref[j]) is SymInt or it != ref[j]:
            return None
    return c, n


_WIDE = ("utf-16-be", "utf-16-le", "utf-32-be", "utf-32-le")


def _wide(c, nc):
    if c >= 0xD800 and c <= 0xDFFF:
        raise UnicodeEncodeError(nc, chr(pin(c)), 0, 1, "surrogates not allowed")
    if nc.startswith("utf-32"):
        b = [0, (c >> 16) & 255, (c >> 8) & 255, c & 255]
        return b if nc.endswith("be") else b[::-1]
    if c < 0x10000:
        u = [c]
    else:
        v = c - 0x10000
        u = [(v >> 10) + 0xD800, (v & 0x3FF) + 0xDC00]
    out = []
    for x in u:
        b = [(x >> 8) & 255, x & 255]
        out += b if nc.endswith("be") else b[::-1]
    return out


def _utf8(c):
    def part(sh, mask, base):
        x = ((c >> sh) & mask) | base
        return x
    if c < 0x800:
        return [part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)]
    if c < 0x10000:
        if c >= 0xD800 and c <= 0xDFFF:
            raise UnicodeEncodeError("utf-8", chr(pin(c)), 0, 1, "surrogates not allowed")
        return [part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)]
    return [part(18, 7, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)]


class SymStr(str):
    def __new__(cls, val, segs):
        o = str.__new__(cls, val)
        o.segs = segs
        return o

    def _len(self):
        return rlen(self.segs)

    def __len__(self):
        return str.__len__(self)

    def _items(self):
        out = []
        for s in self.segs:
            out.extend(s[1] if s[0] == "L" else segpin(s, False)[1])
        return out

    def __hash__(self):
        return str.__hash__(self)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return req(self.segs, ssegs_of(o), False)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return mkstr([("L", self._items()[k])])
            n = self._len()
            a, b = _slice_bounds(k, n)
            return mkstr(rslice(self.segs, a, b, False))
        k = as_num(k)
        n = self._len()
        if k < 0:
            k = k + n
        if k < 0 or not (k < n):
            raise IndexError("string index out of range")
        return mkstr([("L", [ritem(self.segs, k, False)])])

    def __iter__(self):
        return iter([mkstr([("L", [c])]) for c in self._items()])

    def __bool__(self):
        return bool(self._len() != 0)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.segs + ssegs_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(ssegs_of(o) + self.segs)

    def __mul__(self, n):
        return mkstr(self.segs * pin(n))
    __rmul__ = __mul__

    def __contains__(self, x):
        return bool(self.find(x) != -1)

    def __lt__(self, o):
        return _lex(self._items(), sfull(o), None)

    def __gt__(self, o):
        return _lex(sfull(o), self._items(), None)

    def __le__(self, o):
        return not (self > o)

    def __ge__(self, o):
        return not (self < o)

    def __str__(self):
        return self

    def __repr__(self):
        return str.__repr__(self)

    def __format__(self, spec):
        if not spec or spec == "s":
            return self
        return format(pin(self), spec)

    def __mod__(self, args):
        return fmt_percent(self, args)

    def __rmod__(self, o):
        if isinstance(o, str):
            return fmt_percent(o, self)
        return NotImplemented

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, (plain(self),))

    def encode(self, encoding="utf-8", errors="strict"):
        return rencode(self, str(plain(encoding)), errors)

    def find(self, sub, start=0, end=None):
        x = self
        if end is not None:
            x = self[start:end]
        elif not (type(start) is not SymInt and start == 0):
            x = self[start:]
        k = rfind(ssegs_of(x), ssegs_of(sub), False)
        if k is None:
            return -1
        return k + start

    def index(self, sub, *a):
        k = self.find(sub, *a)
        if k == -1:
            raise ValueError("substring not found")
        return k

    def rfind(self, sub, start=0, end=None):
        its = sfull(self[start:end] if (start != 0 or end is not None) else self)
        m = sfull(sub)
        for k in range(len(its) - len(m), -1, -1):
            if req([("L", its[k:k + len(m)])], [("L", m)], False):
                return k + start
        return -1

    def count(self, sub, *a):
        return len(self.split(sub)) - 1

    def startswith(self, p, start=0, end=None):
        x = self if (start == 0 and end is None) else self[start:end]
        if isinstance(p, tuple):
            return any(x.startswith(q) for q in p)
        n = rlen(ssegs_of(p))
        if not isinstance(x, SymStr):
            return x.startswith(plain(p))
        if type(p) is str and len(p) == 1 and x.segs[0][0] == "T" and x.segs[0][1].kind == "int" and not p.isdigit():
            return p == "-" and x.segs[0][1].info[0] < 0
        return x[:n] == p

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        n = rlen(ssegs_of(p))
        if type(n) is int and n == 0:
            return True
        L = self._len()
        if L < n:
            return False
        return self[L - n:] == p

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [x for x in self._wssplit(maxsplit)]
        out = []
        rest = self
        while maxsplit != 0:
            if not isinstance(rest, SymStr):
                out.extend(rest.split(plain(sep), maxsplit))
                return out
            k = rest.find(sep)
            if k == -1:
                break
            out.append(rest[:k])
            rest = rest[k + len(sep):]
            maxsplit -= 1
        out.append(rest)
        return out

    def _wssplit(self, maxsplit):
        its = self._items()
        ws = set(b" \t\n\r\x0b\f\x1c\x1d\x1e\x1f\x85\xa0")
        cur, out = [], []
        for c in its:
            if _initem(c, ws):
                if cur:
                    out.append(mkstr([("L", cur)]))
                    cur = []
            else:
                cur.append(c)
        if cur:
            out.append(mkstr([("L", cur)]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return self.split(sep)
        out = []
        rest = self
        while maxsplit > 0 and isinstance(rest, SymStr):
            k = rest.rfind(sep)
            if k == -1:
                break
            out.insert(0, rest[k + len(sep):])
            rest = rest[:k]
            maxsplit -= 1
        return [rest] + out

    def partition(self, sep):
        k = self.find(sep)
        if k == -1:
            return self, "", ""
        return self[:k], sep, self[k + len(sep):]

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k == -1:
            return "", "", self
        return self[:k], sep, self[k + len(sep):]

    def splitlines(self, keepends=False):
        note("splitlines")
        return pin(self).splitlines(keepends)

    def replace(self, a, b, count=-1):
        if rlen(ssegs_of(a)) == 0:
            return pin(self).replace(a, b, count)
        return rjoin_str(b, self.split(a, count))

    def join(self, parts):
        return rjoin_str(self, parts)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _cs(self, chars):
        if chars is None:
            return set(b" \t\n\r\x0b\f\x1c\x1d\x1e\x1f\x85\xa0")
        return set(ord(c) for c in pin(chars))

    def lstrip(self, chars=None):
        cs = self._cs(chars)
        segs = list(self.segs)
        while segs and segs[0][0] == "L":
            l = segs[0][1]
            k = 0
            while k < len(l) and _initem(l[k], cs):
                k += 1
            segs[0] = ("L", l[k:])
            if k < len(l):
                break
            segs.pop(0)
        return mkstr(segs)

    def rstrip(self, chars=None):
        cs = self._cs(chars)
        segs = list(self.segs)
        while segs and segs[-1][0] == "L":
            l = segs[-1][1]
            k = len(l)
            while k > 0 and _initem(l[k - 1], cs):
                k -= 1
            segs[-1] = ("L", l[:k])
            if k > 0:
                break
            segs.pop()
        return mkstr(segs)

    def _case(self, fn, pyf):
        out = []
        for s in self.segs:
            if s[0] == "L":
                for c in s[1]:
                    if type(c) is SymInt:
                        if c < 128:
                            out.append(("L", [fn(c)]))
                        else:
                            out.append(("L", [ord(x) for x in pyf(chr(pin(c)))]))
                    else:
                        out.append(("L", [ord(x) for x in pyf(chr(c))]))
            elif s[0] == "B" and pyf("A") == "a":
                out.append(s)
            elif s[0] == "T" and s[1].kind == "int":
                out.append(s)
            else:
                p = segpin(s, False)
                out.append(("L", [ord(x) for x in pyf("".join(map(chr, p[1])))]))
        return mkstr(out)

    def lower(self):
        return self._case(_lower, str.lower)

    def casefold(self):
        return self._case(_lower, str.casefold)

    def upper(self):
        return self._case(_upper, str.upper)

    def _allin(self, ranges, pyf):
        its = self._items()
        if not its:
            return False
        for c in its:
            if type(c) is SymInt:
                if c >= 128:
                    if not pyf(chr(pin(c))):
                        return False
                    continue
                if not any((c >= lo and c <= hi) for lo, hi in ranges):
                    return False
            elif not pyf(chr(c)):
                return False
        return True

    def isdigit(self):
        return self._allin([(48, 57)], str.isdigit)

    def isdecimal(self):
        return self._allin([(48, 57)], str.isdecimal)

    def isnumeric(self):
        return self._allin([(48, 57)], str.isnumeric)

    def isalpha(self):
        return self._allin([(65, 90), (97, 122)], str.isalpha)

    def isalnum(self):
        return self._allin([(48, 57), (65, 90), (97, 122)], str.isalnum)

    def isspace(self):
        return self._allin([(9, 13), (28, 32)], str.isspace)

    def isascii(self):
        return all((c < 128) for c in self._items())

    def isupper(self):
        return plain(self._pinme()).isupper()

    def islower(self):
        return plain(self._pinme()).islower()

    def _pinme(self):
        return pin(self)

    def zfill(self, w):
        if len(self.segs) == 1 and self.segs[0][0] == "T" and self.segs[0][1].kind == "int" \
                and self.segs[0][1].info[1] == 0:
            return fmt_int(self.segs[0][1].info[0], "0%d" % w)
        return pin(self).zfill(w)

    def ljust(self, w, fill=" "):
        n = self._len()
        if n >= w:
            return self
        return self + fill * pin(w - n)

    def rjust(self, w, fill=" "):
        n = self._len()
        if n >= w:
            return self
        return fill * pin(w - n) + self

    def translate(self, table):
        out = []
        for ch in self._items():
            if type(ch) is SymInt:
                hit = None
                for k in table:
                    if isinstance(k, int) and ch == k:
                        hit = k
                        break
                if hit is None:
                    out.append(("L", [ch]))
                    continue
                v = table[hit]
            else:
                try:
                    v = table[ch]
                except LookupError:
                    out.append(("L", [ch]))
                    continue
            if v is None:
                continue
            if isinstance(v, int):
                out.append(("L", [v]))
            else:
                out.extend(ssegs_of(v))
        return mkstr(out)

    def format(self, *a, **k):
        note("str.format on symbolic template")
        return pin(self).format(*a, **k)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:self._len() - len(p)] if p and self.endswith(p) else self


def sfull(x):
    if isinstance(x, SymStr):
        return x._items()
    return [ord(c) for c in x]


def rjoin_str(sep, parts):
    segs = []
    ss = ssegs_of(sep)
    first = True
    for p in parts:
        if not isinstance(p, str):
            raise TypeError(f"sequence item: expected str instance, {type(p).__name__} found")
        if not first and ss:
            segs.extend(ss)
        segs.extend(ssegs_of(p))
        first = False
    return mkstr(segs)


# ---------------------------------------------------------------- number rendering

def ndigits(x):
    """decimal length (with sign) of SymInt, as SymInt/int; x has interval."""
    lo, hi = x.lo, x.hi
    v = int.__int__(x)
    w = 12
    def dig(t, mx, W):
        n = len(str(mx))
        e = BV(n, w)
        for k in range(n - 1, 0, -1):
            e = z3.If(t < BV(10 ** k, W), BV(k, w), e)
        return e
    if lo >= 0:
        W = max(need(lo, hi), need(0, 10 ** len(str(hi))))
        e = dig(fit(x.t, W), hi, W)
    else:
        mx = max(-lo, hi, 0)
        W = need(-10 ** len(str(mx)), 10 ** len(str(mx)))
        t = fit(x.t, W)
        a = z3.If(t < 0, -t, t)
        e = dig(a, mx, W) + z3.If(t < 0, BV(1, w), BV(0, w))
    mn = 1
    mxl = max(len(str(lo)), len(str(hi)))
    return mkint(len(str(v)), e, mn, mxl)


def int_to_str(x):
    if type(x) is not SymInt:
        return str(int(x))
    tok = Tok("int", ("int", x.t.get_id()), str(int.__int__(x)), ndigits(x), (x, 0))
    return mkstr([("T", tok)])


def fmt_int(x, spec):
    spec = str(plain(spec))
    if type(x) is not SymInt:
        return format(x, spec)
    if spec in ("", "d"):
        return int_to_str(x)
    import re
    m = re.fullmatch(r"0?(>?)(\d+)d?", spec) if spec.startswith("0") else None
    if m and not m.group(1):
        w = int(m.group(2))
        if x.lo >= 0:
            # zero padding: fixed digits when the value fits, else plain
            if x.hi < 10 ** w:
                items = digits_items(x, w)
                return mkstr([("L", items)])
            if x < 10 ** w:
                y = retype(x, 0, 10 ** w - 1)
                return mkstr([("L", digits_items(y, w))])
            return int_to_str(x)
        if x >= 0:
            y = retype(x, 0, x.hi)
            return fmt_int(y, spec)
    if m is None and re.fullmatch(r"#?x|#x|02x|b|o|X|.*", spec):
        note(f"format spec {spec}")
        return format(pin(x), spec)
    note(f"format spec {spec}")
    return format(pin(x), spec)


def digits_items(x, w):
    out = []
    q = x
    for _ in range(w):
        q, r = divmod(q, 10) if type(q) is SymInt else (q // 10, q % 10)
        out.append(r + 48 if type(r) is SymInt else 48 + r)
    return out[::-1]


def sformat(v, spec=""):
    """format(v, spec) keeping symbols."""
    if type(v) is SymInt:
        return fmt_int(v, spec)
    if type(v) is SymBool:
        return format(bool(v), spec)
    if isinstance(v, SymStr):
        return SymStr.__format__(v, spec)
    if isinstance(v, (SymDateBase, SymTimedelta)) and not spec:
        return v.__str__()
    if isinstance(v, SymDateBase):
        return v.strftime(spec)
    if isinstance(v, SymFloat):
        return v.__format__(spec)
    return format(v, spec)


def sstr(v):
    if type(v) is SymInt:
        return int_to_str(v)
    if isinstance(v, SymStr):
        return v
    if is_sym(v):
        return v.__str__()
    f = type(v).__str__
    try:
        return f(v) if not isinstance(v, type) else str(v)
    except TypeError:
        return str(v)


def fmt_percent(template, args):
    """`template % args` for simple specs."""
    t = pin(template) if isinstance(template, SymStr) else template
    if not isinstance(args, tuple):
        if isinstance(args, dict):
            note("% with dict")
            return t % args
        args = (args,)
    import re
    out = []
    pos = 0
    ai = 0
    for m in re.finditer(r"%(%|([-#0 +]*)(\d*)(?:\.(\d+))?([a-zA-Z]))", t):
        out.append(t[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            out.append("%")
            continue
        v = args[ai]
        ai += 1
        conv = m.group(5)
        flags, width, prec = m.group(2), m.group(3), m.group(4)
        if conv in "di" and type(v) in (SymInt, SymBool) and flags in ("", "0") and not prec:
            out.append(fmt_int(as_num(v), (flags + width + "d") if width else "d"))
        elif conv == "s" and not flags and not width and not prec:
            out.append(sstr(v))
        else:
            out.append(m.group(0) % (pin(v),))
    if ai != len(args):
        raise TypeError("not all arguments converted during string formatting")
    out.append(t[pos:])
    return rjoin_str("", out)


def sint(x, base=None):
    """int(x)"""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x.as_int()
    if isinstance(x, SymFloat):
        note("int(float)")
        return int(pin(x))
    if isinstance(x, (SymStr, SymBytes, SymByteArray)):
        if base not in (None, 10):
            return int(pin(x), base)
        segs = x.segs
        # [sign] intTok  or all-literal digits
        lead = []
        if len(segs) == 1 and segs[0][0] in ("T", "E"):
            tok = segs[0][1] if segs[0][0] == "T" else segs[0][2]
            if tok.kind == "int":
                return tok.info[0]
        if len(segs) == 2 and segs[0] == ("L", [45]) and segs[1][0] in ("T", "E"):
            tok = segs[1][1] if segs[1][0] == "T" else segs[1][2]
            if tok.kind == "int" and rng(tok.info[0])[0] >= 0:
                return -tok.info[0]
        if all(s[0] == "L" for s in segs):
            its = x._items()
            neg = False
            ws = set(b" \t\n\r\x0b\f")
            while its and _initem(its[0], ws):
                its = its[1:]
            while its and _initem(its[-1], ws):
                its = its[:-1]
            if its and (its[0] == 45 or its[0] == 43):
                neg = bool(its[0] == 45)
                its = its[1:]
            if not its:
                raise ValueError("invalid literal for int() with base 10: %r" % (plain(x),))
            v = 0
            for c in its:
                if type(c) is SymInt:
                    if not (c >= 48 and c <= 57):
                        if c == 95 or c > 127:
                            return int(pin(x))
                        raise ValueError("invalid literal for int() with base 10: %r" % (plain(x),))
                elif not 48 <= c <= 57:
                    if c == 95 or c > 127:
                        return int(pin(x))
                    raise ValueError("invalid literal for int() with base 10: %r" % (plain(x),))
                v = v * 10 + (c - 48)
            return -v if neg else v
        return int(pin(x))
    if base is not None:
        return int(x, base)
    return int(x)


# ---------------------------------------------------------------- float

class SymFloat(float):
    """Opaque float: 64-bit pattern (SymInt 0..2^64-1) of the double, or derived."""
    def __new__(cls, val, pat, src=None):
        o = float.__new__(cls, val)
        o.pat = pat          # SymInt pattern, unsigned 64 (or 32 when src=='f32')
        o.src = src
        return o

    def __hash__(self):
        return float.__hash__(self)

    def _pinned(name):
        def f(self, *a):
            note("float op " + name)
            return getattr(pin(self), name)(*[pin(x) for x in a])
        return f

    for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __floordiv__ __mod__ "
               "__lt__ __le__ __gt__ __ge__ __neg__ __abs__ is_integer as_integer_ratio hex __round__ __pow__ "
               "__bool__ __int__ __trunc__ __divmod__").split():
        locals()[_n] = _pinned(_n)

    def __eq__(self, o):
        if isinstance(o, SymFloat) and self.src == o.src:
            return mkbool(z3.BoolVal(True) if self.pat is o.pat else _t(self.pat == o.pat),
                          float.__eq__(self, o)) if float.__float__(self) == float.__float__(self) else False
        return float.__eq__(pin(self), pin(o)) if isinstance(o, (int, float)) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _tok(self):
        s = float.__repr__(self)
        return mkstr([("T", Tok("float", ("float", self.src, self.pat.t.get_id() if type(self.pat) is SymInt
                                          else self.pat), s, len(s), (self,)))])

    def __str__(self):
        return self._tok()

    def __repr__(self):
        return self._tok()

    def __format__(self, spec):
        if not spec:
            return self._tok()
        return format(pin(self), spec)

    def __reduce__(self):
        return (float, (float.__float__(self),))


def _t(b):
    return b.t if type(b) is SymBool else z3.BoolVal(bool(b))


# ---------------------------------------------------------------- dates

class SymDateBase:
    def fields(self):
        return [self.year, self.month, self.day]


class SymDate(SymDateBase, _dt.date):
    """date with symbolic fields; `c` concrete."""
    def __new__(cls, y, m, d):
        c = _dt.date(int(plain(y)), int(plain(m)), int(plain(d)))
        o = _dt.date.__new__(cls, c.year, c.month, c.day)
        o._f = (y, m, d)
        o.c = c
        return o

    year = property(lambda s: s._f[0])
    month = property(lambda s: s._f[1])
    day = property(lambda s: s._f[2])

    def isoformat(self):
        return rjoin_str("-", [fmt_int(self._f[0], "04d"), fmt_int(self._f[1], "02d"), fmt_int(self._f[2], "02d")])
    __str__ = isoformat

    def __format__(self, spec):
        return self.__str__() if not spec else self.strftime(spec)

    def strftime(self, fmt):
        return _strftime(self, fmt)

    def __hash__(self):
        return hash(self.c)

    def __eq__(self, o):
        return _date_eq(self, o)

    def __ne__(self, o):
        return not_(_date_eq(self, o))

    def __reduce__(self):
        return (_dt.date, (self.c.year, self.c.month, self.c.day))

    def replace(self, **k):
        return pin(self).replace(**k)

    def _cmp(name):
        def f(self, o):
            note("date compare")
            return getattr(pin(self), name)(pin(o))
        return f
    __lt__, __le__, __gt__, __ge__, __sub__, __add__ = map(_cmp, "__lt__ __le__ __gt__ __ge__ __sub__ __add__".split())


def _date_eq(a, b):
    if not isinstance(b, _dt.date) or isinstance(a, _dt.datetime) != isinstance(b, _dt.datetime):
        return False
    fa = a.fields()
    fb = [b.year, b.month, b.day]
    if isinstance(b, _dt.datetime):
        fb += [b.hour, b.minute, b.second, b.microsecond]
    return and_all([teq(x, y) for x, y in zip(fa, fb)], a.c == plain(b))


def _strftime(d, fmt):
    out = []
    i = 0
    fmt = str(plain(fmt))
    m = {"Y": ("year", "04d"), "m": ("month", "02d"), "d": ("day", "02d"), "H": ("hour", "02d"), "M": ("minute", "02d"),
         "S": ("second", "02d"), "f": ("microsecond", "06d")}
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            c = fmt[i + 1]
            i += 2
            if c in m:
                a, s = m[c]
                if c == "Y":
                    # glibc strftime does not zero-pad %Y
                    out.append(sstr(d.year) if not (d.year >= 1000) else fmt_int(d.year, "04d"))
                else:
                    out.append(fmt_int(getattr(d, a, 0), s))
            elif c == "T":
                out.append(_strftime(d, "%H:%M:%S"))
            elif c == "F":
                out.append(_strftime(d, "%Y-%m-%d"))
            elif c == "%":
                out.append("%")
            else:
                note("strftime %" + c)
                return pin(d).strftime(fmt)
            continue
        out.append(fmt[i])
        i += 1
    return rjoin_str("", out)


class SymDatetime(SymDateBase, _dt.datetime):
    def __new__(cls, *f):
        c = _dt.datetime(*[int(plain(x)) for x in f])
        o = _dt.datetime.__new__(cls, *[int(plain(x)) for x in f])
        o._f = tuple(f) + (0,) * (7 - len(f))
        o.c = c
        return o

    year = property(lambda s: s._f[0])
    month = property(lambda s: s._f[1])
    day = property(lambda s: s._f[2])
    hour = property(lambda s: s._f[3])
    minute = property(lambda s: s._f[4])
    second = property(lambda s: s._f[5])
    microsecond = property(lambda s: s._f[6])

    def fields(self):
        return list(self._f)

    def date(self):
        return SymDate(*self._f[:3]) if any(is_sym(x) for x in self._f[:3]) else self.c.date()

    def isoformat(self, sep="T", timespec="auto"):
        if timespec not in ("auto", "seconds", "microseconds"):
            return pin(self).isoformat(sep, timespec)
        s = [_strftime_iso(self, sep)]
        if timespec == "microseconds" or (timespec == "auto" and self._f[6] != 0):
            s += [".", fmt_int(self._f[6], "06d")]
        return rjoin_str("", s)

    def __str__(self):
        return self.isoformat(" ")

    def __format__(self, spec):
        return self.__str__() if not spec else self.strftime(spec)

    def strftime(self, fmt):
        return _strftime(self, fmt)

    def __hash__(self):
        return hash(self.c)

    def __eq__(self, o):
        return _date_eq(self, o)

    def __ne__(self, o):
        return not_(_date_eq(self, o))

    def __reduce__(self):
        return (_dt.datetime, tuple(int(plain(x)) for x in self._f))

    def replace(self, **k):
        if set(k) <= {"microsecond", "tzinfo"} and not k.get("tzinfo"):
            f = list(self._f)
            if "microsecond" in k:
                f[6] = k["microsecond"]
            return SymDatetime(*f)
        return pin(self).replace(**k)

    def _cmp(name):
        def f(self, *o):
            note("datetime " + name)
            return getattr(pin(self), name)(*[pin(x) for x in o])
        return f
    __lt__, __le__, __gt__, __ge__, __sub__, __add__ = map(_cmp, "__lt__ __le__ __gt__ __ge__ __sub__ __add__".split())
    timestamp = _cmp("timestamp")


def _strftime_iso(d, sep):
    f = d._f
    return rjoin_str("", [fmt_int(f[0], "04d"), "-", fmt_int(f[1], "02d"), "-", fmt_int(f[2], "02d"), sep,
                          fmt_int(f[3], "02d"), ":", fmt_int(f[4], "02d"), ":", fmt_int(f[5], "02d")])


DAY_US = 86400 * 10 ** 6


class SymTimedelta(_dt.timedelta):
    """timedelta with symbolic total microseconds `us`."""
    def __new__(cls, us):
        v = int(plain(us))
        o = _dt.timedelta.__new__(cls, days=v // DAY_US, seconds=(v % DAY_US) // 10**6, microseconds=v % 10**6)
        o.us = us
        return o

    @property
    def days(self):
        return self.us // DAY_US

    @property
    def seconds(self):
        return (self.us % DAY_US) // 10**6

    @property
    def microseconds(self):
        return self.us % 10**6

    def total_seconds(self):
        return SymSeconds(self)

    def __str__(self):
        d, s, u = self.days, self.seconds, self.microseconds
        mm, ss = divmod(s, 60)
        hh, mm = divmod(mm, 60)
        out = [sstr(hh), ":", fmt_int(as_num(mm), "02d"), ":", fmt_int(as_num(ss), "02d")]
        if d:
            out.insert(0, rjoin_str("", [sstr(d), " day", "s" if abs(d) != 1 else "", ", "]))
        if u:
            out += [".", fmt_int(as_num(u), "06d")]
        return rjoin_str("", out)

    def __format__(self, spec):
        return self.__str__()

    def __hash__(self):
        return _dt.timedelta.__hash__(self)

    def __abs__(self):
        return mktd(abs(self.us))

    def __neg__(self):
        return mktd(-self.us)

    def __pos__(self):
        return self

    def __add__(self, o):
        return mktd(self.us + td_us(o)) if isinstance(o, _dt.timedelta) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return mktd(self.us - td_us(o)) if isinstance(o, _dt.timedelta) else NotImplemented

    def __rsub__(self, o):
        return mktd(td_us(o) - self.us) if isinstance(o, _dt.timedelta) else NotImplemented

    def __mul__(self, k):
        return mktd(self.us * k) if isinstance(k, int) else pin(self) * k
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            return self.us // td_us(o)
        return mktd(self.us // o)

    def __mod__(self, o):
        return mktd(self.us % td_us(o))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if isinstance(o, _dt.timedelta):
            u = td_us(o)
            if u == 10**6:
                return SymSeconds(self)
        note("timedelta truediv")
        return pin(self) / pin(o)

    def __bool__(self):
        return bool(self.us != 0)

    def __eq__(self, o):
        if not isinstance(o, _dt.timedelta):
            return NotImplemented
        return self.us == td_us(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return self.us < td_us(o)

    def __le__(self, o):
        return self.us <= td_us(o)

    def __gt__(self, o):
        return self.us > td_us(o)

    def __ge__(self, o):
        return self.us >= td_us(o)

    def __reduce__(self):
        return (_dt.timedelta, (0, 0, int(plain(self.us))))


def mktd(us):
    if type(us) is SymInt:
        return SymTimedelta(us)
    return _dt.timedelta(microseconds=us)


def td_us(x):
    if isinstance(x, SymTimedelta):
        return x.us
    return (x.days * 86400 + x.seconds) * 10**6 + x.microseconds


class SymSeconds(float):
    """timedelta.total_seconds(): exact rational us/1e6 (float rounding ignored, |us| < 2^53 assumed)."""
    def __new__(cls, td):
        o = float.__new__(cls, int(plain(td.us)) / 10**6)
        o.us = td.us
        return o

    def _c(self, o):
        if isinstance(o, SymSeconds):
            return o.us
        o = pin(o)
        return int(o * 10**6) if o == int(o) else None

    def _mk(name):
        def f(self, o):
            x = self._c(o)
            if x is None:
                return getattr(float.__float__(self), name)(pin(o))
            return getattr(self.us, name)(x)
        return f
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = map(_mk, "__lt__ __le__ __gt__ __ge__ __eq__ __ne__".split())
    __hash__ = float.__hash__

    def __bool__(self):
        return bool(self.us != 0)

    def __abs__(self):
        return SymSeconds(mktd(abs(self.us)))

    def __neg__(self):
        return SymSeconds(mktd(-self.us))

    def _trunc(self):
        if self.us >= 0:
            return self.us // 10**6
        return -((-self.us) // 10**6)
    __int__ = lambda self: int(plain(self._trunc()))

    def __floordiv__(self, o):
        o = pin(o)
        if o == int(o):
            # float result, integral
            return SymFlint((self.us // (int(o) * 10**6)))
        return float.__float__(self) // o

    def __mod__(self, o):
        o = pin(o)
        if o == int(o):
            return SymSeconds(mktd(self.us % (int(o) * 10**6)))
        return float.__float__(self) % o

    def __divmod__(self, o):
        return self // o, self % o

    def __mul__(self, o):
        o = pin(o)
        if o in (10**6,):
            return SymFlint(self.us)
        return float.__float__(self) * o


class SymFlint(float):
    """float with an exactly integral symbolic value."""
    def __new__(cls, i):
        o = float.__new__(cls, int(plain(i)))
        o.i = i
        return o

    def _mk(name):
        def f(self, o):
            if isinstance(o, SymFlint):
                o = o.i
            o = pin(o)
            if o == int(o):
                return getattr(as_num(self.i), name)(int(o))
            return getattr(float.__float__(self), name)(o)
        return f
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = map(_mk, "__lt__ __le__ __gt__ __ge__ __eq__ __ne__".split())
    __hash__ = float.__hash__

    def __divmod__(self, o):
        q, r = divmod(self.i, int(o))
        return SymFlint(q), SymFlint(r)

    def __int__(self):
        return int(plain(self.i))


class SymFlag(int):
    """IntFlag member with symbolic bits; behaves like an int; cls kept for `in`, repr."""


SYM_TYPES = (SymInt, SymBool, SymBytes, SymByteArray, SymStr, SymFloat, SymDateBase, SymTimedelta, SymMemView, SymSeconds,
             SymFlint)
SYM_SET = frozenset(SYM_TYPES + (SymDate, SymDatetime))

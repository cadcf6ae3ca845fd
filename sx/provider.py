"""Symbolic / plain input providers with one interface."""
import datetime as _dt
import struct, random
import z3
from . import core
from .values import *
from .values import Blob, Tok, need, SymInt, SymBool, SymBytes, SymStr, SymFloat


def blob_data(name, n):
    return Blob(name, n).data[:n]


class SymProvider:
    symbolic = True

    def __init__(self, run=None):
        self.run = run or core.RUN

    def _reg(self, name, var, kind, val):
        if name in self.run.inputs:
            raise RuntimeError("input drawn twice: " + name)
        self.run.inputs[name] = (var, kind, val)

    def int(self, name, lo, hi, default=None, ok=None):
        d = default if default is not None else max(lo, min(hi, 0))
        v = self.run.given.get(name, d)
        if not (type(v) is int and lo <= v <= hi and (ok is None or ok(v))):
            v = d           # drawn with another domain before
        if lo == hi:
            self._reg(name, None, None, lo)
            return lo
        w = need(lo, hi)
        t = z3.BitVec(name, w)
        self._reg(name, t, ("int",), v)
        self.run.domain.append(z3.And(t >= z3.BitVecVal(lo, w), t <= z3.BitVecVal(hi, w)))
        return SymInt(v, t, lo, hi)

    def bool(self, name, default=False):
        v = bool(self.run.given.get(name, default))
        t = z3.Bool(name)
        self._reg(name, t, ("bool",), v)
        return SymBool(t, v)

    def flag(self, name, default=False):
        """plain Python bool, forked"""
        return bool(self.bool(name, default))

    def choice(self, name, options, default=0):
        """one of the options; forks"""
        if len(options) == 1:
            self._reg(name, None, None, 0)
            return options[0]
        i = self.int(name, 0, len(options) - 1, default)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[len(options) - 1]

    def small(self, name, lo, hi, default=None):
        """an int in [lo,hi], forked to a plain int"""
        if lo == hi:
            return lo
        i = self.int(name, lo, hi, default)
        for k in range(lo, hi):
            if i == k:
                return k
        return hi

    def byte(self, name, default=0, lo=0, hi=255):
        return self.int(name, lo, hi, default)

    def bytes(self, name, n, default=None, lo=0, hi=255):
        if n == 0:
            return b""
        d = default if default is not None else [97 + i % 26 if lo <= 97 + i % 26 <= hi else lo for i in range(n)]
        return mkbytes([("L", [self.int(f"{name}[{i}]", lo, hi, d[i]) for i in range(n)])])

    def str(self, name, n, ranges=((0x20, 0x7e),), default=None):
        if n == 0:
            return ""
        items = []
        for i in range(n):
            nm = f"{name}[{i}]"
            lo = min(r[0] for r in ranges)
            hi = max(r[1] for r in ranges)
            d = ord(default[i]) if default else (97 + i if any(a <= 97 + i <= b for a, b in ranges) else ranges[0][0])
            x = self.int(nm, lo, hi, d, (lambda v: any(a <= v <= b for a, b in ranges)))
            if len(ranges) > 1 and type(x) is SymInt:
                w = x.t.size()
                self.run.domain.append(z3.Or(*[z3.And(x.t >= z3.BitVecVal(a, w), x.t <= z3.BitVecVal(b, w))
                                               for a, b in ranges]))
            items.append(x)
        return mkstr([("L", items)])

    def blob(self, name, lo, hi, default=None):
        """opaque letters with symbolic length"""
        n = self.int(name, lo, hi, default if default is not None else lo)
        if type(n) is not SymInt and n == 0:
            return b""
        b = Blob(name, int(n))
        return SymBytes(b.data[:int(n)], [("B", b, 0, n)])

    def strblob(self, name, lo, hi, default=None):
        n = self.int(name, lo, hi, default if default is not None else lo)
        if type(n) is not SymInt and n == 0:
            return ""
        b = Blob(name, int(n))
        return SymStr(b.data[:int(n)].decode("latin1"), [("B", b, 0, n)])

    def token(self, name, s):
        """opaque string with concrete witness s"""
        if not s:
            return ""
        return SymStr(s, [("T", Tok("opaque", name, s, len(s)))])

    def float64(self, name, default=1.5):
        pat = self.int(name, 0, 2**64 - 1, struct.unpack("<Q", struct.pack("<d", default))[0])
        v = struct.unpack("<d", struct.pack("<Q", int(pat)))[0]
        return SymFloat(v, pat)

    def timedelta(self, name, maxdays, default=(0, 1, 0, 0, 0)):
        """duration of at most maxdays days and a bit, either sign, drawn by its fields"""
        us = self._tdfields(name, maxdays, default)
        return mktd(-us if self.flag(name + ".neg") else us)

    def _tdfields(self, name, maxdays, default):
        f = [self.int(name + "." + k, 0, hi, dv) for k, hi, dv in
             zip("dHMSu", (maxdays, 23, 59, 59, 999999), default)]
        return (((f[0] * 24 + f[1]) * 60 + f[2]) * 60 + f[3]) * 1000000 + f[4]

    def date(self, name, lo=1, hi=9999):
        y = self.int(name + ".y", lo, hi, 2024)
        m = self.int(name + ".m", 1, 12, 2)
        d = self.int(name + ".d", 1, 28, 3)
        return SymDate(y, m, d)

    def datetime(self, name, lo=1, hi=9999):
        return SymDatetime(self.int(name + ".y", lo, hi, 2024), self.int(name + ".m", 1, 12, 2),
                           self.int(name + ".d", 1, 28, 3), self.int(name + ".H", 0, 23, 4),
                           self.int(name + ".M", 0, 59, 5), self.int(name + ".S", 0, 59, 6),
                           self.int(name + ".us", 0, 999999, 7))

    def pin(self, x):
        return pin(x)

    def assume(self, c):
        core.assume(c)

    def note(self, s):
        core.note(s)

"""Plain provider: concrete replay. No z3 needed."""
import datetime as _dt
import struct, random

_TR = bytes(97 + (i % 26) for i in range(256))


from harness.base import StopPath


def blob_data(name, n):
    return random.Random(name).randbytes(max(n, 1)).translate(_TR)[:n]


class PlainProvider:
    symbolic = False

    def __init__(self, given):
        self.given = given

    def int(self, name, lo, hi, default=None):
        return self.given.get(name, default if default is not None else max(lo, min(hi, 0)))

    def bool(self, name, default=False):
        return bool(self.given.get(name, default))
    flag = bool

    def choice(self, name, options, default=0):
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1, default)]

    def small(self, name, lo, hi, default=None):
        return self.int(name, lo, hi, default)

    def byte(self, name, default=0, lo=0, hi=255):
        return self.int(name, lo, hi, default)

    def bytes(self, name, n, default=None, lo=0, hi=255):
        d = default if default is not None else [97 + i % 26 if lo <= 97 + i % 26 <= hi else lo for i in range(n)]
        return bytes([self.int(f"{name}[{i}]", lo, hi, d[i]) for i in range(n)])

    def str(self, name, n, ranges=((0x20, 0x7e),), default=None):
        out = []
        lo = min(r[0] for r in ranges)
        hi = max(r[1] for r in ranges)
        for i in range(n):
            d = ord(default[i]) if default else (97 + i if any(a <= 97 + i <= b for a, b in ranges) else ranges[0][0])
            out.append(chr(self.int(f"{name}[{i}]", lo, hi, d)))
        return "".join(out)

    def blob(self, name, lo, hi, default=None):
        n = self.int(name, lo, hi, default if default is not None else lo)
        return blob_data(name, n)

    def strblob(self, name, lo, hi, default=None):
        return self.blob(name, lo, hi, default).decode("latin1")

    def token(self, name, s):
        return s

    def float64(self, name, default=1.5):
        pat = self.int(name, 0, 2**64 - 1, struct.unpack("<Q", struct.pack("<d", default))[0])
        return struct.unpack("<d", struct.pack("<Q", pat))[0]

    def timedelta(self, name, maxdays, default=(0, 1, 0, 0, 0)):
        f = [self.int(name + "." + k, 0, hi, dv) for k, hi, dv in
             zip("dHMSu", (maxdays, 23, 59, 59, 999999), default)]
        us = (((f[0] * 24 + f[1]) * 60 + f[2]) * 60 + f[3]) * 1000000 + f[4]
        return _dt.timedelta(microseconds=-us if self.flag(name + ".neg") else us)

    def date(self, name, lo=1, hi=9999):
        return _dt.date(self.int(name + ".y", lo, hi, 2024), self.int(name + ".m", 1, 12, 2), self.int(name + ".d", 1, 28, 3))

    def datetime(self, name, lo=1, hi=9999):
        return _dt.datetime(self.int(name + ".y", lo, hi, 2024), self.int(name + ".m", 1, 12, 2),
                            self.int(name + ".d", 1, 28, 3), self.int(name + ".H", 0, 23, 4),
                            self.int(name + ".M", 0, 59, 5), self.int(name + ".S", 0, 59, 6),
                            self.int(name + ".us", 0, 999999, 7))

    def pin(self, x):
        return x

    def assume(self, c):
        if not c:
            raise StopPath()

    def note(self, s):
        pass

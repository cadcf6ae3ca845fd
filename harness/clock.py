"""A fixed clock for the modules under test, however they import it."""
import datetime as _dt
import sys
import time as _time
import types

NOW = [_dt.datetime(2021, 3, 14, 22, 30, 15, 250000, tzinfo=_dt.timezone.utc)]
REAL = _dt.datetime


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL)

    def __subclasscheck__(cls, c):
        return issubclass(c, REAL)


class Clock(REAL, metaclass=_Meta):
    def __new__(cls, *a, **k):
        return REAL(*a, **k)

    @classmethod
    def now(cls, tz=None):
        n = NOW[0]
        return n.replace(tzinfo=None) if tz is None else n.astimezone(tz)

    @classmethod
    def utcnow(cls):
        return NOW[0].replace(tzinfo=None)

    @classmethod
    def today(cls):
        return NOW[0].replace(tzinfo=None)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return REAL.fromtimestamp(t, tz or _dt.timezone.utc).replace(tzinfo=tz)

    combine = REAL.combine
    strptime = REAL.strptime
    fromisoformat = REAL.fromisoformat


_M = types.ModuleType("datetime")
_M.__dict__.update(_dt.__dict__)
_M.datetime = Clock
_T = types.ModuleType("time")
_T.__dict__.update(_time.__dict__)
_T.time = lambda: NOW[0].timestamp()
_T.time_ns = lambda: int(NOW[0].timestamp() * 10 ** 9)
_T.gmtime = lambda s=None: _time.gmtime(NOW[0].timestamp() if s is None else s)
_T.localtime = lambda s=None: _time.gmtime(NOW[0].timestamp() if s is None else s)


def install():
    """idempotent; call at the start of a case"""
    for name, m in list(sys.modules.items()):
        if name.startswith("mysql_mimic"):
            d = m.__dict__
            for k, v in list(d.items()):
                if v is REAL:
                    d[k] = Clock
                elif v is _dt:
                    d[k] = _M
                elif v is _time:
                    d[k] = _T
                elif v is _time.time:
                    d[k] = _T.time


def at(y, mo, d, h=0, mi=0, s=0):
    NOW[0] = REAL(y, mo, d, h, mi, s, tzinfo=_dt.timezone.utc)


def reset():
    at(2021, 3, 14, 22, 30, 15)

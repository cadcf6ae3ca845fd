"""C05 clients decode exactly the values the application returned (text and binary)"""
import datetime
import decimal
import struct

from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub
from harness.proto import *

CASES = []
META = {
    "quick_s": 100, "thorough_s": 420,
    "bounds": "one symbolic cell per column type: integers over the whole range of the type, 64-bit patterns of finite doubles, "
              "durations of +-10000 days at microsecond resolution, dates year 1..9999 day 1..28, datetimes likewise; strings of "
              "up to 4 symbolic characters per character set and opaque strings / bytes of 0..70000 octets; rows of 1..17 "
              "columns with every NULL pattern; up to 4 rows; row sources list, tuple, generator, iterator, async generator, "
              "async iterable; inference with the first non-NULL value at an arbitrary row of each column",
    "outside": "rows whose length differs from the number of columns; application-supplied encoders; values whose Python type does "
               "not fit the declared column type; NaN and infinities; column types the library declares unsupported (NULL with values, "
               "NEWDATE binary, *2, TYPED_ARRAY, INVALID)",
    "assumptions": ["float <-> decimal text conversion of CPython is treated as an opaque invertible function"],
}


def sint(raw, size):
    return raw - (1 << (8 * size)) if raw >> (8 * size - 1) else raw


def num(b):
    """decimal integer text"""
    check(len(b) > 0, "empty integer text")
    return int(b)


def parse_date(t):
    check(len(t) == 10 and t[4:5] == b"-" and t[7:8] == b"-", "date text", t)
    return num(t[0:4]), num(t[5:7]), num(t[8:10])


def frac(t):
    """.ffffff -> microseconds"""
    if len(t) == 0:
        return 0
    check(t[0:1] == b"." and 1 < len(t) <= 7, "fraction text", t)
    return num(t[1:]) * 10 ** (7 - len(t))


def parse_datetime(t):
    y, m, d = parse_date(t[:10])
    if len(t) == 10:
        return y, m, d, 0, 0, 0, 0
    check(t[10:11] == b" " and t[13:14] == b":" and t[16:17] == b":" and len(t) >= 19, "datetime text", t)
    return y, m, d, num(t[11:13]), num(t[14:16]), num(t[17:19]), frac(t[19:])


def parse_time(t):
    neg = t[:1] == b"-"
    if neg:
        t = t[1:]
    k = t.find(b":")
    check(k >= 1 and t[k + 3:k + 4] == b":" and len(t) >= k + 6, "time text", t)
    us = ((num(t[:k]) * 60 + num(t[k + 1:k + 3])) * 60 + num(t[k + 4:k + 6])) * 1000000 + frac(t[k + 6:])
    return -us if neg else us


def td_us(v):
    return (v.days * 86400 + v.seconds) * 1000000 + v.microseconds


INTS = {"TINY": (-128, 127), "SHORT": (-32768, 32767), "LONG": (-2 ** 31, 2 ** 31 - 1), "INT24": (-2 ** 23, 2 ** 23 - 1),
        "LONGLONG": (-2 ** 63, 2 ** 63 - 1), "YEAR": (1901, 2155)}


def same_text(tname, cell, v, codec="utf8"):
    """the text cell denotes v"""
    check(cell is not None, "value decoded as NULL")
    if tname in INTS or tname == "BOOL":
        check(num(cell) == int(v), "integer text differs from the value", (cell, v))
    elif tname in ("DOUBLE", "FLOAT"):
        check(float(cell) == v, "float text differs from the value", (cell, v))
    elif tname == "DATE":
        y, m, d, H, M, S, us = parse_datetime(cell)
        check(y == v.year and m == v.month and d == v.day, "date differs", cell)
    elif tname in ("DATETIME", "TIMESTAMP"):
        y, m, d, H, M, S, us = parse_datetime(cell)
        if not isinstance(v, datetime.datetime):
            check(y == v.year and m == v.month and d == v.day and H == 0 and M == 0 and S == 0 and us == 0, "date differs", cell)
            return
        check(y == v.year and m == v.month and d == v.day and H == v.hour and M == v.minute and S == v.second and
              us == v.microsecond, "datetime differs", cell)
    elif tname == "TIME":
        check(parse_time(cell) == td_us(v), "duration differs", cell)
    elif type(v) is bytes or isinstance(v, bytes):
        check(cell == v, "bytes differ")
    elif isinstance(v, str):
        check(cell == v.encode(codec), "string differs", cell)
    else:
        check(cell == str(v).encode(), "text differs", cell)


def same_bin(tname, cell, v, codec="utf8"):
    check(cell is not None, "value decoded as NULL")
    k = cell[0]
    if tname in INTS or tname == "BOOL":
        check(k == "i" and sint(cell[1], cell[2]) == int(v), "binary integer differs from the value", (cell, v))
    elif tname == "DOUBLE":
        check(k == "d" and struct.unpack("<d", cell[1])[0] == v, "binary double differs", cell)
    elif tname == "FLOAT":
        check(k == "f" and struct.unpack("<f", cell[1])[0] == v, "binary float differs", cell)
    elif tname in ("DATE", "DATETIME", "TIMESTAMP"):
        check(k == "dt" and cell[1] == v.year and cell[2] == v.month and cell[3] == v.day, "binary date differs", cell)
        if isinstance(v, datetime.datetime):
            check(cell[4] == v.hour and cell[5] == v.minute and cell[6] == v.second and cell[7] == v.microsecond,
                  "binary datetime differs", cell)
        else:
            check(cell[4] == 0 and cell[5] == 0 and cell[6] == 0 and cell[7] == 0, "binary date has a time of day", cell)
    elif tname == "TIME":
        us = (((cell[2] * 24 + cell[3]) * 60 + cell[4]) * 60 + cell[5]) * 1000000 + cell[6]
        check(k == "t" and cell[3] < 24 and cell[4] < 60 and cell[5] < 60 and cell[6] < 1000000, "binary time out of range", cell)
        check((-us if cell[1] else us) == td_us(v), "binary duration differs", cell)
    elif isinstance(v, bytes):
        check(k == "s" and cell[1] == v, "bytes differ")
    elif isinstance(v, str):
        check(k == "s" and cell[1] == v.encode(codec), "string differs", cell)
    else:
        check(k == "s" and cell[1] == str(v).encode(), "text differs", cell)


def run_both(P, w, c, hub, tnames, cols, make, rows, names, deep=True):
    """rows (of Python values) come back over both protocols; make() gives a fresh (rows, columns) result"""
    hub.handler = lambda s, e, sql, a: make()
    r = c.query(b"SELECT a FROM t")
    check(r.kind == "rs" and r.final.kind != "err", "query failed", r.msg or (r.final and r.final.msg))
    st = c.prepare(b"SELECT a FROM t")
    b = c.execute(st.stmt_id)
    check(b.kind == "rs" and b.final.kind != "err", "execute failed", b.msg or (b.final and b.final.msg))
    for res, same in ((r, same_text), (b, same_bin)):
        check([k.name for k in res.cols] == names, "column names differ", [k.name for k in res.cols])
        check(len(res.rows) == len(rows), "number of rows differs", len(res.rows))
        for got, want in zip(res.rows, rows):
            check(len(got) == len(want), "number of columns differs")
            for k in range(len(want)):
                if want[k] is None:
                    check(got[k] is None, "NULL decoded as a value", got[k])
                else:
                    same(tnames[k], got[k], want[k], cols[k] if cols else "utf8")
    check([k.type for k in r.cols] == [k.type for k in b.cols], "column types differ between the protocols")
    return [[k.type for k in r.cols], r.rows, b.rows]


def typed(tname, draw, codec="utf8", charset=None):
    """one explicit column of a type with an arbitrary value, next to NULLs"""
    def fn(P):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        from mysql_mimic.charset import CharacterSet
        v = draw(P)
        hub = Hub()
        with World(session_factory=hub.factory) as w:
            c = Client(w.open())
            c.login(caps=BASE | (DEPRECATE_EOF if P.flag("deprecate_eof", True) else 0))
            kw = {"character_set": CharacterSet[charset]} if charset else {}
            rows = [[v], [None], [v]]
            t = ColumnType[tname]

            def make():
                return [list(x) for x in rows], [ResultColumn("a", t, **kw)]
            out = run_both(P, w, c, hub, [tname], [codec], make, rows, [b"a"])
            check(out[0] == [int(t)], "declared column type is not the one announced")
            return out
    return fn


def addt(tname, draw, suffix="", weight=1.0, tier="quick", **kw):
    CASES.append(Case("type-" + tname + suffix, typed(tname, draw, **kw), weight=weight, tier=tier))


for _t, (_lo, _hi) in INTS.items():
    addt(_t, (lambda lo, hi: lambda P: P.int("v", lo, hi, 0 if lo <= 0 else lo))(_lo, _hi))
addt("TINY", lambda P: P.flag("v"), "-bool", weight=0.3)
addt("BOOL", lambda P: P.flag("v"), weight=0.3)
addt("LONGLONG", lambda P: P.flag("v"), "-bool", weight=0.3)
addt("DOUBLE", lambda P: _finite(P, P.float64("v", 1.5)), weight=0.4)
addt("FLOAT", lambda P: P.choice("v", [0.0, 1.5, -2.25, 1e30 and 1.0e10, -0.0078125]), weight=0.4)
addt("DATE", lambda P: P.date("v"))
addt("DATETIME", lambda P: P.datetime("v"), weight=2)
addt("DATETIME", lambda P: P.date("v"), "-date")
addt("TIMESTAMP", lambda P: P.datetime("v"), weight=2)
addt("TIME", lambda P: P.timedelta("v", 10000), weight=2.5)
STR_TYPES = ["VARCHAR", "VAR_STRING", "STRING", "JSON", "ENUM", "SET", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"]


def _finite(P, f):
    P.assume(f == f)
    P.assume(f < 1.8e308)
    P.assume(f > -1.8e308)
    return f


def _dec(P):
    n = P.int("units", -10 ** 15, 10 ** 15, 12345)
    return decimal.Decimal(int(P.pin(n))) / decimal.Decimal(P.choice("scale", [1, 100]))


addt("NEWDECIMAL", lambda P: P.str("v", 3, ranges=((0x30, 0x39),)), weight=0.5)
addt("DECIMAL", lambda P: decimal.Decimal(P.choice("v", ["0", "1.50", "-12.345", "1E+2", "99999999999999999999.000001"])), weight=0.4)
addt("NEWDECIMAL", lambda P: decimal.Decimal(P.choice("v", ["0", "1.50", "-12.345", "99999999999999999999.000001"])), "-dec", weight=0.4)
for _t in STR_TYPES:
    addt(_t, lambda P: P.strblob("v", 0, 70000, 3), weight=0.8)
for _t in ("BLOB", "VARCHAR", "BIT", "GEOMETRY", "STRING"):
    addt(_t, lambda P: P.blob("v", 0, 70000, 250), "-bytes", weight=0.8)
addt("BLOB", lambda P: P.bytes("v", 4), "-octets", weight=0.8)
addt("STRING", lambda P: P.strblob("v", 65000, 17 * 2 ** 20, 2 ** 24 - 9), "-16M", weight=2.0, tier="thorough")
for _cs, _codec, _ranges in (("utf8mb4", "utf8", ((0, 0x7f), (0xe0, 0x7ff), (0x2660, 0x2670), (0x1f600, 0x1f64f))),
                             ("latin1", "latin1", ((0, 0x7f), (0xa0, 0xff))),
                             ("utf16", "utf_16_be", ((0, 0x7f), (0x400, 0x44f), (0x1f600, 0x1f64f))),
                             ("utf32", "utf_32_be", ((0x20, 0x7f), (0x1f600, 0x1f64f))),
                             ("ucs2", "utf_16_be", ((0, 0x7f), (0x400, 0x44f))),
                             ("utf16le", "utf_16_le", ((0, 0x7f), (0x1f600, 0x1f64f)))):
    addt("STRING", (lambda rg: lambda P: P.str("v", 2, ranges=rg))(_ranges), "-" + _cs, weight=1.0, codec=_codec, charset=_cs)


# ---- shapes
def shape(ncol, tname="LONG", names=None):
    """NULL bitmap: any pattern over ncol columns, two rows"""
    def fn(P):
        from mysql_mimic.results import ResultColumn
        from mysql_mimic.types import ColumnType
        if ncol <= 5:
            nn = [P.flag("null%d" % i, i % 3 == 1) for i in range(ncol)]
        else:
            a = P.small("at", 0, ncol - 1, 5)
            b = P.small("and", 0, 3, 1)
            b = [a, 0, ncol - 1, ncol // 2][b]
            nn = [i in (a, b) for i in range(ncol)]
        vals = [i * 1000003 - 7 for i in range(ncol)]
        vals[0] = P.int("v", -99, 99, 1)
        row = [None if nn[i] else vals[i] for i in range(ncol)]
        row2 = [vals[i] if nn[i] else None for i in range(ncol)]
        hub = Hub()
        with World(session_factory=hub.factory) as w:
            c = Client(w.open())
            c.login()
            nm = ["c%d" % (i % 5) for i in range(ncol)]

            def make():
                return [tuple(row), tuple(row2)], [ResultColumn(n, ColumnType.LONG) for n in nm]
            return run_both(P, w, c, hub, ["LONG"] * ncol, None, make, [row, row2], [n.encode() for n in nm])
    return fn


for _n in (1, 5, 6, 7, 8, 13, 14, 15, 16, 17):
    CASES.append(Case("shape-%d" % _n, shape(_n), weight=0.7, tier="quick"))


def wide(P):
    """many columns: count prefix and bitmap"""
    from mysql_mimic.results import ResultColumn
    from mysql_mimic.types import ColumnType
    n = P.choice("ncol", [250, 251, 252, 300])
    k = P.small("null", 0, 9, 3) * 25
    row = [i * 77 - 4000 for i in range(n)]
    row[k + 3] = P.int("v", -2 ** 31, 2 ** 31 - 1, 77)
    row[k] = None
    hub = Hub()
    with World(session_factory=hub.factory) as w:
        c = Client(w.open())
        c.login()

        def make():
            return [row], [ResultColumn("c%d" % i, ColumnType.LONG) for i in range(n)]
        run_both(P, w, c, hub, ["LONG"] * n, None, make, [row], [b"c%d" % i for i in range(n)])
        return n


CASES.append(Case("wide", wide, weight=1.5, limit=5000000, maxconds=20000))


# ---- inference and row sources
SRC = ["list", "tuple", "gen", "iter", "agen", "aiter"]


def source(kind, rows):
    rows = [tuple(r) if kind == "tuple" else list(r) for r in rows]
    if kind == "list":
        return rows
    if kind == "tuple":
        return tuple(rows)
    if kind == "gen":
        return (r for r in rows)
    if kind == "iter":
        return iter(rows)
    if kind == "agen":
        async def g():
            for r in rows:
                yield r
        return g()

    class A:
        def __aiter__(self):
            return self.it()

        async def it(self):
            for r in rows:
                yield r
    return A()


PYT = {"TINY": 1, "LONGLONG": 8, "STRING": 254, "BLOB": 252, "DOUBLE": 5, "DATE": 10, "DATETIME": 12, "TIME": 11}


def pyval(P, kind, name):
    if kind == "LONGLONG":
        return P.int(name, -2 ** 63, 2 ** 63 - 1, 5)
    if kind == "STRING":
        return P.str(name, 2)
    if kind == "BLOB":
        return P.bytes(name, 2)
    if kind == "DOUBLE":
        return _finite(P, P.float64(name))
    if kind == "DATE":
        return P.date(name)
    if kind == "DATETIME":
        return P.datetime(name)
    if kind == "TIME":
        return P.timedelta(name, 40, (2, 1, 1, 1, 1))
    if kind == "TINY":
        return P.flag(name, True)


CONC = {"TINY": lambda i: i % 2 == 0, "LONGLONG": lambda i: 10 ** (5 * i) - 7, "STRING": lambda i: "s%d\u2660" % i,
        "BLOB": lambda i: b"b%d" % i, "DOUBLE": lambda i: i / 4 - 0.125,
        "DATE": lambda i: datetime.date(2024, 2, 27 + i), "DATETIME": lambda i: datetime.datetime(1999, 12, 31, 23, 59, 58, i * 5000),
        "TIME": lambda i: datetime.timedelta(days=i - 2, seconds=i)}


def infer(kinds, nrow, style):
    """bare names: each column's first non-NULL value at an arbitrary row"""
    def fn(P):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        ncol = len(kinds)
        rows = [[None] * ncol for _ in range(nrow)]
        first = [P.small("first%d" % k, 0, nrow - 1, (nrow - 1) if k == 0 else 0) for k in range(ncol)]
        hole = P.small("hole", -1, nrow - 1, -1)
        for i in range(nrow):
            for k in range(ncol):
                if i == first[k] or i > first[k] and i != hole:
                    rows[i][k] = pyval(P, kinds[k], "v") if k == 0 and i == first[0] else CONC[kinds[k]](i)
        src = P.choice("source", SRC)
        # names: bare, mixed with an explicit column, duplicates
        hub = Hub()
        with World(session_factory=hub.factory) as w:
            c = Client(w.open())
            c.login()
            names = {"bare": ["c%d" % k for k in range(ncol)], "dup": ["x"] * ncol,
                     "mixed": ["c%d" % k for k in range(ncol)]}[style]

            def make():
                cols = list(names)
                if style == "mixed":
                    cols[0] = ResultColumn(names[0], ColumnType[kinds[0]])
                return source(src, rows), cols
            out = run_both(P, w, c, hub, kinds, None, make, rows, [n.encode() for n in names])
            check(out[0] == [PYT[k] for k in kinds], "inferred column type does not fit the values", out[0])
            return out
    return fn


for _i, (_k, _s) in enumerate((("LONGLONG STRING", "bare"), ("STRING STRING", "dup"), ("TIME LONGLONG", "mixed"),
                               ("DATE DATETIME", "bare"), ("BLOB DOUBLE TINY", "dup"), ("TINY BLOB", "bare"))):
    CASES.append(Case("infer-%s-%s" % (_k.replace(" ", "_"), _s), infer(_k.split(), 3, _s), weight=1.5))
CASES.append(Case("infer-deep", infer(["LONGLONG", "STRING", "DATE"], 4, "bare"), weight=3, tier="thorough"))


def allnull(P):
    """columns that are NULL throughout; empty results"""
    n = P.small("rows", 0, 3, 2)
    src = P.choice("source", SRC)
    vals = [P.int("v%d" % i, -100, 100, i) for i in range(n)]
    rows = [[v, None] for v in vals]
    hub = Hub()
    with World(session_factory=hub.factory) as w:
        c = Client(w.open())
        c.login(caps=BASE | (DEPRECATE_EOF if P.flag("dep", True) else 0))
        out = run_both(P, w, c, hub, ["LONGLONG", "NULL"], None, lambda: (source(src, rows), ["a", "b"]), rows, [b"a", b"b"])
        return out


CASES.append(Case("allnull", allnull, weight=0.8))


def forms(P):
    """explicit columns over every kind of row source; ResultSet objects; None and empty results"""
    from mysql_mimic.results import ResultColumn, ResultSet
    from mysql_mimic.types import ColumnType
    n = P.small("rows", 0, 3, 2)
    src = P.choice("source", SRC)
    form = P.choice("form", ["tuple", "resultset"])
    rows = [[P.int("v%d" % i, -2 ** 63, 2 ** 63 - 1, i), P.str("s%d" % i, 1)] for i in range(n)]
    hub = Hub()
    with World(session_factory=hub.factory) as w:
        c = Client(w.open())
        c.login()

        def make():
            cols = [ResultColumn("a", ColumnType.LONGLONG), ResultColumn("a", ColumnType.VARCHAR)]
            s = source(src, rows)
            return ResultSet(s, cols) if form == "resultset" else (s, cols)
        out = run_both(P, w, c, hub, ["LONGLONG", "VARCHAR"], None, make, rows, [b"a", b"a"])
        return out


CASES.append(Case("forms", forms, weight=1))


def many(P):
    """many rows: nothing lost at buffer and batch boundaries"""
    from mysql_mimic.results import ResultColumn
    from mysql_mimic.types import ColumnType
    n = P.choice("rows", [35, 140])
    src = P.choice("source", ["gen", "agen"])
    bare = P.flag("bare")
    hub = Hub()
    with World(session_factory=hub.factory) as w:
        c = Client(w.open())
        c.login()
        s = P.strblob("s", 0, 3000, 500)
        rows = [[i, s if i % 35 == 7 else "x" * (900 + i) if i % 3 == 0 else "y"] for i in range(n)]
        out = run_both(P, w, c, hub, ["LONGLONG", "STRING"], None,
                       lambda: (source(src, rows), ["i", "s"] if bare else
                                [ResultColumn("i", ColumnType.LONGLONG), ResultColumn("s", ColumnType.STRING)]),
                       rows, [b"i", b"s"])
        return [n, len(out[1])]


CASES.append(Case("many", many, weight=2, limit=20000000, maxconds=20000))


def names(P):
    """column names arrive unchanged"""
    k = P.small("len", 1, 3, 2)
    a = P.str("a", k, ranges=((1, 0x7f), (0xe0, 0x7ff), (0x1f600, 0x1f640)))
    b = P.strblob("b", 1, 300, 251)
    v = P.int("v", -2 ** 63, 2 ** 63 - 1, 1)
    order = P.flag("swap")
    nm = [b, a, a] if order else [a, b, b]
    hub = Hub()
    with World(session_factory=hub.factory) as w:
        c = Client(w.open())
        c.login()
        return run_both(P, w, c, hub, ["LONGLONG"] * 3, None, lambda: ([[v, v, None], [None, v, v]], list(nm)),
                        [[v, v, None], [None, v, v]], [n.encode("utf8") for n in nm])


CASES.append(Case("names", names, weight=1.2))

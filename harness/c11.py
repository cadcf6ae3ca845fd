"""C11 server-side cursors deliver every row exactly once, in order"""
from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, RawHub
from harness.proto import *

CASES = []
META = {
    "quick_s": 120, "thorough_s": 400,
    "bounds": "results of 0..6 rows (and 9999..20001 rows) from lists, tuples, generators, async generators and async iterables; "
              "3 (thorough 4) successive fetches whose sizes are arbitrary 32-bit integers; interleavings of 4 (thorough 5) operations out of fetch, "
              "re-execute (with / without cursor, failing), reset, close, prepare, query, long data on two statements; arbitrary "
              "unknown 32-bit statement ids; application failure at any row; 2, 3 or 40 cursors of equal statements open at once",
    "outside": "cursor types other than read-only (rejected with ERR); fetching after the result was flagged exhausted or after a "
               "failed fetch may be answered with ERR or with no rows",
    "assumptions": [],
}

U32 = 2 ** 32 - 1


class AIter:
    def __init__(self, rows):
        self.it = iter(rows)

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return next(self.it)
        except StopIteration:
            raise StopAsyncIteration


def source(kind, rows):
    if kind == "list":
        return list(rows)
    if kind == "tuple":
        return tuple(rows)
    if kind == "gen":
        return (r for r in rows)
    if kind == "iter":
        return iter(rows)
    if kind == "agen":
        async def g():
            for r in rows:
                yield r
        return g()
    if kind == "agen-sleep":
        import asyncio

        async def g():
            for r in rows:
                await asyncio.sleep(0)
                yield r
        return g()
    return AIter(rows)


KINDS = ["list", "gen", "agen", "aiter", "tuple", "iter", "agen-sleep"]


def setup(P, handler, raw=True, eof=None):
    hub = RawHub(handler) if raw else Hub(handler)
    w = World(session_factory=hub.factory)
    c = Client(w.open())
    dep = P.flag("deprecate_eof", True) if eof is None else eof
    c.login(caps=BASE | (DEPRECATE_EOF if dep else 0))
    return hub, w, c


def val(cell):
    return int.from_bytes(cell[1].to_bytes(cell[2], "little"), "little", signed=True) if cell is not None and cell[0] == "i" else cell


def cells(rows):
    return [[val(x) for x in r] for r in rows]


def same(got, want):
    """got: decoded rows; want: list of rows of ints / strings / None"""
    if len(got) != len(want):
        return False
    for g, x in zip(got, want):
        for a, b in zip(g, x):
            if b is None:
                if a is not None:
                    return False
            elif isinstance(b, str):
                if a is None or a[0] != "s" or not a[1] == b.encode():
                    return False
            elif not val(a) == b:
                return False
    return True


def fetch(c, st, n, rows, pos, done, msg=""):
    """one fetch against the model; returns (pos, done)"""
    r = c.fetch(st.stmt_id, n, rows[1])
    left = len(rows[0]) - pos
    if done:
        check(r.kind == "err" or not r.rows, "rows after exhaustion was flagged" + msg)
        return pos, done
    check(r.kind == "fetch", "fetch failed" + msg, r.msg)
    k = left if n >= left else None
    if k is None:
        for i in range(left):
            if n == i:
                k = i
                break
    check(len(r.rows) == k, "number of rows of a fetch" + msg, (len(r.rows), k))
    check(same(r.rows, rows[0][pos:pos + k]), "rows of a fetch" + msg, cells(r.rows))
    last = bool(r.status & LAST_ROW_SENT)
    if n > left:
        check(last, "exhaustion is not flagged on a fetch that could not be filled" + msg)
    if pos + k < len(rows[0]):
        check(not last, "exhaustion is flagged while rows remain" + msg)
    return pos + k, last


def basic(nf, maxrows):
    def fn(P):
        n = P.small("rows", 0, maxrows, 3)
        kind = P.choice("source", KINDS, 2)
        v = P.int("v", -100, 100, 5)
        rows = [(v + i, "r%d" % i, None if i % 3 == 1 else i) for i in range(n)]

        def handler(s, e, sql, attrs):
            from mysql_mimic.results import ResultColumn, ResultSet
            from mysql_mimic.types import ColumnType
            cols = [ResultColumn("a", ColumnType.SHORT), ResultColumn("b", ColumnType.VARCHAR),
                    ResultColumn("c", ColumnType.LONG)]
            return ResultSet(rows=source(kind, rows), columns=cols)
        hub, w, c = setup(P, handler)
        with w:
            st = c.prepare(b"SELECT a FROM t")
            r = c.execute(st.stmt_id, flags=1)
            check(r.kind == "cursor" and not r.rows, "no cursor was opened", r.kind)
            check([x.name for x in r.cols] == [b"a", b"b", b"c"], "columns")
            pos, done = 0, False
            for k in range(nf):
                pos, done = fetch(c, st, P.int("n%d" % k, 0, U32, 2), (rows, r.cols), pos, done)
            check(len(hub.calls) == 1, "statement executed again")
            return [n, pos, done]
    return fn


CASES.append(Case("fetch-3", basic(3, 3), weight=5, max_paths=8000))
CASES.append(Case("fetch-2-6", basic(2, 6), weight=3, max_paths=8000))
CASES.append(Case("fetch-4", basic(4, 5), weight=8, max_paths=50000, tier="thorough"))


def inferred(P):
    """bare column names: peeking at the leading rows loses none"""
    n = P.small("rows", 0, 4, 3)
    kind = P.choice("source", KINDS, 2)
    first = P.small("first", 0, 3, 1)
    rows = [(None if i < first else 7 + i, "r%d" % i) for i in range(n)]
    hub, w, c = setup(P, lambda s, e, sql, attrs: (source(kind, rows), ["a", "b"]))
    with w:
        st = c.prepare(b"SELECT a FROM t")
        r = c.execute(st.stmt_id, flags=1)
        check(r.kind == "cursor" and not r.rows, "no cursor was opened", r.kind)
        pos, done = 0, False
        for k in range(2):
            pos, done = fetch(c, st, P.int("n%d" % k, 0, U32, 2), (rows, r.cols), pos, done)
        return [n, pos, done]


CASES.append(Case("inferred", inferred, weight=3, max_paths=8000))


def large(P):
    """results beyond the batch after which other connections get their turn"""
    n = P.choice("rows", [9999, 10000, 10001, 20001])
    kind = P.choice("source", ["gen", "agen"])
    rows = [(i,) for i in range(n)]

    def handler(s, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        return ResultSet(rows=source(kind, rows), columns=[ResultColumn("a", ColumnType.LONG)])
    hub, w, c = setup(P, handler, eof=True)
    with w:
        st = c.prepare(b"SELECT a FROM t")
        r = c.execute(st.stmt_id, flags=1)
        a = P.choice("n0", [9999, 10000, 10001, U32])
        c.send_command(b"\x1c" + u(st.stmt_id, 4) + u(a, 4))
        r1 = c.read_fetch(r.cols)
        k = min(a, n)
        got = [x[0][1] for x in r1.rows]
        check(got == list(range(k)), "rows of a fetch")
        last = bool(r1.status & LAST_ROW_SENT)
        check(last or a <= n, "exhaustion is not flagged")
        check(not last or k == n, "exhaustion is flagged while rows remain")
        if not last:
            c.send_command(b"\x1c" + u(st.stmt_id, 4) + u(U32, 4))
            r2 = c.read_fetch(r.cols)
            check([x[0][1] for x in r2.rows] == list(range(k, n)), "rows of a fetch")
            check(r2.status & LAST_ROW_SENT, "exhaustion is not flagged")
        return k


CASES.append(Case("large", large, weight=2, max_paths=32, limit=200000000))

OPS = ["fetchA", "fetchB", "execA", "execB", "plainA", "failA", "resetA", "resetB", "longA", "closeA", "other", "unknown"]


def interleave(n):
    """two statements; every operation against a model"""
    def fn(P):
        from mysql_mimic.errors import MysqlError
        gen = {"A": 0, "B": 0}

        def handler(s, e, sql, attrs):
            if "boom" in sql:
                raise MysqlError("boom")
            which = "A" if "ta" in sql else "B"
            if "tz" in sql:
                return [(99,)], ["z"]
            gen[which] += 1
            base = 1000 * gen[which] + (500 if which == "B" else 0)
            return source("agen" if which == "A" else "gen", [(base + i,) for i in range(3)]), ["x"]
        hub, w, c = setup(P, handler, eof=True)
        with w:
            st = {"A": c.prepare(b"SELECT ? FROM ta"), "B": c.prepare(b"SELECT b FROM tb")}
            check(st["A"].stmt_id != st["B"].stmt_id, "statement ids")
            model = {"A": None, "B": None}      # (rows, cols, pos, done) or None
            alive = {"A": True, "B": True}

            def execute(x, flags):
                ps = [(b"", T_STRING, False, lenstr(b"q"))] if x == "A" else []
                return c.execute(st[x].stmt_id, ps, flags=flags)
            for x in "AB":
                r = execute(x, 1)
                check(r.kind == "cursor", "no cursor was opened")
                model[x] = ([(1000 * gen[x] + (500 if x == "B" else 0) + i,) for i in range(3)], r.cols, 0, False)
            log, others, pending = [], set(), False
            for k in range(n):
                op = P.choice("op%d" % k, OPS, k % 2)
                x = "B" if op[-1] == "B" else "A"
                log.append(op)
                if op == "failA" and pending:
                    op = "execA"        # the long data replaces the failing parameter
                if op in ("execA", "plainA", "resetA", "closeA"):
                    pending = False
                if op in ("fetchA", "fetchB"):
                    m = P.int("n%d" % k, 0, U32, 2)
                    mod = model[x]
                    if mod is None:
                        r = c.fetch(st[x].stmt_id, m, [])
                        check(r.kind == "err" and not r.rows, "fetch without a cursor is not an error", log)
                    else:
                        rows, cols, pos, done = mod
                        pos, done = fetch(c, st[x], m, (rows, cols), pos, done, " after " + " ".join(log))
                        model[x] = (rows, cols, pos, done)
                elif op in ("execA", "execB"):
                    r = execute(x, 1)
                    if not alive[x]:
                        check(r.kind == "err", "closed statement executed", log)
                        continue
                    check(r.kind == "cursor" and not r.rows, "no cursor was opened", (log, r.msg))
                    model[x] = ([(1000 * gen[x] + (500 if x == "B" else 0) + i,) for i in range(3)], r.cols, 0, False)
                elif op == "plainA":
                    r = execute("A", 0)
                    if not alive["A"]:
                        check(r.kind == "err", "closed statement executed", log)
                        continue
                    want = [(1000 * gen["A"] + i,) for i in range(3)]
                    check(r.kind == "rs" and same(r.rows, want), "rows without cursor", log)
                    model["A"] = None
                elif op == "failA":
                    r = c.execute(st["A"].stmt_id, [(b"", T_STRING, False, lenstr(b"boom"))], flags=1)
                    check(r.kind == "err", "failing statement", log)
                    model["A"] = None
                elif op in ("resetA", "resetB"):
                    r = c.stmt_reset(st[x].stmt_id)
                    check(r.kind == ("ok" if alive[x] else "err"), "COM_STMT_RESET", log)
                    model[x] = None
                elif op == "longA":
                    c.long_data(st["A"].stmt_id, 0, b"x")
                    pending = alive["A"]
                elif op == "closeA":
                    c.stmt_close(st["A"].stmt_id)
                    model["A"], alive["A"] = None, False
                elif op == "other":
                    kind = P.choice("other%d" % k, ["query", "ping", "prepare", "init_db"])
                    if kind == "query":
                        check(c.query(b"SELECT z FROM tz").kind == "rs", "query", log)
                    elif kind == "ping":
                        check(c.ping().kind == "ok", "ping", log)
                    elif kind == "prepare":
                        p = c.prepare(b"SELECT 1 FROM tz")
                        check(p.stmt_id not in (st["A"].stmt_id, st["B"].stmt_id) or not alive["A"], "statement id reused", log)
                        others.add(p.stmt_id)
                    else:
                        check(c.init_db(b"d").kind == "ok", "init_db", log)
                else:
                    i = P.int("id%d" % k, 0, U32, 77)
                    if alive["A"]:
                        P.assume(i != st["A"].stmt_id)
                    P.assume(i != st["B"].stmt_id)
                    for o in others:
                        P.assume(i != o)
                    what = P.choice("what%d" % k, ["fetch", "reset", "execute", "close"])
                    if what == "fetch":
                        P.assume(i <= 100 or i > U32 - 100)
                        r = c.fetch(i, 1, [])
                        check(r.kind == "err" and not r.rows, "unknown statement id", (log, what))
                    elif what == "reset":
                        check(c.stmt_reset(i).kind == "err", "unknown statement id", (log, what))
                    elif what == "execute":
                        check(c.execute(i, flags=1).kind == "err", "unknown statement id", (log, what))
                    else:
                        c.stmt_close(i)
            return log
    return fn


CASES.append(Case("interleave-2", interleave(2), weight=3, max_paths=8000))
CASES.append(Case("interleave-3", interleave(3), weight=6, max_paths=12000))
CASES.append(Case("interleave-4", interleave(4), weight=12, max_paths=60000, tier="thorough"))


def twins(counts, n):
    """statements of the same text have cursors of their own, however many are open"""
    def fn(P):
        count = P.choice("count", counts)
        text, varied = P.choice("text", [(b"SELECT a FROM t", False), (b"SELECT ? FROM t", False), (b"SELECT a FROM t", True)])
        calls = [0]

        def handler(s, e, sql, attrs):
            calls[0] += 1
            base = 10 * calls[0]
            return source("agen" if calls[0] % 2 else "list", [(base + i,) for i in range(3)]), ["x"]
        hub, w, c = setup(P, handler, eof=True)
        with w:
            ps = [(b"", T_STRING, False, lenstr(b"q"))] if b"?" in text else []
            st, model = [], {}
            for k in range(count):
                st.append(c.prepare(text.lower() if varied and k % 2 else text))
            for k in range(count):
                r = c.execute(st[k].stmt_id, ps, flags=1)
                check(r.kind == "cursor" and not r.rows, "no cursor was opened", r.msg)
                model[k] = ([(10 * calls[0] + i,) for i in range(3)], r.cols, 0, False)
            log = []
            for k in range(n):
                x = P.choice("which%d" % k, list(range(min(count, 3))) if count < 40 else [0, 1, 38, 39], 0)
                op = P.choice("op%d" % k, ["fetch", "exec", "close", "reset"])
                log.append((op, x))
                if op == "fetch":
                    m = P.int("n%d" % k, 0, U32, 2)
                    if model[x] is None:
                        r = c.fetch(st[x].stmt_id, m, [])
                        check(r.kind == "err" and not r.rows, "fetch without a cursor is not an error", log)
                        continue
                    rows, cols, pos, done = model[x]
                    pos, done = fetch(c, st[x], m, (rows, cols), pos, done, " after %s" % log)
                    model[x] = (rows, cols, pos, done)
                elif op == "exec":
                    r = c.execute(st[x].stmt_id, ps, flags=1)
                    if model[x] is not None or r.kind == "cursor":
                        check(r.kind == "cursor" and not r.rows, "no cursor was opened", (log, r.msg))
                        model[x] = ([(10 * calls[0] + i,) for i in range(3)], r.cols, 0, False)
                elif op == "close":
                    c.stmt_close(st[x].stmt_id)
                    model[x] = None
                else:
                    c.stmt_reset(st[x].stmt_id)
                    model[x] = None
            for x in sorted({0, 1, count - 1}):
                if model[x] is not None:
                    rows, cols, pos, done = model[x]
                    fetch(c, st[x], 9, (rows, cols), pos, done, " after %s" % log)
            return log
    return fn


CASES.append(Case("twins", twins([2], 2), weight=3, max_paths=12000))
CASES.append(Case("crowd", twins([40], 1), weight=2, max_paths=12000))
CASES.append(Case("twins-3", twins([2, 3], 3), weight=8, max_paths=60000, tier="thorough"))


def failing(P):
    """the row source fails, or a value cannot be encoded, at any row"""
    from mysql_mimic.errors import MysqlError
    at = P.small("at", 0, 3, 1)
    how = P.choice("how", ["error", "mysqlerror", "value", "agen"])

    def rows():
        for i in range(3):
            if i == at and how != "value":
                raise MysqlError("boom") if how == "mysqlerror" else ValueError("boom")
            yield ((i,) if not (how == "value" and i == at) else (1 << 70,))

    async def arows():
        for r in rows():
            yield r

    def handler(s, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        return ResultSet(rows=arows() if how == "agen" else rows(), columns=[ResultColumn("a", ColumnType.LONG)])
    hub, w, c = setup(P, handler)
    with w:
        st = c.prepare(b"SELECT a FROM t")
        r = c.execute(st.stmt_id, flags=1)
        check(r.kind == "cursor", "no cursor was opened", r.msg)
        seen = 0
        broken = False
        for k in range(3):
            n = P.int("n%d" % k, 0, U32, 1)
            x = c.fetch(st.stmt_id, n, r.cols)
            got = [row[0][1] for row in x.rows]
            if broken:
                check(not got or min(got) >= seen, "a row is delivered twice", got)
                continue
            check(got == list(range(seen, seen + len(got))) and len(got) <= n, "rows of a fetch", got)
            seen += len(got)
            if at < 3 and n > at - (seen - len(got)):
                check(x.kind == "err", "failure of the row source is hidden", (at, seen))
                broken = True
            elif x.kind == "err":
                fail("fetch failed")
            else:
                check(not (x.status & LAST_ROW_SENT) or seen == 3, "exhaustion is flagged while rows remain")
        # another execution starts over
        if P.flag("again"):
            at_, x = at, c.execute(st.stmt_id, flags=1)
            check(x.kind == "cursor", "no cursor was opened", x.msg)
            y = c.fetch(st.stmt_id, 1, x.cols)
            if at > 0:
                check(y.kind == "fetch" and [row[0][1] for row in y.rows] == [0], "rows of a new cursor", y.rows)
        return [at, how, seen]


CASES.append(Case("failing", failing, weight=3, max_paths=8000))


def empty(P):
    """statements without a result set open no cursor; a cursor survives statements of other kinds"""
    ret = P.choice("ret", ["none", "empty", "norows"])

    def handler(s, e, sql, attrs):
        if ret == "none":
            return None
        if ret == "empty":
            return [], []
        return [], ["a", "b"]
    hub, w, c = setup(P, handler)
    with w:
        st = c.prepare(b"SELECT a FROM t")
        r = c.execute(st.stmt_id, flags=1)
        n = P.int("n", 0, U32, 1)
        if ret != "norows":
            check(r.kind == "ok", "OK expected", r.kind)
            x = c.fetch(st.stmt_id, n, [])
            check(x.kind == "err" and not x.rows, "fetch without a cursor is not an error")
        else:
            check(r.kind == "cursor", "no cursor was opened", r.kind)
            fetch(c, st, n, ([], r.cols), 0, False)
        check(c.ping().kind == "ok", "ping")
        return ret


CASES.append(Case("empty", empty, weight=0.6))

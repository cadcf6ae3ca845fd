"""C03 every command gets exactly one complete, well-formed response (lockstep)"""
from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, RawHub, Users
from harness.proto import *
from harness.cmds import *

CASES = []
META = {
    "quick_s": 110, "thorough_s": 500,
    "bounds": "every command byte 0..255 with every 0..3-octet body; sequences of 2 (thorough 3) commands out of 22 with every "
              "combination of DEPRECATE_EOF / OPTIONAL_RESULTSET_METADATA / QUERY_ATTRIBUTES; arbitrary 32-bit statement ids and fetch "
              "sizes; application failing before the first row, at any row, in a cell, in use() / reset() / schema(); 1..300 columns, "
              "0..1030 rows (sequence number wrap), cells and names of symbolic length up to 70000 and first cells up to 17 MiB; error "
              "messages of symbolic text and length up to 70000; pipelined commands",
    "outside": "rows that do not match the declared columns; applications returning objects outside the documented result forms other "
               "than those sampled by the case garbage",
    "assumptions": ["an ERR packet may take the place of any later packet of a response (that is how a failing statement ends it)"],
}

U32 = 2 ** 32 - 1


def caps_of(P, names=("eof", "opt", "attrs")):
    caps = BASE
    if "eof" in names and P.flag("deprecate_eof", True):
        caps |= DEPRECATE_EOF
    if "opt" in names and P.flag("optional_metadata"):
        caps |= OPTIONAL_METADATA
    if "attrs" in names and P.flag("query_attrs"):
        caps |= QUERY_ATTRS
    return caps


def server_caps():
    from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
    from mysql_mimic.types import Capabilities
    return DEFAULT_SERVER_CAPABILITIES | Capabilities.CLIENT_OPTIONAL_RESULTSET_METADATA


def setup(P, handler, caps=None, raw=True, **kw):
    hub = RawHub(handler) if raw else Hub(handler)
    w = World(session_factory=hub.factory, capabilities=server_caps(), **kw)
    c = Client(w.open())
    c.login(caps=caps_of(P) if caps is None else caps)
    return hub, w, c


OUT = {"ok": "ok", "empty": "rs", "rows": "rs", "bare": "rs", "boom": "err", "bang": "err", "late": "partial", "unenc": "partial"}


def judge(r, want, msg):
    if want == "partial":
        check(r.kind == "rs" and r.final.kind == "err" and len(r.rows) <= 1 or r.kind == "err", msg, r)
    elif want == "rs":
        check(r.kind == "rs" and r.final.kind != "err", msg, r)
    else:
        check(r.kind == want, msg, r)


def alive(c, msg):
    r = c.ping()
    check(r.kind == "ok", "connection is not usable after " + msg)


WORDS = list(OUT)
COMMANDS = ["query", "exec", "cursor", "fetch", "prepare", "reset", "close", "long", "initdb", "ping", "resetconn", "debug",
            "fields", "nofields", "badexec", "badfetch", "badreset", "badclose", "badlong", "unknown", "empty", "chuser"]


FEW = ["query", "exec", "cursor", "fetch", "prepare", "reset", "long", "initdb", "fields", "nofields", "badexec", "badfetch",
       "unknown", "chuser"]


def one(P, c, k, st, msg, words=WORDS, ops=COMMANDS):
    """send one command chosen by the solver and read exactly its response; st: {name: stmt}"""
    op = P.choice("op%d" % k, ops, (3 * k) % len(ops))
    msg = msg + " " + op
    if op in ("query", "exec", "cursor"):
        word = P.choice("word%d" % k, words, 2)
        msg += " " + word
        if op == "query":
            judge(c.query(word.encode()), OUT[word], "response to" + msg)
        else:
            sid = st[word]
            r = c.execute(sid, [], flags=1 if op == "cursor" else 0)
            if op == "cursor":
                if OUT[word] in ("rs", "partial"):
                    check(r.kind == "cursor" and not r.rows, "response to" + msg, r)
                    st["cursor"] = (sid, r.cols)
                else:
                    judge(r, OUT[word], "response to" + msg)
                    if st.get("cursor") and st["cursor"][0] == sid:
                        st["cursor"] = None
            else:
                judge(r, OUT[word], "response to" + msg)
                if st.get("cursor") and st["cursor"][0] == sid:
                    st["cursor"] = None
    elif op == "fetch":
        if st.get("cursor"):
            n = P.int("n%d" % k, 0, U32, 2)
            r = c.fetch(st["cursor"][0], n, st["cursor"][1])
            check(r.kind in ("fetch", "err"), "response to" + msg)
        else:
            r = c.fetch(st["rows"], 1, [])
            check(r.kind == "err", "response to" + msg)
    elif op == "prepare":
        q = P.small("params%d" % k, 0, 2, 1)
        r = c.prepare(b"rows" + b" ?" * q)
        check(r.kind == "prep" and r.num_params == q, "response to" + msg)
        st["ids"].append(r.stmt_id)
    elif op == "reset":
        check(c.stmt_reset(st["rows"]).kind == "ok", "response to" + msg)
        if st.get("cursor") and st["cursor"][0] == st["rows"]:
            st["cursor"] = None
    elif op == "close":
        r = c.prepare(b"rows")
        st["ids"].append(r.stmt_id)
        c.stmt_close(r.stmt_id)
    elif op == "long":
        c.long_data(st["param"], P.int("p%d" % k, 0, 65535, 0), b"data")
    elif op == "initdb":
        check(c.init_db(b"d").kind == "ok", "response to" + msg)
    elif op == "ping":
        check(c.ping().kind == "ok", "response to" + msg)
    elif op == "resetconn":
        check(ask(c, b"\x1f", "simple").kind in ("ok", "err"), "response to" + msg)
    elif op == "debug":
        c.send_command(b"\x0d")
        p = c.next()
        check(p[0] in (0, 0xFE, 0xFF), "response to" + msg)
        c.quiet()
    elif op == "fields":
        r = c.field_list(b"t")
        check(r.kind == "fields" and len(r.cols) == 2, "response to" + msg)
    elif op == "nofields":
        check(c.field_list(b"nosuch").kind == "err", "response to" + msg)
    elif op.startswith("bad"):
        i = P.int("id%d" % k, 0, U32, 4242)
        for s in st["ids"]:
            P.assume(i != s)
        if op == "badexec":
            check(c.execute(i, []).kind == "err", "response to" + msg)
        elif op == "badfetch":
            check(c.fetch(i, 1, []).kind == "err", "response to" + msg)
        elif op == "badreset":
            check(c.stmt_reset(i).kind == "err", "response to" + msg)
        elif op == "badclose":
            c.stmt_close(i)
        else:
            c.long_data(i, P.int("p%d" % k, 0, 65535, 0), b"data")
    elif op == "unknown":
        x = P.choice("byte%d" % k, [b"\x00", b"\x05", b"\x09", b"\x1b", b"\x1d", b"\xff", b"\x80"])
        check(ask(c, x, "simple").kind == "err", "response to" + msg)
    elif op == "empty":
        check(ask(c, b"", "simple").kind == "err", "response to" + msg)
    elif op == "chuser":
        r = ask(c, c.c_change_user(b"v"), "simple")
        check(r.kind == "ok", "response to" + msg, r)
    return msg


def sequence(n, names=("eof", "opt", "attrs")):
    def fn(P):
        hub, w, c = setup(P, rows_handler(), caps_of(P, names))
        with w:
            st = {x: c.prepare(x.encode()).stmt_id for x in WORDS}
            st["param"] = c.prepare(b"rows ?").stmt_id
            st["ids"] = list(st.values())
            check(len(set(st["ids"])) == len(st["ids"]), "statement ids")
            r = c.execute(st["rows"], [], flags=1)
            check(r.kind == "cursor", "no cursor")
            st["cursor"] = (st["rows"], r.cols)
            msg = ""
            for k in range(n):
                msg = one(P, c, k, st, msg, *((WORDS, COMMANDS) if n == 1 else (["rows", "boom", "late"], FEW)))
            alive(c, msg)
            return msg
    return fn


CASES.append(Case("single", sequence(1), weight=2, max_paths=4000))
CASES.append(Case("pairs", sequence(2, ("eof",)), weight=8, max_paths=12000))
CASES.append(Case("triples", sequence(3, ("eof",)), weight=16, max_paths=200000, tier="thorough"))


def streaming(P):
    """the row source (or a cell's encoding) fails at an arbitrary row, in every way rows are sent"""
    from mysql_mimic.errors import MysqlError
    n = P.small("rows", 0, 3, 3)
    at = P.small("at", 0, 4, 2)
    mode = P.choice("mode", ["query", "exec", "fetch"])
    how = P.choice("how", ["raise", "mysqlerror", "cell", "encode"])
    kind = P.choice("source", ["gen", "agen", "list"], 1)
    if kind == "list" and how in ("raise", "mysqlerror"):
        return ["n/a"]
    v = P.int("v", -100, 100, 7)
    bad = ("x", "y") if how == "cell" and mode != "query" else (1, "\ud800")

    def gen():
        for i in range(n):
            if i == at and how == "raise":
                raise ValueError("boom")
            if i == at and how == "mysqlerror":
                raise MysqlError("boom")
            yield bad if i == at and how in ("cell", "encode") else (v + i, "s%d" % i)
        if at == n and how == "raise":
            raise ValueError("boom")
        if at == n and how == "mysqlerror":
            raise MysqlError("boom")

    async def agen():
        for r in gen():
            yield r

    def handler(s, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        rows = agen() if kind == "agen" else gen() if kind == "gen" else list(gen())
        return ResultSet(rows=rows, columns=[ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)])
    hub, w, c = setup(P, handler, caps_of(P, ("eof",)))
    fails = at < n or at == n and how in ("raise", "mysqlerror")
    with w:
        if mode == "query":
            r = c.query(b"SELECT 1")
        else:
            st = c.prepare(b"SELECT 1").stmt_id
            if mode == "exec":
                r = c.execute(st, [])
            else:
                x = c.execute(st, [], flags=1)
                check(x.kind == "cursor", "no cursor", x)
                r = c.fetch(st, P.int("fetch", 0, U32, 10), x.cols)
                if r.kind == "fetch":
                    check(r.final.kind != "err", "fetch")
                check(r.kind in ("fetch", "err"), "fetch")
                alive(c, "fetch")
                return [mode, at, r.kind]
        if fails:
            check(r.kind == "err" or r.final.kind == "err", "failure of the row source is not reported", r)
            if r.kind == "rs":
                check(len(r.rows) <= at, "rows after the failure")
        else:
            check(r.kind == "rs" and r.final.kind != "err" and len(r.rows) == n, "response", r)
        alive(c, "rows")
        return [mode, at, r.kind]


CASES.append(Case("streaming", streaming, weight=4, max_paths=8000))


def unknown(P):
    """every command byte, with short bodies"""
    hub, w, c = setup(P, rows_handler())
    with w:
        b = P.int("cmd", 0, 255, 0)
        n = P.small("len", 0, 3, 1)
        body = P.bytes("body", n)
        for k in (1, 2, 3, 4, 0x0D, 0x0E, 0x11, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F):
            P.assume(b != k)
        r = ask(c, bytes([b]) + body, "simple")
        check(r.kind == "err", "unknown command is answered with", r)
        alive(c, "an unknown command")
        return [int(b), r.code]


CASES.append(Case("unknown", unknown, weight=1, max_paths=2000))


def short(P):
    """known commands with truncated or overlong bodies: exactly one ERR (or the normal response)"""
    hub, w, c = setup(P, rows_handler())
    with w:
        cmd = P.choice("cmd", [0x17, 0x1A, 0x1C, 0x19, 0x18, 0x16, 0x02, 0x04, 0x0E, 0x1F, 0x03])
        n = P.small("len", 0, 5, 1)
        body = P.bytes("body", n, lo=0, hi=127)
        if cmd == 0x17:
            st = c.prepare(b"rows ?").stmt_id
        c.send_command(bytes([cmd]) + body)
        if cmd in (0x18, 0x19):
            # a truncated command may be refused (C07); a complete one has no response, not even when it fails
            if c.has():
                check(n < (6 if cmd == 0x18 else 4), "response to a no-reply command")
                check(c.read_simple().kind == "err", "response to a no-reply command")
        elif cmd in (0x17,):
            r = c.read_query(binary=True)
            check(r.kind == "err", "response", r)
        elif cmd == 0x1C:
            check(c.read_fetch([]).kind == "err", "response")
        elif cmd == 0x16:
            check(c.read_prepare().kind in ("prep", "err"), "response")
        elif cmd == 0x04:
            check(c.read_fields().kind in ("fields", "err"), "response")
        elif cmd == 0x03:
            check(c.read_query().kind in ("ok", "err", "rs"), "response")
        else:
            check(c.read_simple().kind in ("ok", "err"), "response")
        c.quiet()
        alive(c, "a malformed command")
        return [cmd, n]


CASES.append(Case("short", short, weight=4, max_paths=8000))


def shape(P):
    """number of columns and rows; every packet present, numbering beyond 255"""
    ncol = P.choice("cols", [1, 2, 250, 251, 252, 300])
    nrow = P.choice("nrows", [0, 1, 250, 251, 252, 253, 254, 255, 510] if ncol <= 2 else [0, 1, 5])
    mode = P.choice("mode", ["query", "exec", "fetch"])
    rows = [tuple(range(i, i + ncol)) for i in range(nrow)]

    def handler(s, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        return ResultSet(rows=rows, columns=[ResultColumn("c%d" % i, ColumnType.LONG) for i in range(ncol)])
    hub, w, c = setup(P, handler, caps_of(P, ("eof", "opt")))
    with w:
        if mode == "query":
            r = c.query(b"SELECT 1")
        else:
            st = c.prepare(b"SELECT 1").stmt_id
            if mode == "exec":
                r = c.execute(st, [])
            else:
                x = c.execute(st, [], flags=1)
                check(x.kind == "cursor" and len(x.cols) == ncol, "cursor", x)
                n = P.choice("fetch", [0, 1, 254, 600])
                r = c.fetch(st, n, x.cols)
                check(r.kind == "fetch" and len(r.rows) == min(n, nrow), "fetch", r)
                alive(c, "fetch")
                return [ncol, nrow, mode]
        check(r.kind == "rs" and len(r.cols) == ncol and len(r.rows) == nrow and r.final.kind != "err", "response", r)
        alive(c, "rows")
        return [ncol, nrow, mode]


CASES.append(Case("shape", shape, weight=4, max_paths=2000, limit=20000000))


def widths(P):
    """names and cells of any length: no packet of a response can be mistaken for another one"""
    mode = P.choice("mode", ["query", "exec"])
    what = P.choice("what", ["name", "cell", "second", "null", "message", "params"])
    n = P.strblob("text", 0, 70000, 3)
    nul = P.flag("null") if what == "null" else False

    def handler(s, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        from mysql_mimic.errors import MysqlError
        if what == "message":
            raise MysqlError(n)
        if what == "name":
            return ResultSet(rows=[("x",)], columns=[ResultColumn(n, ColumnType.VARCHAR)])
        if what == "second":
            return ResultSet(rows=[("x", n), (n, "x")], columns=[ResultColumn("a", ColumnType.VARCHAR), ResultColumn("b", ColumnType.VARCHAR)])
        return ResultSet(rows=[(None,) if nul else (n,), (None,), ("",)], columns=[ResultColumn("a", ColumnType.VARCHAR)])
    hub, w, c = setup(P, handler, caps_of(P, ("eof", "opt")))
    with w:
        if mode == "query":
            r = c.query(b"SELECT 1")
        else:
            st = c.prepare(b"SELECT 1").stmt_id
            r = c.execute(st, [])
        if what == "message":
            check(r.kind == "err" and r.msg == n.encode(), "ERR message", r)
        else:
            check(r.kind == "rs" and r.final.kind != "err", "response", r)
            check(len(r.rows) == {"name": 1, "second": 2}.get(what, 3), "rows", r)
            if what == "name":
                check(r.cols[0].name == n.encode(), "name")
        alive(c, "response")
        return [mode, what]


CASES.append(Case("widths", widths, weight=2, max_paths=2000))


def huge(P):
    """first cells of 16 MiB and more (their packets start like a terminator)"""
    n = P.strblob("text", 0xFFFFFF - 300, 0xFFFFFF + 300, 0xFFFFFF - 4)
    mode = P.choice("mode", ["query", "exec"])

    def handler(s, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        return ResultSet(rows=[(n,), ("z",)], columns=[ResultColumn("a", ColumnType.VARCHAR)])
    hub, w, c = setup(P, handler, caps_of(P, ("eof",)))
    with w:
        if mode == "query":
            r = c.query(b"SELECT 1")
        else:
            st = c.prepare(b"SELECT 1").stmt_id
            r = c.execute(st, [])
        check(r.kind == "rs" and r.final.kind != "err" and len(r.rows) == 2, "response", r)
        alive(c, "response")
        return [mode]


CASES.append(Case("huge", huge, weight=2, max_paths=200))


def text(P):
    """texts that the results character set cannot represent: still one well-formed response"""
    cs = P.choice("charset", ["latin1", "ascii", "utf8mb4", "cp1251"])
    what = P.choice("what", ["name", "message", "exception", "cell", "second"])
    mode = P.choice("mode", ["query", "exec"])
    s = P.str("s", P.small("len", 1, 2, 1), ranges=((0x20, 0xD7FF), (0xE000, 0x10FFFF)), default="\u20ac\u044f")

    def handler(se, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        from mysql_mimic.charset import CharacterSet
        from mysql_mimic.errors import MysqlError
        if "SETUP" in sql:
            se.variables.set("character_set_results", cs)
            return None
        if what == "message":
            raise MysqlError(s)
        if what == "exception":
            raise ValueError(s)
        col = ResultColumn("a", ColumnType.VARCHAR, character_set=CharacterSet[cs]) if what == "cell" else ResultColumn("a", ColumnType.VARCHAR)
        if what == "second":
            return ResultSet(rows=[("x", "y")], columns=[col, ResultColumn(s, ColumnType.VARCHAR)])
        if what == "name":
            return ResultSet(rows=[("x",)], columns=[ResultColumn(s, ColumnType.VARCHAR)])
        return ResultSet(rows=[("x",), (s,), ("y",)], columns=[col])
    hub, w, c = setup(P, handler, caps_of(P, ("eof",)))
    with w:
        check(c.query(b"SETUP").kind == "ok", "setup")
        if mode == "query":
            r = c.query(b"SELECT 1")
        else:
            st = c.prepare(b"SELECT 1").stmt_id
            r = c.execute(st, [])
        if what in ("message", "exception"):
            check(r.kind == "err", "response", r)
        else:
            check(r.kind in ("rs", "err"), "response", r)
        alive(c, "response")
        return [cs, what, mode]


CASES.append(Case("text", text, weight=4, max_paths=3000))


def callbacks(P):
    """application callbacks other than query() failing"""
    from mysql_mimic.errors import MysqlError, ErrorCode
    what = P.choice("what", ["use", "reset-stmt", "schema", "query", "sqluse", "show"])
    how = P.choice("how", ["mysqlerror", "exception", "none"])
    code = P.choice("code", list(ErrorCode))

    def boom():
        if how == "mysqlerror":
            raise MysqlError("boom", code)
        if how == "exception":
            raise KeyError("boom")
    hub = Hub(lambda s, e, sql, attrs: boom(), schema={"t": {"a": "int"}}, on_schema=lambda s: (boom(), {"d": {"t": {"a": "int"}}})[1])
    base = hub.factory

    def factory():
        s = base()

        async def use(database):
            if what in ("use", "sqluse"):
                boom()

        async def reset():
            if what == "reset-stmt":
                boom()
        s.use, s.reset = use, reset
        return s
    w = World(session_factory=factory)
    c = Client(w.open())
    c.login(caps=caps_of(P, ("eof",)))
    bad = how != "none"
    with w:
        if what == "use":
            r = c.init_db(b"d")
        elif what == "reset-stmt":
            r = c.stmt_reset(c.prepare(b"SELECT 1 FROM t").stmt_id)
        elif what == "schema":
            check(c.init_db(b"d").kind == "ok", "init_db")
            r = c.field_list(b"t")
            check(r.kind == ("err" if bad else "fields"), "response", r)
            alive(c, what)
            return [what, how]
        elif what == "show":
            r = c.query(b"SHOW TABLES FROM d")
            check(r.kind == ("err" if bad else "rs"), "response", r)
            alive(c, what)
            return [what, how]
        elif what == "sqluse":
            r = c.query(b"USE d")
        else:
            r = c.query(b"SELECT a FROM t")
        check(r.kind == ("err" if bad else "ok"), "response", r)
        if how == "mysqlerror":
            check(r.code == int(code), "error code", r)
        alive(c, what)
        return [what, how]


CASES.append(Case("callbacks", callbacks, weight=2, max_paths=2000))


def garbage(P):
    """what is not a result is an error, reported once"""
    opts = ["5", "abc", "single", "norows", "nocols", "notiter", "typed-str", "onlycols", "emptycols", "colsint", "aiter-bad", "triple"]
    what = P.choice("what", opts)
    mode = P.choice("mode", ["query", "exec", "cursor"])

    def handler(s, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        if what == "5":
            return 5
        if what == "abc":
            return "abc"
        if what == "single":
            return ([(1,)],)
        if what == "norows":
            return (None, ["a"])
        if what == "nocols":
            return ([(1,)], None)
        if what == "notiter":
            return ResultSet(rows=7, columns=[ResultColumn("a", ColumnType.LONG)])
        if what == "typed-str":
            return ResultSet(rows=[("x",)], columns=[ResultColumn("a", ColumnType.LONG)])
        if what == "onlycols":
            return ResultSet(rows=None, columns=[ResultColumn("a", ColumnType.LONG)])
        if what == "emptycols":
            return ([], [])
        if what == "colsint":
            return ([(1,)], [3])
        if what == "triple":
            return ([(1,)], ["a"], 5)

        class A:
            def __aiter__(self):
                return 3
        return ResultSet(rows=A(), columns=[ResultColumn("a", ColumnType.LONG)])
    hub, w, c = setup(P, handler, caps_of(P, ("eof",)))
    with w:
        if mode == "query":
            r = c.query(b"SELECT 1")
        else:
            st = c.prepare(b"SELECT 1").stmt_id
            r = c.execute(st, [], flags=1 if mode == "cursor" else 0)
            if r.kind == "cursor":
                f = c.fetch(st, 5, r.cols)
                check(f.kind in ("err", "fetch"), "fetch", f)
        check(r.kind in ("ok", "err", "rs", "cursor"), "response", r)
        alive(c, what)
        return [what, mode, r.kind]


CASES.append(Case("garbage", garbage, weight=1, max_paths=500))


def pipeline(P):
    """commands that arrive together are answered one after the other"""
    caps = caps_of(P, ("eof",)) 
    hub, w, c = setup(P, rows_handler(), caps)
    with w:
        st = {x: c.prepare(x.encode()).stmt_id for x in ("rows", "late")}
        ops, data = [], b""
        for k in range(3):
            op = P.choice("op%d" % k, ["ping", "rows", "late", "boom", "exec", "close", "cursor", "unknown", "prep"], k)
            ops.append(op)
            p = {"ping": b"\x0e", "rows": b"\x03rows", "late": b"\x03late", "boom": b"\x03boom", "unknown": b"\x07",
                 "prep": b"\x16rows ? ?"}.get(op)
            if op == "exec":
                p = c.c_execute(st["rows"])
            elif op == "cursor":
                p = c.c_execute(st["late"], flags=1)
            elif op == "close":
                p = b"\x19" + u(77, 4)
            data = data + frame(p, 0)[0]
        c.peer.feed(data)
        raw = c.peer.raw()
        c.peer.read_pos = 0
        c.buf = raw
        c.peer.read_pos = len(c.peer.sock.out)
        for op in ops:
            # numbering restarts with every command: parse lazily, one response at a time
            c.pk, c.seq = [], 1
            rd = Lazy(c)
            if op in ("ping", "unknown"):
                r = rd.read("simple")
                check(r.kind == ("ok" if op == "ping" else "err"), "response to " + op)
            elif op in ("rows", "late", "boom"):
                judge(rd.read("query"), OUT[op], "response to " + op)
            elif op == "exec":
                judge(rd.read("exec"), "rs", "response to " + op)
            elif op == "cursor":
                check(rd.read("cursor").kind == "cursor", "response to " + op)
            elif op == "prep":
                check(rd.read("prep").kind == "prep", "response to " + op)
        check(len(c.buf) == 0, "unsolicited bytes")
        alive(c, " ".join(ops))
        return ops


class Lazy:
    """takes packets off c.buf one at a time"""

    def __init__(self, c):
        self.c = c

    def read(self, kind):
        c = self.c
        saved = c.next

        def nxt():
            n = len(c.buf)
            check(n >= 4, "the server sent no (complete) response")
            ln = int.from_bytes(c.buf[:3], "little")
            check(n >= 4 + ln, "the server sent no (complete) response")
            check(c.buf[3] == c.seq % 256, "sequence number of server packet is not the successor of the previous one")
            c.seq = (c.seq + 1) % 256
            p = c.buf[4:4 + ln]
            c.buf = c.buf[4 + ln:]
            return p
        c.next = nxt
        try:
            return read(c, kind)
        finally:
            c.next = saved


CASES.append(Case("pipeline", pipeline, weight=4, max_paths=6000))


def chuser(P):
    """COM_CHANGE_USER in all its authentication variants keeps the numbering"""
    from mysql_mimic.auth import AuthPlugin, Success, Forbidden, NativePasswordAuthPlugin, User
    rounds = P.small("rounds", 0, 3, 1)
    ok = P.flag("ok", True)

    class Chat(AuthPlugin):
        name = "chat"
        client_plugin_name = "chat_client"

        async def auth(self, auth_info=None):
            if not auth_info:
                auth_info = yield b"hello"
            for i in range(rounds):
                auth_info = yield b"more%d" % i
            if ok:
                yield Success(auth_info.user.name)
            else:
                yield Forbidden()

    users = Users({"u": User("u", "", "mysql_native_password"), "v": User("v", "", "chat")}, [NativePasswordAuthPlugin(), Chat()])
    hub = RawHub(rows_handler())
    w = World(session_factory=hub.factory, identity_provider=users)
    c = Client(w.open())
    c.login(caps=caps_of(P, ("eof",)))
    with w:
        plugin = P.choice("plugin", [b"chat_client", b"mysql_native_password"])
        c.send_command(c.c_change_user(b"v", plugin=plugin))
        seen = 0
        while True:
            r = c.auth_result()
            if r.kind == "switch":
                check(seen == 0 and plugin != b"chat_client" and r.plugin == b"chat_client", "auth switch", r)
            elif r.kind != "more":
                break
            seen += 1
            check(seen <= rounds + 1, "too many authentication packets")
            c.send(b"answer", seq=c.seq)
        check(r.kind == ("ok" if ok else "err"), "response to COM_CHANGE_USER", r)
        if ok:
            c.quiet()
            alive(c, "change user")
            judge(c.query(b"rows"), "rs", "query")
        else:
            c.quiet()
            check(c.peer.closed, "connection remains after failed change user")
        return [rounds, ok, seen]


CASES.append(Case("chuser", chuser, weight=1, max_paths=500))


def multi(P):
    """several statements in one COM_QUERY: one response, that of the last"""
    words = ["SELECT a FROM t", "SELECT 1", "SET @a = 1", "SHOW VARIABLES", "SELECT boom FROM t", "BEGIN", "SELECT late FROM t", "USE d"]
    h = rows_handler()
    hub, w, c = setup(P, lambda s, e, sql, attrs: h(s, e, e.sql(), attrs), caps_of(P, ("eof",)), raw=False)
    with w:
        n = P.small("n", 1, 3, 2)
        parts = [P.choice("s%d" % k, words, k) for k in range(n)]
        sep = P.choice("sep", [";", "; "])
        r = c.query(sep.join(parts).encode())
        check(r.kind in ("ok", "err", "rs"), "response", r)
        alive(c, "several statements")
        return [parts, r.kind]


CASES.append(Case("multi", multi, weight=3, max_paths=3000))

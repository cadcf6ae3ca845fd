"""C08 connections do not interfere: each behaves as if it were alone"""
import asyncio

from harness import clock
from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, RawHub, Users
from harness.proto import *
from mysql_mimic import context
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, NativePasswordAuthPlugin, User
from mysql_mimic.errors import MysqlError
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType
from mysql_mimic.variables import SYSTEM_VARIABLES

CASES = []
META = {
    "quick_s": 110, "thorough_s": 500,
    "bounds": "2 (thorough 3) connections; every ordered pair of 29 stateful operations (variables, SET_VAR hints, character sets, database, "
              "user, time zone, transactions, prepared statements, long data, cursors, queries in progress, failing and malformed "
              "commands, disconnects) in 4 orders, followed by probes of the complete session state of both; programs of 5 "
              "commands each under every interleaving of their packets, at the granularity of whole commands and of event loop "
              "iterations, with queries completing and sockets draining in any order; arbitrary statement ids, parameter numbers, "
              "values and fetch sizes; arbitrary receive windows; handshakes in any interleaving; connections that come and go; "
              "assignments of 2 values to every variable in 9 forms",
    "outside": "GLOBAL variables (not supported by mysql-mimic); applications that share one session object or their own state",
    "assumptions": ["the reference is the same program of the connection run alone against a fresh server"],
}

COLS = [ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)]
VARS = ["auto_increment_increment", "autocommit", "character_set_client", "character_set_connection", "character_set_results",
        "collation_connection", "external_user", "max_execution_time", "net_write_timeout", "sql_mode", "sql_select_limit", "time_zone",
        "transaction_isolation", "transaction_read_only", "version"]
U32 = 2 ** 32 - 1


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    async def check(self, username, password):
        return username if password == "pw" else None


def identity():
    users = {}
    for n in ("u0", "u1", "u2", "w0", "w1", "w2"):
        users[n] = User(n, auth_string=None, auth_plugin="mysql_native_password")
    for n in ("p0", "p1"):
        users[n] = User(n, auth_string=NativePasswordAuthPlugin.create_auth_string("pw" + n), auth_plugin="mysql_native_password")
    users["c"] = User("c", auth_plugin="clear")
    return Users(users, [NativePasswordAuthPlugin(), Clear()])


class Side:
    """a server with some of the connections"""

    def __init__(self, raw=False):
        clock.install()
        clock.reset()
        self.futures = {}
        self.hub = (RawHub if raw else Hub)(self.handler)
        if not raw:
            self.hub.schema = {"db0": {"t": {"a": "int"}}, "db1": {"t": {"b": "int"}}}
        self.w = World(session_factory=self.hub.factory, identity_provider=identity())
        self.c = {}
        self.index = {}

    def join(self, i, charset=255):
        c = Client(self.w.open())
        r = c.login(b"u%d" % i, caps=BASE | DEPRECATE_EOF | QUERY_ATTRS, charset=charset)
        check(r.kind == "ok", "login", r)
        self.c[i] = c
        self.index[len(self.hub.sessions) - 1] = i
        c.all = b""
        return c

    def handler(self, s, e, sql, attrs):
        i = self.index.get(s.index)
        if hasattr(s, "connection"):
            check(context.connection_id.get() == s.connection.connection_id, "connection id in the context of the query")
        who = "%s %s %s %s" % (s.username, s.database, sql, sorted(attrs.items()))
        if hasattr(s, "connection"):
            who += " " + " ".join("%s" % s.variables.get(v) for v in VARS)
        if "boom" in sql:
            raise MysqlError("boom " + str(s.username))
        if "park" in sql:
            f = asyncio.get_running_loop().create_future()
            self.futures.setdefault(i, []).append(f)
            return self.parked(f, who)
        if "late" in sql:
            f = asyncio.get_running_loop().create_future()
            self.futures.setdefault(i, []).append(f)
            return ResultSet(rows=self.late(f, who), columns=COLS)
        return ResultSet(rows=[(1, who), (None, "caf\u00e9"), (3, "z")], columns=COLS)

    async def parked(self, f, who):
        await f
        return ResultSet(rows=[(7, who)], columns=COLS)

    async def late(self, f, who):
        yield (1, who)
        await f
        yield (2, "late")

    def release(self, i, run=True):
        fs = self.futures.get(i, [])
        for f in fs:
            if not f.done():
                f.set_result(None)
        if run:
            self.w.run()

    def waiting(self, i):
        return any(not f.done() for f in self.futures.get(i, []))

    def feed(self, i, payload, run=True):
        c = self.c[i]
        if payload is EOF:
            c.peer.eof(run)
        elif payload is RESET:
            c.peer.reset(run)
        elif payload is RELEASE:
            self.release(i, run)
        else:
            seq = 0
            if type(payload) is tuple:
                payload, seq = payload
            c.peer.feed(frame(payload, seq)[0], run)

    def raw(self, i):
        c = self.c[i]
        c.all = c.all + c.peer.raw()
        return c.all

    def settle(self):
        for k in range(6):
            for i in self.c:
                self.release(i)


EOF, RESET, RELEASE = "eof", "reset", "release"


FIRST = []


def S():
    """the id that the server gives to the first statement of a connection"""
    if not FIRST:
        s = Side(raw=True)
        with s.w:
            FIRST.append(int(s.join(0).prepare(b"x").stmt_id))
    return FIRST[0]


def q(sql, attrs=None):
    b = b"\x03" + lenenc(len(attrs or [])) + b"\x01"
    if attrs:
        b = b + params_block(attrs, True)
    return b + sql


def ex(i, flags=0, params=()):
    b = b"\x17" + u(i, 4) + bytes([flags]) + u(1, 4)
    if params:
        b = b + lenenc(len(params)) + params_block(list(params), True)
    return b


def par(v, t=T_VARCHAR, n=None):
    return (b"", t, False, lenstr(v) if t == T_VARCHAR else u(v, n))


def chuser(name, auth=b"", db=b"", charset=255, plugin=b"mysql_native_password"):
    return b"\x11" + name + b"\0" + bytes([len(auth)]) + auth + db + b"\0" + u(charset, 2) + plugin + b"\0"


def ops(i):
    """stateful operations; i distinguishes the values of the two connections"""
    n = b"%d" % i
    return {
        "none": [],
        "set": [q(b"SET @@net_write_timeout = 10" + n)],
        "multi": [q(b"SET autocommit = 0, sql_mode = 'mode" + n + b"', sql_select_limit = 1" + n)],
        "default": [q(b"SET net_write_timeout = 5" + n), q(b"SET net_write_timeout = DEFAULT")],
        "names": [q(b"SET NAMES latin1" if i else b"SET NAMES cp1251")],
        "charset": [q(b"SET CHARACTER SET latin1" if i else b"SET CHARACTER SET latin2")],
        "tz": [q(b"SET time_zone = '+0" + n + b":30'")],
        "use": [q(b"USE db" + n)],
        "initdb": [b"\x02db" + n],
        "trx": [q(b"SET TRANSACTION READ ONLY" if i else b"SET TRANSACTION ISOLATION LEVEL SERIALIZABLE")],
        "begin": [q(b"BEGIN"), q(b"COMMIT" if i else b"ROLLBACK")],
        "hint": [q(b"SELECT /*+ SET_VAR(max_execution_time=6" + n + b") */ a FROM t")],
        "hint-parked": [q(b"SELECT /*+ SET_VAR(max_execution_time=7" + n + b") SET_VAR(sql_mode='h" + n + b"') */ park FROM t")],
        "hint-fail": [q(b"SELECT /*+ SET_VAR(max_execution_time=8" + n + b") */ boom FROM t")],
        "parked": [q(b"SELECT park FROM t" + n)],
        "streaming": [q(b"SELECT late FROM t")],
        "attrs": [q(b"SELECT a FROM t", [(b"k" + n, T_VARCHAR, False, lenstr(b"v" + n))])],
        "prepare": [b"\x16SELECT p" + n + b" FROM t WHERE a = ?"],
        "execute": [b"\x16SELECT e" + n + b" FROM t WHERE a = ?", ex(S(), 0, [par(b"x" + n)])],
        "long": [b"\x16SELECT l" + n + b" FROM t WHERE a = ?", b"\x18" + u(S(), 4) + u(0, 2) + b"data" + n],
        "cursor": [b"\x16SELECT c" + n + b" FROM t", ex(S(), 1), b"\x1c" + u(S(), 4) + u(1, 4)],
        "close": [b"\x16SELECT d" + n + b" FROM t", b"\x16SELECT dd" + n + b" FROM t", b"\x19" + u(S(), 4)],
        "reset": [b"\x16SELECT r" + n + b" FROM t WHERE a = ?", b"\x18" + u(S(), 4) + u(0, 2) + b"r" + n, b"\x1a" + u(S(), 4)],
        "chuser": [chuser(b"w" + n, b"", b"db" + n, 33 if i else 8)],
        "resetconn": [b"\x1f"],
        "half": [chuser(b"c", b"", b"db" + n, plugin=b"other")],
        "bad": [q(b"SELECT FROM WHERE"), b"\x63", b"\x17\x01"],
        "quit": [b"\x01"],
        "eof": [q(b"SELECT park FROM t"), EOF],
        "drop": [q(b"SELECT late FROM t"), RESET],
    }


NAMES = list(ops(0))
GONE = ("quit", "eof", "drop")

def PROBE():
    return [q(("SELECT " + ", ".join("@@" + v for v in VARS) + ", DATABASE(), USER(), CURRENT_USER(), NOW(), SCHEMA(), SESSION_USER(), SYSTEM_USER(), CURRENT_USER, VERSION()").encode()), q(b"SELECT a FROM t"), ex(S(), 0, [par(b"y")]),
            ex(S()), b"\x1c" + u(S(), 4) + u(2, 4), b"\x16SELECT q FROM t WHERE a = ? AND b = ?"]


def run(side, i, packets):
    for p in packets:
        side.feed(i, p)


MEMO = {}


def alone(i, name):
    """responses of the operation and the probes on a fresh server, without other connections"""
    S()
    key = (i, name)
    if key not in MEMO:
        check(World.current is None, "internal: the reference needs a process without other servers")
        s = Side()
        with s.w:
            s.join(i)
            run(s, i, ops(i)[name])
            a = len(s.raw(i))
            probe(s, i, name)
            s.settle()
            MEMO[key] = (s.raw(i), a)
    return MEMO[key]


def probe(s, i, name):
    if name == "half":
        s.feed(i, (b"pw\0", 2))
    if name not in GONE:
        run(s, i, PROBE())


def progress(s, i, name, msg):
    """a connection with nothing to wait for has its responses already"""
    if not s.waiting(i):
        full, _ = alone(i, name)
        check(s.raw(i) == full, msg, [s.raw(i), full])


def pairs(part, parts):
    def fn(P):
        x = P.choice("a", NAMES[part::parts])
        y = P.choice("b", NAMES, 5)
        order = P.choice("order", ["ab", "ba", "late", "again"])
        alone(0, x), alone(1, y)
        s = Side()
        with s.w:
            if order == "again":
                # the other connection came and went before this one existed
                s.join(1)
                run(s, 1, ops(1)[y])
                if s.c[1].peer.closed is False:
                    s.c[1].peer.eof()
                s.release(1)
                check(s.c[1].peer.closed, "connection does not end")
                s.join(0)
                run(s, 0, ops(0)[x])
                probe(s, 0, x)
                progress(s, 0, x, "an earlier connection changed the responses of this one")
                s.release(0)
                check(s.raw(0) == alone(0, x)[0], "an earlier connection changed the responses of this one", [s.raw(0), alone(0, x)[0]])
                return [x, y, order]
            s.join(0 if order != "late" else 1)
            if order != "late":
                s.join(1)
            if order == "ab":
                run(s, 0, ops(0)[x])
                run(s, 1, ops(1)[y])
            else:
                run(s, 1, ops(1)[y])
                if order == "late":
                    s.join(0)
                run(s, 0, ops(0)[x])
            probe(s, 0, x)
            probe(s, 1, y)
            # nobody waits for the other one's query
            progress(s, 0, x, "another connection's query in progress delays the responses of this one")
            progress(s, 1, y, "another connection's query in progress delays the responses of this one")
            s.release(1)
            progress(s, 1, y, "another connection's query in progress delays the responses of this one")
            s.settle()
            for i, n in ((0, x), (1, y)):
                check(s.raw(i) == alone(i, n)[0], "another connection changed the responses of this one", [s.raw(i), alone(i, n)[0]])
            return [x, y, order]
    return fn


for _k in range(8):
    CASES.append(Case("pairs-%d" % _k, pairs(_k, 8), weight=7, max_paths=4000))


# ---------------------------------------------------------------------------------------------- interleavings

def programs(P, i):
    """programs of 5 packets; symbolic values"""
    n = b"%d" % i
    s = str(i)
    v = P.int("v" + s, 0, 2 ** 31 - 1, 5 + i)
    k = P.int("k" + s, 0, U32, 1 + i)
    ident = P.int("id" + s, 0, U32, S())
    par_no = P.int("par" + s, 0, 65535, 0)
    return {
        "stmts": [b"\x16s" + n + b" ? ?", b"\x18" + u(ident, 4) + u(par_no, 2) + b"long" + n, ex(S(), 0, [par(b"p" + n), par(v, T_LONG, 4)]),
                  b"\x1a" + u(ident, 4), ex(ident, 0, [par(b"q" + n), par(3 + i, T_LONG, 4)])],
        "cursor": [b"\x16c" + n + b" ?", ex(S(), 1, [par(v, T_LONG, 4)]), b"\x1c" + u(ident, 4) + u(k, 4), b"\x1c" + u(S(), 4) + u(1, 4), b"\x19" + u(ident, 4)],
        "queries": [q(b"x" + n, [(b"a" + n, T_LONG, False, u(v, 4))]), b"\x02base" + n, q(b"park" + n), q(b"boom"), q(b"y" + n)],
        "users": [chuser(b"w" + n, b"", b"d" + n, 33 if i else 8), q(b"x"), chuser(b"c", b"", b"e" + n, plugin=b"other"), (b"pw\0", 2), q(b"late" + n)],
    }


PROGS = ["stmts", "cursor", "queries", "users"]


def drive(P, s, progs, grain, order):
    """feed the packets of the programs in the order given; grain: event loop iterations after each packet (None: all)"""
    pos = [0] * len(progs)
    for i in order:
        s.feed(i, progs[i][pos[i]], run=grain is None)
        pos[i] += 1
        if grain is not None:
            s.w.steps(grain)
        if s.waiting(i) and P.flag("release%d.%d" % (i, pos[i]), True):
            s.release(i, run=grain is None)
            if grain is not None:
                s.w.steps(grain)


def solo(i, prog):
    s = Side(raw=True)
    with s.w:
        s.join(i)
        for p in prog:
            s.feed(i, p)
            s.release(i)
        s.settle()
        return s.raw(i)


def interleave(pa, grains, k=2):
    def fn(P):
        names = [pa] + [P.choice("p%d" % i, PROGS, (PROGS.index(pa) + i) % 4) for i in range(1, k)]
        progs = [programs(P, i)[names[i]] for i in range(k)]
        grain = P.choice("grain", grains)
        left = [len(p) for p in progs]
        order = []
        while any(left):
            can = [i for i in range(k) if left[i]]
            if len(can) == 1:
                i = can[0]
            else:
                i = P.choice("turn%d" % len(order), can, len(order) % len(can))
            order.append(i)
            left[i] -= 1
        want = [solo(i, progs[i]) for i in range(k)]
        s = Side(raw=True)
        with s.w:
            for i in range(k):
                s.join(i)
            drive(P, s, progs, grain, order)
            s.w.run()
            for i in range(k):
                if not s.waiting(i):
                    check(s.raw(i) == want[i], "responses are delayed or changed by another connection", [s.raw(i), want[i]])
            s.settle()
            for i in range(k):
                check(s.raw(i) == want[i], "responses differ from those of the connection alone", [s.raw(i), want[i]])
            return [names, grain, order]
    return fn


for _p in PROGS:
    CASES.append(Case("interleave-" + _p, interleave(_p, [None, 1, 2]), weight=10, max_paths=20000))
    CASES.append(Case("interleave3-" + _p, interleave(_p, [None, 1], 3), weight=16, max_paths=200000, tier="thorough"))


DYNAMIC = sorted(k for k, v in SYSTEM_VARIABLES.items() if v[2])
FIXED = sorted(k for k, v in SYSTEM_VARIABLES.items() if not v[2])


def values_of(name):
    """two values of the variable's type"""
    d = SYSTEM_VARIABLES[name][1]
    if name.startswith("character_set"):
        return [b"'latin1'", b"'cp1251'"]
    if name.startswith("collation"):
        return [b"'latin1_swedish_ci'", b"'utf8mb4_bin'"]
    if name == "time_zone":
        return [b"'+05:30'", b"'-11:00'"]
    if isinstance(d, bool):
        return [b"0", b"1"]
    if isinstance(d, int) or name == "sql_select_limit":
        return [b"17", b"1234567"]
    return [b"'one'", b"'two'"]


FORMS = [b"SET %s = %s", b"SET @@%s = %s", b"SET SESSION %s = %s", b"SET LOCAL %s = %s", b"SET GLOBAL %s = %s", b"SET @@session.%s = %s",
         b"SELECT /*+ SET_VAR(%s = %s) */ a FROM t", b"SELECT /*+ SET_VAR(%s = %s) */ @@version", b"SET %s = %s, %s = DEFAULT"]


def variable(part, parts):
    """any assignment to any variable, in any form: the variables of other connections, present and future, stay the same"""
    def fn(P):
        name = P.choice("name", (DYNAMIC + FIXED)[part::parts])
        value = P.choice("value", values_of(name))
        form = P.choice("form", FORMS)
        n = name.encode()
        sql = form % ((n, value, n) if form.count(b"%s") == 3 else (n, value))
        clock.install()
        clock.reset()
        hub = Hub()
        w = World(session_factory=hub.factory)
        show = b"SHOW VARIABLES"

        def state(c):
            r = c.query(show)
            check(r.kind == "rs", "SHOW VARIABLES", r)
            return r.rows
        with w:
            a, b = Client(w.open()), Client(w.open())
            check(a.login(b"a").kind == "ok" and b.login(b"b").kind == "ok", "login")
            before = state(b)
            user = [r for r in before if r[0] == b"external_user"]
            check(user == [[b"external_user", b"b"]], "user of the other connection", user)
            r = a.query(sql)
            check(state(b) == before, "a statement of one connection changes the variables of another one", (sql, r.kind))
            c = Client(w.open())
            check(c.login(b"b").kind == "ok", "login")
            check(state(c) == before, "a statement of one connection changes the variables of a new one", (sql, r.kind))
            a.quit()
            check(state(b) == before, "the end of one connection changes the variables of another one", sql)
            return [name, sql, r.kind]
    return fn


for _k in range(4):
    CASES.append(Case("variable-%d" % _k, variable(_k, 4), weight=4, max_paths=3000))


def stalled(P):
    """one connection's peer stops reading, at any point of its response; the other one is served meanwhile"""
    win = P.int("window", 0, 70000, 100)
    n = P.int("n", 0, 2 ** 31 - 1, 5)
    pa = [b"\x16s ?", ex(S(), 1, [par(n, T_LONG, 4)]), b"\x1c" + u(S(), 4) + u(P.int("k", 0, U32, 2), 4), q(b"x"), b"\x0e"]
    pb = [b"\x16t ?", ex(S(), 0, [par(n + 1, T_LONG, 4)]), q(b"y"), b"\x0e"]
    want_a, want_b = solo(0, pa), solo(1, pb)
    s = Side(raw=True)
    with s.w:
        a, b = s.join(0), s.join(1)
        a.peer.sock.window = win
        at = P.small("at", 0, 4, 2)
        for i, p in enumerate(pa):
            s.feed(0, p)
            if i == at:
                for x in pb:
                    s.feed(1, x)
                check(s.raw(1) == want_b, "a peer that doesn't read delays or changes the responses of another connection")
        a.peer.sock.window = None
        s.w.run()
        check(s.raw(0) == want_a, "responses differ from those of the connection alone", [s.raw(0)])
        return [at, len(s.raw(0))]


CASES.append(Case("stalled", stalled, weight=4, max_paths=4000))


def text(P):
    """results are encoded with the character set of their own connection"""
    x = P.str("x", 2, ((0x20, 0x7e), (0xa0, 0xff), (0x410, 0x44f)), default="\u00e9\u0416")
    sets = [(b"latin1", "cp1252"), (b"cp1251", "cp1251"), (b"utf8mb4", "utf-8"), (b"koi8r", "koi8-r")]
    ca = P.choice("ca", sets)
    cb = P.choice("cb", sets, 1)
    grain = P.choice("grain", ["whole", "between"])

    def handler(s, e, sql, attrs):
        if sql == "hold":
            f = asyncio.get_running_loop().create_future()
            side.futures.setdefault(side.index[s.index], []).append(f)
            return side.parked2(f)
        s.variables.set("character_set_results", sql)
        return None
    side = Side(raw=True)
    side.hub.handler = handler

    async def parked2(f):
        await f
        return ResultSet(rows=[(1, x)], columns=[COLS[0], ResultColumn(x, ColumnType.VARCHAR)])
    side.parked2 = parked2
    with side.w:
        side.join(0)
        side.join(1)
        if grain == "whole":
            side.feed(0, q(ca[0]))
            side.feed(1, q(cb[0]))
            side.feed(0, q(b"hold"))
            side.feed(1, q(b"hold"))
        else:
            side.feed(0, q(ca[0]))
            side.feed(0, q(b"hold"))
            side.feed(1, q(cb[0]))
            side.feed(1, q(b"hold"))
        side.release(P.choice("first", [0, 1]))
        side.settle()
        for i, (_, codec) in ((0, ca), (1, cb)):
            c = side.c[i]
            c.pipelined = True
            check(c.read_query().kind == "ok", "set")
            r = c.read_query()
            try:
                want = x.encode(codec)
            except UnicodeEncodeError:
                want = None
            if want is not None:
                check(r.kind == "rs" and r.cols[1].name == want, "text in another connection's character set", [r.cols[1].name, want])
        return [grain]


CASES.append(Case("text", text, weight=3, max_paths=3000))


def handshakes(P):
    """authentication exchanges in any interleaving, each with its own nonce"""
    s = Side(raw=True)
    with s.w:
        who = [P.choice("who%d" % i, ["p", "u", "bad", "switch", "swapped"], i) for i in range(2)]
        cs = [Client(s.w.open()), Client(s.w.open())]
        for c in cs:
            c.read_greeting()
            c.caps = BASE | DEPRECATE_EOF
        check(cs[0].nonce != cs[1].nonce and cs[0].conn_id != cs[1].conn_id, "nonce or connection id is shared")
        turns = P.choice("turns", [(0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 0, 1, 0), (1, 1, 0, 0)])
        grain = P.choice("grain", [None, 1, 2])
        stage = [0, 0]
        done = [None, None]
        for t in turns:
            c = cs[t]
            n = b"p%d" % t
            if stage[t] == 0:
                if who[t] == "u":
                    b = c.response41(b"u%d" % t, b"", c.caps)
                elif who[t] == "switch":
                    b = c.response41(n, b"", c.caps, plugin=b"x")
                else:
                    x = cs[1 - t] if who[t] == "swapped" else c
                    b = c.response41(n, native(b"wrong" if who[t] == "bad" else b"pw" + n, x.nonce), c.caps)
                c.send(b, seq=1, run=grain is None)
            elif who[t] == "switch":
                s.w.run()
                r = c.auth_result()
                check(r.kind == "switch", "no switch")
                c.send(native(b"pw" + n, r.data[:20]), seq=c.seq, run=grain is None)
            if grain is not None:
                s.w.steps(grain)
            stage[t] += 1
        s.w.run()
        for t, c in enumerate(cs):
            r = c.auth_result()
            ok = who[t] in ("p", "u", "switch")
            check(r.kind == ("ok" if ok else "err"), "outcome of an authentication depends on another connection", [who, t, r])
            if ok:
                check(s.hub.sessions[t].username == ("u%d" if who[t] == "u" else "p%d") % t, "user of another connection")
            else:
                check(s.hub.sessions[t].inits == 0, "session of a refused client")
        return [who, turns]


CASES.append(Case("handshakes", handshakes, weight=3, max_paths=3000))


def kills(P):
    """KILL affects nobody but its target"""
    x = P.choice("a", ["parked", "streaming", "hint-parked", "set", "half", "cursor", "none"])
    y = P.choice("b", ["parked", "streaming", "none", "cursor"])
    kind = P.choice("kind", [b"KILL %d", b"KILL QUERY %d", b"KILL CONNECTION %d"])
    alone(0, x), alone(0, "none")
    s = Side()
    with s.w:
        a, b, c = s.join(0), s.join(1), s.join(2)
        run(s, 0, ops(0)[x])
        run(s, 1, ops(1)[y])
        s.feed(2, q(kind % b.conn_id))
        c.seq = 1
        check(c.read_query().kind in ("ok", "rs"), "KILL")
        probe(s, 0, x)
        progress(s, 0, x, "KILL of another connection changed the responses of this one")
        s.settle()
        check(s.raw(0) == alone(0, x)[0], "KILL of another connection changed the responses of this one")
        d = s.join(0)
        run(s, 0, PROBE())
        check(s.raw(0) == alone(0, "none")[0], "KILL of another connection changed the responses of a later one")
        return [x, y, kind]


CASES.append(Case("kills", kills, weight=3, max_paths=2000))


def triples(P):
    """two others"""
    x = P.choice("a", NAMES)
    y = P.choice("b", NAMES, 5)
    z = P.choice("c", NAMES, 9)
    alone(0, x), alone(1, y), alone(2, z)
    s = Side()
    with s.w:
        for i in range(3):
            s.join(i)
        for i, n in ((0, x), (1, y), (2, z)):
            run(s, i, ops(i)[n])
        for i, n in ((0, x), (1, y), (2, z)):
            probe(s, i, n)
        for i, n in ((0, x), (1, y), (2, z)):
            progress(s, i, n, "another connection's query in progress delays the responses of this one")
        s.settle()
        for i, n in ((0, x), (1, y), (2, z)):
            check(s.raw(i) == alone(i, n)[0], "another connection changed the responses of this one", [s.raw(i), alone(i, n)[0]])
        return [x, y, z]


CASES.append(Case("triples", triples, weight=30, max_paths=50000, tier="thorough"))

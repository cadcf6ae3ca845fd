"""C09 KILL QUERY spares the connection; KILL CONNECTION ends exactly the target"""
import asyncio

from harness.case import Case
from harness.world import World, check, fail
from harness.proto import *
from harness.c10 import Reg
from mysql_mimic.auth import AuthPlugin, Success, NativePasswordAuthPlugin, IdentityProvider, User
from mysql_mimic.constants import KillKind
from mysql_mimic.errors import MysqlError
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.session import BaseSession, Session
from mysql_mimic.types import ColumnType
from mysql_mimic.variables import SessionVariables, GlobalVariables

CASES = []
META = {
    "quick_s": 120, "thorough_s": 600,
    "bounds": "one or two kills (QUERY / CONNECTION), each before any event loop iteration of a conversation made of one command of "
              "any of 22 kinds, a PING and a query; issued through Control or by a KILL statement of another connection; the "
              "application suspends in every callback and between rows, propagates, delays or swallows cancellation; reader stopped "
              "or not; application call pending for good; kills of the own connection; arbitrary unknown 64-bit connection ids; prepared statements and the cursor afterwards",
    "outside": "more than two kills (thorough: three) in one conversation",
    "assumptions": ["an ERR packet may take the place of any packet of the killed statement's response",
                    "the stream of a connection ended by KILL CONNECTION may stop after any complete packet",
                    "KILL of the own connection or of an unknown id may be answered with OK or ERR"],
}

class Hub:
    def __init__(self):
        self.sessions = []
        self.mode = "plain"
        self.waits = 2
        self.wide = False
        self.nrows = 2
        self.forever = None       # name of the callback that never returns
        self.stuck = None
        self.calls = []
        self.use_session = 0      # sessions after this many are SQL sessions

    def factory(self):
        cls = Target if not self.sessions else Sql
        s = cls(self)
        self.sessions.append(s)
        return s

    async def wait(self, name):
        try:
            if self.forever == name:
                self.stuck = name
                await asyncio.get_running_loop().create_future()
            for i in range(self.waits):
                await asyncio.sleep(0)
        except asyncio.CancelledError:
            self.stuck = None
            if self.mode == "swallow":
                return
            if self.mode == "cleanup":
                await asyncio.sleep(0)
                await asyncio.sleep(0)
            if self.mode == "translate":
                raise MysqlError("cancelled") from None
            raise


class Target(BaseSession):
    def __init__(self, hub):
        self.hub = hub
        self.variables = SessionVariables(GlobalVariables())
        self.username = None
        self.database = None
        self.inits = self.closes = 0
        self.inited = False

    async def init(self, connection):
        self.inits += 1
        self.connection = connection
        await self.hub.wait("init")
        self.inited = True

    async def close(self):
        self.closes += 1
        await self.hub.wait("close")

    async def use(self, database):
        await self.hub.wait("use")
        self.database = database

    async def reset(self):
        await self.hub.wait("reset")

    async def handle_query(self, sql, attrs):
        hub = self.hub
        self.hub.calls.append(sql)
        if "quick" in sql:
            return [(7,)], ["q"]
        await hub.wait("query")
        if "boom" in sql:
            raise MysqlError("boom")
        if "none" in sql:
            return None
        if sql[:4] == "SHOW":
            return [("a", "int", "YES", "", None, None), ("b", "int", "YES", "", None, None)], \
                ["Field", "Type", "Null", "Key", "Default", "Extra"]
        if "peek" in sql:
            async def peeked():
                for i in range(2):
                    await hub.wait("row")
                    yield (i,)
            return peeked(), ["a"]

        async def rows():
            for i in range(hub.nrows):
                await hub.wait("row")
                yield (i, "v" if not hub.wide else hub.cell)
        return ResultSet(rows=rows(), columns=[ResultColumn("a", ColumnType.LONG),
                                               ResultColumn(hub.name if hub.wide else "b", ColumnType.VARCHAR)])


class Sql(Session):
    """killers and bystanders"""

    def __init__(self, hub):
        super().__init__()
        self.hub = hub
        self.inits = self.closes = 0
        self.inited = False

    async def init(self, connection):
        self.inits += 1
        await super().init(connection)
        self.inited = True

    async def close(self):
        self.closes += 1

    async def query(self, expression, sql, attrs):
        return [(1,)], ["one"]


class Chat(AuthPlugin):
    name = "chat"
    client_plugin_name = "chat_client"

    def __init__(self, hub):
        self.hub = hub

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"hello"
        await self.hub.wait("auth")
        yield Success(auth_info.user.name)


class Ids(IdentityProvider):
    def __init__(self, hub):
        self.hub = hub
        self.plugins = [NativePasswordAuthPlugin(), Chat(hub)]

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        await self.hub.wait("get_user")
        return User(username, "", "chat" if username == "v" else "mysql_native_password")


def ex(i, flags):
    return b"\x17" + u(i, 4) + bytes([flags]) + u(1, 4)


# name: (payload, kind of response, expected without a kill)
OPS = {
    "query": (b"\x03SELECT rows", "query", "rs"),
    "none": (b"\x03none", "query", "ok"),
    "peek": (b"\x03peek", "query", "rs"),
    "boom": (b"\x03boom", "query", "err"),
    "prepare": (b"\x16SELECT ? FROM rows", "prep", "prep"),
    "long": (b"\x18" + u(0, 4) + u(0, 2) + b"data", "none", None),
    "exec": (ex(0, 0), "exec", "rs"),
    "execnone": (ex(1, 0), "exec", "ok"),
    "cursor": (ex(0, 1), "cursor", "cursor"),
    "fetch": (b"\x1c" + u(2, 4) + u(1, 4), "fetch", "fetch"),
    "fetchall": (b"\x1c" + u(2, 4) + u(9, 4), "fetch", "fetch"),
    "use": (b"\x02db", "simple", "ok"),
    "fields": (b"\x04t\0", "fields", "fields"),
    "chuser": (None, "auth", "ok"),
    "chusers": (None, "auth", "ok"),
    "reset": (b"\x1a" + u(0, 4), "simple", "ok"),
    "close": (b"\x19" + u(1, 4), "none", None),
    "ping": (b"\x0e", "simple", "ok"),
    "resetconn": (b"\x1f", "simple", "ok"),
    "debug": (b"\x0d", "simple", "ok"),
    "unknown": (b"\x07", "simple", "err"),
    "badexec": (ex(77, 0), "exec", "err"),
}


class Kill:
    def __init__(self, P, name, kinds=("QUERY", "CONNECTION"), hows=("api", "statement"), top=45):
        self.at = P.int(name + ".at", 0, top, 3)
        self.kind = P.choice(name + ".kind", list(kinds))
        self.how = P.choice(name + ".how", list(hows))
        self.fired = None          # iteration
        self.phase = None


class Stage:
    """the target connection and the schedule of kills"""

    def __init__(self, P, hub, eof=True, login=True):
        self.P, self.hub = P, hub
        self.reg = Reg()
        self.w = World(session_factory=hub.factory, identity_provider=Ids(hub), control=self.reg)
        self.n = 0
        self.kills = []
        self.phase = "start"
        self.killer = None
        self.sent = 0              # KILL statements not answered yet
        self.ended = False         # KILL CONNECTION was issued
        self.c = Client(self.w.open(run=login))
        self.caps = BASE | (DEPRECATE_EOF if eof else 0)
        if login:
            self.c.login(caps=self.caps)
        self.t = hub.sessions[0] if hub.sessions else None

    def bystander(self):
        k = Client(self.w.open())
        k.login()
        return k

    def arm(self, kills):
        if any(k.how == "statement" for k in kills):
            self.killer = self.bystander()
        self.n = 0
        self.kills = kills
        return self

    @property
    def target(self):
        return self.reg.ever[0]

    def fire(self, k):
        k.fired = self.n
        k.phase = self.phase
        if k.kind == "CONNECTION":
            self.ended = True
        self.sent += 1
        text = {"QUERY": "KILL QUERY %d", "CONNECTION": "KILL %d"}[k.kind] % self.target
        self.killer.send_command(b"\x03" + self.killer_prefix() + text.encode(), run=False)

    def killer_prefix(self):
        return b"\x00\x01" if self.killer.caps & QUERY_ATTRS else b""

    def spin(self):
        """iterations until nothing happens any more"""
        w = self.w
        while True:
            for k in self.kills:
                if k.fired is None and k.at == self.n:
                    if k.how == "api":
                        self.now(k)
                    elif self.sent == 0:
                        self.fire(k)
                    else:
                        self.P.assume(False)       # the killer waits for its response
            self.n += 1
            if not w.steps(1):
                break
            if self.sent and self.killer.has():
                self.answered()
        if self.sent:
            check(self.killer.has(), "KILL statement is not answered")
            self.answered()

    def now(self, k):
        """Control.kill called between two iterations"""
        if not self.reg.ever:
            return                 # no such connection yet
        k.fired = self.n
        k.phase = self.phase
        if k.kind == "CONNECTION":
            self.ended = True
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(self.w.loop)
        try:
            co = self.w.server.control.kill(self.target, KillKind[k.kind])
            try:
                co.send(None)
                raise RuntimeError("LocalControl.kill suspends")
            except StopIteration:
                pass
        finally:
            asyncio._set_running_loop(old)

    def answered(self):
        r = self.killer.read_query()
        check(r.kind == "ok" or r.kind == "rs", "KILL statement failed", r)
        self.killer.quiet()
        self.sent = 0

    def in_phase(self, name):
        return [k for k in self.kills if k.fired is not None and k.phase == name]

    def command(self, name, payload):
        self.phase = name
        self.c.send_command(payload, run=False)
        self.spin()


def read_as(c, kind, cols=None):
    if kind == "simple":
        return c.read_simple()
    if kind == "query":
        return c.read_query()
    if kind == "exec":
        return c.read_query(binary=True)
    if kind == "cursor":
        return c.read_query(binary=True, cursor=True)
    if kind == "prep":
        return c.read_prepare()
    if kind == "fields":
        return c.read_fields()
    if kind == "fetch":
        return c.read_fetch(cols)
    raise RuntimeError(kind)


def failed(r):
    return r.kind == "err" or r.kind in ("rs", "fetch") and r.final is not None and r.final.kind == "err"


def gone(st, msg):
    """after KILL CONNECTION"""
    c, hub = st.c, st.hub
    p = c.peer
    if not p.closed:
        p.sock.window = None
        st.w.run()
    if OPS[st.op][1] != "auth":        # there, the client's packets may cross the last one of the server
        c.pump()                       # whole packets, numbered in order
        check(not c.partial and len(c.buf) == 0, "the stream ends within a packet" + msg, c.buf)
    check(p.closed, "KILL CONNECTION does not end the connection" + msg)
    if st.t is not None:
        check(st.t.closes == (1 if st.t.inited else 0), "session closed %d times" % st.t.closes + msg)
    check(st.target not in st.reg.live, "killed connection remains registered" + msg)
    n = 0
    if st.killer is not None:
        n = 1
        check(not st.killer.peer.closed, "KILL ended its own connection" + msg)
        check(st.killer.ping().kind == "ok", "killer is not served" + msg)
        check(hub.sessions[1].closes == 0, "session of the killer is closed" + msg)
    check(len(st.reg.live) == n, "registry" + msg)


def conversation(st, op, msg):
    """the command under test, then PING and a query; the kills strike at any time"""
    c, hub, P = st.c, st.hub, st.P
    st.op = op
    payload, kind, want = OPS[op]
    if kind == "auth":
        st.command("op", c.c_change_user(b"v" if op == "chuser" else b"u", plugin=b"mysql_native_password"))
        if st.ended:
            return gone(st, msg)
        r = c.auth_result()
        while r.kind in ("switch", "more"):
            c.send(b"answer" if op == "chuser" else b"", seq=c.seq, run=False)
            st.spin()
            if st.ended:
                return gone(st, msg)
            r = c.auth_result()
        check(r.kind == "ok", "KILL QUERY breaks an authentication" + msg, r)
        c.quiet()
    else:
        st.command("op", payload)
        if not st.ended and c.peer.sock.window is not None:
            # the reader takes up again
            c.peer.sock.window = None
            st.spin()
        if st.ended:
            return gone(st, msg)
        r = None
        if kind != "none":
            r = read_as(c, kind, st.cols)
            # before the bytes arrived nothing was executing
            hits = [k for k in st.in_phase("op") if k.fired > st.start or k.how == "statement"]
            if failed(r) and want != "err":
                check(hits, "statement fails though no kill arrived while it was executing" + msg, r)
            if not failed(r):
                check(r.kind == want, "response" + msg, r.kind)
                if r.kind == "rs" and op in ("query", "exec"):
                    check(len(r.rows) == hub.nrows, "rows are missing" + msg, len(r.rows))
        c.quiet()
    # the connection is usable and in step
    st.command("ping", b"\x0e")
    if st.ended:
        return gone(st, msg)
    r = c.read_simple()
    hits = [k for k in st.in_phase("ping") if k.fired > st.start2]
    check(r.kind == "ok" or hits, "PING fails" + msg, r)
    c.quiet()
    st.command("query", b"\x03quick")
    if st.ended:
        return gone(st, msg)
    r = c.read_query()
    hits = st.in_phase("query")
    check(r.kind == "rs" and r.rows == [[b"7"]] or hits and failed(r), "query fails" + msg, r)
    c.quiet()
    if all(k.fired is not None for k in st.kills) and op not in ("chuser", "chusers", "resetconn"):
        # so are its prepared statements and its cursor
        st.hub.waits = 0
        r = c.execute(1) if op != "close" else None
        check(r is None or r.kind == "ok", "a prepared statement is lost after KILL QUERY" + msg, r)
        if op not in ("fetch", "fetchall"):
            r = c.fetch(2, 1, st.cols)
            check(not failed(r) and len(r.rows) == 1, "the cursor is lost after KILL QUERY" + msg, r)
    check(c.peer.closed is False and st.t.closes == 0, "KILL QUERY ended the connection" + msg)
    check(st.target in st.reg.live, "connection is not registered any more" + msg)
    if st.killer is not None:
        check(st.killer.ping().kind == "ok", "killer is not served" + msg)


def run_op(P, op, nk, modes, hows, wide=False, eof=None):
    hub = Hub()
    hub.mode = P.choice("mode", modes)
    eof = P.flag("deprecate_eof", True) if eof is None else eof
    hub.waits = 0
    st = Stage(P, hub, eof)
    with st.w:
        c = st.c
        c.prepare(b"SELECT rows")
        c.prepare(b"none")
        st.cols = []
        st.cols = c.execute(c.prepare(b"SELECT rows").stmt_id, flags=1).cols
        hub.waits = 2
        if wide:
            hub.wide = True
            hub.name = P.strblob("name", 32000, 36000, 36000) if op in ("query", "exec", "cursor") else "b"
            hub.cell = P.strblob("cell", 32000, 70000, 70000) if op in ("fetch", "fetchall") else "v"
            c.peer.sock.window = 0
        kills = [Kill(P, "kill%d" % i, hows=hows) for i in range(nk)]
        if OPS[op][1] == "auth" and hub.mode == "swallow":
            # the client would have to answer before the connection can end
            P.assume(all(k.kind == "QUERY" for k in kills))
        st.arm(kills)
        st.start = st.start2 = 0
        conversation(st, op, " (%s, %s)" % (op, ", ".join(k.kind for k in kills)))
        for k in kills:
            if k.fired is None:
                P.note("late kill")
        return [op, hub.mode, [k.fired for k in kills]]


def single(ops, modes=("plain", "cleanup", "swallow", "translate"), hows=("api", "statement")):
    def fn(P):
        op = P.choice("op", ops)
        return run_op(P, op, 1, list(modes), list(hows))
    return fn


names = list(OPS)
CASES.append(Case("one-a", single(names[:8]), weight=4, max_paths=6000, maxconds=4000, limit=4000000))
CASES.append(Case("one-b", single(names[8:15]), weight=4, max_paths=6000, maxconds=4000, limit=4000000))
CASES.append(Case("one-c", single(names[15:]), weight=3, max_paths=6000, maxconds=4000, limit=4000000))


def double(ops, modes=("plain", "cleanup")):
    def fn(P):
        op = P.choice("op", ops)
        return run_op(P, op, 2, list(modes), ["api"], eof=True)
    return fn


for o in names:
    CASES.append(Case("two-" + o, double([o]), weight=3 if o in ("query", "exec", "peek", "chuser") else 1.5, max_paths=3000, maxconds=4000))


def blocked(ops, nk):
    """the client does not read: the kill strikes while the response waits for the socket"""
    def fn(P):
        op = P.choice("op", ops)
        return run_op(P, op, nk, ["plain"], ["api"], wide=True)
    return fn


CASES.append(Case("blocked", blocked(["query", "exec", "cursor", "fetch", "boom", "prepare", "ping"], 1), weight=5, max_paths=3000,
                  maxconds=4000, limit=8000000))


def parked(P):
    """the application call never returns: a kill is the only way out"""
    hub = Hub()
    where = {"query": ["query", "none", "boom", "exec", "cursor", "fields", "peek"], "row": ["query", "exec", "fetchall", "peek", "fetch"],
             "use": ["use"], "reset": ["reset", "chusers"], "get_user": ["chuser"], "auth": ["chuser"]}
    name = P.choice("where", list(where))
    op = P.choice("op", where[name])
    hub.mode = P.choice("mode", ["plain", "cleanup", "translate"])
    hub.waits = 0
    st = Stage(P, hub, P.flag("deprecate_eof", True))
    with st.w:
        c = st.c
        c.prepare(b"SELECT rows")
        c.prepare(b"none")
        st.cols = c.execute(c.prepare(b"SELECT rows").stmt_id, flags=1).cols
        st.op = op
        hub.waits = 1
        hub.forever = name
        st.arm([])
        payload, kind, want = OPS[op]
        msg = " (%s, application waits in %s)" % (op, name)
        if kind == "auth":
            st.command("op", c.c_change_user(b"v" if op == "chuser" else b"u"))
            if hub.stuck is None:
                r = c.auth_result()
                check(r.kind == "switch", "auth switch")
                c.send(b"x", seq=c.seq, run=False)
                st.spin()
        else:
            st.command("op", payload)
        check(hub.stuck == name, "application is not waiting" + msg)
        first = P.choice("first", ["QUERY", "CONNECTION", "none"])
        second = P.choice("second", ["QUERY", "CONNECTION"])
        for i, kd in enumerate([first, second]):
            if kd == "none":
                continue
            k = Kill.__new__(Kill)
            k.kind, k.how, k.fired, k.phase, k.at = kd, "api", None, None, None
            if i == 1 and first != "none":
                w = P.small("gap", 0, 4, 1)
                st.w.steps(w)
            st.now(k)
        st.spin()
        if st.ended:
            return gone(st, msg)
        if kind == "auth":
            # nothing is executing: the kill has no effect
            check(hub.stuck == name and not c.has(), "KILL QUERY interferes with an authentication" + msg)
            return name
        check(c.has(), "KILL QUERY does not abort a statement inside the application" + msg)
        r = read_as(c, kind, st.cols)
        check(failed(r), "a killed statement does not end with an ERR packet" + msg, r.kind)
        c.quiet()
        hub.forever = None
        check(c.ping().kind == "ok", "PING fails" + msg)
        r = c.query(b"SELECT rows")
        check(r.kind == "rs" and len(r.rows) == hub.nrows and not failed(r), "query fails" + msg)
        check(st.t.closes == 0, "session is closed" + msg)
        return [name, op]


CASES.append(Case("parked", parked, weight=3, max_paths=4000, maxconds=4000))


def login(nk):
    return lambda P: login_case(P, nk)


def login_case(P, nk):
    """kills while the client connects and authenticates, and while the session is being closed"""
    hub = Hub()
    hub.mode = P.choice("mode", ["plain", "cleanup"])
    st = Stage(P, hub, login=False)
    with st.w:
        c, w = st.c, st.w
        user = P.choice("user", [b"u", b"v"])
        st.op = "chuser"
        st.arm([Kill(P, "kill%d" % i, hows=["api"]) for i in range(nk)])
        st.spin()
        st.t = hub.sessions[0]
        msg = " (login)"
        if st.ended:
            return gone(st, msg)
        c.read_greeting()
        c.caps = st.caps & c.greeting.caps
        st.phase = "login"
        c.send(c.response41(user, b"", c.caps), seq=c.seq, run=False)
        st.spin()
        if st.ended:
            return gone(st, msg)
        r = c.auth_result()
        while r.kind in ("switch", "more"):
            c.send(b"answer", seq=c.seq, run=False)
            st.spin()
            if st.ended:
                return gone(st, msg)
            r = c.auth_result()
        check(r.kind == "ok", "KILL QUERY breaks the login", r)
        c.quiet()
        st.command("query", b"\x03SELECT rows")
        if st.ended:
            return gone(st, msg)
        r = c.read_query()
        check(not failed(r) or st.in_phase("query"), "query fails" + msg, r)
        c.quiet()
        st.phase = "quit"
        c.send_command(b"\x01", run=False)
        st.spin()
        check(c.peer.closed and st.t.closes == 1 and not st.reg.live, "COM_QUIT does not end the connection" + msg)
        c.pump()
        check(not c.pk, "response to COM_QUIT" + msg)
        return [k.fired for k in st.kills]


CASES.append(Case("login", login(1), weight=1, max_paths=9000, maxconds=4000))
CASES.append(Case("login-2", login(2), weight=12, max_paths=90000, maxconds=4000, tier="thorough"))


def unknown(P):
    """ids that belong to no connection"""
    hub = Hub()
    hub.waits = 0
    st = Stage(P, hub, True)
    with st.w:
        w, c = st.w, st.c
        k = st.bystander()
        busy = P.flag("busy")
        if busy:
            hub.forever = "query"
            c.send_command(b"\x03SELECT rows")
            check(hub.stuck, "application is not waiting")
        kind = P.choice("kind", ["QUERY", "CONNECTION"])
        i = P.int("id", -2 ** 63, 2 ** 65, 7)
        for j in st.reg.ever:
            P.assume(i != j)
        how = P.choice("how", ["api", "statement"])
        if how == "api":
            w.loop.complete(w.server.control.kill(i, KillKind[kind]))
            w.run()
        else:
            # texts with a number that belongs to nobody
            old = st.reg.ever[0]
            n = P.choice("text", ["0", "1", str(old + 7), "4294967295", "99999999999999999999", "'%d'" % (old + 9)] +
                         [str(old + 2 ** b) for b in (16, 24, 31, 32, 64)] + ["'%d'" % (old + 2 ** 32), "-%d" % old])
            r = k.query(b"KILL " + (b"QUERY " if kind == "QUERY" else b"") + n.encode())
            check(r.kind in ("ok", "err"), "response to KILL", r)
        check(k.ping().kind == "ok", "killer")
        if busy:
            check(hub.stuck and not c.has(), "a kill of an unknown id hits a running statement")
        else:
            check(c.ping().kind == "ok", "a kill of an unknown id hits a connection")
            r = c.query(b"SELECT rows")
            check(not failed(r), "a kill of an unknown id hits a connection")
        check(len(st.reg.live) == 2 and all(s.closes == 0 for s in hub.sessions), "a kill of an unknown id ends a connection")
        return [kind, how, busy]


CASES.append(Case("unknown", unknown, weight=0.6, max_paths=400))


def suicide(P):
    """a connection kills itself, alone or in the middle of several statements"""
    hub = Hub()
    hub.sessions.append(None)                 # the first connection is a Session already
    reg = Reg()
    w = World(session_factory=hub.factory, identity_provider=Ids(hub), control=reg)
    with w:
        hub.waits = 0
        a, b = Client(w.open()), Client(w.open())
        a.login()
        b.login()
        me = reg.ever[0]
        kind = P.choice("kind", ["KILL QUERY %d", "KILL %d", "KILL CONNECTION %d", "kill query %d", "Kill connection %d"])
        before = P.choice("before", ["", "SELECT 1; ", "SELECT a FROM t; ", "SET @@time_zone = '+01:00'; "])
        after = P.choice("after", ["", "; SELECT 1", "; KILL QUERY %d" % me, "; KILL %d" % me])
        text = before + kind % me + after
        ended = "query" not in kind.lower() or after == "; KILL %d" % me
        api = P.flag("prepared")
        if api:
            p = a.prepare(text.encode())
            a.send_command(a.c_execute(p.stmt_id))
            r = a.read_query(binary=True)
        else:
            a.send_command(a.c_query(text.encode()))
            r = a.read_query()
        check(r.kind in ("ok", "err", "rs"), "response to KILL", r)
        a.quiet()
        if ended:
            check(a.peer.closed, "KILL of the own connection does not end it", text)
            check(hub.sessions[1].closes == 1 and me not in reg.live, "connection was not released", text)
        else:
            check(not a.peer.closed and hub.sessions[1].closes == 0, "KILL QUERY of the own connection ends it", text)
            check(a.ping().kind == "ok", "PING fails after KILL QUERY of the own connection", text)
            r = a.query(b"SELECT a FROM t")
            check(r.kind == "rs" and r.rows == [[b"1"]], "query fails after KILL QUERY of the own connection", text)
        check(b.ping().kind == "ok" and hub.sessions[2].closes == 0, "another connection is affected", text)
        r = b.query(b"KILL %d" % me)
        check(r.kind in ("ok", "err"), "second KILL", text)
        check(b.ping().kind == "ok" and (a.peer.closed and me not in reg.live), "second KILL", text)
        return text


CASES.append(Case("suicide", suicide, weight=1, max_paths=300, limit=4000000))


def exact(P):
    """of several busy or idle connections exactly the addressed one is hit"""
    hub = Hub()
    hub.sessions = Only(hub)
    reg = Reg()
    w = World(session_factory=hub.factory, identity_provider=Ids(hub), control=reg)
    with w:
        hub.waits = 0
        cs = [Client(w.open()) for _ in range(3)]
        for c in cs:
            c.login()
        ids = list(reg.ever)
        check(len(set(ids)) == 3, "connection ids")
        check([c.conn_id for c in cs] == ids, "connection ids announced to the clients")
        hub.forever = "query"
        busy = [P.flag("busy%d" % i, True) for i in range(3)]
        for c, f in zip(cs, busy):
            if f:
                c.send_command(b"\x03SELECT rows")
        t = P.small("target", 0, 2, 1)
        i = P.int("id", 0, 2 ** 32 - 1, ids[1])
        P.assume(i == ids[t])
        kind = P.choice("kind", ["QUERY", "CONNECTION"])
        for _ in range(P.small("times", 1, 2)):
            w.loop.complete(w.server.control.kill(i, KillKind[kind]))
        w.run()
        for j, c in enumerate(cs):
            if j != t:
                check(not c.peer.closed and not c.has() and hub.sessions[j].closes == 0, "a kill hits another connection")
            elif kind == "QUERY":
                if busy[j]:
                    check(failed(c.read_query()), "KILL QUERY does not abort the statement")
                c.quiet()
                check(c.ping().kind == "ok" and hub.sessions[j].closes == 0, "KILL QUERY ends the connection")
            else:
                check(c.peer.closed and hub.sessions[j].closes == 1, "KILL CONNECTION does not end the connection")
        check(len(reg.live) == (3 if kind == "QUERY" else 2), "registry")
        return [t, kind, busy]


class Only(list):
    """every connection is a Target"""

    def __init__(self, hub):
        super().__init__()

    def __bool__(self):
        return False


CASES.append(Case("exact", exact, weight=1, max_paths=400))


def twokillers(P):
    """two kills by statements of two other connections"""
    op = P.choice("op", ["query", "exec", "fetchall", "use", "boom"])
    hub = Hub()
    hub.mode = P.choice("mode", ["plain", "cleanup"])
    hub.waits = 0
    st = Stage(P, hub, True)
    with st.w:
        c = st.c
        c.prepare(b"SELECT rows")
        c.prepare(b"none")
        st.cols = c.execute(c.prepare(b"SELECT rows").stmt_id, flags=1).cols
        hub.waits = 2
        kills = [Kill(P, "kill0", hows=["statement"]), Kill(P, "kill1", hows=["api"])]
        st.arm(kills)
        st.start = 0
        conversation(st, op, " (%s, %s)" % (op, ", ".join(k.kind for k in kills)))
        return [op, [k.fired for k in kills]]


CASES.append(Case("twokillers", twokillers, weight=12, max_paths=40000, maxconds=4000, limit=4000000, tier="thorough"))


def triple(P):
    op = P.choice("op", ["query", "exec", "fetchall", "none", "cursor"])
    return run_op(P, op, 3, ["plain", "cleanup"], ["api"], eof=True)


CASES.append(Case("three", triple, weight=15, max_paths=60000, maxconds=4000, tier="thorough"))
CASES.append(Case("blocked-2", blocked(["query", "exec", "cursor", "fetch"], 2), weight=12, max_paths=30000, maxconds=4000,
                  limit=8000000, tier="thorough"))

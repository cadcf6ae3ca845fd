"""C10 every initialised session is closed exactly once; every connection is released"""
import asyncio

from harness.case import Case
from harness.world import World, check, fail
from harness.proto import *
from mysql_mimic.auth import AuthPlugin, Success, Forbidden, NativePasswordAuthPlugin, IdentityProvider, User
from mysql_mimic.constants import KillKind
from mysql_mimic.control import LocalControl
from mysql_mimic.errors import MysqlError
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.session import BaseSession, Session
from mysql_mimic.types import ColumnType
from mysql_mimic.variables import SessionVariables, GlobalVariables

CASES = []
META = {
    "quick_s": 110, "thorough_s": 500,
    "bounds": "a conversation of 19 packets (login, streamed rows, failing statements, prepare, long data, execute, cursor, fetches, "
              "COM_INIT_DB, COM_FIELD_LIST, COM_CHANGE_USER with auth switch, reset, close, ping, unknown command, COM_QUIT): client "
              "disconnect (EOF or reset) after every byte, failure of every socket send with three errors, an exception of five "
              "kinds from every invocation of every application callback, KILL CONNECTION at every event loop iteration, a wrong "
              "sequence number at every packet, any application callback pending at the end, stopped readers with arbitrary windows, and "
              "pairs of these",
    "outside": "exceptions other than Exception and CancelledError (KeyboardInterrupt, SystemExit); a peer that neither reads nor "
               "disconnects after its connection was ended with data still unsent (the transport keeps the data for it)",
    "assumptions": ["the content of a packet cut short is represented by opaque octets of arbitrary number"],
}


class Reg(LocalControl):
    def __init__(self):
        super().__init__(server_id=1)
        self.live = {}
        self.ever = []

    async def add(self, connection):
        i = await super().add(connection)
        self.live[i] = connection
        self.ever.append(i)
        return i

    async def remove(self, connection_id):
        self.live.pop(connection_id, None)
        await super().remove(connection_id)


class Hub:
    """application with fault points: every callback invocation is numbered"""

    def __init__(self):
        self.n = 0
        self.fault = None           # number of the callback that raises
        self.exc = None
        self.park = None            # number of the callback that waits
        self.future = None
        self.parked = None
        self.sessions = []
        self.log = []
        self.raised = None
        self.long = 0

    def sync(self, name):
        k = self.n
        self.n += 1
        self.log.append(name)
        if self.fault is not None and self.fault == k:
            self.raised = name
            raise self.exc

    async def point(self, name):
        k = self.n
        self.sync(name)
        if self.park is not None and self.park == k:
            self.parked = name
            self.future = asyncio.get_running_loop().create_future()
            await self.future

    def release(self):
        if self.future is not None and not self.future.done():
            self.future.set_result(None)

    def factory(self):
        self.sync("factory")
        s = App(self)
        self.sessions.append(s)
        return s

    async def afactory(self):
        await self.point("factory")
        s = App(self)
        self.sessions.append(s)
        return s


class App(BaseSession):
    def __init__(self, hub):
        self.hub = hub
        self.variables = SessionVariables(GlobalVariables())
        self.username = None
        self.database = None
        self.inits = self.closes = 0
        self.inited = False
        self.after = []

    async def call(self, name):
        if self.closes and name != "close":
            self.after.append(name)
        await self.hub.point(name)

    async def init(self, connection):
        self.inits += 1
        await self.call("init")
        self.inited = True

    async def close(self):
        self.closes += 1
        await self.call("close")

    async def use(self, database):
        await self.call("use")
        self.database = database

    async def reset(self):
        await self.call("reset")

    async def handle_query(self, sql, attrs):
        await self.call("query")
        if "boom" in sql:
            raise MysqlError("boom")
        if sql[:4] == "SHOW":
            return [("a", "int", "YES", "", None, None)], ["Field", "Type", "Null", "Key", "Default", "Extra"]
        if "none" in sql:
            return None
        hub, s = self.hub, self

        async def rows():
            for i in range(3):
                await s.call("row")
                yield (i, "v")
            for i in range(hub.long):
                yield (i, "w" * 1000)

        return ResultSet(rows=rows(), columns=[ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)])


class Chat(AuthPlugin):
    name = "chat"
    client_plugin_name = "chat_client"

    def __init__(self, hub):
        self.hub = hub

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"hello"
        await self.hub.point("auth")
        if auth_info.data == b"no":
            yield Forbidden()
        auth_info = yield b"more"
        await self.hub.point("auth")
        yield Success(auth_info.user.name)


class Ids(IdentityProvider):
    def __init__(self, hub):
        self.hub = hub
        self.plugins = [NativePasswordAuthPlugin(), Chat(hub)]

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        await self.hub.point("get_user")
        if username == "x":
            return None
        return User(username, "", "chat" if username == "v" else "mysql_native_password")


# one packet of the client: (name, payload, first sequence number)
GREET = b"\x85\xa2\x2f\x00" + u(1 << 24, 4) + bytes([255]) + bytes(23)


def login_packet(user, plugin=b"mysql_native_password"):
    caps = PROTOCOL_41 | SECURE | PLUGIN_AUTH
    return u(caps, 4) + u(1 << 24, 4) + bytes([255]) + bytes(23) + user + b"\0" + b"\0" + plugin + b"\0"


def chuser_packet(user):
    return b"\x11" + user + b"\0" + b"\0" + b"db\0" + u(255, 2) + b"mysql_native_password\0"


def ex(i, flags):
    return b"\x17" + u(i, 4) + bytes([flags]) + u(1, 4)


PLAIN = [("login", login_packet(b"u"), 1)]
SWITCH = [("login", login_packet(b"v"), 1), ("switch", b"yes", 3), ("more", b"ok", 5)]
TALK = [
    ("query", b"\x03SELECT rows", 0),
    ("none", b"\x03none", 0),
    ("boom", b"\x03boom", 0),
    ("prepare", b"\x16SELECT rows", 0),
    ("long", b"\x18" + u(0, 4) + u(0, 2) + b"data", 0),
    ("exec", ex(0, 0), 0),
    ("cursor", ex(0, 1), 0),
    ("fetch", b"\x1c" + u(0, 4) + u(2, 4), 0),
    ("use", b"\x02db", 0),
    ("fields", b"\x04t\0", 0),
    ("chuser", chuser_packet(b"v"), 0),
    ("switch", b"yes", 2),
    ("more", b"ok", 4),
    ("fetch2", b"\x1c" + u(0, 4) + u(9, 4), 0),
    ("reset", b"\x1a" + u(0, 4), 0),
    ("close", b"\x19" + u(0, 4), 0),
    ("ping", b"\x0e", 0),
    ("unknown", b"\x07", 0),
]
QUIT = [("quit", b"\x01", 0)]
SHORT = [x for x in TALK if x[0] in ("query", "prepare", "cursor", "fetch", "use")]


class Talk:
    """one client that follows a script, without looking at the answers"""

    def __init__(self, w, hub, reg):
        self.w, self.hub, self.reg = w, hub, reg
        self.peer = None
        self.session = None
        self.id = None

    def open(self, run=True):
        n, m = len(self.hub.sessions), len(self.reg.ever)
        self.peer = self.w.open(run=run)
        self.note(n, m)
        return self

    def note(self, n, m):
        if len(self.hub.sessions) > n:
            self.session = self.hub.sessions[n]
        if len(self.reg.ever) > m:
            self.id = self.reg.ever[m]

    def send(self, step, run=True):
        name, payload, seq = step
        if not self.peer.closed:
            self.peer.feed(frame(payload, seq)[0], run=run)

    def alive(self, msg):
        """between commands"""
        s = self.session
        if s is not None and not self.peer.closed:
            check(s.closes == 0, "session closed while its connection goes on" + msg, self.hub.log)

    def released(self, msg, others=0):
        s = self.session
        msg = " (" + msg + ")"
        if s is not None:
            if s.inited:
                check(s.closes == 1, "session was closed %d times" % s.closes + msg, self.hub.log)
            else:
                check(s.closes == 0, "session closed though it was never initialised" + msg, self.hub.log)
            check(s.inits <= 1, "session initialised twice" + msg, self.hub.log)
            check(not s.after, "application called after its session was closed" + msg, s.after)
        check(self.peer.closed, "socket is left open" + msg, self.hub.log)
        if self.id is not None:
            check(self.id not in self.reg.live, "connection remains registered" + msg, self.hub.log)
        if not others:
            check(not self.reg.live, "registry is not empty" + msg)
            left = self.w.loop.tasks()
            check(not left, "tasks are left running" + msg, [repr(t.get_coro()) for t in left])


def world(hub, afactory=False, **kw):
    reg = Reg()
    w = World(session_factory=hub.afactory if afactory else hub.factory, identity_provider=Ids(hub), control=reg, **kw)
    return w, reg


ENDS = ["eof", "reset"]


def end(t, how):
    if how == "eof":
        t.peer.eof()
    else:
        t.peer.reset()


def cut(script, name):
    """disconnect after every byte of the client's stream"""
    def fn(P):
        hub = Hub()
        w, reg = world(hub)
        with w:
            how = P.choice("how", ENDS)
            k = P.small("packet", 0, len(script), 3)
            t = Talk(w, hub, reg).open()
            for step in script[:k]:
                t.send(step)
                t.alive(" after " + step[0])
            if k < len(script) and not t.peer.closed:
                name, payload, seq = script[k]
                data = frame(payload, seq)[0]
                h = P.small("header", 0, 4)
                if h < 4:
                    t.peer.feed(data[:h])
                else:
                    t.peer.feed(data[:4] + P.blob("body", 0, len(payload) - 1))
                t.alive(" in " + name)
            if not t.peer.closed:
                end(t, how)
            t.released("disconnected in packet %d" % k)
            return [k, how]
    return fn


CASES.append(Case("cut", cut(PLAIN + TALK + QUIT, "cut"), weight=4, max_paths=3000, maxconds=4000))
CASES.append(Case("cut-auth", cut(SWITCH + QUIT, "cut"), weight=1, max_paths=1000))


def write_fail(script):
    """one socket send, and all later ones, fail"""
    def fn(P):
        hub = Hub()
        w, reg = world(hub)
        with w:
            e = P.choice("error", [ConnectionResetError(104, "reset"), BrokenPipeError(32, "broken pipe"), OSError(5, "I/O error")])
            t = Talk(w, hub, reg)
            t.open(run=False)
            t.peer.sock.fail_after = P.int("sends", 0, 40, 3)
            t.peer.sock.fail_exc = e
            w.run()
            t.note(0, 0)
            for step in script:
                t.send(step)
                t.alive(" after " + step[0])
            if not t.peer.closed:
                # the peer is gone for good
                t.peer.eof()
            t.released("failing send")
            return t.peer.sock.sends
    return fn


CASES.append(Case("write", write_fail(PLAIN + TALK + QUIT), weight=3, max_paths=1000, maxconds=4000))
CASES.append(Case("write-auth", write_fail(SWITCH + SHORT), weight=1, max_paths=1000, maxconds=4000))


def errors():
    return [MysqlError("app"), ValueError("app"), asyncio.CancelledError(), ConnectionResetError(104, "app"), EOFError()]


def raising(script, afactory=False):
    """an exception from any application callback"""
    def fn(P):
        hub = Hub()
        w, reg = world(hub, afactory)
        with w:
            hub.exc = P.choice("exception", errors())
            hub.fault = P.int("callback", 0, 50, 4)
            t = Talk(w, hub, reg).open()
            for step in script:
                t.send(step)
                t.alive(" after " + step[0])
                if hub.raised in ("query", "row", "use") and not isinstance(hub.exc, asyncio.CancelledError):
                    check(not t.peer.closed or step[0] == "quit", "connection ended by an exception in " + hub.raised, hub.log)
            if not t.peer.closed and hub.raised is None:
                fail("COM_QUIT does not end the connection")
            if not t.peer.closed:
                t.peer.eof()
            t.released("exception in " + str(hub.raised))
            return [hub.raised, hub.n]
    return fn


CASES.append(Case("raise", raising(PLAIN + TALK + QUIT), weight=4, max_paths=1500, maxconds=4000))
CASES.append(Case("raise-auth", raising(SWITCH + QUIT, True), weight=1, max_paths=1000, maxconds=4000))


def killed(script):
    """KILL CONNECTION before any iteration of the event loop"""
    def fn(P):
        hub = Hub()
        w, reg = world(hub)
        with w:
            at = P.int("at", 0, 250, 20)
            t = Talk(w, hub, reg)
            n = [0]

            def spin():
                while True:
                    if n[0] == at:
                        if t.id is not None:
                            w.loop.complete(w.server.control.kill(t.id, KillKind.CONNECTION))
                    n[0] += 1
                    if not w.steps(1):
                        break
                    t.note(0, 0)
            t.open(run=False)
            spin()
            for step in script:
                if t.peer.closed:
                    break
                t.send(step, run=False)
                spin()
                t.alive(" after " + step[0])
            if not t.peer.closed:
                t.peer.eof()
            t.released("killed")
            return n[0]
    return fn


CASES.append(Case("kill", killed(PLAIN + TALK + QUIT), weight=3, max_paths=1000, maxconds=4000))
CASES.append(Case("kill-auth", killed(SWITCH + QUIT), weight=1, max_paths=1000, maxconds=4000))


def protocol_error(P):
    """a packet with a wrong sequence number, or an unreadable one, anywhere"""
    hub = Hub()
    w, reg = world(hub)
    script = PLAIN + TALK + QUIT
    with w:
        k = P.small("packet", 0, len(script) - 1, 2)
        what = P.choice("what", ["seq", "empty", "short", "byte"])
        t = Talk(w, hub, reg).open()
        for i, (name, payload, seq) in enumerate(script):
            if t.peer.closed:
                break
            if i == k:
                if what == "seq":
                    seq = P.int("seq", 0, 255, 77)
                elif what == "empty":
                    payload = b""
                elif what == "short":
                    payload = payload[:1]
                else:
                    payload = b"\x17" + P.bytes("body", 1)
            t.send((name, payload, seq))
            t.alive(" after " + name)
        if not t.peer.closed:
            t.peer.eof()
        t.released("protocol error in packet %d" % k)
        return [k, what]


CASES.append(Case("protocol", protocol_error, weight=2, max_paths=2000, maxconds=4000))


def pending(script):
    """any application callback is still pending when the client leaves, is killed, or goes on"""
    def fn(P):
        hub = Hub()
        w, reg = world(hub, True)
        with w:
            hub.park = P.int("callback", 0, 40, 3)
            t = Talk(w, hub, reg).open()
            for step in script:
                t.send(step)
                if hub.parked:
                    break
            if not hub.parked:
                P.assume(False)
            events = []
            for i in range(2):
                ev = P.choice("event%d" % i, ["eof", "reset", "kill", "killq", "quit", "ping", "junk", "nothing"], i)
                if t.id is None and ev in ("kill", "killq"):
                    P.assume(False)
                if ev == "nothing":
                    break
                events.append(ev)
                if t.peer.closed:
                    break
                if ev in ENDS:
                    end(t, ev)
                elif ev in ("kill", "killq"):
                    w.loop.complete(w.server.control.kill(t.id, KillKind.CONNECTION if ev == "kill" else KillKind.QUERY))
                    w.run()
                    if ev == "kill" and hub.parked != "close" and not t.peer.closed:
                        fail("a killed connection waits for the application", hub.parked)
                elif ev == "quit":
                    t.peer.feed(b"\x01\0\0\0\x01")
                elif ev == "ping":
                    t.peer.feed(b"\x01\0\0\0\x0e")
                else:
                    t.peer.feed(b"\x05\0\0\x09junk!")
                if hub.parked != "close":
                    t.alive(" while the application is busy")
            hub.release()
            w.run()
            t.note(0, 0)
            t.alive(" after the application finished")
            if not t.peer.closed:
                t.peer.eof()
            t.released("application pending in %s, then %s" % (hub.parked, " ".join(events)))
            return [hub.parked, events]
    return fn


CASES.append(Case("pending", pending(PLAIN + [x for x in TALK if x[0] in ("query", "cursor", "prepare", "fetch", "use", "chuser", "switch", "more")] + QUIT),
                  weight=4, max_paths=6000, maxconds=4000))
CASES.append(Case("pending-auth", pending(SWITCH + QUIT), weight=2, max_paths=3000, maxconds=4000))


def stopped(P):
    """the client stops reading in the middle of a long result, then leaves or is killed"""
    hub = Hub()
    w, reg = world(hub)
    with w:
        t = Talk(w, hub, reg).open()
        for step in PLAIN:
            t.send(step)
        mode = P.choice("mode", ["query", "exec", "fetch"])
        hub.long = 100
        t.send(("prepare", b"\x16SELECT rows", 0))
        if mode == "fetch":
            t.send(("cursor", ex(0, 1), 0))
        # the socket accepts some more sends, the last one possibly in part
        k = P.int("sends", 0, 5, 2)
        sends = [0]
        part = P.choice("part", [0, 1, 20000])

        def on_send():
            sends[0] += 1
            if sends[0] == k:
                t.peer.sock.window = part
        t.peer.sock.on_send = on_send
        if k == 0:
            t.peer.sock.window = part
        t.send({"query": TALK[0], "exec": ("exec", ex(0, 0), 0), "fetch": ("fetch", b"\x1c" + u(0, 4) + u(1000, 4), 0)}[mode])
        t.alive(" while the client does not read")
        events = []
        for i in range(2):
            ev = P.choice("event%d" % i, ["reset", "kill", "killq", "eof", "read", "quit"], i)
            events.append(ev)
            if t.peer.closed:
                break
            if ev in ENDS:
                end(t, ev)
            elif ev in ("kill", "killq"):
                w.loop.complete(w.server.control.kill(t.id, KillKind.CONNECTION if ev == "kill" else KillKind.QUERY))
            elif ev == "read":
                t.peer.sock.on_send = None
                t.peer.sock.window = None
                w.run()
            else:
                t.peer.feed(b"\x01\0\0\0\x01")
            if "kill" in events:
                check(t.session.closes == 1, "session of a killed connection is not closed", events)
        if not t.peer.closed:
            t.peer.reset()
        t.released("not reading, then " + " ".join(events))
        return [mode, events]


CASES.append(Case("stopped", stopped, weight=7, max_paths=3000, maxconds=6000))


def pairs(P):
    """two faults: an exception in one callback and another way of ending in the middle of the conversation"""
    hub = Hub()
    w, reg = world(hub)
    script = PLAIN + SHORT + QUIT
    with w:
        hub.exc = P.choice("exception", [ValueError("app"), asyncio.CancelledError()])
        hub.fault = P.int("callback", 0, 30, 4)
        t = Talk(w, hub, reg).open(run=False)
        second = P.choice("second", ["eof", "reset", "kill", "send"])
        k = P.small("packet", 0, len(script), 3)
        if second == "send":
            t.peer.sock.fail_after = P.int("sends", 0, 20, 3)
            t.peer.sock.fail_exc = BrokenPipeError(32, "broken pipe")
        w.run()
        t.note(0, 0)
        for i, step in enumerate(script):
            if t.peer.closed:
                break
            if i == k:
                if second in ENDS:
                    t.send(step, run=P.flag("run", True))
                    end(t, second)
                    break
                if second == "kill" and t.id is not None:
                    t.send(step, run=False)
                    w.steps(P.small("steps", 0, 6, 2))
                    w.loop.complete(w.server.control.kill(t.id, KillKind.CONNECTION))
                    w.run()
                    check(t.peer.closed, "killed connection goes on")
                    break
            t.send(step)
            t.alive(" after " + step[0])
        if not t.peer.closed:
            t.peer.eof()
        t.released("exception in %s and %s" % (hub.raised, second))
        return [hub.raised, second, k]


CASES.append(Case("pairs", pairs, weight=5, max_paths=8000, maxconds=4000))


def others(P):
    """the end of one connection releases that connection only"""
    hub = Hub()
    w, reg = world(hub)
    with w:
        b = Talk(w, hub, reg).open()
        for step in PLAIN + SHORT:
            b.send(step)
        a = Talk(w, hub, reg).open()
        for step in PLAIN + SHORT:
            a.send(step)
        busy = P.flag("busy")
        if busy:
            hub.park = hub.n
            b.send(TALK[0])
            check(hub.parked == "query", "query was not called")
        how = P.choice("how", ["eof", "reset", "kill", "quit", "exception", "badlogin"])
        c = None
        if how in ENDS:
            end(a, how)
        elif how == "kill":
            w.loop.complete(w.server.control.kill(a.id, KillKind.CONNECTION))
            w.run()
        elif how == "quit":
            a.send(QUIT[0])
        elif how == "exception":
            hub.exc, hub.fault = ValueError("app"), hub.n + 0
            a.send(("chuser", chuser_packet(b"u"), 0))
        else:
            a.send(QUIT[0])
            c = Talk(w, hub, reg).open()
            c.send(("login", login_packet(b"x"), 1))
            c.released("failed login", 1)
        a.released(how, 1)
        check(b.id in reg.live and not b.peer.closed and b.session.closes == 0, "another connection was released", how)
        if busy:
            hub.release()
            w.run()
        b.peer.raw()
        b.send(("ping", b"\x0e", 0))
        check(len(b.peer.raw()) == 11, "another connection is not served")
        b.send(QUIT[0])
        b.released("last one")
        return [how, busy]


CASES.append(Case("others", others, weight=1, max_paths=300))


def refused(P):
    """connections that never get a session: failing factory, full registry, failing registry"""
    hub = Hub()
    why = P.choice("why", ["factory", "afactory", "full", "registry"])
    from mysql_mimic.control import TooManyConnections

    class Bad(Reg):
        async def add(self, connection):
            raise TooManyConnections() if why == "full" else OSError(2, "no registry")
    if why in ("factory", "afactory"):
        hub.fault, hub.exc = 0, P.choice("exception", [ValueError("x"), MysqlError("x"), ConnectionResetError(104, "x")])
    reg = Bad() if why in ("full", "registry") else Reg()
    w = World(session_factory=hub.afactory if why == "afactory" else hub.factory, identity_provider=Ids(hub), control=reg)
    with w:
        t = Talk(w, hub, reg).open(run=False)
        ev = P.choice("event", ["none", "eof", "reset", "send"])
        if ev == "send":
            t.peer.sock.fail_after, t.peer.sock.fail_exc = 0, BrokenPipeError(32, "x")
        if ev in ENDS:
            end(t, ev)
        w.run()
        t.note(0, 0)
        t.released("refused: " + why)
        if why in ("factory", "afactory"):
            hub.fault = None
            t = Talk(w, hub, reg).open()
            t.send(PLAIN[0])
            t.alive("")
            t.send(QUIT[0])
            t.released("after a refused connection")
        return why


CASES.append(Case("refused", refused, weight=0.5, max_paths=200))


def tls(P):
    """the connection ends while TLS is being negotiated"""
    import ssl
    hub = Hub()
    w, reg = world(hub, ssl=ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER))
    with w:
        how = P.choice("how", ["eof", "reset", "kill", "junk", "timeout", "blob", "switched-eof"])
        t = Talk(w, hub, reg).open()
        t.send(("ssl", u(PROTOCOL_41 | SECURE | PLUGIN_AUTH | SSL, 4) + u(1 << 24, 4) + bytes([255]) + bytes(23), 1))
        if how in ENDS:
            end(t, how)
        elif how == "kill":
            w.loop.complete(w.server.control.kill(t.id, KillKind.CONNECTION))
            w.run()
        elif how == "junk":
            t.peer.feed(b"GET / HTTP/1.0\r\n\r\n")
        elif how == "timeout":
            w.loop.sleep(120)
        elif how == "blob":
            t.peer.feed(b"\x16\x03\x01\x40\x00" + b"\x01" * 7)
            end(t, P.choice("end", ENDS))
        else:
            t.peer.feed(b"\x15\x03\x01\x00\x02\x01\x00")
            t.peer.eof()
        w.loop.sleep(120)
        t.released("ended during the TLS handshake: " + how)
        return how


CASES.append(Case("tls", tls, weight=0.5, max_paths=100))


class Sql(Session):
    def __init__(self, hub):
        super().__init__()
        self.hub = hub
        self.inits = self.closes = 0
        self.inited = False
        self.after = []
        hub.sessions.append(self)

    async def call(self, name):
        if self.closes and name != "close":
            self.after.append(name)
        await self.hub.point(name)

    async def init(self, connection):
        self.inits += 1
        await self.call("init")
        await super().init(connection)
        self.inited = True

    async def close(self):
        self.closes += 1
        await self.call("close")
        await super().close()

    async def query(self, expression, sql, attrs):
        await self.call("query")
        s = self

        async def rows():
            for i in range(2):
                await s.call("row")
                yield (i,)
        return rows(), ["a"]

    async def schema(self):
        await self.call("schema")
        return {"db": {"t": {"a": "INT"}}}

    async def use(self, database):
        await self.call("use")
        await super().use(database)

    async def reset(self):
        await self.call("reset")
        await super().reset()


SQLS = [b"SELECT a FROM t", b"SHOW TABLES FROM db", b"SET time_zone = 'whoops'", b"KILL 1", b"USE db", b"SELECT"]


def session(P):
    """applications built on Session: exceptions and kills in query(), schema(), use() and streams"""
    hub = Hub()
    reg = Reg()
    w = World(session_factory=lambda: Sql(hub), identity_provider=Ids(hub), control=reg)
    with w:
        what = P.choice("what", ["raise", "park", "eof"])
        k = P.int("callback", 0, 20, 2)
        if what == "raise":
            hub.fault, hub.exc = k, P.choice("exception", [ValueError("app"), MysqlError("app"), asyncio.CancelledError()])
        elif what == "park":
            hub.park = k
        t = Talk(w, hub, reg).open()
        steps = PLAIN + [("query", b"\x03" + q, 0) for q in SQLS] + [("fields", b"\x04t\0", 0), ("use", b"\x02db", 0)]
        n = 0
        for i, step in enumerate(steps):
            if what == "eof" and k == i:
                t.send(step, run=False)
                t.peer.eof()
                break
            t.send(step)
            n += 1
            if hub.parked:
                break
            t.alive(" after " + str(step[:2]))
        if hub.parked:
            ev = P.choice("event", ["kill", "eof", "reset"])
            if ev == "kill":
                w.loop.complete(w.server.control.kill(t.id, KillKind.CONNECTION))
                w.run()
                check(t.peer.closed or hub.parked == "close", "a killed connection waits for the application", hub.parked)
                hub.release()
                w.run()
            else:
                end(t, ev)
                hub.release()
                w.run()
        if not t.peer.closed:
            t.send(QUIT[0])
            hub.release()
            w.run()
        t.released("Session application: " + what)
        return [what, n, hub.n]


CASES.append(Case("session", session, weight=2, max_paths=600, maxconds=6000, limit=4000000))

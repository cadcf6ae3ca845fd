"""C01 no command is served on a connection that has not authenticated"""
from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, RawHub, Users
from harness.proto import *

CASES = []
META = {
    "quick_s": 110, "thorough_s": 450,
    "bounds": "authentication scripts of up to 3 rounds (data, success, refusal with and without text, exception, end of exchange, "
              "unknown / failing account lookup) in the handshake and in COM_CHANGE_USER, with and without auth switch, on the "
              "built-in native, clear-password and no-login plugins and an application plugin; client answers of arbitrary octets, arbitrary "
              "lengths up to 40, arbitrary sequence numbers, sent late or together with the previous packet; any "
              "command byte afterwards; kill of either kind at any moment of the exchange; session.init failing",
    "outside": "Kerberos plugin (gssapi is not installed); the application's own identity provider granting access wrongly",
    "assumptions": [],
}


def make(P, name, script):
    """application plugin that follows a script of decisions"""
    from mysql_mimic.auth import AuthPlugin, Success, Forbidden

    class Scripted(AuthPlugin):
        client_plugin_name = name + "_client"

        async def auth(self, auth_info=None):
            if not auth_info:
                auth_info = yield b"hello-challenge-data\0"
            for step in script:
                if step == "data":
                    auth_info = yield b"more"
                elif step == "ok":
                    yield Success("vouched")
                    return
                elif step == "no":
                    yield Forbidden()
                    return
                elif step == "nomsg":
                    yield Forbidden("go away")
                    return
                elif step == "raise":
                    raise RuntimeError("directory is down")
                else:
                    return                      # exchange ends without a decision
    Scripted.name = name
    return Scripted()


STEPS = ["data", "ok", "no", "nomsg", "raise", "end"]


def draw_script(P, n, tag=""):
    out = []
    for k in range(n):
        s = P.choice("step%s%d" % (tag, k), STEPS, 2)
        out.append(s)
        if s != "data":
            break
    return out


def attack(P, c, tag="", odd=True):
    """whatever the client sends now must not be served"""
    kind = P.choice("attack" + tag, ["query", "any", "raw"])
    if kind == "query":
        b = b"\x03SELECT secret FROM t"
    elif kind == "any":
        b = bytes([P.int("cmd" + tag, 0, 255, 3)]) + b"SELECT secret FROM t\0\0\0"
    else:
        b = P.bytes("raw" + tag, 6)
    return frame(b, P.int("seq" + tag, 0, 255, 0) if odd and P.flag("oddseq" + tag) else 0)[0]


def finish(c):
    """empty answers until the exchange is over"""
    r = c.auth_result()
    while r.kind in ("more", "switch"):
        c.send(b"", seq=c.seq)
        r = c.auth_result()
    return r


def handshake(n):
    """the initial exchange follows every script; whatever is not a success is never served"""
    def fn(P):
        from mysql_mimic.auth import User, NativePasswordAuthPlugin
        script = draw_script(P, n)
        account = P.choice("account", ["known", "unknown", "raises"])
        route = P.choice("route", ["optimistic", "match", "switch"])
        initfail = P.flag("initfail") if script[-1] == "ok" and account == "known" else False
        plug = make(P, "scripted", script)
        plugins = [plug, NativePasswordAuthPlugin()] if route == "optimistic" else [NativePasswordAuthPlugin(), plug]
        users = Users({"u": User("u", "", "scripted")}, plugins)

        class Prov(Users):
            async def get_user(self, name):
                if account == "raises":
                    raise KeyError("directory")
                if account == "unknown":
                    return None
                return await super().get_user(name)
        users = Prov({"u": User("u", "", "scripted")}, plugins)
        hub = RawHub(lambda s, e, sql, attrs: ([(s.username,)], ["u"]))
        base = hub.factory

        def factory():
            s = base()

            async def init(connection):
                s.inits += 1
                if initfail:
                    raise RuntimeError("init")
            s.init = init
            return s
        with World(session_factory=factory, identity_provider=users) as w:
            c = Client(w.open())
            g = c.read_greeting()
            c.caps = BASE | DEPRECATE_EOF
            plugin = b"scripted_client" if route in ("optimistic", "match") else b"mysql_native_password"
            resp = frame(c.response41(b"u", b"", c.caps, plugin=plugin), 1)[0]
            early = P.flag("early")           # a command in the same read as the authentication packet
            served = account == "known" and script[-1] == "ok" and not initfail
            k = P.small("when", 0, n + 1, 0) if early else 99
            sent = [0]

            def put(b, seq):
                if sent[0] == k and not served:
                    b = b + attack(P, c)
                sent[0] += 1
                c.peer.feed(b)
            put(resp, 1)
            seq = 3
            answers = (1 if route == "switch" else 0) + (len(script) if script[-1] == "data" else len(script) - 1)
            for i in range(answers):
                put(frame(b"answer", seq)[0], seq)
                seq += 2
            if served:
                raw = c.peer.raw()
                c.buf = b""
                c.peer.feed(frame(b"\x03SELECT 1", 0)[0])
                check(len(hub.calls) == 1, "authenticated client is not served")
                s = hub.sessions[0]
                check(s.username == "vouched", "the session runs under another user than the vouched one", s.username)
                return [script, "served"]
            # the exchange has failed, or is still waiting for the client
            msg = "failed login (%s, %s, %s)" % (account, route, " ".join(script))
            if not early:
                c.peer.feed(attack(P, c))
                c.peer.feed(frame(b"\x03SELECT secret FROM t", 0)[0])
            raw = c.peer.raw()
            check(hub.calls == [], msg + ": the application received a statement", hub.calls)
            oks = [p for p in packets(raw) if p[0] == 0]
            # OK ends the exchange before init() is called
            check(len(oks) <= (1 if initfail else 0), msg + ": OK was sent", oks)
            s = hub.sessions[0]
            check(s.username in (None, "vouched") and (s.username is None or initfail), "session user", s.username)
            check(s.inits <= (1 if initfail else 0), msg + ": session initialised", s.inits)
            done = account != "known" or script[-1] != "data"
            if done and not early:
                check(c.peer.closed, msg + ": the connection is not closed")
                check(any(p[0] == 0xFF for p in packets(raw)), msg + ": no ERR")
            return [script, account, route, early]
    return fn


def packets(data):
    """payloads of a server byte stream; AuthMoreData and AuthSwitch requests are left out"""
    out = []
    while len(data):
        check(len(data) >= 4, "truncated packet")
        ln = int.from_bytes(data[:3], "little")
        check(len(data) >= 4 + ln, "truncated packet")
        p = data[4:4 + ln]
        data = data[4 + ln:]
        check(len(p) > 0, "empty packet")
        if p[0] != 1 and p[0] != 0xFE and p[0] != 10:
            out.append(p)
    return out


CASES.append(Case("handshake-2", handshake(2), weight=5, max_paths=6000))
CASES.append(Case("handshake-3", handshake(3), weight=10, max_paths=60000, tier="thorough"))


def change_user(n):
    """COM_CHANGE_USER follows every script; nothing is served after a failure; the user is always a vouched one"""
    def fn(P):
        from mysql_mimic.auth import User, NativePasswordAuthPlugin
        script = draw_script(P, n)
        account = P.choice("account", ["known", "unknown", "raises"])
        route = P.choice("route", ["match", "switch"])
        resetfail = P.flag("resetfail") if script[-1] == "ok" and account == "known" else False
        plug = make(P, "scripted", script)

        class Prov(Users):
            async def get_user(self, name):
                if name == "v" and account == "raises":
                    raise KeyError("directory")
                if name == "v" and account == "unknown":
                    return None
                return await super().get_user(name)
        users = Prov({"u": User("u", "", "mysql_native_password"), "v": User("v", "", "scripted")},
                     [NativePasswordAuthPlugin(), plug])
        names = []
        hub = RawHub(lambda s, e, sql, attrs: names.append(s.username))
        base = hub.factory

        def factory():
            s = base()

            async def reset():
                if resetfail:
                    raise RuntimeError("reset")
            s.reset = reset
            return s
        with World(session_factory=factory, identity_provider=users) as w:
            c = Client(w.open())
            c.login()
            check(c.query(b"SELECT 1").kind == "ok" and names == ["u"], "login")
            served = account == "known" and script[-1] == "ok" and not resetfail
            early = P.flag("early")
            k = P.small("when", 0, n, 0) if early else 99
            sent = [0]

            def put(b):
                if sent[0] == k and not served:
                    b = b + attack(P, c)
                sent[0] += 1
                c.peer.feed(b)
            put(frame(c.c_change_user(b"v", plugin=b"scripted_client" if route == "match" else b"mysql_native_password"), 0)[0])
            seq = 2
            answers = (1 if route == "switch" else 0) + (len(script) if script[-1] == "data" else len(script) - 1)
            for i in range(answers):
                put(frame(b"answer", seq)[0])
                seq += 2
            s = hub.sessions[0]
            if served:
                c.peer.raw()
                c.peer.feed(frame(b"\x03SELECT 1", 0)[0])
                check(names == ["u", "vouched"], "user after COM_CHANGE_USER", names)
                return [script, "served"]
            msg = "failed COM_CHANGE_USER (%s, %s, %s)" % (account, route, " ".join(script))
            if not early:
                c.peer.feed(attack(P, c))
                c.peer.feed(frame(b"\x03SELECT secret FROM t", 0)[0])
            raw = c.peer.raw()
            check(len(names) == 1, msg + ": the application received a statement", names)
            check(not [p for p in packets(raw) if p[0] == 0], msg + ": OK was sent")
            # with a failing reset() the user had already been vouched for
            check(s.username == "u" or resetfail and s.username == "vouched", msg + ": session user", s.username)
            if (account != "known" or script[-1] != "data") and not early:
                check(c.peer.closed, msg + ": the connection is not closed")
                check(any(p[0] == 0xFF for p in packets(raw)), msg + ": no ERR")
                check(s.closes == 1, msg + ": session is not closed", s.closes)
            return [script, account, route, early]
    return fn


CASES.append(Case("change-user-2", change_user(2), weight=5, max_paths=6000))
CASES.append(Case("change-user-3", change_user(3), weight=10, max_paths=60000, tier="thorough"))


def builtin(P):
    """built-in plugins: arbitrary proof octets for an account with a secret the client does not know, then commands"""
    from mysql_mimic.auth import User, NativePasswordAuthPlugin, NoLoginAuthPlugin, AbstractClearPasswordAuthPlugin

    class Clear(AbstractClearPasswordAuthPlugin):
        name = "clear"

        async def check(self, username, password):
            return "vouched" if password == "a-password-that-is-longer-than-all-drawn-answers" else None
    which = P.choice("plugin", ["mysql_native_password", "clear", "mysql_no_login", "nosuch"])
    default = P.choice("default", ["native", "clear", "nologin"])
    plugins = [NativePasswordAuthPlugin(), Clear(), NoLoginAuthPlugin()]
    k = ["native", "clear", "nologin"].index(default)
    plugins = [plugins[k]] + plugins[:k] + plugins[k + 1:]
    # sha1(sha1(x)) of something unknown: 20 octets that are not the digest of anything the client can name
    auth_string = "00112233445566778899aabbccddeeff00112233"
    users = Users({"u": User("u", auth_string, which), "g": User("g", "", "mysql_native_password")}, plugins)
    hub = RawHub(lambda s, e, sql, attrs: None)
    phase = P.choice("phase", ["handshake", "change-user"])
    said = P.choice("said", [b"mysql_native_password", b"mysql_clear_password", b"other"])
    n = P.choice("len", [0, 9, 20])
    proof = P.bytes("proof", n, lo=1, hi=127)
    with World(session_factory=hub.factory, identity_provider=users) as w:
        c = Client(w.open())
        if phase == "handshake":
            c.read_greeting()
            c.caps = BASE | DEPRECATE_EOF
            c.peer.feed(frame(c.response41(b"u", proof, c.caps, plugin=said), 1)[0])
            seq = 3
        else:
            c.read_greeting()
            c.caps = BASE | DEPRECATE_EOF
            c.send(c.response41(b"g", b"", c.caps, plugin=b"mysql_native_password"), seq=1)
            check(finish(c).kind == "ok" and hub.sessions[0].inits == 1, "login")
            c.peer.feed(frame(c.c_change_user(b"u", proof, plugin=said), 0)[0])
            seq = 2
        if P.flag("answer"):
            c.peer.feed(frame(P.bytes("second", P.choice("len2", [0, 20]), lo=1, hi=127), seq)[0])
        c.peer.feed(attack(P, c, odd=False))
        check(hub.calls == [], "the application received a statement", hub.calls)
        s = hub.sessions[0]
        check(s.username == (None if phase == "handshake" else "g"), "session user", s.username)
        check(not [p for p in packets(c.peer.raw()) if p[0] == 0], "OK was sent")
        return [which, default, phase]


CASES.append(Case("builtin", builtin, weight=5, max_paths=8000))


def instead(P):
    """anything but an authentication packet at each stage of the exchange"""
    from mysql_mimic.auth import User
    stage = P.choice("stage", ["first", "switch", "change-switch"])
    # "u" has a secret that is the digest of nothing the client can name (a body that happens to be the right
    # proof of a known password would rightly be let in)
    users = Users({"u": User("u", "00112233445566778899aabbccddeeff00112233", "mysql_native_password"),
                   "g": User("g", "", "mysql_native_password")})
    hub = RawHub(lambda s, e, sql, attrs: None)
    with World(session_factory=hub.factory, identity_provider=users) as w:
        c = Client(w.open())
        calls = 0
        if stage == "change-switch":
            check(c.login(user=b"g").kind == "ok", "login")
            c.peer.feed(frame(c.c_change_user(b"u", b"", plugin=b"other"), 0)[0])
            seq = 2
        else:
            c.read_greeting()
            c.caps = BASE | DEPRECATE_EOF
            seq = 1
            if stage == "switch":
                c.peer.feed(frame(c.response41(b"u", b"", c.caps, plugin=b"other"), 1)[0])
                seq = 3
        c.peer.raw()
        n = P.choice("len", [1, 0, 4, 9, 20, 32, 34, 40])
        body = P.bytes("body", n - 1) if n > 1 else b""
        first = P.int("cmd", 0, 255, 3)
        odd = stage == "first" and P.flag("odd")
        sq = P.int("seq", 0, 255, 0) if odd else seq
        c.peer.feed(frame(bytes([first]) + body if n else b"", sq)[0])
        c.peer.feed(frame(b"\x03SELECT secret FROM t", 0)[0])
        check(hub.calls == [], "the application received a statement", hub.calls)
        check(hub.sessions[0].inits == (1 if stage == "change-switch" else 0), "session initialised")
        check(not [p for p in packets(c.peer.raw()) if p[0] == 0], "OK was sent")
        return [stage, n]


CASES.append(Case("instead", instead, weight=5, max_paths=8000))


def killed(P):
    """a kill at any moment of the exchange never turns it into a success"""
    from mysql_mimic.auth import User, NativePasswordAuthPlugin
    from mysql_mimic.constants import KillKind
    import asyncio
    phase = P.choice("phase", ["handshake", "change-user"])
    slow = P.choice("slow", ["lookup", "plugin", "client"])
    good = P.flag("good")
    kind = P.choice("kind", [KillKind.QUERY, KillKind.CONNECTION])
    script = ["data", "ok" if good else "no"]
    plug = make(P, "scripted", script)
    if slow == "plugin":
        orig = plug.auth

        async def auth(auth_info=None):
            g = orig(auth_info)
            x = await g.__anext__()
            while True:
                r = yield x
                for _ in range(3):
                    await asyncio.sleep(0)
                try:
                    x = await g.asend(r)
                except StopAsyncIteration:
                    return
        plug.auth = auth

    class Prov(Users):
        async def get_user(self, name):
            if slow == "lookup":
                for _ in range(3):
                    await asyncio.sleep(0)
            return await super().get_user(name)
    users = Prov({"u": User("u", "", "mysql_native_password"), "v": User("v", "", "scripted")}, [NativePasswordAuthPlugin(), plug])
    hub = RawHub(lambda s, e, sql, attrs: None)
    with World(session_factory=hub.factory, identity_provider=users) as w:
        c = Client(w.open())
        if phase == "change-user":
            c.login()
            data = frame(c.c_change_user(b"v", plugin=b"scripted_client"), 0)[0]
            seq = 2
        else:
            c.read_greeting()
            c.caps = BASE | DEPRECATE_EOF
            data = frame(c.response41(b"v", b"", c.caps, plugin=b"scripted_client"), 1)[0]
            seq = 3
        c.peer.raw()
        when = P.small("when", 0, 16, 2)
        second = P.flag("second")
        fed = [0]

        def tick():
            if fed[0] == 0:
                c.peer.feed(data, run=False)
            elif fed[0] == 8:
                c.peer.feed(frame(b"answer", seq)[0], run=False)
            fed[0] += 1
        for i in range(17):
            tick()
            if i == when or second and i == when + 1:
                w.loop.complete(w.server.control.kill(c.conn_id, kind))
            w.steps(1)
        w.run()
        raw = packets(c.peer.raw())
        oks = [p for p in raw if p[0] == 0]
        c.peer.feed(frame(b"\x03SELECT 1", 0)[0])
        s = hub.sessions[0]
        user = "u" if phase == "change-user" else None
        if not oks:
            check(hub.calls == [] , "unauthenticated connection is served")
            check(s.username == user or s.username == "vouched" and good, "session user", s.username)
        else:
            check(good, "refused client is sent OK")
            check(s.username == "vouched", "session user", s.username)
        return [phase, slow, good, str(kind), when, bool(oks)]


CASES.append(Case("killed", killed, weight=3, max_paths=4000))


def identity(P):
    """the session runs under the name the plugin vouched for, whatever names are in play"""
    from mysql_mimic.auth import AuthPlugin, Success, Forbidden, User, NativePasswordAuthPlugin
    want = P.strblob("want", 0, 300, 4)
    vouched = P.token("vouched", "someone-else")
    real = P.choice("real", ["plugin", "native"])

    class Map(AuthPlugin):
        name = "map"
        client_plugin_name = "mysql_native_password"

        async def auth(self, auth_info=None):
            if not auth_info:
                auth_info = yield b"0" * 20 + b"\0"
            yield Success(vouched)

    class Prov(Users):
        async def get_user(self, name):
            self.asked.append(name)
            return User("canonical", "", "map" if real == "plugin" else "mysql_native_password")
    users = Prov(None, [Map(), NativePasswordAuthPlugin()])
    hub = RawHub(lambda s, e, sql, attrs: ([(s.username,)], ["u"]))
    with World(session_factory=hub.factory, identity_provider=users) as w:
        c = Client(w.open())
        c.read_greeting()
        c.caps = BASE | DEPRECATE_EOF
        c.out_seq = c.seq
        c.send(c.response41(want.encode(), b"", c.caps), seq=c.seq)
        check(finish(c).kind == "ok", "login")
        check(users.asked == [want], "account looked up under another name")
        exp = vouched if real == "plugin" else "canonical"
        r = c.query(b"SELECT 1")
        check(hub.sessions[0].username == exp, "session user")
        want2 = P.strblob("want2", 0, 300, 4)
        c.send_command(c.c_change_user(want2.encode()))
        check(finish(c).kind == "ok", "change user")
        check(users.asked == [want, want2], "account looked up under another name")
        check(hub.sessions[0].username == exp, "session user")
        return [real]


CASES.append(Case("identity", identity, weight=1, max_paths=500))

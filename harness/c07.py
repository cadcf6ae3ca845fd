"""C07 malformed or hostile packets cannot hang, crash or wedge the server"""
import asyncio

from harness.base import ENV
from harness.case import Case
from harness.world import World, check, fail
from harness.app import RawHub, Users
from harness.c10 import Reg
from harness.proto import *
from mysql_mimic.auth import AbstractClearPasswordAuthPlugin, NativePasswordAuthPlugin, NoLoginAuthPlugin, User
from mysql_mimic.errors import MysqlError
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType

ENV.memory = True
CASES = []
META = {
    "quick_s": 110, "thorough_s": 500,
    "bounds": "30 valid packets (handshake responses, SSL request, auth-switch and clear-password replies, every command with and "
              "without query attributes and parameters of every type) with any 1-2 (thorough up to 9) neighbouring octets replaced by "
              "arbitrary ones, an arbitrary 16/24/64-bit length or count put in place of any octet, or cut at any octet; unstructured "
              "payloads of up to 8 (thorough 14) arbitrary octets after and up to 40 before authentication; arbitrary declared packet lengths and "
              "sequence numbers; unterminated strings of up to 16 MiB; up to 2 (thorough 3) hostile packets in a row, also while a query "
              "of the same client is in progress; work limit 600000 instrumented operations (300 MB at once) per packet",
    "outside": "the cost of parsing SQL text (sqlglot); memory consumed by a client that keeps sending data; TLS records",
    "assumptions": ["a truncated command that calls for no response may be answered with an ERR packet"],
}

COLS = [ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)]


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    async def check(self, username, password):
        return username if password == "pw" else None


class Stage:
    """a server with a witness, a client whose query is in progress, and the offender"""

    def __init__(self, P, caps=BASE | DEPRECATE_EOF, login=True, default=None, ssl=None, scap=None):
        self.P = P
        self.future = None
        hub = self.hub = RawHub(self.handler)
        self.reg = Reg()
        native_ = NativePasswordAuthPlugin()
        plugins = [native_, Clear(), NoLoginAuthPlugin()]
        if default:
            plugins.sort(key=lambda p: p.name != default)
        users = {"u": User("u", auth_string=None, auth_plugin="mysql_native_password"),
                 "p": User("p", auth_string=NativePasswordAuthPlugin.create_auth_string("pw"), auth_plugin="mysql_native_password"),
                 "c": User("c", auth_plugin="clear")}
        kw = {}
        if ssl is not None:
            kw["ssl"] = ssl
        if scap is not None:
            kw["capabilities"] = scap
        self.w = World(session_factory=hub.factory, control=self.reg, identity_provider=Users(users, plugins), **kw)
        self.wit = self.join()
        self.busy = self.join()
        self.busy.send_command(self.busy.c_query(PARK))
        self.busyfut = self.future
        check(self.busyfut is not None, "harness: query is not in progress")
        self.off = Client(self.w.open())
        self.login = login
        if login:
            r = self.off.login(caps=caps)
            check(r.kind == "ok", "login", r)

    def join(self):
        c = Client(self.w.open())
        g = c.read_greeting()
        c.caps = BASE | DEPRECATE_EOF
        c.send(c.response41(b"u", b"", c.caps, plugin=g.plugin), seq=c.seq)
        r = c.auth_result()
        if r.kind == "switch":
            c.send(b"", seq=c.seq)
            r = c.auth_result()
        check(r.kind == "ok", "a new connection is not served", r)
        return c

    def handler(self, s, e, sql, attrs):
        if sql[:4] == "SHOW":
            return [("a", "int", "YES", "", None, None), ("b", "text", "YES", "", "x", None)], \
                ["Field", "Type", "Null", "Key", "Default", "Extra"]
        if sql == PARK.decode():
            self.future = asyncio.get_running_loop().create_future()
            return self.parked(self.future)
        return ResultSet(rows=[(1, "a"), (None, "b"), (3, None)], columns=COLS)

    async def parked(self, f):
        await f
        return ResultSet(rows=[(7, "late")], columns=COLS)

    def others(self):
        """everybody else is served"""
        check(self.wit.ping().kind == "ok", "another connection is not served")
        n = self.join()
        r = n.query(b"x")
        check(r.kind == "rs" and len(r.rows) == 3, "a new connection is not served")
        n.quit()
        check(n.peer.closed, "COM_QUIT")
        self.busyfut.set_result(None)
        self.w.run()
        r = self.busy.read_query()
        check(r.kind == "rs" and r.rows == [[b"7", b"late"]], "the query in progress on another connection was affected")
        check(self.busy.ping().kind == "ok", "another connection is not served")

    def ended(self):
        p = self.off.peer
        if not p.closed:
            p.eof()
        check(p.closed, "the connection does not end with its client")
        check(p.task is None or p.task.done(), "the task of the connection does not end")
        check(len(self.reg.live) == 2, "the registration of the offending connection is not released")
        for s in self.hub.sessions:
            check(s.closes <= s.inits, "session closed twice")
        i = self.hub.sessions[2]
        check(i.inits == i.closes, "the session of the offending connection is not closed")

    def gone(self):
        """the connection was closed: at most one ERR packet before"""
        c = self.off
        c.pump()
        check(len(c.buf) == 0 and not c.partial, "incomplete packet before the connection is closed")
        check(len(c.pk) <= 1, "several packets before the connection is closed")
        if c.pk:
            c.parse_err(c.pk.pop())

    def step(self, kind):
        """the offender is answered, or its connection is closed"""
        c = self.off
        if c.peer.closed:
            self.gone()
            return "closed"
        if kind == "auth":
            return self.auth(c)
        if kind == "none":
            if c.has():
                check(c.parse_err(c.next()).kind == "err", "answer to a command without response")
                r = "err"
            else:
                r = "none"
        else:
            r = self.read(c, kind).kind
        c.quiet()
        return r

    def auth(self, c):
        for k in range(4):
            if c.peer.closed:
                self.gone()
                return "closed"
            r = c.auth_result()
            if r.kind in ("ok", "err"):
                c.quiet()
                check(r.kind == "ok" or self.login, "authentication failed, but the connection is open")
                return r.kind
            c.send(b"\0", seq=c.seq)
        return "more"

    def read(self, c, kind):
        if kind == "simple":
            return c.read_simple()
        if kind == "query":
            return c.read_query()
        if kind == "exec":
            return c.read_query(binary=True, cursor=True)
        if kind == "prep":
            return c.read_prepare()
        if kind == "fields":
            return c.read_fields()
        if kind == "fetch":
            return c.read_fetch(COLS_)
        if kind == "quit":
            fail("COM_QUIT does not close the connection")
        raise RuntimeError(kind)

    def finish(self):
        """in step, or closed; nobody else noticed"""
        if not self.off.peer.closed:
            check(self.off.ping().kind == "ok", "the connection is not in step")
        self.others()
        self.ended()


COLS_ = []
for _t in (T_LONG, T_VARCHAR):
    _c = Col()
    _c.type = _t
    COLS_.append(_c)


PARK = b"wait for it, a text which nobody guesses"
PARAMS = [(b"", T_VARCHAR, False, lenstr(b"hi")), (b"", T_LONGLONG, False, u(5, 8)), (b"", T_LONG, True, u(5, 4)), (b"", T_NULL, False, None),
          (b"", T_SHORT, False, u(5, 2)), (b"", T_TINY, True, u(5, 1)), (b"", T_DOUBLE, False, bytes(8)), (b"", T_FLOAT, False, bytes(4)),
          (b"", T_BLOB, False, lenstr(b""))]
ATTRS = [(b"k1", T_VARCHAR, False, lenstr(b"v")), (b"k2", T_LONGLONG, True, u(9, 8)), (b"n", T_NULL, False, None)]


def prepared(st, sql=b"x"):
    r = st.off.prepare(sql)
    check(r.kind == "prep", "prepare", r)
    return r.stmt_id


def k_query(st):
    return st.off.c_query(b"SELECT 'caf\xc3\xa9'"), "query"


def k_query_attrs(st):
    return st.off.c_query(b"SELECT 1", ATTRS), "query"


def k_prepare(st):
    return b"\x16SELECT ?, '?' -- ?", "prep"


def k_execute(st):
    return st.off.c_execute(prepared(st)), "exec"


def k_execute_params(st):
    return st.off.c_execute(prepared(st, b"x ? ? ? ?"), PARAMS[:4]), "exec"


def k_execute_params2(st):
    return st.off.c_execute(prepared(st, b"x ? ? ? ? ?"), PARAMS[4:]), "exec"


def k_execute_cursor(st):
    return st.off.c_execute(prepared(st, b"x ?"), PARAMS[:1], flags=1, attrs=ATTRS[:2] if st.off.caps & QUERY_ATTRS else ()), "exec"


def k_execute_long(st):
    s = prepared(st, b"x ? ?")
    st.off.long_data(s, 0, b"abc")
    return st.off.c_execute(s, [(b"", T_VARCHAR, False, b""), PARAMS[1]]), "exec"


def k_long(st):
    return b"\x18" + u(prepared(st, b"x ? ?"), 4) + u(1, 2) + b"data", "none"


def k_fetch(st):
    s = prepared(st)
    check(st.off.execute(s, flags=1).kind == "cursor", "cursor")
    return b"\x1c" + u(s, 4) + u(2, 4), "fetch"


def k_reset(st):
    return b"\x1a" + u(prepared(st), 4), "simple"


def k_close(st):
    return b"\x19" + u(prepared(st), 4), "none"


def k_init_db(st):
    return b"\x02d\xc3\xa9", "simple"


def k_fields(st):
    return b"\x04tab\x00a%", "fields"


def k_change(st):
    return st.off.c_change_user(b"u", b"", b"d", attrs={b"k": b"v"}), "auth"


def k_change_switch(st):
    return st.off.c_change_user(b"c", b"1234", b"d"), "auth"


def k_simple(st):
    return st.P.choice("cmd", [b"\x0e", b"\x1f", b"\x0d"]) + b"\0", "simple"


KINDS = [("query", k_query, 0), ("query-attrs", k_query_attrs, QUERY_ATTRS), ("prepare", k_prepare, 0), ("execute", k_execute, 0),
         ("execute-params", k_execute_params, 0), ("execute-params2", k_execute_params2, 0),
         ("execute-named", k_execute_params, QUERY_ATTRS), ("execute-cursor", k_execute_cursor, QUERY_ATTRS), ("execute-long", k_execute_long, 0),
         ("long-data", k_long, 0), ("fetch", k_fetch, 0), ("reset", k_reset, 0), ("close", k_close, 0), ("init-db", k_init_db, 0),
         ("field-list", k_fields, 0), ("change-user", k_change, CONNECT_ATTRS), ("change-user-switch", k_change_switch, 0),
         ("simple", k_simple, 0)]


def mutate(P, b, first, tag="", widths=(1, 2), lfirst=None, extreme=False):
    """any octets replaced, an absurd length or count inserted, or cut short"""
    how = P.choice("how" + tag, ["octets", "length", "cut"])
    if how == "cut":
        at = P.small("at" + tag, min(first, len(b)), len(b), len(b) // 2)
        return b[:at], "cut at %d" % at
    if how == "length" and lfirst is not None:
        first = lfirst
    at = P.small("at" + tag, first, max(first, len(b) - 1), first)
    if how == "octets":
        n = P.choice("n" + tag, list(widths))
        return b[:at] + P.bytes("octets" + tag, n, bytes(n)) + b[at + n:], "%d octets at %d" % (n, at)
    k = P.choice("prefix" + tag, [b"\xfc", b"\xfd", b"\xfe"], 2)
    n = {b"\xfc": 2, b"\xfd": 3, b"\xfe": 8}[k]
    if extreme:
        v = P.choice("extreme" + tag, [256 ** n - 1, 0, 1, 251, 128 * 256 ** (n - 1)])
    else:
        v = P.int("length" + tag, 0, 256 ** n - 1, 256 ** n - 1)
    return b[:at] + k + u(v, n) + b[at + 1:], "length at %d" % at


def mutated(make, caps, widths):
    def fn(P):
        st = Stage(P, BASE | DEPRECATE_EOF | caps)
        with st.w:
            b, kind = make(st)
            m, what = mutate(P, b, 1, "", widths, extreme=kind == "auth" and 1 in widths)
            st.off.send_command(m)
            r = st.step(kind)
            st.finish()
            return [what, r]
    return fn


WEIGHT = {"query-attrs": 10, "execute-params": 9, "execute-params2": 9, "execute-named": 10, "execute-cursor": 8, "execute-long": 8,
          "change-user": 8, "change-user-switch": 5, "execute": 1, "long-data": 1, "fetch": 1, "reset": 1, "close": 1, "init-db": 1,
          "simple": 1}
for _n, _f, _c in KINDS:
    CASES.append(Case("mut-" + _n, mutated(_f, _c, (1, 2)), weight=WEIGHT.get(_n, 4),
                      max_paths=20000))
    CASES.append(Case("wide-" + _n, mutated(_f, _c, (3, 4, 9)), weight=8, max_paths=100000, tier="thorough"))


# ---------------------------------------------------------------------------------------------- before authentication

FULL = BASE | DEPRECATE_EOF | CONNECT_WITH_DB | CONNECT_ATTRS | LENENC_AUTH | QUERY_ATTRS


def handshake(P, c, route):
    """a valid packet of the authentication exchange which is to be mutated"""
    g = c.read_greeting()
    c.caps = BASE | DEPRECATE_EOF
    if route == "response":
        return c.response41(b"p", native(b"pw", c.nonce), FULL, b"db", attrs={b"k": b"v"}), 0
    if route == "short":
        return c.response41(b"u", b"", BASE | DEPRECATE_EOF), 0
    if route == "ssl":
        return u(BASE | SSL, 4) + u(1 << 24, 4) + b"\xff" + bytes(23), 0
    if route == "switch":
        # the account is bound to another plugin than the client announces
        c.send(c.response41(b"p", b"", BASE | DEPRECATE_EOF, plugin=b"other"), seq=c.seq)
        r = c.auth_result()
        check(r.kind == "switch", "no auth switch", r)
        return native(b"pw", r.data[:20]), 0
    if route == "clear":
        c.send(c.response41(b"c", b"", BASE | DEPRECATE_EOF, plugin=b"other"), seq=c.seq)
        r = c.auth_result()
        check(r.kind == "switch", "no auth switch", r)
        return b"pw\0", 0
    raise RuntimeError(route)


def pre(route, widths=(1, 2), **kw):
    def fn(P):
        st = Stage(P, login=False, **kw)
        with st.w:
            c = st.off
            b, first = handshake(P, c, route)
            m, what = mutate(P, b, first, "", widths, 32 if route in ("response", "short") else 26 if route == "ssl" else None)
            if route in ("response", "short", "ssl"):
                # what it takes for the client to agree
                c.lax_err = True
                if len(m) >= 4:
                    c.caps = int.from_bytes(m[:4], "little") & c.server_caps
            c.send(m, seq=c.seq)
            r = st.step("auth")
            if r == "more":
                c.peer.eof()
            st.finish()
            return [what, r]
    return fn


for _r, _w in (("response", 13), ("short", 8), ("ssl", 5), ("switch", 2), ("clear", 1)):
    CASES.append(Case("pre-" + _r, pre(_r), weight=_w, max_paths=20000))
    CASES.append(Case("prewide-" + _r, pre(_r, (3, 4, 9)), weight=8, max_paths=100000, tier="thorough"))


def capabilities(P):
    """the same handshake response under any 32-bit capability word"""
    st = Stage(P, login=False)
    with st.w:
        c = st.off
        g = c.read_greeting()
        caps = P.int("caps", 0, 2 ** 32 - 1, FULL)
        tail = P.choice("tail", [b"u\0", b"u\0\0", b"u\0\0d\0mysql_native_password\0\x04\x01k\x01v", b"u\0\xff" + bytes(30),
                                 b"u\0\xfe" + b"\xff" * 8, b"\0\0\0\0\0\0", b""], 2)
        c.lax_err = True
        c.caps = caps & g.caps
        c.send(u(caps, 4) + u(1 << 24, 4) + b"\xff" + bytes(23) + tail, seq=c.seq)
        r = st.step("auth")
        if r != "ok" and not c.peer.closed:
            c.peer.eof()
        st.finish()
        return [tail, r]


CASES.append(Case("capabilities", capabilities, weight=4, max_paths=8000))


def garbage_pre(P, n=8):
    """an unstructured first packet"""
    st = Stage(P, login=False)
    with st.w:
        c = st.off
        g = c.read_greeting()
        k = P.choice("form", ["short", "tail"])
        if k == "short":
            b = P.bytes("b", P.small("n", 0, 32, 4))
            b = b[:8] + (P.choice("collation", [b"\xff", b"\x21", b"\x00", b"\xfa", b"\x26"]) + b[9:] if len(b) > 8 else b"")
        else:
            b = u(P.choice("caps", [BASE, FULL, PROTOCOL_41, FULL & ~LENENC_AUTH]), 4) + u(0, 4) + P.choice("collation", [b"\xff", b"\x21", b"\x00", b"\xfa", b"\x26"]) + bytes(23) + \
                P.bytes("b", P.small("n", 1, n, 4))
        c.lax_err = True
        if len(b) >= 4:
            c.caps = int.from_bytes(b[:4], "little") & g.caps
        c.send(b, seq=c.seq)
        r = st.step("auth")
        if r != "ok" and not c.peer.closed:
            c.peer.eof()
        st.finish()
        return [k, r]


CASES.append(Case("garbage-pre", garbage_pre, weight=5, max_paths=20000))


def garbage(n):
    """unstructured packets after authentication"""
    def fn(P):
        st = Stage(P, BASE | DEPRECATE_EOF | (QUERY_ATTRS if P.flag("attrs") else 0))
        with st.w:
            c = st.off
            s = prepared(st, P.choice("stmt", [b"x ?", b"x"]))
            cmd, kind = P.choice("cmd", [(b"", "simple"), (b"\x03", "query"), (b"\x16", "prep"), (b"\x17" + u(s, 4), "exec"), (b"\x17", "exec"),
                                         (b"\x18", "none"), (b"\x19", "none"), (b"\x1a", "simple"), (b"\x1c", "fetch"), (b"\x02", "simple"),
                                         (b"\x04", "fields"), (b"\x11", "auth"), (b"\x01", "quit")], 3)
            if cmd == b"":
                b = P.bytes("b", P.small("n", 0, 3, 2))
                if len(b):
                    for x in (1, 3, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c, 2, 4, 0x11):
                        P.assume(b[0] != x)
            else:
                b = cmd + P.bytes("b", P.small("n", 0, min(n, 4) if kind == "auth" else n, 4))
            c.send_command(b)
            r = st.step(kind)
            st.finish()
            return [kind, r]
    return fn


CASES.append(Case("garbage", garbage(6), weight=14, max_paths=20000))
CASES.append(Case("garbage-long", garbage(14), weight=16, max_paths=100000, tier="thorough"))


def framing(P):
    """arbitrary declared lengths and sequence numbers, at any point, and the end of the stream anywhere"""
    where = P.choice("where", ["first", "switch", "command", "second"], 2)
    st = Stage(P, login=where in ("command", "second"))
    with st.w:
        c = st.off
        want = 0
        if where == "first":
            c.read_greeting()
            c.lax_err = True
            c.caps = BASE | DEPRECATE_EOF
            want = 1
            body, kind = c.response41(b"u", b"", BASE | DEPRECATE_EOF), "auth"
        elif where == "switch":
            body, _ = handshake(P, c, "switch")
            want = c.seq
            kind = "auth"
        else:
            if where == "second":
                check(c.ping().kind == "ok", "ping")
            body, kind = b"\x03SELECT 1", "query"
        how = P.choice("how", ["seq", "length", "header"])
        if how == "seq":
            seq = P.int("seq", 0, 255, want)
            c.send(body, seq=seq)
            if seq == want:
                r = st.step(kind)
                check(r in ("ok", "rs"), "valid packet", r)
            else:
                # one ERR packet, whatever its sequence number, and closed; or closed
                if not c.peer.closed:
                    c.seq = seq + 1
                    r = st.step(kind)
                    check(r == "err", "packet with a wrong sequence number was served", r)
                else:
                    raw = c.peer.raw()
                    if len(raw):
                        check(len(raw) >= 5 and raw[4] == 0xFF and int.from_bytes(raw[:3], "little") == len(raw) - 4,
                              "not a single ERR packet")
                    r = "closed"
        elif how == "length":
            n = P.int("length", len(body) + 1, 2 ** 24 - 1, 2 ** 24 - 1)
            c.peer.feed(u(n, 3) + bytes([want]) + body)
            check(not c.has() and not c.peer.closed, "answer to an incomplete packet")
            st.wit.ping()
            c.peer.eof()
            r = "waits"
            check(c.peer.closed, "connection is kept")
            c.peer.raw()
        else:
            k = P.small("k", 0, 4, 2)
            c.peer.feed((P.bytes("len", 3, b"\x05\0\0") + bytes([want]))[:k])
            c.seq = want + 1
            if k == 4 and c.peer.closed:
                st.gone()
            elif k == 4:
                if c.has():
                    check(c.parse_err(c.next()).kind == "err", "answer to an empty packet")
            if not c.peer.closed:
                if P.flag("reset"):
                    c.peer.reset()
                else:
                    c.peer.eof()
            check(c.peer.closed, "connection is kept")
            c.peer.raw()
            r = "end"
        st.finish()
        return [where, how, r]


CASES.append(Case("framing", framing, weight=4, max_paths=8000))


def unterminated(P):
    """strings without terminator, and lengths without data, of up to 16 MiB"""
    route = P.choice("route", ["user", "change", "fields", "clear", "query", "attrs", "param", "db", "attrlist"])
    st = Stage(P, BASE | DEPRECATE_EOF | QUERY_ATTRS | CONNECT_ATTRS, login=route not in ("user", "clear"))
    with st.w:
        c = st.off
        if route in ("attrs", "attrlist"):
            x = P.choice("fill", [b"", b"\x01", b"\xff", b"\x01ab", b"\xfe\xff"]) * P.choice("times", [1, 0, 9, 300])
        else:
            x = P.blob("x", 0, 2 ** 24 - 200, 70000)
        kind = "simple"
        if route == "user":
            c.read_greeting()
            c.lax_err = True
            c.send(u(FULL, 4) + bytes(4) + b"\xff" + bytes(23) + x, seq=c.seq)
            kind = "auth"
        elif route == "clear":
            handshake(P, c, "clear")
            c.send(x, seq=c.seq)
            kind = "auth"
        elif route == "change":
            c.send_command(b"\x11" + x)
            kind = "auth"
        elif route == "fields":
            c.send_command(b"\x04" + x)
        elif route == "query":
            c.send_command(b"\x03\x00\x01" + x)
            kind = "query"
        elif route == "attrs":
            n = P.int("n", 1, 2 ** 64 - 1, 2 ** 64 - 1)
            c.send_command(b"\x03\xfe" + u(n, 8) + b"\x01" + x)
            kind = "query"
        elif route == "param":
            s = prepared(st, b"x ?")
            n = P.int("n", 0, 2 ** 64 - 1, 2 ** 64 - 1)
            c.send_command(c.c_execute(s, [(b"", T_VARCHAR, False, b"\xfe" + u(n, 8) + x)]))
            kind = "exec"
        elif route == "db":
            c.send_command(b"\x02" + x)
        else:
            n = P.int("n", 0, 2 ** 64 - 1, 2 ** 64 - 1)
            m = P.int("m", 0, 2 ** 64 - 1, 3)
            c.send_command(b"\x11u\0\0d\0\xff\0mysql_native_password\0\xfe" + u(n, 8) + b"\xfe" + u(m, 8) + x)
            kind = "auth"
        r = st.step(kind)
        if r == "more":
            c.peer.eof()
        st.finish()
        return [route, r]


CASES.append(Case("unterminated", unterminated, weight=4, max_paths=8000))


def many(P):
    """counts of attributes and parameters, with that much data present or not"""
    st = Stage(P, BASE | DEPRECATE_EOF | QUERY_ATTRS)
    with st.w:
        c = st.off
        n = P.choice("n", [0, 1, 249, 250, 251, 252, 255, 256, 600])
        d = P.int("declared", 0, 2 ** 16 - 1, n)
        form = P.choice("form", ["query", "execute", "prepare"])
        one = (b"", T_TINY, False, b"\x01")
        if form == "prepare":
            b, kind = b"\x16x" + b" ?" * n, "prep"
        else:
            block = params_block([one] * n, True) if n else b""
            if form == "query":
                b, kind = b"\x03\xfc" + u(d, 2) + b"\x01" + block + b"x", "query"
            else:
                s = prepared(st, b"x ?")
                b, kind = b"\x17" + u(s, 4) + b"\x08" + u(1, 4) + b"\xfc" + u(d, 2) + block, "exec"
        c.send_command(b)
        r = st.step(kind)
        st.finish()
        return [form, n, r]


CASES.append(Case("many", many, weight=4, max_paths=3000, maxconds=5000))

# ---------------------------------------------------------------------------------------------- histories

HOSTILE = [
    ("truncated query", lambda P, st, t: (b"\x03\x05\x01\x00", "query")),
    ("undecodable query", lambda P, st, t: (b"\x03\x00\x01\xff\xfe", "query")),
    ("unknown", lambda P, st, t: (bytes([P.int("cmd" + t, 0x20, 255, 0x63)]) + b"zz", "simple")),
    ("empty", lambda P, st, t: (b"", "simple")),
    ("short execute", lambda P, st, t: (b"\x17\x01", "exec")),
    ("execute unknown", lambda P, st, t: (b"\x17" + u(P.int("id" + t, 1000, 2 ** 32 - 1, 4711), 4) + b"\0" + u(1, 4), "exec")),
    ("execute cut", lambda P, st, t: (st.off.c_execute(st.s, PARAMS[:2])[:P.choice("cut" + t, [12, 5, 9, 10, 14, 20])], "exec")),
    ("bad flags", lambda P, st, t: (b"\x17" + u(st.s, 4) + bytes([P.int("flags" + t, 0, 255, 6)]) + u(1, 4), "exec")),
    ("bad type", lambda P, st, t: (st.off.c_execute(st.s, [(b"", P.choice("type" + t, [0x42, 246, 12, 11, 255, 16]), False, b"\x01"), PARAMS[1]]), "exec")),
    ("long data", lambda P, st, t: (b"\x18" + u(st.s, 4) + u(P.int("param" + t, 0, 65535, 9), 2) + b"\xff\xff", "none")),
    ("long data cut", lambda P, st, t: (b"\x18\x01\0\0", "none")),
    ("fetch", lambda P, st, t: (b"\x1c" + u(st.s, 4) + u(P.int("rows" + t, 0, 2 ** 32 - 1, 2), 4), "fetch")),
    ("fetch cut", lambda P, st, t: (b"\x1c" + u(st.s, 4), "fetch")),
    ("reset cut", lambda P, st, t: (b"\x1a", "simple")),
    ("close cut", lambda P, st, t: (b"\x19", "none")),
    ("field list", lambda P, st, t: (b"\x04tab", "fields")),
    ("undecodable db", lambda P, st, t: (b"\x02\xff", "simple")),
    ("prepare", lambda P, st, t: (b"\x16\xff'", "prep")),
    ("change user cut", lambda P, st, t: (b"\x11u\0\x05ab", "auth")),
    ("bad sequence", lambda P, st, t: (None, "simple")),
]


def history(n, busy):
    """several hostile packets in a row, possibly while a query is in progress; then ordinary work"""
    def fn(P):
        st = Stage(P, BASE | DEPRECATE_EOF | QUERY_ATTRS)
        with st.w:
            c = st.off
            st.s = prepared(st, b"x ? ?")
            out = []
            if busy:
                c.send_command(c.c_query(PARK))
                mine = st.future
            for k in range(n):
                name, f = P.choice("h%d" % k, HOSTILE, k)
                b, kind = f(P, st, str(k))
                if b is None:
                    data, _ = frame(b"\x0e", P.int("seq%d" % k, 1, 255, 1))
                else:
                    data, _ = frame(b, 0)
                if busy and k == 0:
                    c.pipelined = True
                    c.peer.feed(data)
                    check(not c.has() and not c.peer.closed, "pipelined packet served early")
                    mine.set_result(None)
                    st.w.run()
                    r = c.read_query()
                    check(r.kind == "rs" and len(r.rows) == 1, "the query in progress was affected")
                    c.pipelined = False
                else:
                    c.seq = 1
                    c.peer.feed(data)
                r = st.step(kind)
                out.append([name, r])
                if r == "closed":
                    break
                check(b is not None or r == "err", "packet with a wrong sequence number was served")
            if not c.peer.closed:
                # everything still works
                c.stmt_reset(st.s)
                c.long_data(st.s, 0, b"ab")
                r = c.execute(st.s, [(b"", T_VARCHAR, False, b""), (b"", T_TINY, True, b"\x01")], flags=1)
                check(r.kind == "cursor", "ordinary work after hostile packets", r)
                f = c.fetch(st.s, 2, r.cols)
                check(f.kind == "fetch" and len(f.rows) == 2, "ordinary work after hostile packets", f)
                check(st.hub.calls[-1][1] == "x 'ab' 1", "hostile packets changed the parameters of a statement", st.hub.calls[-1])
                r = c.query(b"y", ATTRS)
                check(r.kind == "rs" and len(r.rows) == 3, "ordinary work after hostile packets", r)
            st.finish()
            return out
    return fn


CASES.append(Case("history", history(2, False), weight=12, max_paths=20000))
CASES.append(Case("history-busy", history(2, True), weight=12, max_paths=20000))
CASES.append(Case("history-3", history(3, False), weight=40, max_paths=200000, tier="thorough"))

"""C04 packet framing is lossless for every payload size and every stream segmentation"""
import asyncio

from harness.case import Case
from harness.world import World, Peer, check, fail
from harness.app import Hub, RawHub
from harness.base import ENV
from harness.proto import *

CASES = []
META = {
    "quick_s": 110, "thorough_s": 500,
    "bounds": "server payloads of every length 0..50 MiB and client payloads of every length 0..32 MiB+300 (opaque contents), up to 3 in a row; a client stream of "
              "up to 3 payloads cut at 1-2 (thorough 3) arbitrary positions (inside headers, inside payloads, between packets) with and "
              "without the server running between the reads; byte-at-a-time streams of up to 12 octets; complete conversations (login "
              "with opaque user / database names, query, prepare, execute, ping) cut at arbitrary positions; SSL request and TLS "
              "bytes cut at arbitrary positions",
    "outside": "payloads above 50 MiB; more than 3 cuts; the cryptography of TLS (the event loop's start_tls is replaced by an identity "
               "TLS; the case realtls runs OpenSSL on both ends for solver-chosen cuts)",
    "assumptions": ["payload contents are opaque: framing code does not look at them (checked by byte-exact comparison of provenance)"],
}

MAX = 0xFFFFFF
BIG = 50 << 20


def serve(w, coro):
    """a connection handled by coro(stream) instead of the server"""
    from mysql_mimic.stream import MysqlStream
    errors = []

    async def cb(reader, writer):
        try:
            await coro(MysqlStream(reader, writer))
        except Exception as e:
            errors.append(e)
            raise
    p = Peer(w, cb=cb)
    w.conns.append(p)
    p.errors = errors
    w.run()
    return p


def unframe(data, seq):
    """independent reassembly; returns (payloads, next seq)"""
    out = []
    part = []
    while True:
        n = len(data)
        if n == 0:
            break
        check(n >= 4, "truncated packet header")
        ln = int.from_bytes(data[:3], "little")
        check(data[3] == seq % 256, "sequence number")
        seq += 1
        check(n >= 4 + ln, "truncated packet")
        part.append(data[4:4 + ln])
        data = data[4 + ln:]
        if ln < MAX:
            out.append(part[0] if len(part) == 1 else b"".join(part))
            part = []
    check(not part, "payload of a multiple of 16 MiB - 1 is not terminated")
    return out, seq


def send(sizes, hi):
    def fn(P):
        pay = [P.blob("p%d" % k, lo, hi, d) for k, (lo, d) in enumerate(sizes)]
        dr = [P.flag("drain%d" % k, True) for k in range(len(sizes))]
        with World(server_kwargs=None) as w:
            async def run(stream):
                for d, f in zip(pay, dr):
                    await stream.write(d, drain=f)
                await stream.drain()
            p = serve(w, run)
            check(not p.errors, "writing failed", p.errors)
            got, _ = unframe(p.raw(), 0)
            check(len(got) == len(pay), "number of payloads", len(got))
            for g, x in zip(got, pay):
                check(len(g) == len(x) and g == x, "payload differs")
            return [len(g) // MAX for g in got]
    return fn


CASES.append(Case("send-1", send([(0, MAX)], BIG), weight=2, max_paths=200, limit=10 ** 9))
CASES.append(Case("send-3", send([(0, 100), (0, 40000), (0, 0)], 70000), weight=2, max_paths=2000))
CASES.append(Case("send-2big", send([(0, MAX), (0, 10)], MAX + 70000), weight=2, max_paths=300, limit=10 ** 9))


def receive(n, hi, ncut, default):
    """n client payloads, cut anywhere"""
    def fn(P):
        pay = [P.blob("p%d" % k, 0, hi, default if k == 0 else 5) for k in range(n)]
        data, seq = b"", 0
        for x in pay:
            d, _ = frame(x, seq)
            seq += len(x) // MAX + 1
            data = data + d
        between = P.flag("run_between", True)
        got = []
        with World(server_kwargs=None) as w:
            async def run(stream):
                for k in range(n):
                    got.append(await stream.read())
            p = serve(w, run)
            pos = 0
            rest = data
            for k in range(ncut):
                c = P.int("cut%d" % k, 0, n * (hi + 4 * (hi // MAX + 2)), 2 + 3 * k)
                P.assume(c <= len(rest))
                p.feed(rest[:c], run=between)
                rest = rest[c:]
            p.feed(rest)
            check(not p.errors, "reading failed", p.errors)
            check(len(got) == n, "number of payloads", len(got))
            for g, x in zip(got, pay):
                check(len(g) == len(x) and g == x, "payload differs")
            return [len(g) // MAX for g in got]
    return fn


CASES.append(Case("recv-1", receive(1, 300, 2, 50), weight=2, max_paths=3000))
CASES.append(Case("recv-2", receive(2, 300, 2, 50), weight=4, max_paths=8000))
CASES.append(Case("recv-big", receive(1, 2 * MAX + 300, 1, MAX), weight=3, max_paths=400, limit=10 ** 9))
CASES.append(Case("recv-3", receive(3, 70000, 3, 50), weight=8, max_paths=50000, tier="thorough"))
CASES.append(Case("recv-big2", receive(1, 2 * MAX + 300, 2, MAX), weight=6, max_paths=3000, limit=10 ** 9, tier="thorough"))
CASES.append(Case("recv-bigsmall", receive(2, MAX + 300, 2, MAX), weight=6, max_paths=3000, limit=10 ** 9, tier="thorough"))


def bytewise(P):
    """byte at a time; the server may or may not run between the bytes"""
    n = P.small("len", 0, 6, 3)
    x = P.bytes("x", n)
    m = P.small("len2", 0, 2, 1)
    y = P.bytes("y", m)
    data = frame(x, 0)[0] + frame(y, 1)[0]
    got = []
    with World(server_kwargs=None) as w:
        async def run(stream):
            got.append(await stream.read())
            got.append(await stream.read())
        p = serve(w, run)
        for i in range(len(data)):
            p.feed(data[i:i + 1], run=P.flag("run%d" % i, True) if i in (1, 3, 4) else True)
        check(not p.errors, "reading failed", p.errors)
        check(len(got) == 2 and got[0] == x and got[1] == y, "payload differs", got)
        return [n, m]


CASES.append(Case("bytewise", bytewise, weight=1, max_paths=2000))


def conversation(ncut):
    """the same client bytes, cut anywhere, produce the same server bytes"""
    def fn(P):
        dep = P.flag("deprecate_eof", True)
        wide = P.choice("wide", ["user", "sql", "arg", "db"], 1)
        name = P.blob("user", 0, 300, 4) if wide == "user" else b"joe"
        db = P.blob("db", 0, 300, 3) if wide == "db" else b"shop"
        sql = P.blob("sql", 0, 70000, 6) if wide == "sql" else b"SELECT"
        arg = P.blob("arg", 0, 300, 7) if wide == "arg" else b"x"
        caps = BASE | CONNECT_WITH_DB | (DEPRECATE_EOF if dep else 0)

        def handler(s, e, q, attrs):
            return [(s.username, s.database, q)], ["user", "db", "sql"]

        def messages(c):
            c.read_greeting()
            yield frame(c.response41(name, b"", caps, db), 1)[0]
            yield frame(b"\x03" + sql, 0)[0]
            yield frame(b"\x16" + b"P ?", 0)[0]
            c.caps = caps
            yield frame(c.c_execute(0, [(b"", T_STRING, False, lenstr(arg))]), 0)[0]
            yield frame(b"\x0e", 0)[0]

        def run(feed):
            hub = RawHub(handler)
            with World(session_factory=hub.factory, control=control()) as w:
                c = Client(w.open())
                ms = list(messages(c))
                feed(c.peer, ms)
                return c.peer.raw(), [x[1] for x in hub.calls], c.peer.closed

        def whole(peer, ms):
            for m in ms:
                peer.feed(m)

        def cut(peer, ms):
            rest = b"".join(ms)
            for k in range(ncut):
                n = P.int("cut%d" % k, 0, 80000, 90 - 40 * k)
                P.assume(n <= len(rest))
                peer.feed(rest[:n], run=P.flag("run%d" % k, True))
                rest = rest[n:]
            peer.feed(rest)
        a = run(whole)
        b = run(cut)
        check(len(a[1]) == 2 and a[1][0] == sql.decode(), "SQL differs")
        check(a[1] == b[1], "the application sees other statements under another segmentation")
        check(len(a[0]) == len(b[0]) and a[0] == b[0], "the client sees another conversation under another segmentation")
        check(a[2] == b[2], "connection state")
        return [dep]
    return fn


def control():
    from mysql_mimic.control import LocalControl
    return LocalControl(server_id=3)


CASES.append(Case("conversation-1", conversation(1), weight=4, max_paths=4000))
CASES.append(Case("conversation-2", conversation(2), weight=8, max_paths=50000, tier="thorough"))


# ---- TLS

class IdentityTLS(asyncio.BufferedProtocol):
    """what asyncio's SSLProtocol does with bytes, without the cryptography: the first hello_len bytes are the handshake, the rest
    is application data"""

    def __init__(self, app, hello_len, size, waiter):
        self.app = app
        self.left = hello_len
        self.size = size
        self.waiter = waiter
        self.seen = []

    def get_buffer(self, sizehint):
        self.buf = Buffer(self.size)
        return self.buf

    def buffer_updated(self, n):
        data = self.buf.data[:n]
        k = self.left
        if k:
            m = len(data)
            if m < k:
                self.left = k - m
                self.seen.append(data)
                return
            self.seen.append(data[:k])
            data = data[k:]
            self.left = 0
            self.waiter.set_result(None)
        if len(data):
            self.app.data_received(data)

    def eof_received(self):
        return self.app.eof_received()

    def connection_lost(self, exc):
        if not self.waiter.done():
            self.waiter.set_exception(ConnectionResetError())
        self.app.connection_lost(exc)

    def pause_writing(self):
        self.app.pause_writing()

    def resume_writing(self):
        self.app.resume_writing()


class Buffer:
    def __init__(self, size):
        self.size = size
        self.data = b""

    def __len__(self):
        return self.size

    def __setitem__(self, k, v):
        if isinstance(k, slice) and k.start in (None, 0):
            self.data = bytes(v)
        else:
            raise TypeError("unexpected store")


class TlsTransport:
    """the transport handed out by start_tls"""

    def __init__(self, raw, proto):
        self.raw, self.proto = raw, proto

    def __getattr__(self, name):
        return getattr(self.raw, name)

    def get_protocol(self):
        return self.proto.app

    def set_protocol(self, p):
        self.proto.app = p


def tls(ncut, wide):
    return lambda P: tls_case(P, ncut, wide)


def tls_case(P, ncut, wide):
    """SSL request, TLS handshake bytes and encrypted data cut anywhere, including in the same read as the SSL request"""
    name = P.blob("user", 0, 300, 4) if wide else b"joe"
    hello = P.blob("hello", 1, 70000, 200)
    size = P.choice("buffer", [262144, 100])
    caps = BASE | DEPRECATE_EOF | SSL
    hub = RawHub(lambda s, e, q, attrs: [(s.username,)])
    hub.handler = lambda s, e, q, attrs: ([(s.username,)], ["user"])
    import ssl
    protos = []
    if size == 100:
        P.assume(len(hello) <= 300)
    with World(session_factory=hub.factory, ssl=ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)) as w:
        async def start_tls(transport, protocol, sslcontext, *, server_side=False, **kw):
            check(server_side, "TLS is not started as the server")
            waiter = w.loop.create_future()
            proto = IdentityTLS(protocol, len(hello), size, waiter)
            protos.append(proto)
            transport.pause_reading()
            transport.set_protocol(proto)
            w.loop.call_soon(transport.resume_reading)
            await waiter
            return TlsTransport(transport, proto)
        w.loop.start_tls = start_tls
        c = Client(w.open())
        g = c.read_greeting()
        check(g.caps & SSL, "TLS is not offered")
        c.caps = caps
        req = frame(u(caps, 4) + u(1 << 24, 4) + bytes([255]) + bytes(23), 1)[0]
        data = req + hello
        early = P.flag("early")                 # encrypted data right behind the handshake
        c.seq = 3
        resp = frame(c.response41(name, b"", caps), 2)[0]
        if early:
            data = data + resp
        for k in range(ncut):
            n = P.int("cut%d" % k, 0, 80000, 80 - 40 * k)
            P.assume(n <= len(data))
            if k == 0:
                # the first read ends anywhere behind the start of the SSL request
                P.assume(n >= 30)
            c.peer.feed(data[:n], run=P.flag("run%d" % k, True))
            data = data[n:]
        c.peer.feed(data)
        if not early:
            c.peer.feed(resp)
        check(len(protos) == 1, "TLS was not started")
        got = b"".join(protos[0].seen)
        check(len(got) == len(hello) and got == hello, "TLS handshake bytes are lost or altered")
        r = c.auth_result()
        check(r.kind == "ok", "login over TLS", r)
        r = c.query(b"Q")
        check(r.kind == "rs" and r.rows[0][0] == name, "user name over TLS")
        return [early]


CASES.append(Case("tls", tls(1, False), weight=4, max_paths=6000))
CASES.append(Case("tls-2", tls(2, False), weight=6, max_paths=6000, tier="thorough"))
CASES.append(Case("tls-user", tls(1, True), weight=6, max_paths=6000, tier="thorough"))


def realtls(P):
    """OpenSSL on both ends"""
    import os
    import ssl
    here = os.path.dirname(os.path.abspath(__file__))
    sctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    sctx.load_cert_chain(os.path.join(here, "tls", "cert.pem"), os.path.join(here, "tls", "key.pem"))
    cctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    cctx.check_hostname = False
    cctx.verify_mode = ssl.CERT_NONE
    hub = RawHub(lambda s, e, q, attrs: ([(s.username, q)], ["user", "q"]))
    version = P.choice("version", ["1.3", "1.2"])
    cctx.maximum_version = ssl.TLSVersion.TLSv1_3 if version == "1.3" else ssl.TLSVersion.TLSv1_2
    with World(session_factory=hub.factory, ssl=sctx) as w:
        c = Client(w.open())
        c.read_greeting()
        caps = BASE | DEPRECATE_EOF | SSL
        inb, outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        obj = cctx.wrap_bio(inb, outb, server_side=False)
        try:
            obj.do_handshake()
        except ssl.SSLWantReadError:
            pass
        hello = outb.read()
        req = frame(u(caps, 4) + u(1 << 24, 4) + bytes([255]) + bytes(23), 1)[0]
        data = req + hello
        n = P.choice("cut", [36, 37, 40, 41, 42, 45, 100, len(data) - 1, len(data)])
        c.peer.feed(data[:n], run=P.flag("run", True))
        c.peer.feed(data[n:])
        done = False
        for _ in range(10):
            if not done:
                inb.write(c.peer.raw())
                try:
                    obj.do_handshake()
                    done = True
                except ssl.SSLWantReadError:
                    pass
                x = outb.read()
                if x:
                    c.peer.feed(x)
        check(done, "TLS handshake does not complete")

        def exchange(b):
            obj.write(b)
            c.peer.feed(outb.read())
            inb.write(c.peer.raw())
            out = b""
            while True:
                try:
                    x = obj.read(1 << 16)
                except ssl.SSLWantReadError:
                    break
                if not x:
                    break
                out += x
            return out
        c.caps = caps
        r, _ = unframe(exchange(frame(c.response41(b"joe", b"", caps), 2)[0]), 3)
        check(len(r) == 1 and r[0][0] == 0, "login over TLS", r)
        r, _ = unframe(exchange(frame(b"\x03hi", 0)[0]), 1)
        check(len(r) == 5 and r[3] == b"\x03joe\x02hi", "query over TLS", r)
        return [version, n]


CASES.append(Case("realtls", realtls, weight=1, max_paths=100))

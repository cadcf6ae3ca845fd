"""C12 results stream lazily with back-pressure and without starving other clients"""
import asyncio

from harness.base import Violation
from harness.case import Case
from harness.world import World, check, fail
from harness.app import RawHub
from harness.proto import *

CASES = []
META = {
    "quick_s": 110, "thorough_s": 500,
    "bounds": "results without end (and of any size that the client happens to read), text rows, binary rows and cursor fetches of "
              "any 32-bit size, from generators, iterators, async generators and async iterables that never suspend; rows of "
              "2000..200000 octets (symbolic) and of 5 octets; the socket stops after any of the first 8 sends, accepts part of a "
              "send, resumes and stops again (3 rounds, thorough 5); a PING, a query, a fetch or a login of another connection "
              "arriving at chosen rows (first, around the 10000th / 20000th) while 1..3 connections stream",
    "outside": "the fixed bounds checked are 30000 rows of look-ahead and 100000 rows of other connections before a waiting command "
               "is answered; row sources that block the thread themselves",
    "assumptions": [],
}

LOOK = 30000           # rows pulled beyond what the socket was handed
FAIR = 100000          # rows pulled while another connection's command waits


class Source:
    """endless rows; counts what was pulled"""

    def __init__(self, kind, row, cap=LOOK, msg=""):
        self.kind, self.row, self.cap, self.msg = kind, row, cap, msg
        self.over = False
        self.pulled = 0
        self.limit = cap           # rows the server may have pulled by now
        self.at = {}               # row number -> action

    def take(self):
        if self.over:
            raise StopIteration
        i = self.pulled
        self.pulled += 1
        if self.pulled > self.limit:
            raise Violation(self.msg or "rows are pulled without bound while the client does not read", self.pulled)
        f = self.at.get(i)
        if f is not None:
            f()
        return self.row(i)

    def make(self):
        if self.kind == "gen":
            def g():
                while not self.over:
                    yield self.take()
            return g()
        if self.kind == "agen":
            async def ag():
                while not self.over:
                    yield self.take()
            return ag()
        if self.kind == "iter":
            return It(self)
        return AIt(self)


class It:
    def __init__(self, src):
        self.src = src

    def __iter__(self):
        return self

    def __next__(self):
        return self.src.take()


class AIt:
    def __init__(self, src):
        self.src = src

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return self.src.take()
        except StopIteration:
            raise StopAsyncIteration


def columns(kinds):
    from mysql_mimic.results import ResultColumn
    from mysql_mimic.types import ColumnType
    return [ResultColumn("c%d" % i, ColumnType.VARCHAR if k == "s" else ColumnType.LONG) for i, k in enumerate(kinds)]


def result(src, kinds, bare=False):
    from mysql_mimic.results import ResultSet
    if bare:
        return src.make(), ["c%d" % i for i in range(len(kinds))]
    return ResultSet(rows=src.make(), columns=columns(kinds))


class Tap:
    """stops the socket after some more sends"""

    def __init__(self, sock):
        self.sock = sock
        self.left = None
        self.part = 0
        sock.on_send = self.sent

    def sent(self):
        if self.left is not None:
            self.left = self.left - 1
            if self.left == 0:
                self.sock.window = self.part
                self.left = None

    def allow(self, k, part=0):
        self.part = part
        if k == 0:
            self.sock.window = part
            self.left = None
        else:
            self.sock.window = None
            self.left = k


def start(c, mode):
    """sends the command that makes the server stream; the statements were prepared before"""
    if mode == "text":
        c.send_command(b"\x03SELECT rows", run=False)
    elif mode == "exec":
        c.send_command(c.c_execute(c.st), run=False)
    else:
        c.send_command(b"\x1c" + u(c.st, 4) + u(2 ** 32 - 1, 4), run=False)


def ready(c, mode, hub, res):
    if mode != "text":
        c.st = c.prepare(b"SELECT rows").stmt_id
    if mode == "fetch":
        r = c.execute(c.st, flags=1)
        check(r.kind == "cursor", "no cursor was opened", r.kind)


def pressure(rounds, wide, modes=("text", "exec", "fetch"), kinds=("gen", "agen", "aiter", "iter"), first=3):
    def fn(P):
        mode = P.choice("mode", list(modes))
        kind = P.choice("source", list(kinds))
        bare = P.flag("bare") if wide and kind in ("gen", "agen") else False
        if wide:
            cell = P.strblob("cell", 4000, 200000, 5000)
            src = Source(kind, lambda i: (i, cell))
        else:
            src = Source(kind, lambda i: (i,))
        hub = RawHub(lambda s, e, sql, attrs: result(src, "is" if wide else "i", bare))
        with World(session_factory=hub.factory) as w:
            c = Client(w.open())
            c.login(caps=BASE | DEPRECATE_EOF)
            ready(c, mode, hub, src)
            check(src.pulled <= LOOK, "opening a cursor pulls rows without bound", src.pulled)
            tap = Tap(c.peer.sock)
            seen = [src.pulled]
            for k in range(rounds):
                # the rows handed to the socket before it stops again are those that fit into the sends it still accepts
                n = P.small("sends%d" % k, 0, first if k == 0 else 2, 2 - k % 2)
                part = P.choice("part%d" % k, [0, 1]) if wide and n and k == 0 else 0
                tap.allow(n, part)
                src.limit = src.pulled + LOOK * (1 if wide else 1 + n)
                if k == 0:
                    start(c, mode)
                w.run()
                check(not c.peer.closed, "connection was closed")
                seen.append(src.pulled)
                # nothing more happens while the client does not read
                w.loop.sleep(1000)
                check(src.pulled == seen[-1], "rows are pulled while the client does not read")
            check(src.pulled > 0, "no rows were pulled at all")
            end = P.choice("end", ["stay", "reset", "kill"]) if wide and rounds > 1 else "stay"
            if end != "stay":
                # nobody will ever read the rest
                src.limit = src.pulled + LOOK
                if end == "reset":
                    c.peer.reset()
                else:
                    w.loop.complete(w.server.control.kill(c.conn_id))
                    w.run()
                check(not w.loop.tasks(), "the result is produced for a connection that is gone")
            return [mode, kind, len(seen)]
    return fn


CASES.append(Case("pressure", pressure(2, True), weight=6, max_paths=6000, maxconds=8000, limit=50000000))
CASES.append(Case("pressure-narrow", pressure(1, False, kinds=("gen", "agen"), first=1), weight=4, max_paths=200, limit=50000000))
CASES.append(Case("pressure-3", pressure(3, True), weight=8, max_paths=20000, maxconds=8000, limit=50000000, tier="thorough"))
CASES.append(Case("pressure-5", pressure(5, True, kinds=("gen",)), weight=8, max_paths=20000, maxconds=8000, limit=50000000,
                  tier="thorough"))


def finite(P):
    """results of any size: whatever the client did not read is not pulled, and the rest arrives when it reads on"""
    mode = P.choice("mode", ["text", "exec", "fetch"])
    cell = P.strblob("cell", 20000, 90000, 40000)
    total = P.small("rows", 0, 6, 5)

    def rows():
        for i in range(total):
            src.pulled += 1
            yield (i, cell)
    src = Source("gen", None)
    src.make = rows
    hub = RawHub(lambda s, e, sql, attrs: result(src, "is"))
    with World(session_factory=hub.factory) as w:
        c = Client(w.open())
        c.login()
        cols = None
        if mode != "text":
            c.st = c.prepare(b"SELECT rows").stmt_id
        if mode == "fetch":
            cols = c.execute(c.st, flags=1).cols
            check(src.pulled == 0, "opening a cursor pulls rows", src.pulled)
        tap = Tap(c.peer.sock)
        n = P.small("sends", 0, 3, 1)
        tap.allow(n)
        sent = 0
        if mode == "fetch":
            c.send_command(b"\x1c" + u(c.st, 4) + u(20, 4), run=False)
        else:
            start(c, mode)
        w.run()
        held = src.pulled
        tap.sock.on_send = None
        tap.sock.window = None
        w.run()
        check(src.pulled == total, "rows are missing")
        r = c.read_query(binary=mode == "exec") if mode != "fetch" else c.read_fetch(cols)
        check(len(r.rows) == total, "rows are missing")
        for i, x in enumerate(r.rows):
            if mode == "text":
                check(x[0] == str(i).encode() and x[1] == cell.encode(), "row differs")
            else:
                check(x[0][1] == i and x[1][1] == cell.encode(), "row differs")
        c.quiet()
        check(c.ping().kind == "ok", "PING")
        return [mode, held, total]


CASES.append(Case("finite", finite, weight=3, max_paths=2000, maxconds=6000, limit=50000000))


def fair(mode, streams, what=("ping",), when=(0, 1, 9998, 10001, 15000), kinds=("gen", "agen"), nulls=False, row=lambda i: (1,), cols="i"):
    """another connection's command arrives while rows are streamed to a client that reads everything"""
    def fn(P):
        kind = P.choice("source", list(kinds))
        srcs = []

        def handler(s, e, sql, attrs):
            if "rows" not in sql:
                return [(7,)], ["seven"]
            src = srcs[len(hub.active)]
            hub.active.append(src)
            return result(src, cols, nulls)
        hub = RawHub(handler)
        hub.active = []
        at = P.choice("at", list(when))
        msg = "a command of another connection is not answered while a result is streamed"
        for i in range(streams):
            srcs.append(Source(kind, row, 10 ** 9, msg))
        with World(session_factory=hub.factory) as w:
            cs = [Client(w.open()) for _ in range(streams)]
            b = Client(w.open())
            op = P.choice("op", list(what))
            for c in cs:
                c.login()
                ready(c, mode, hub, None)
            if op != "login":
                b.login()
            if op == "fetch":
                st = b.prepare(b"SELECT seven").stmt_id
                bc = b.execute(st, flags=1).cols
            done = [0]
            for c in cs:
                c.peer.sock.send = discard(c.peer.sock)

            def stop():
                # answered: the results end
                for s in srcs:
                    s.over = True
                done[0] += 1

            def arrive():
                for s in srcs:
                    s.limit = s.pulled + FAIR
                if op == "ping":
                    b.send_command(b"\x0e", run=False)
                elif op == "query":
                    b.send_command(b.c_query(b"SELECT seven"), run=False)
                elif op == "fetch":
                    b.send_command(b"\x1c" + u(st, 4) + u(5, 4), run=False)
                else:
                    b.read_greeting()
                    b.caps = BASE | DEPRECATE_EOF
                    b.send(b.response41(b"u", b"", b.caps), seq=1, run=False)
                b.peer.sock.on_send = stop
            srcs[0].at[at] = arrive
            for c in cs:
                start(c, mode)
            for s in srcs:
                s.limit = s.pulled + 10 * FAIR
            w.run()
            check(done[0], msg)
            if op == "ping":
                check(b.read_simple().kind == "ok", "PING")
            elif op == "query":
                r = b.read_query()
                check(r.kind == "rs" and r.rows == [[b"7"]], "query of the other connection")
            elif op == "login":
                check(b.auth_result().kind == "ok", "login of the other connection")
            else:
                r = b.read_fetch(bc)
                check(len(r.rows) == 1, "fetch of the other connection")
            return [mode, kind, at]
    return fn


def discard(sock):
    """the peer reads everything at once"""
    def send(data):
        if sock._failing():
            raise sock.fail_exc
        sock.sends += 1
        return len(data)
    return send


OPS = ("ping", "query", "login", "fetch")
for m in ("text", "exec", "fetch"):
    CASES.append(Case("fair-" + m, fair(m, 1, when=(0, 1, 9998, 10001)), weight=4, max_paths=200, limit=500000000))
CASES.append(Case("fair-ops", fair("text", 1, OPS[1:], when=(0, 10001), kinds=("gen",)), weight=3, max_paths=20, limit=500000000))
CASES.append(Case("fair-2", fair("text", 2, when=(0, 10001), kinds=("gen",)), weight=3, max_paths=20, limit=500000000))
CASES.append(Case("fair-nulls", fair("text", 1, when=(1, 10001), nulls=True, row=lambda i: (None,)), weight=3, max_paths=20, limit=500000000))
for m in ("text", "exec", "fetch"):
    CASES.append(Case("fair-all-" + m, fair(m, 1, OPS, when=(0, 1, 5000, 9998, 9999, 10000, 10001, 15000, 20001, 33333),
                                            kinds=("gen", "agen", "iter", "aiter")), weight=8, max_paths=400, limit=500000000,
                      tier="thorough"))
CASES.append(Case("fair-3", fair("exec", 3, OPS, when=(0, 10001, 20001), kinds=("gen", "agen")), weight=8, max_paths=100, limit=900000000,
                  tier="thorough"))


def nullpeek(P):
    """bare column names: rows are read ahead to find the type of the columns"""
    lead = P.choice("leading", [0, 1, 3, None])
    kind = P.choice("source", ["gen", "agen"])
    src = Source(kind, lambda i: (i, None if lead is None or i < lead else "x" * 5000), msg="[NULLPEEK] rows are pulled without "
                 "bound in search of the type of a column that is NULL in every row" if lead is None else "")
    mode = P.choice("mode", ["text", "exec"])
    hub = RawHub(lambda s, e, sql, attrs: result(src, "is", True))
    with World(session_factory=hub.factory) as w:
        c = Client(w.open())
        c.login()
        ready(c, mode, hub, src)
        c.peer.sock.window = 0
        start(c, mode)
        w.run()
        check(src.pulled > 0, "nothing is pulled")
        return [lead, src.pulled]


CASES.append(Case("peek", nullpeek, weight=2, max_paths=50, limit=500000000))

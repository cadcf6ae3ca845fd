"""C18 connection ids are unique among live connections and address the right one"""
from harness.case import Case
from harness.world import World, check, fail
from harness.proto import Client, R

CASES = []
META = {
    "quick_s": 60, "thorough_s": 240,
    "bounds": "server id: every int in [-1, 2^20]; sequence position: every 16-bit value; up to 3 (thorough 5) older live "
              "connections with arbitrary distinct ids; 4 consecutive additions with one removal at an arbitrary point; "
              "full table of 65536 live ids with a freed slot; KILL addressing among 3 connections",
    "outside": "asyncio accept loop of the kernel; Control subclasses written by the application",
    "assumptions": ["the position of the id sequence and the live table are injected as arbitrary values when the "
                    "control object exposes them (attributes of type seq / dict)"],
}


class Dummy:
    def __init__(self, n):
        self.n = n
        self.kills = []
        self.connection_id = 0

    def kill(self, kind=None):
        self.kills.append(kind)


def _inject(control, start):
    """set the id sequence to an arbitrary position; the live table"""
    from mysql_mimic.utils import seq
    found = None
    table = None
    for name, v in vars(control).items():
        if isinstance(v, seq):
            found = v
        if isinstance(v, dict) and not v:
            table = v
    if found is None or table is None or not hasattr(found, "value"):
        return None
    found.value = start
    return table


def ids(nold, nadd):
    def fn(P):
        from mysql_mimic.control import LocalControl
        sid = P.int("server_id", -1, 1 << 20, 7)
        start = P.int("start", 0, 65535, 65534)
        with World() as w:
            control = LocalControl(server_id=sid)
            table = _inject(control, start)
            if table is None:
                P.note("no injectable id state")
                return ["skipped"]
            upper = sid % 65536
            live = {}
            for k in range(nold):
                x = P.int("old%d" % k, 0, 65535, (65534 + 2 * k) % 65536)
                i = upper * 65536 + x
                for j in live:
                    P.assume(j != i)
                d = Dummy(k)
                table[i] = d
                live[i] = d
            gone = P.small("gone", 0, nadd - 1, 1) if nadd > 1 else 0
            from mysql_mimic.constants import KillKind
            early = None
            if nold and P.flag("early", 0):
                # a killed connection is live until it ends
                early = list(live)[0]
                w.loop.complete(control.kill(early, P.choice("kind", [KillKind.CONNECTION, KillKind.QUERY])))
                check([len(d.kills) for d in live.values()] == [1] + [0] * (nold - 1), "kill reached the wrong connection")
                live[early].kills.clear()
            out = []
            for k in range(nadd):
                d = Dummy(100 + k)
                i = w.loop.complete(control.add(d))
                check(0 <= i and i < 2 ** 32, "connection id is not 32 bits")
                check(i >> 16 == upper, "upper half of the id is not the configured server id")
                for j in live:
                    check(j != i, "id handed out while a live connection has it")
                live[i] = d
                out.append(i)
                if k == gone:
                    r = list(live)[0 if early is None else 1]
                    del live[r]
                    w.loop.complete(control.remove(r))
            # KILL addresses exactly the connection with that id
            ks = list(live)
            t = P.small("target", 0, len(ks) - 1, 0)
            w.loop.complete(control.kill(ks[t], KillKind.CONNECTION))
            for k, i in enumerate(ks):
                check(len(live[i].kills) == (1 if k == t else 0), "kill reached the wrong connection")
            return out
    return fn


CASES.append(Case("ids-1old", ids(1, 3), weight=1))
CASES.append(Case("ids-3old", ids(3, 4), weight=2.5))
CASES.append(Case("ids-5old", ids(5, 6), weight=4, tier="thorough"))


def greeting(P):
    """the id announced in the handshake carries the configured server id"""
    from mysql_mimic.control import LocalControl
    sid = P.int("server_id", 0, 1 << 17, 0)
    with World(control=LocalControl(server_id=sid)) as w:
        cs = [Client(w.open()) for _ in range(3)]
        seen = []
        for c in cs:
            c.login()
            check(c.conn_id >> 16 == sid % 65536, "upper half of the announced id is not the configured server id")
            for s in seen:
                check(s != c.conn_id, "two live connections announce the same id")
            seen.append(c.conn_id)
        return seen


CASES.append(Case("greeting", greeting, weight=0.5))


def addressing(P):
    """handshake id, CONNECTION_ID() and the id KILL accepts denote the same connection"""
    from mysql_mimic.control import LocalControl
    sid = P.choice("server_id", [1, 0, 32768, 65535, 65536 + 9])
    control = LocalControl(server_id=sid)
    with World(control=control) as w:
        start = P.choice("start", [0, 65534, 65535])
        _inject(control, start)
        cs = [Client(w.open()) for _ in range(3)]
        for c in cs:
            check(c.login().kind == "ok", "login")
            check(c.conn_id >> 16 == sid % 65536, "upper half of the id")
        ids = [c.conn_id for c in cs]
        check(len(set(ids)) == 3, "live ids are not distinct")
        for c in cs:
            r = c.query(b"SELECT CONNECTION_ID()")
            check(r.kind == "rs" and r.rows == [[str(c.conn_id).encode()]], "CONNECTION_ID() differs from the handshake id", r.rows)
        issuer = P.small("issuer", 0, 2, 0)
        target = P.small("target", 0, 3, 1)
        form = P.choice("form", [b"KILL %d", b"KILL CONNECTION %d", b"KILL QUERY %d"])
        other = [i for i in range(min(ids), min(ids) + 70000) if i not in ids][0]
        tid = ids[target] if target < 3 else other
        if issuer == target:
            return ["self"]
        r = cs[issuer].query(form % tid)
        check(r.kind == "ok", "KILL is not answered with OK", r.msg)
        w.run()
        ended = form != b"KILL QUERY %d"
        for k, c in enumerate(cs):
            dead = k == target and ended
            check(c.peer.closed == dead, "KILL ended the wrong connection" if not dead else "KILL did not end its target")
            if not dead:
                check(c.ping().kind == "ok", "surviving connection unusable")
        # the freed id may be used again, never a live one
        n = Client(w.open())
        n.login()
        check(all(n.conn_id != c.conn_id for c in cs if not c.peer.closed), "id of a live connection announced again")
        return ids
    

CASES.append(Case("addressing", addressing, weight=2))


def full(P):
    """all 65536 ids in use: ERR 1040, service resumes when one connection ends"""
    from mysql_mimic.control import LocalControl
    control = LocalControl(server_id=P.choice("server_id", [3, 65535]))
    with World(control=control) as w:
        c0 = Client(w.open())
        check(c0.login().kind == "ok", "login")
        ids = [c0.conn_id]
        for k in range(65535):
            co = control.add(Dummy(k))
            try:
                co.send(None)
                fail("control.add suspended")
            except StopIteration as e:
                ids.append(e.value)
        check(len(set(ids)) == 65536, "ids are not distinct after filling the table")
        check(len({i >> 16 for i in ids}) == 1, "server id part changes")
        refused = P.small("refused", 1, 2, 1)
        for _ in range(refused):
            x = Client(w.open())
            g = x.read_greeting()
            check(not hasattr(g, "conn_id") and g.kind == "err" and g.code == 1040, "full server does not refuse with ERR 1040")
            x.quiet()
            check(x.peer.closed, "[C18-refused-open] refused client is left connected")
        r = P.choice("freed", [0, 1, 32768, 65535])
        if r == 0:
            c0.quit()
            w.run()
        else:
            w.loop.complete(control.remove(ids[r]))
        y = Client(w.open())
        check(y.login().kind == "ok", "service does not resume after a connection ended")
        check(y.conn_id == ids[r], "new connection got an id that is in use")
        check(y.ping().kind == "ok", "ping")
        z = Client(w.open())
        g = z.read_greeting()
        check(not hasattr(g, "conn_id") and g.code == 1040, "more than 65536 connections admitted")
        return [refused, r]


CASES.append(Case("full", full, weight=2.5, limit=10 ** 8))

"""C17 query attributes reach the application exactly as sent"""
import struct

from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, RawHub
from harness.proto import *
from harness.sqlref import split, match_bound

CASES = []
META = {
    "quick_s": 60, "thorough_s": 300,
    "bounds": "attribute names of 0..2 symbolic characters (ASCII, Latin-1, astral samples) or opaque of 0..70000; values: every "
              "integer of every width and signedness, every 64-bit double pattern, strings of up to 3 symbolic characters or "
              "opaque up to 70000, NULL; 0..20 and 249..300 attributes; up to 9 positional parameters combined with up to 9 "
              "attributes, NULL anywhere; SQL text with up to 3 symbolic leading bytes for clients without query attributes",
    "outside": "attribute types the library rejects with ERR (temporal, decimal); two attributes of the same name",
    "assumptions": [],
}

WIDE = ((0, 0x7f), (0xa0, 0xff), (0x2660, 0x2663), (0x1f600, 0x1f603))
INTP = [(T_TINY, 1), (T_SHORT, 2), (T_YEAR, 2), (T_LONG, 4), (T_INT24, 4), (T_LONGLONG, 8)]
STRS = [T_VARCHAR, T_VAR_STRING, T_STRING, T_BLOB, T_TINY_BLOB, T_MEDIUM_BLOB, T_LONG_BLOB]


def enc(s):
    return s.encode("utf8")


def sval(s):
    return lenstr(enc(s))


def setup(P, qa=True, raw=True, extra=0):
    hub = RawHub() if raw else Hub()
    w = World(session_factory=hub.factory)
    c = Client(w.open())
    c.login(caps=BASE | DEPRECATE_EOF | extra | (QUERY_ATTRS if qa else 0))
    return hub, w, c


def same(got, want):
    """value equality, by kind"""
    if want is None:
        check(got is None, "NULL attribute arrives as a value", got)
    elif isinstance(want, str):
        check(isinstance(got, str), "string attribute arrives as another type", got)
        check(got == want, "string attribute differs", (got, want))
    elif isinstance(want, tuple):          # ("d", bits) / ("f", bits)
        check(isinstance(got, float), "float attribute arrives as another type", got)
        check(struct.pack("<" + want[0], got) == want[1] or want[2], "float attribute differs", (got, want))
    else:
        check(isinstance(got, int), "integer attribute arrives as another type", got)
        check(got == want, "integer attribute differs", (got, want))


def expect(hub, attrs, n=1, at=-1):
    """attrs: [(name, value)]"""
    check(len(hub.calls) == n, "number of statements seen by the application", len(hub.calls))
    got = list(hub.calls[at][2].items())
    check(len(got) == len(attrs), "number of attributes differs", (len(got), len(attrs)))
    for (gn, gv), (wn, wv) in zip(got, attrs):
        check(isinstance(gn, str) and gn == wn, "attribute name differs", (gn, wn))
        same(gv, wv)


def value(P, nm, n=2, full=True):
    """(type, unsigned, octets, expected) of a symbolic value of any kind"""
    kind = P.choice(nm + ".kind", ["int", "str", "double", "float", "null", "bool"])
    if kind == "int":
        t, size = P.choice(nm + ".type", INTP if full else INTP[:1] + INTP[-1:])
        uns = P.flag(nm + ".unsigned")
        v = P.int(nm, 0 if uns else -(1 << (8 * size - 1)), (1 << (8 * size)) - 1 if uns else (1 << (8 * size - 1)) - 1, 5)
        return t, uns, v.to_bytes(size, "little", signed=not uns), v
    if kind == "str":
        t = P.choice(nm + ".type", STRS if full else STRS[:1])
        s = P.str(nm, n, ranges=WIDE if full else WIDE[:2])
        return t, full and P.flag(nm + ".unsigned"), sval(s), s
    if kind == "double":
        d = P.float64(nm, 1.1)
        b = struct.pack("<d", d)
        return T_DOUBLE, False, b, ("d", b, d != d)
    if kind == "float":
        v = P.choice(nm, [0.5, -1.25, 1e10, 3.4e38, -0.0, float("inf"), float("nan")] if full else [-1.25])
        b = struct.pack("<f", v)
        return T_FLOAT, False, b, ("f", b, v != v)
    if kind == "bool":
        v = P.choice(nm, [0, 1])
        return T_BOOL, False, bytes([v]), v
    return P.choice(nm + ".type", [T_NULL, T_LONG, T_VAR_STRING, T_DOUBLE] if full else [T_NULL, T_VAR_STRING]), False, None, None


def single(prepared, names):
    def fn(P):
        hub, w, c = setup(P)
        with w:
            if names:
                name = P.str("name", 2, ranges=WIDE)
                v = P.int("v", -128, 127, 5)
                t, uns, b, want = T_TINY, False, v.to_bytes(1, "little", signed=True), v
                sql = "SELECT " + P.str("sql", 1, ranges=WIDE) + "\u2660"
            else:
                name = P.str("name", 1, ranges=((0, 0x7f),)) + "\u2660"
                t, uns, b, want = value(P, "v")
                sql = "SELECT " + P.str("sql", 1, ranges=((0, 0x7f),)) + "\u2660"
            a = [(enc(name), t, uns, b)]
            if prepared:
                P.assume(sql[7] != "?")
                st = c.prepare(enc(sql))
                r = c.execute(st.stmt_id, (), attrs=a)
            else:
                r = c.query(enc(sql), a)
            check(r.kind == "ok", "statement with attributes failed", r.msg)
            expect(hub, [(name, want)])
            check(hub.calls[0][1] == sql, "attributes alter the SQL text", (hub.calls[0][1], sql))
            return [sql, len(hub.calls[0][2])]
    return fn


for _k in (False, True):
    CASES.append(Case("execute-name" if _k else "query-name", single(_k, True), weight=1.5))
    CASES.append(Case("execute-value" if _k else "query-value", single(_k, False), weight=2))


def two(prepared):
    """two attributes of any kinds around each other, positional parameter in front"""
    def fn(P):
        hub, w, c = setup(P)
        with w:
            t, uns, b, want = value(P, "v", 1, False)
            t2, uns2, b2, want2 = value(P, "w", 1, False)
            a = [(b"a", t, uns, b), (b"bc", t2, uns2, b2)]
            if prepared:
                p = P.str("p", 2, ranges=((0, 0x7f),))
                st = c.prepare(b"SELECT ? FROM t")
                r = c.execute(st.stmt_id, [(b"", T_STRING, False, sval(p))], attrs=a)
            else:
                r = c.query(b"SELECT 1", a)
            check(r.kind == "ok", "statement with attributes failed", r.msg)
            expect(hub, [("a", want), ("bc", want2)])
            if prepared:
                match_bound(hub.calls[0][1], ["SELECT ", " FROM t"], [p])
            else:
                check(hub.calls[0][1] == "SELECT 1", "attributes alter the SQL text")
            return hub.calls[0][1]
    return fn


CASES.append(Case("query-two", two(False), weight=3))
CASES.append(Case("execute-two", two(True), weight=3))


def counts(P):
    """number of attributes and NULL bitmap of COM_QUERY"""
    n = P.choice("n", [0, 1, 2, 7, 8, 9, 15, 16, 17, 20])
    hub, w, c = setup(P)
    with w:
        at = P.small("null", -1, n - 1, -1) if n else -1
        vals = [None if i == at else i for i in range(n)]
        if n and at != 0:
            vals[0] = P.int("v", -128, 127, 3)
        a = [(b"n%d" % i, T_TINY, False, None if v is None else v.to_bytes(1, "little", signed=True)) for i, v in enumerate(vals)]
        s = P.str("sql", 1, ranges=((0, 0x7f),))
        r = c.query(enc(s + "x"), a)
        check(r.kind == "ok", "statement with attributes failed", r.msg)
        expect(hub, [("n%d" % i, v) for i, v in enumerate(vals)])
        check(hub.calls[0][1] == s + "x", "attributes alter the SQL text")
        return n


CASES.append(Case("counts", counts, weight=2))


def combos(P, ks=(0, 1, 2, 8), ms=(0, 1, 7)):
    """positional parameters x attributes, NULL bitmap across both"""
    k = P.choice("params", ks, 1)
    m = P.choice("attrs", ms, 1)
    hub, w, c = setup(P)
    with w:
        tpl = "SELECT " + ",".join(["?"] * k) + " FROM t WHERE '?'"
        st = c.prepare(tpl.encode())
        n1 = P.small("nullp", -1, k - 1, -1) if k else -1
        n2 = P.small("nulla", -1, m - 1, -1) if m else -1
        pv = [None if i == n1 else i for i in range(k)]
        av = [None if i == n2 else 100 + i for i in range(m)]
        if k and n1 != 0:
            pv[0] = P.int("p", -128, 127, -3)
        if m and n2 != m - 1:
            av[m - 1] = P.int("a", -128, 127, 9)
        one = lambda nm, v: (nm, T_TINY, False, None if v is None else v.to_bytes(1, "little", signed=True))
        avail = True if m else P.flag("available", False)
        c.send_command(c.c_execute(st.stmt_id, [one(b"", v) for v in pv], 0,
                                   [one(b"k%d" % i, v) for i, v in enumerate(av)], param_count_available=avail))
        r = c.read_query(binary=True)
        c.quiet()
        check(r.kind == "ok", "execute failed", r.msg)
        expect(hub, [("k%d" % i, v) for i, v in enumerate(av)])
        match_bound(hub.calls[0][1], split(tpl), pv)
        return hub.calls[0][1]


CASES.append(Case("combos", combos, weight=3))
CASES.append(Case("combos-more", lambda P: combos(P, (0, 1, 6, 7, 9, 16), (0, 1, 2, 8, 9, 15, 16)), weight=6, max_paths=20000,
                  tier="thorough"))


def many(P):
    n = P.choice("n", [249, 250, 251, 252, 300])
    prep = P.flag("prepared")
    hub, w, c = setup(P)
    with w:
        at = P.small("null", 0, 5, 2) * 49
        vals = [None if i == at else i % 100 for i in range(n)]
        a = [(b"n%d" % i, T_TINY, False, None if v is None else bytes([v])) for i, v in enumerate(vals)]
        if prep:
            st = c.prepare(b"SELECT ?")
            r = c.execute(st.stmt_id, [(b"", T_TINY, False, b"\x05")], attrs=a)
        else:
            r = c.query(b"SELECT 5", a)
        check(r.kind == "ok", "statement with attributes failed", r.msg)
        expect(hub, [("n%d" % i, v) for i, v in enumerate(vals)])
        check(hub.calls[0][1] == "SELECT 5", "SQL text")
        return n


CASES.append(Case("many", many, weight=1, limit=20000000))


def long(P):
    """names and values behind length prefixes of every width"""
    prep = P.flag("prepared")
    hub, w, c = setup(P)
    with w:
        nm = P.strblob("name", 0, 70000, 250)
        v = P.strblob("v", 0, 70000, 7)
        a = [(enc(nm), P.choice("type", [T_VAR_STRING, T_BLOB]), False, sval(v)), (b"", T_LONG, False, u(9, 4))]
        P.assume(len(nm) > 0)
        if prep:
            st = c.prepare(b"SELECT 1")
            r = c.execute(st.stmt_id, (), attrs=a)
        else:
            r = c.query(b"SELECT 1", a)
        check(r.kind == "ok", "statement with attributes failed", r.msg)
        expect(hub, [(nm, v), ("", 9)])
        check(hub.calls[0][1] == "SELECT 1", "attributes alter the SQL text")
        return 1


CASES.append(Case("long", long, weight=1))


def without(P):
    """clients without query attributes"""
    hub, w, c = setup(P, qa=False)
    with w:
        n = P.choice("n", [0, 1, 3], 2)
        head = P.bytes("head", n, default=[0, 1, 34][:n], lo=0, hi=0x7f)
        tail = P.choice("tail", [b"SELECT 1", b"", b"\x01\x00\x01\x0f\x00\x01a\x01b", "\x01\x01\u2660".encode()])
        c.send_command(b"\x03" + head + tail)
        r = c.read_query()
        c.quiet()
        check(r.kind == "ok", "statement failed", r.msg)
        expect(hub, [])
        check(enc(hub.calls[0][1]) == head + tail, "SQL text of a client without query attributes is altered", hub.calls)
        return 1


def without2(P):
    hub, w, c = setup(P, qa=False)
    with w:
        st = c.prepare(b"SELECT ?, ?")
        v = P.str("v", 2, ranges=((0, 0x7f),))
        n = P.int("n", 0, 127, 1)
        flag = P.choice("flags", [0, 8])
        c.send_command(c.c_execute(st.stmt_id, [(b"", T_TINY, False, bytes([n])), (b"", T_VAR_STRING, False, sval(v))], flag))
        r = c.read_query(binary=True)
        c.quiet()
        check(r.kind == "ok", "execute failed", r.msg)
        expect(hub, [])
        match_bound(hub.calls[0][1], ["SELECT ", ", ", ""], [n, v])
        st = c.prepare(b"SELECT 1")
        c.send_command(c.c_execute(st.stmt_id, [], flag))
        r = c.read_query(binary=True)
        c.quiet()
        check(r.kind == "ok", "execute failed", r.msg)
        expect(hub, [], 2)
        return 1


def noserver(P):
    """the server's configuration decides too: a client asking for attributes a server does not offer sends none"""
    from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES as D
    from mysql_mimic.types import Capabilities
    hub = RawHub()
    w = World(session_factory=hub.factory, capabilities=D & ~Capabilities.CLIENT_QUERY_ATTRIBUTES)
    with w:
        c = Client(w.open())
        g = c.read_greeting()
        check(not g.caps & QUERY_ATTRS, "capability announced")
        c.caps = (BASE | DEPRECATE_EOF | QUERY_ATTRS) & g.caps
        c.send(c.response41(b"u", b"", BASE | DEPRECATE_EOF | QUERY_ATTRS), seq=c.seq)
        check(c.auth_result().kind == "ok", "login")
        s = P.str("head", 2, ranges=((0, 0x7f),), default="\0\1")
        r = c.query(enc(s) + b"SELECT 1")
        check(r.kind == "ok", "statement failed", r.msg)
        expect(hub, [])
        check(hub.calls[0][1] == s + "SELECT 1", "SQL text altered")
        return 1


CASES.append(Case("without-attrs", without, weight=1))
CASES.append(Case("without-attrs-prepared", without2, weight=1))
CASES.append(Case("without-attrs-server", noserver, weight=0.5))


def sequence(P):
    """attributes belong to one statement"""
    raw = P.flag("raw", True)
    hub, w, c = setup(P, raw=raw)
    with w:
        v = P.int("v", -128, 127, 3)
        s = P.str("s", 1, ranges=((0x20, 0x7e),))
        a1 = [(b"x", T_TINY, False, v.to_bytes(1, "little", signed=True))]
        a2 = [(b"x", T_STRING, False, sval(s)), (b"y", T_NULL, False, None)]
        st = c.prepare(b"SELECT a FROM t WHERE b = ?")
        p = (b"", T_TINY, False, b"\x07")
        out = []
        n = 0
        for k in range(3):
            kind = P.small("step%d" % k, 0, 6, k)
            if kind == 0:
                r, want, sql = c.query(b"SELECT a FROM t", a1), [("x", v)], "SELECT a FROM t"
            elif kind == 1:
                r, want, sql = c.query(b"SELECT a FROM t", []), [], "SELECT a FROM t"
            elif kind == 2:
                r, want, sql = c.execute(st.stmt_id, [p], attrs=a2), [("x", s), ("y", None)], None
            elif kind == 3:
                r, want, sql = c.execute(st.stmt_id, [p]), [], None
            elif kind == 4:
                r, want, sql = c.query(b"SELECT b FROM t", a2), [("x", s), ("y", None)], "SELECT b FROM t"
            elif kind == 5:
                # a hint and several statements at once
                text = "SELECT /*+ SET_VAR(sql_auto_is_null=1) */ a FROM t"
                r, want, sql = c.query(text.encode(), a1), [("x", v)], text
            else:
                # the statement is rejected before it runs; nothing stays behind
                c.send_command(c.c_execute(st.stmt_id + 5, [p], 0, a2))
                r = c.read_query(binary=True)
                c.quiet()
                check(r.kind == "err", "unknown statement id accepted")
                check(len(hub.calls) == n, "unknown statement executed")
                continue
            n += 1
            check(r.kind == "ok", "statement failed", r.msg)
            expect(hub, want, n)
            got = hub.calls[-1][1]
            if sql is None:
                check(got.replace(" ", "") == "SELECTaFROMtWHEREb=7", "bound statement", got)
            else:
                check(got == sql, "attributes alter the SQL text", got)
            out.append(got)
        return out


CASES.append(Case("sequence", sequence, weight=3))


def longdata(P):
    """long data and attributes together"""
    hub, w, c = setup(P)
    with w:
        st = c.prepare(b"SELECT ?, ?")
        x = P.str("x", 1, ranges=((0, 0x7f),))
        y = P.str("y", 1, ranges=((0, 0x7f),))
        which = P.small("which", 0, 1, 0)
        c.long_data(st.stmt_id, which, enc("<" + x + ">"))
        inl = (b"", T_STRING, False, sval(y))
        ld = (b"", T_BLOB, False, b"")
        a = [(b"q", T_STRING, False, sval(y + "q")), (b"r", T_LONG, True, u(7, 4))]
        r = c.execute(st.stmt_id, [ld, inl] if which == 0 else [inl, ld], attrs=a)
        check(r.kind == "ok", "execute failed", r.msg)
        expect(hub, [("q", y + "q"), ("r", 7)])
        vals = ["<" + x + ">", y]
        match_bound(hub.calls[0][1], ["SELECT ", ", ", ""], vals if which == 0 else vals[::-1])
        return hub.calls[0][1]


CASES.append(Case("longdata", longdata, weight=1))


def charsets(P):
    """names and values are text in the client's character set"""
    cs, coll = P.choice("charset", [("utf8", 45), ("latin1", 8), ("utf8", 33), ("utf-16-be", 54), ("cp1251", 51)])
    hub = RawHub()
    w = World(session_factory=hub.factory)
    with w:
        c = Client(w.open())
        c.caps = BASE | DEPRECATE_EOF | QUERY_ATTRS
        c.login(user="u".encode(cs) if cs != "utf-16-be" else b"u", caps=c.caps, charset=coll if cs != "utf-16-be" else 45)
        if cs == "utf-16-be":
            return "skip"
        lo = {"latin1": ((0x20, 0x7e), (0xa1, 0xff)), "cp1251": ((0x20, 0x7e), (0x410, 0x44f))}.get(cs, ((0x20, 0x7e), (0xa1, 0xff)))
        nm = P.str("name", 1, ranges=lo)
        v = P.str("v", 1, ranges=lo)
        r = c.query("SELECT 1".encode(cs), [((nm + "n").encode(cs), T_STRING, False, lenstr((v + "v").encode(cs)))])
        check(r.kind == "ok", "statement failed", r.msg)
        expect(hub, [(nm + "n", v + "v")])
        return 1


CASES.append(Case("charsets", charsets, weight=1))

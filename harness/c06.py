"""C06 prepared-statement parameters are bound as data, never as SQL"""
import struct

from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, RawHub
from harness.proto import *
from mysql_mimic.results import ResultColumn
from mysql_mimic.types import ColumnType
from harness.sqlref import scan, split, match_bound, starts, Opaque

CASES = []
META = {
    "quick_s": 80, "thorough_s": 420,
    "bounds": "string parameters of up to 4 symbolic characters (all of ASCII incl. NUL, quotes, backslash, ?; Latin-1 and astral "
              "samples), opaque strings of 0..70000; every integer of every width and signedness; 64-bit patterns of finite doubles; "
              "statement texts: a fixed list plus templates with 4 (thorough 6) symbolic characters over ? ' \" ` \\ # - / * a blank newline; up to "
              "20 parameters with NULL at any position, and 255..300 parameters; long data of up to 3 chunks x 2 parameters",
    "outside": "COM_STMT_EXECUTE without types (new-params-bound flag 0): the library documents it as unsupported; parameter types "
               "the library rejects with ERR; executable comments /*! ? */; sql modes ANSI_QUOTES / NO_BACKSLASH_ESCAPES; "
               "statements with more than 65535 placeholders",
    "assumptions": ["reference lexer harness/sqlref.py (MySQL manual, default sql_mode)"],
}

WIDE = ((0, 0x7f), (0xa0, 0xff), (0x2660, 0x2663), (0x1f600, 0x1f603))


def sval(s):
    return lenstr(s.encode("utf8"))


def setup(P, raw=True, attrs=None):
    hub = RawHub() if raw else Hub()
    w = World(session_factory=hub.factory)
    c = Client(w.open())
    qa = P.flag("query_attrs", True) if attrs is None else attrs
    c.login(caps=BASE | DEPRECATE_EOF | (QUERY_ATTRS if qa else 0))
    return hub, w, c


def run(hub, c, st, params, values, pieces):
    n = len(hub.calls)
    r = c.execute(st.stmt_id, params)
    check(r.kind == "ok", "execute failed", r.msg)
    check(len(hub.calls) == n + 1, "statement executed %d times" % (len(hub.calls) - n))
    sql = hub.calls[-1][1]
    match_bound(sql, pieces, values)
    return sql


TEMPLATES = ["SELECT ? FROM t", "SELECT a FROM t WHERE x=? AND y LIKE '?%'", "SELECT 'it''s ?', \"?\\\"?\", `?`, ?",
             "SELECT a -- what?\n, ? # eh?\n FROM t /* ? '*/ WHERE x IN (?)", "SELECT ? FROM t WHERE b='\\\\' AND c=?"]


def one(tpl, n):
    """one string parameter everywhere"""
    def fn(P):
        hub, w, c = setup(P)
        with w:
            st = c.prepare(tpl.encode())
            pieces = split(tpl)
            k = len(pieces) - 1
            check(st.kind == "prep" and st.num_params == k, "announced number of parameters", st.num_params)
            v = P.str("v", n, ranges=WIDE)
            vals = [v] + [7] * (k - 1)
            params = [(b"", T_VAR_STRING, False, sval(v))] + [(b"", T_TINY, False, b"\x07")] * (k - 1)
            return run(hub, c, st, params, vals, pieces)
    return fn


for _i, _t in enumerate(TEMPLATES):
    CASES.append(Case("str-%d" % _i, one(_t, 3 if _i < 2 else 2), weight=1.5))
CASES.append(Case("str-empty", one(TEMPLATES[0], 0), weight=0.2))
CASES.append(Case("str-long", one(TEMPLATES[4], 5), weight=3, tier="thorough"))


def pair(P):
    """two strings around a number: a value never leaks into another one"""
    tpl = P.choice("tpl", ["SELECT ?,?,? FROM t", "INSERT INTO t VALUES (?, ?, ?)", "SELECT ? ? ?", "a=?||?||?"])
    hub, w, c = setup(P)
    with w:
        st = c.prepare(tpl.encode())
        check(st.num_params == 3, "announced number of parameters")
        a = P.str("a", 2, ranges=((0, 0x7f),))
        b = P.str("b", 2, ranges=((0, 0x7f),))
        n = P.int("n", -2 ** 31, 2 ** 31 - 1, 42)
        t = P.choice("type", [T_VARCHAR, T_BLOB, T_STRING])
        params = [(b"", t, False, sval(a)), (b"", T_LONG, False, n.to_bytes(4, "little", signed=True)), (b"", t, False, sval(b))]
        return run(hub, c, st, params, [a, n, b], split(tpl))


CASES.append(Case("pair", pair, weight=3))


INTP = [(T_TINY, 1), (T_SHORT, 2), (T_YEAR, 2), (T_LONG, 4), (T_INT24, 4), (T_LONGLONG, 8)]


def ints(P):
    """integers of every width and signedness"""
    t, size = P.choice("type", INTP)
    uns = P.flag("unsigned")
    tpl = P.choice("tpl", ["SELECT ? FROM t", "SELECT 5-?, ? FROM t", "SELECT a?b, ?", "SELECT 1.?+x.y", "SELECT -?"])
    hub, w, c = setup(P)
    with w:
        st = c.prepare(tpl.encode())
        pieces = split(tpl)
        k = len(pieces) - 1
        v = P.int("v", 0 if uns else -(1 << (8 * size - 1)), (1 << (8 * size)) - 1 if uns else (1 << (8 * size - 1)) - 1, 5)
        p = (b"", t, uns, v.to_bytes(size, "little", signed=not uns))
        sql = run(hub, c, st, [p] * k, [v] * k, pieces)
        # no comment arises from two signs
        if pieces[0][-1] == "-":
            check(not (v < 0 and starts(sql, pieces[0] + str(v), 0)), "a comment arises in front of a negative number", sql)
        return sql


CASES.append(Case("ints", ints, weight=2))


def floats(P):
    hub, w, c = setup(P)
    with w:
        tpl = P.choice("tpl", ["SELECT ? FROM t", "SELECT x.?"])
        st = c.prepare(tpl.encode())
        kind = P.choice("kind", ["double", "float", "bool", "null", "nulltype"])
        if kind == "double":
            v = P.float64("v", 1.1)
            P.assume(v == v)
            P.assume(v < 1.8e308)
            P.assume(v > -1.8e308)
            p = (b"", T_DOUBLE, False, struct.pack("<d", v))
        elif kind == "float":
            v = P.choice("f", [0.5, -1.25, 1e10, 3.4e38, -0.0])
            p = (b"", T_FLOAT, False, struct.pack("<f", v))
            v = struct.unpack("<f", p[3])[0]
        elif kind == "bool":
            v = P.choice("b", [0, 1])
            p = (b"", T_BOOL, False, bytes([v]))
        elif kind == "null":
            v = None
            p = (b"", P.choice("t", [T_LONG, T_VAR_STRING, T_DOUBLE, T_BLOB]), False, None)
        else:
            v = None
            p = (b"", T_NULL, False, P.choice("bit", [None, b""]))
        return run(hub, c, st, [p], [v], split(tpl))


CASES.append(Case("floats", floats, weight=1, max_paths=150))


def big(P):
    """long strings: length prefixes"""
    hub, w, c = setup(P)
    with w:
        st = c.prepare(b"SELECT ?, ? FROM t")
        a = P.strblob("a", 0, 70000, 250)
        b = P.strblob("b", 1, 300, 7)
        t = P.choice("type", [T_VARCHAR, T_VAR_STRING, T_STRING, T_BLOB, T_TINY_BLOB, T_MEDIUM_BLOB, T_LONG_BLOB])
        return run(hub, c, st, [(b"", t, False, sval(a)), (b"", t, False, sval(b))], [Opaque(a), Opaque(b)],
                   ["SELECT ", ", ", " FROM t"])[:10]


CASES.append(Case("big", big, weight=1))


GLUE = ["SELECT ??", "SELECT ?'a'", "SELECT 'a'?", "SELECT ?a", "SELECT a?", "SELECT x?, N?", "SELECT 5-?", "SELECT ?AND ?OR ?", "SELECT ?.5", 'SELECT "a"?"b"',
        "SELECT @?", "SELECT _utf8?", "SELECT 1?", "SELECT ?1, ?e5", "SELECT ?--1", "SELECT ?-- ?\n, ?", "SELECT 1.?", "SELECT ?\u00e9, \u00e9?", "SELECT ?/**/?",
        "SELECT -?-?", "SELECT `a`?`b`", "SELECT ?_1", "SELECT $?$", "SELECT ?@x"]


def glue(P):
    """placeholders next to text that could form one token with a value"""
    tpl = P.choice("tpl", GLUE)
    kind = P.choice("kind", ["str", "int", "null", "double"])
    hub, w, c = setup(P, attrs=True)
    with w:
        st = c.prepare(tpl.encode())
        pieces = split(tpl)
        k = len(pieces) - 1
        check(st.kind == "prep" and st.num_params == k, "announced number of parameters", [tpl, st.num_params])
        if kind == "str":
            s = P.str("v", 1, ranges=WIDE[:1])
            v, p = s, (b"", T_VAR_STRING, False, sval(s))
        elif kind == "int":
            v = P.int("v", -128, 127, -1)
            p = (b"", T_TINY, False, bytes([v % 256]))
        elif kind == "double":
            v = P.choice("v", [-1.25, 2.75, 1e300])
            p = (b"", T_DOUBLE, False, struct.pack("<d", v))
        else:
            v, p = None, (b"", T_NULL, False, None)
        return run(hub, c, st, [p] * k, [v] * k, pieces)


CASES.append(Case("glue", glue, weight=3))
ALPHA = "?'\"`\\#-/*a \n"


def template(pre, n, post):
    """symbolic statement text"""
    def fn(P):
        sy = P.str("t", n, ranges=tuple((ord(x), ord(x)) for x in sorted(ALPHA)), default=("?a'?" * 3)[:n])
        tpl = pre + sy + post
        hub, w, c = setup(P, attrs=True)
        with w:
            st = c.prepare(tpl.encode())
            check(st.kind == "prep", "prepare")
            pos, ok = scan(tpl)
            k = st.num_params
            if ok:
                check(k == len(pos), "announced number of parameters differs from the number of placeholders", (tpl, k, len(pos)))
            params = [(b"", T_TINY, False, bytes([11 + i])) for i in range(k)]
            r = c.execute(st.stmt_id, params)
            check(r.kind == "ok" and len(hub.calls) == 1, "execute with the announced number of parameters fails", r.msg)
            sql = hub.calls[0][1]
            if ok:
                if k:
                    match_bound(sql, split(tpl), [11 + i for i in range(k)])
                else:
                    check(sql == tpl, "text without placeholders is altered", (tpl, sql))
            else:
                # unterminated text: as many literals as announced
                cnt = sum([1 for i in range(k) if str(11 + i) in sql])
                check(cnt == k, "announced number of parameters differs from the number consumed", sql)
            return [sql, k]
    return fn


CASES.append(Case("template-4", template("SELECT ", 4, ",? FROM t"), weight=4))
CASES.append(Case("template-quoted", template("x'", 4, "'? '"), weight=4))
CASES.append(Case("template-dq", template('"', 4, '"?'), weight=3))
CASES.append(Case("template-comment", template("/*", 4, "*/?"), weight=2.5))
CASES.append(Case("template-bt", template("`", 4, "`?"), weight=2))
CASES.append(Case("template-6", template("", 6, "'?"), weight=6, tier="thorough"))


def counts(P):
    """number of parameters and NULL bitmap"""
    n = P.choice("n", [0, 1, 7, 8, 9, 16, 17, 20])
    hub, w, c = setup(P)
    with w:
        tpl = "SELECT " + ",".join(["?"] * n) + " FROM t"
        st = c.prepare(tpl.encode())
        check(st.num_params == n, "announced number of parameters")
        at = P.small("null", -1, n - 1, 0) if n else -1
        at2 = P.small("null2", -1, 3, -1)
        at2 = -1 if at2 < 0 or not n else [0, n - 1, n // 2, 7 % n][at2]
        vals = [None if i in (at, at2) else i + 1 for i in range(n)]
        if n:
            vals[0] = P.int("v", -128, 127, 1) if 0 not in (at, at2) else None
        params = [(b"", T_TINY, False, None if v is None else v.to_bytes(1, "little", signed=True)) for v in vals]
        pieces = ["SELECT "] + [","] * (n - 1) + [" FROM t"] if n else ["SELECT  FROM t"]
        return run(hub, c, st, params, vals, pieces)


CASES.append(Case("counts", counts, weight=2))


def manyparams(P):
    n = P.choice("n", [250, 251, 252, 300])
    hub, w, c = setup(P, attrs=True)
    with w:
        tpl = "SELECT " + ",".join(["?"] * n)
        st = c.prepare(tpl.encode())
        check(st.num_params == n, "announced number of parameters")
        at = P.small("null", 0, 5, 2) * 49
        vals = [None if i == at else i % 100 for i in range(n)]
        params = [(b"", T_TINY, False, None if v is None else bytes([v])) for v in vals]
        r = c.execute(st.stmt_id, params)
        check(r.kind == "ok", "execute failed", r.msg)
        want = "SELECT " + ",".join(["NULL" if v is None else str(v) for v in vals])
        check(hub.calls[0][1].replace(" ", "") == want.replace(" ", ""), "bound text differs")
        return n


CASES.append(Case("manyparams", manyparams, weight=0.8, limit=20000000))


def boom(s, e, sql, attrs):
    raise ValueError("boom")


def midway(s, e, sql, attrs):
    async def rows():
        yield (1,)
        raise ValueError("boom")
    return rows(), [ResultColumn("a", ColumnType.LONG)]


def longdata(P):
    """chunks are concatenated in send order, per parameter; used for one execution"""
    hub, w, c = setup(P)
    with w:
        st = c.prepare(b"SELECT ?, ? FROM t")
        other = c.prepare(b"SELECT ?")
        x = "\u2660" + P.str("x", 1, ranges=((0, 0x7f),)) + "\U0001f600"
        raw = x.encode("utf8")
        n = len(raw)
        a = P.small("cut1", 0, 8, 1)
        b = P.small("cut2", 0, 8, 4)
        if b < a:
            a, b = b, a
        chunks = [(0, raw[:a]), (0, raw[a:b]), (0, raw[b:])]
        mode = P.choice("mode", ["one", "interleaved", "second", "reset", "otherstmt"])
        y = P.str("y", 1, ranges=((0, 0x7f),)) if mode in ("one", "reset") else "y'"
        if mode == "interleaved":
            chunks.insert(1, (1, b"p"))
            chunks.insert(3, (1, b"q'"))
        if mode == "second":
            chunks = [(1, d) for _, d in chunks]
        if mode == "otherstmt":
            c.long_data(other.stmt_id, 0, b"zzz")
        for i, d in chunks:
            c.long_data(st.stmt_id, i, d)
        blank = (b"", T_BLOB, False, b"")
        inl = (b"", T_VAR_STRING, False, sval(y))
        pieces = ["SELECT ", ", ", " FROM t"]
        if mode == "reset":
            check(c.stmt_reset(st.stmt_id).kind == "ok", "reset")
            return run(hub, c, st, [inl, inl], [y, y], pieces)
        if mode == "interleaved":
            out = run(hub, c, st, [blank, blank], [x, "pq'"], pieces)
        elif mode == "second":
            out = run(hub, c, st, [inl, blank], [y, x], pieces)
        else:
            out = run(hub, c, st, [blank, inl], [x, y], pieces)
        # the next execution takes its values inline again
        out2 = run(hub, c, st, [inl, (b"", T_LONG, False, u(5, 4))], [y, 5], pieces)
        if mode == "otherstmt":
            run(hub, c, other, [blank], ["zzz"], ["SELECT ", ""])
        return [out, out2]


CASES.append(Case("longdata", longdata, weight=3))


def longstale(P):
    """an earlier execution, successful or failing at any point, takes its long data with it"""
    hub, w, c = setup(P)
    with w:
        st = c.prepare(b"SELECT ?, ? FROM t")
        y = P.str("y", 1, ranges=((0, 0x7f),))
        blank = (b"", T_BLOB, False, b"")
        inl = (b"", T_VAR_STRING, False, sval(y))
        pieces = ["SELECT ", ", ", " FROM t"]
        rounds = P.small("rounds", 1, 2, 1)
        for k in range(rounds):
            before = P.choice("before%d" % k, ["app", "stream", "types", "none", "ok", "parse", "cursor"])
            both = before not in ("types",)
            c.long_data(st.stmt_id, 0, b"stale")
            if both:
                c.long_data(st.stmt_id, 1, b"stale")
            hub.handler = {"app": boom, "stream": midway}.get(before)
            date = (b"", T_DATETIME, False, b"\x04\xe8\x07\x01\x01")
            if before == "types":
                r = c.execute(st.stmt_id, [blank, date])
            elif before == "parse":
                c.long_data(st.stmt_id, 0, b"\xff\xfe")
                r = c.execute(st.stmt_id, [blank, blank])
            elif before == "none":
                check(c.stmt_reset(st.stmt_id).kind == "ok", "reset")
                r = None
            elif before == "cursor":
                r = c.execute(st.stmt_id, [blank, blank], flags=1)
            else:
                r = c.execute(st.stmt_id, [blank, blank])
            if before in ("app", "types", "parse"):
                check(r.kind == "err", "failing execution", r)
            hub.handler = None
            hub.calls.clear()
        which = P.choice("which", [0, 1, None])
        if which is not None:
            c.long_data(st.stmt_id, which, b"fresh")
        args = [blank if k == which else inl for k in range(2)]
        out = run(hub, c, st, args, ["fresh" if k == which else y for k in range(2)], pieces)
        out2 = run(hub, c, st, [inl, inl], [y, y], pieces)
        return [out, out2]


CASES.append(Case("longstale", longstale, weight=2))


def longbig(P):
    """opaque chunks of arbitrary sizes"""
    hub, w, c = setup(P, attrs=True)
    with w:
        st = c.prepare(b"SELECT ?")
        a = P.blob("a", 0, 70000, 300)
        b = P.blob("b", 0, 70000, 3)
        c.long_data(st.stmt_id, 0, a)
        c.long_data(st.stmt_id, 0, b)
        r = c.execute(st.stmt_id, [(b"", T_BLOB, False, b"")])
        check(r.kind == "ok", "execute failed", r.msg)
        check(hub.calls[0][1] == "SELECT '" + (a + b).decode("ascii") + "'", "long data altered")
        return 1


CASES.append(Case("longbig", longbig, weight=0.6))


def again(P):
    """re-execution with other types and values; two statements in turn; too few values"""
    hub, w, c = setup(P)
    with w:
        s1 = c.prepare(b"SELECT ? FROM t WHERE a='?'")
        s2 = c.prepare(b"SELECT ?, ?")
        check(s1.stmt_id != s2.stmt_id, "statement ids")
        out = []
        a = P.str("a", 1, ranges=((0, 0x7f),))
        n = P.int("n", -2 ** 63, 2 ** 63 - 1, -3)
        ps = (b"", T_STRING, False, sval(a))
        pn = (b"", T_LONGLONG, False, n.to_bytes(8, "little", signed=True))
        pz = (b"", T_LONG, False, None)
        for k in range(3):
            which = P.small("step%d" % k, 0, 4, k)
            if which == 0:
                out.append(run(hub, c, s1, [ps], [a], ["SELECT ", " FROM t WHERE a='?'"]))
            elif which == 1:
                out.append(run(hub, c, s1, [pn], [n], ["SELECT ", " FROM t WHERE a='?'"]))
            elif which == 2:
                out.append(run(hub, c, s2, [pn, ps], [n, a], ["SELECT ", ", ", ""]))
            elif which == 3:
                out.append(run(hub, c, s2, [pz, pn], [None, n], ["SELECT ", ", ", ""]))
            elif c.caps & QUERY_ATTRS:
                # fewer values than placeholders are never made up
                m = len(hub.calls)
                r = c.execute(s2.stmt_id, [ps])
                check(r.kind == "err", "statement executed with missing parameters", hub.calls[-1:])
                check(len(hub.calls) == m, "statement executed with missing parameters")
        return out


CASES.append(Case("again", again, weight=2))

NASTY = ["'", "\\", "\\'", "''", "' OR 1=1 -- ", "\\g<0>", "\\1", "?", "a?b'?", "\"", "`", "/*", "%s{}", "\n\r\0\x1a", "NULL",
         "\u2660\U0001f600", "\\%\\_", "$1", "x'; DROP TABLE t; --"]


def parsed(P):
    """what an application on Session sees: the parsed literal is the value, nothing else changes"""
    hub, w, c = setup(P, raw=False, attrs=True)
    with w:
        v = P.choice("v", NASTY)
        n = P.int("n", -1000, 1000, 3)
        st = c.prepare(b"SELECT a FROM t WHERE x = ? AND y = ? AND z = '?'")
        r = c.execute(st.stmt_id, [(b"", T_VAR_STRING, False, sval(v)), (b"", T_LONG, False, n.to_bytes(4, "little", signed=True))])
        check(r.kind == "ok", "execute failed", r.msg)
        check(len(hub.calls) == 1, "number of statements")
        match_bound(hub.calls[0][1], ["SELECT a FROM t WHERE x = ", " AND y = ", " AND z = '?'"], [v, n])
        from sqlglot import expressions as exp
        lits = [x.this for x in hub.exprs[0].find_all(exp.Literal) if x.is_string]
        check(sorted(lits) == sorted([v, "?"]), "parsed literals differ", lits)
        return hub.calls[0][1]


CASES.append(Case("parsed", parsed, weight=1.5))

"""C15 text crosses the wire in the negotiated character sets without corruption"""
import codecs

from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, RawHub, Users
from harness.proto import *
from harness.sqlref import match_bound

CASES = []
META = {
    "quick_s": 70, "thorough_s": 300,
    "bounds": "client character sets: 20 single-byte ones (every character of the upper half, one symbolic character per text item), "
              "9 East Asian ones (sample strings whose octets contain quotes, backslashes, 0x7c), utf8mb4 / utf8 (symbolic "
              "characters of every encoded length); declared by any default or listed collation id; result columns in all of "
              "these and utf16, utf16le, utf32, ucs2; sequences of up to 3 changes by SET NAMES, SET CHARACTER SET, "
              "SET character_set_*, COM_CHANGE_USER",
    "outside": "client character sets MySQL forbids (ucs2, utf16, utf32); character sets Python has no codec for (dec8, swe7, armscii8, "
               "keybcs2, geostd8: refused by the server); the five undefined octets of windows-1252; strings that are not "
               "representable; character_set_results between a handshake or COM_CHANGE_USER and the first SET",
    "assumptions": ["reference codec table: MySQL name -> Python codec in harness/c15.py; sqlglot runs on concrete text"],
}

# character set -> (reference codec, collation ids)
SB = {
    "latin1": ("cp1252", [5, 8, 15, 31, 47, 48, 49, 94]), "cp850": ("cp850", [4, 80]), "latin2": ("iso8859-2", [2, 9, 21, 27, 77]),
    "hebrew": ("iso8859-8", [16, 71]), "tis620": ("tis-620", [18, 89]), "greek": ("iso8859-7", [25, 70]),
    "cp1250": ("cp1250", [26, 34, 44, 66, 99]), "latin5": ("iso8859-9", [30, 78]), "cp866": ("cp866", [36, 68]),
    "macce": ("mac-latin2", [38, 43]), "macroman": ("mac-roman", [39, 53]), "cp852": ("cp852", [40, 81]),
    "latin7": ("iso8859-13", [20, 41, 42, 79]), "cp1251": ("cp1251", [14, 23, 50, 51, 52]), "cp1256": ("cp1256", [57, 67]),
    "cp1257": ("cp1257", [29, 58, 59]), "koi8r": ("koi8-r", [7, 74]), "koi8u": ("koi8-u", [22, 75]), "hp8": ("hp-roman8", [6, 72]),
}
MB = {
    "big5": ("big5", [1, 84], "\u4e2d\u529f\u8a31"), "gbk": ("gbk", [28, 87], "\u4e2d\u8aa0\u7e37"), "gb2312": ("gb2312", [24, 86], "\u4e2d\u56fd"),
    "euckr": ("euc-kr", [19, 85], "\ud55c\uae00"), "ujis": ("euc-jp", [12, 91], "\u65e5\u8868"), "sjis": ("shift_jis", [13, 88], "\u8868\u30bd\u80fd"),
    "cp932": ("cp932", [95, 96], "\u8868\u30bd\u2460"), "eucjpms": ("euc-jp", [97, 98], "\u65e5\u8868"),
    "gb18030": ("gb18030", [248, 249, 250], "\u4e2d\u8aa0\U0001f600\xe9"),
}
U8 = {"utf8mb4": ("utf-8", [45, 46, 224, 247, 255]), "utf8": ("utf-8", [33, 83, 192, 215]), "ascii": ("ascii", [11, 65])}
WIDE = {"utf16": "utf-16-be", "utf16le": "utf-16-le", "utf32": "utf-32-be", "ucs2": "utf-16-be"}
BMP = ((0x20, 0x7e), (0xa1, 0x17f), (0x2660, 0x2663))
FULL = BMP + ((0x1f600, 0x1f603),)


def runs(cs):
    """code points of the upper half of a single-byte character set"""
    cps = []
    for b in range(0x80, 0x100):
        try:
            cps.append(ord(bytes([b]).decode(SB[cs][0])))
        except UnicodeDecodeError:
            pass
    out = []
    for v in sorted(cps):
        if out and v == out[-1][1] + 1:
            out[-1] = (out[-1][0], v)
        else:
            out.append((v, v))
    return tuple(out)


def codec(cs):
    for t in (SB, MB, U8):
        if cs in t:
            return t[cs][0]
    return WIDE[cs]


def text(P, cs, nm):
    """a string of the character set"""
    if cs in SB:
        return "x" + P.str(nm, 1, ranges=runs(cs), default=chr(runs(cs)[-1][0])) + "y"
    if cs in MB:
        s = MB[cs][2]
        k = P.small(nm, 0, len(s), len(s))
        return "x" + s if k == len(s) else s[k] + "y"
    r = {"utf8": BMP, "ascii": ((0x20, 0x7e),), "ucs2": BMP}.get(cs, FULL)
    return "x" + P.str(nm, 1, ranges=r) + "y"


def plain_text(P, cs, nm):
    """concrete sample (statements parsed by sqlglot)"""
    if cs in SB:
        r = runs(cs)
        pool = [chr(a) for a, b in r if chr(a).isalpha() and chr(a) == chr(a).lower()] or [chr(r[0][0])]
        return "x" + pool[P.small(nm, 0, min(2, len(pool) - 1), 0) if nm else 0]
    if cs in MB:
        return "x" + MB[cs][2]
    return "x" + {"ascii": "z"}.get(cs, "\xe9\u2660")


def connect(P, cs, hub, coll=None, user=None, db=None, caps=0, users=None):
    kw = {"identity_provider": users} if users is not None else {}
    w = World(session_factory=hub.factory, **kw)
    c = Client(w.open())
    enc = codec(cs)
    ids = (SB.get(cs) or MB.get(cs) or U8.get(cs))[1]
    coll = ids[0] if coll is None else coll
    r = c.login(user=(user or "u").encode(enc), caps=BASE | DEPRECATE_EOF | caps, charset=coll,
                db=db.encode(enc) if db is not None else None)
    check(r.kind == "ok", "login failed", (cs, r.msg))
    return w, c


def incoming(sets):
    def fn(P):
        cs = P.choice("charset", sets)
        enc = codec(cs)
        ids = (SB.get(cs) or MB.get(cs) or U8.get(cs))[1]
        coll = P.choice("collation", ids)
        hub = RawHub()
        users = Users()
        kind = P.choice("item", ["user", "db", "query", "init_db", "prepare", "param", "long", "attr", "change", "changedb"])
        s = text(P, cs, "s")
        b = s.encode(enc)
        w, c = connect(P, cs, hub, coll, user=s if kind == "user" else None, db=s if kind == "db" else None,
                       caps=(CONNECT_WITH_DB if kind == "db" else 0) | (QUERY_ATTRS if kind == "attr" else 0), users=users)
        with w:
            me = hub.sessions[0]
            if kind == "user":
                check(users.asked[0] == s, "user name differs", users.asked)
                check(me.username == s, "user name differs", me.username)
            elif kind == "db":
                check(me.database == s, "database differs", me.database)
            elif kind == "query":
                check(c.query(b"SELECT '" + b + b"'").kind == "ok", "query failed")
                check(hub.calls[0][1] == "SELECT '" + s + "'", "SQL text differs", hub.calls)
            elif kind == "init_db":
                check(c.init_db(b).kind == "ok", "COM_INIT_DB failed")
                check(me.database == s, "database differs", me.database)
            elif kind == "prepare":
                st = c.prepare(b"SELECT '" + b + b"?', ?")
                check(st.num_params == 1, "number of parameters", st.num_params)
                check(c.execute(st.stmt_id, [(b"", T_TINY, False, b"\x07")]).kind == "ok", "execute failed")
                check(hub.calls[0][1] == "SELECT '" + s + "?', 7", "SQL text differs", hub.calls)
            elif kind == "param" or kind == "long":
                st = c.prepare(b"SELECT ?, ?")
                p = (b"", T_VAR_STRING, False, lenstr(b))
                if kind == "long":
                    c.long_data(st.stmt_id, 0, b[:1])
                    c.long_data(st.stmt_id, 0, b[1:])
                    p = (b"", T_BLOB, False, b"")
                r = c.execute(st.stmt_id, [p, (b"", T_TINY, False, b"\x07")])
                check(r.kind == "ok", "execute failed", r.msg)
                match_bound(hub.calls[0][1], ["SELECT ", ", ", ""], [s, 7])
            elif kind == "attr":
                r = c.query(b"SELECT 1", [(b, T_STRING, False, lenstr(b)), (b"n", T_TINY, False, b"\x07")])
                check(r.kind == "ok", "query failed", r.msg)
                got = list(hub.calls[0][2].items())
                check(len(got) == 2 and got[0][0] == s and got[0][1] == s and got[1][0] == "n", "attribute differs", got)
            else:
                # names are in the character set in force so far, later text in the one the packet declares
                c.send_command(c.c_change_user(b if kind == "change" else b"v", b"", b if kind == "changedb" else b"d",
                                               charset=coll))
                r = c.auth_result()
                check(r.kind == "ok", "COM_CHANGE_USER failed", r.msg)
                if kind == "change":
                    check(users.asked[-1] == s and me.username == s, "user name differs", users.asked)
                    check(me.database == "d", "database differs", me.database)
                else:
                    check(me.database == s, "database differs", me.database)
                check(c.query(b"SELECT '" + b + b"'").kind == "ok", "query failed")
                check(hub.calls[0][1] == "SELECT '" + s + "'", "SQL text differs", hub.calls)
            return len(hub.calls)
    return fn


_sb = sorted(SB)
CASES.append(Case("in-single-a", incoming(_sb[:7]), weight=2.5))
CASES.append(Case("in-single-b", incoming(_sb[7:13]), weight=2.5))
CASES.append(Case("in-single-c", incoming(_sb[13:]), weight=2.5))
CASES.append(Case("in-multi", incoming(sorted(MB)), weight=2))
CASES.append(Case("in-utf8", incoming(sorted(U8)), weight=2))


def column(P, sets, binary):
    from mysql_mimic.results import ResultColumn, ResultSet
    from mysql_mimic.types import ColumnType
    from mysql_mimic.charset import CharacterSet
    cs = P.choice("charset", sets)
    cs2 = P.choice("other", ["cp1251", "utf16"])
    t = P.choice("type", ["VARCHAR", "BLOB", "JSON"])
    s = text(P, cs, "s")
    s2 = text(P, cs2, "s2")

    def handler(session, e, sql, attrs):
        cols = [ResultColumn("a", getattr(ColumnType, t), character_set=CharacterSet[cs]),
                ResultColumn("b", ColumnType.VARCHAR, character_set=CharacterSet[cs2]),
                ResultColumn("c", ColumnType.BLOB, character_set=CharacterSet[cs])]
        return ResultSet(rows=[(s, s2, b"\xff\x00'\x80"), (s, s2, None)], columns=cols)
    hub = RawHub(handler)
    w, c = connect(P, "utf8mb4", hub)
    with w:
        if binary:
            st = c.prepare(b"SELECT x")
            r = c.execute(st.stmt_id)
        else:
            r = c.query(b"SELECT x")
        check(r.kind == "rs" and len(r.rows) == 2, "result set", r.msg)
        get = (lambda v: v[1]) if binary else (lambda v: v)
        for row in r.rows:
            check(get(row[0]) == s.encode(codec(cs)), "result string is not in its column's character set", row[0])
            check(get(row[1]) == s2.encode(codec(cs2)), "result string is not in its column's character set", row[1])
        check(get(r.rows[0][2]) == b"\xff\x00'\x80", "bytes differ", r.rows[0][2])
        if isinstance(s, str):
            check(r.cols[0].charset == CharacterSet[cs].value and r.cols[1].charset == CharacterSet[cs2].value,
                  "character set of the column definition", r.cols[0].charset)
        return 1


_all = sorted(SB) + sorted(MB) + sorted(U8) + sorted(WIDE)
CASES.append(Case("column-text", lambda P: column(P, _all, False), weight=2))
CASES.append(Case("column-binary", lambda P: column(P, _all, True), weight=2))

HOW = ["names", "charset", "vars"]


def change(c, how, cs, enc):
    """the client changes its character sets; enc: in force for this statement"""
    sql = {"names": ["SET NAMES " + cs], "charset": ["SET CHARACTER SET " + cs],
           "vars": ["SET character_set_client = '" + cs + "'", "SET character_set_results = '" + cs + "'"],
           "quoted": ["SET NAMES '" + cs.upper() + "'"], "only": ["SET @@session.character_set_results = '" + cs + "'"],
           "twice": ["SET NAMES cp1251", "SET character_set_results = '" + cs + "'"]}[how]
    r = c.query(sql[0].encode(enc))
    check(r.kind == "ok", "SET failed", (sql[0], r.msg))
    if len(sql) > 1:
        r = c.query(sql[1].encode(codec(cs if how == "vars" else "cp1251")))
        check(r.kind == "ok", "SET failed", (sql[1], r.msg))


CH = ["cp1251", "sjis", "utf8mb4", "latin1", "gbk", "greek"]


def results(P):
    """column names and messages in the results character set"""
    cs = P.choice("charset", CH + ["cp866", "koi8r", "big5", "hebrew"])
    how = P.choice("how", HOW + ["quoted", "only", "twice"])
    item = P.choice("item", ["name", "typed", "error", "unknown", "binname"])
    s = text(P, cs, "s")
    from mysql_mimic.errors import MysqlError, ErrorCode
    from mysql_mimic.results import ResultColumn, ResultSet
    from mysql_mimic.types import ColumnType
    from mysql_mimic.charset import CharacterSet

    def handler(session, e, sql, attrs):
        if item == "error":
            raise MysqlError(s)
        if item == "typed":
            return ResultSet(rows=[(1,)], columns=[ResultColumn(s, ColumnType.LONGLONG), ])
        return [(1, "q")], [s, s + "2"]
    hub = Hub(handler)
    w, c = connect(P, "utf8mb4", hub)
    enc = codec(cs)
    with w:
        change(c, how, cs, "utf8")
        n = len(hub.calls)
        if item == "unknown":
            name = plain_text(P, cs, "p")
            client = {"only": "utf8", "twice": "cp1251"}.get(how, enc)
            P.assume(name == name.encode(client, "ignore").decode(client))
            r = c.query(("SELECT @@" + name).encode(client))
            check(r.kind == "err", "unknown variable accepted")
            check(name.encode(enc) in r.msg, "error message is not in the results character set", r.msg)
            return 1
        if item == "binname":
            st = c.prepare(b"SELECT a FROM t")
            r = c.execute(st.stmt_id)
        else:
            r = c.query(b"SELECT a FROM t")
        check(len(hub.calls) == n + 1, "statement not seen")
        if item == "error":
            check(r.kind == "err" and r.msg == s.encode(enc), "error message is not in the results character set", r.msg)
        else:
            check(r.kind == "rs", "result set", r.msg)
            check(r.cols[0].name == s.encode(enc), "column name is not in the results character set", r.cols[0].name)
            if item != "typed":
                check(r.cols[1].name == (s + "2").encode(enc), "column name is not in the results character set")
        return 1


CASES.append(Case("results", results, weight=2.5))


def widenames(P):
    """wide results character sets"""
    cs = P.choice("charset", sorted(WIDE))
    s = text(P, cs, "s")
    hub = Hub(lambda session, e, sql, attrs: ([("v",)], [s]))
    w, c = connect(P, "utf8mb4", hub)
    with w:
        r = c.query(("SET character_set_results = '" + cs + "'").encode())
        check(r.kind == "ok", "SET", r.msg)
        r = c.query(b"SELECT a FROM t")
        check(r.kind == "rs" and r.cols[0].name == s.encode(codec(cs)), "column name is not in the results character set")
        return 1


CASES.append(Case("results-wide", widenames, weight=0.6))


def sequence(n):
    """changes of the character set apply from the next command on"""
    def fn(P):
        cs = P.choice("first", ["latin1", "utf8mb4", "sjis"])
        users = Users()
        hub = Hub(lambda s, e, sql, attrs: None)
        w, c = connect(P, cs, hub, users=users)
        with w:
            me = hub.sessions[0]
            s0 = plain_text(P, cs, None)
            st0 = c.prepare(("SELECT a FROM t WHERE b = '" + s0 + "?' AND c = ?").encode(codec(cs)))
            for k in range(n):
                new = P.choice("cs%d" % k, CH[:4], (k + 1) % 4)
                how = P.choice("how%d" % k, HOW + ["user", "reset", "bad"])
                enc = codec(cs)
                if how == "user":
                    name = plain_text(P, cs, None)
                    c.send_command(c.c_change_user(name.encode(enc), b"", b"", charset=(SB.get(new) or MB.get(new) or U8.get(new))[1][0]))
                    r = c.auth_result()
                    check(r.kind == "ok" and users.asked[-1] == name, "COM_CHANGE_USER: user name", users.asked[-1])
                elif how == "reset":
                    st = c.prepare(b"SELECT 1")
                    check(c.stmt_reset(st.stmt_id).kind == "ok", "reset")
                    new = cs
                elif how == "bad":
                    r = c.query(b"SET NAMES nosuchset")
                    check(r.kind == "err", "unknown character set accepted")
                    new = cs
                else:
                    change(c, how, new, enc)
                cs = new
                s = plain_text(P, cs, None)
                b = s.encode(codec(cs))
                m = len(hub.calls)
                r = c.query(b"SELECT a FROM t WHERE b = '" + b + b"'")
                check(r.kind == "ok", "query failed", r.msg)
                check(len(hub.calls) == m + 1 and hub.calls[-1][1] == "SELECT a FROM t WHERE b = '" + s + "'",
                      "SQL text differs after a change of character set", hub.calls[-1:])
                check(c.init_db(b).kind == "ok" and me.database == s, "database differs after a change of character set")
            r = c.execute(st0.stmt_id, [(b"", T_STRING, False, lenstr(b))])
            check(r.kind == "ok", "execute failed", r.msg)
            match_bound(hub.calls[-1][1], ["SELECT a FROM t WHERE b = '" + s0 + "?' AND c = ", ""], [s])
            st = c.prepare(b"SELECT a FROM t WHERE b = ? AND c = '" + b + b"'")
            r = c.execute(st.stmt_id, [(b"", T_STRING, False, lenstr(b))])
            check(r.kind == "ok", "execute failed", r.msg)
            match_bound(hub.calls[-1][1], ["SELECT a FROM t WHERE b = ", " AND c = '" + s + "'"], [s])
            return [x[1] for x in hub.calls]
    return fn


CASES.append(Case("sequence-2", sequence(2), weight=3))
CASES.append(Case("sequence-3", sequence(3), weight=6, max_paths=20000, tier="thorough"))


def fieldlist(P):
    cs = P.choice("charset", ["cp1251", "sjis", "utf8mb4", "latin1", "gbk", "greek", "koi8u", "gb18030"])
    via = P.flag("set_names")
    t = plain_text(P, cs, "t")
    col = plain_text(P, cs, "c")
    hub = Hub(schema={"db": {t: {col: "INT", "zz": "INT"}}})
    w, c = connect(P, "utf8mb4" if via else cs, hub)
    with w:
        if via:
            change(c, "names", cs, "utf8")
        else:
            r = c.query(("SET character_set_results = '" + cs + "'").encode())
            check(r.kind == "ok", "SET", r.msg)
        c.init_db(b"db")
        wild = P.choice("wild", [None, "%", "self"])
        r = c.field_list(t.encode(codec(cs)), b"" if wild is None else col.encode(codec(cs)) if wild == "self" else b"%")
        check(r.kind == "fields", "COM_FIELD_LIST", r.msg)
        names = [x.name for x in r.cols]
        check(names == ([col.encode(codec(cs))] if wild == "self" else [col.encode(codec(cs)), b"zz"]), "column names differ", names)
        # the same over SQL
        r = c.query(("SHOW COLUMNS FROM `" + t + "`").encode(codec(cs)))
        check(r.kind == "rs" and len(r.rows) == 2, "SHOW COLUMNS", r.msg)
        return 1


CASES.append(Case("field-list", fieldlist, weight=1))

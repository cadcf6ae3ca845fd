"""C14 system variables form a typed, scoped store that clients cannot corrupt"""
import asyncio
import datetime

from harness import clock
from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, Users
from harness.proto import *
from harness.symsql import Sql, concrete
from sqlglot import expressions as exp
from mysql_mimic.errors import MysqlError
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType
from mysql_mimic.variables import GlobalVariables, SessionVariables

CASES = []
META = {
    "quick_s": 125, "thorough_s": 500,
    "bounds": "every variable of the schema in 9 spellings of SET, with arbitrary numbers (0..2^63-1), arbitrary strings of up to 6 "
              "characters, every kind of literal and keyword; programs of up to 3 (thorough 5) statements (SET, multi-assignment, NAMES, CHARACTER "
              "SET, TRANSACTION, hints, failing statements); SET_VAR hints in 10 forms on statements that succeed, fail, are refused, "
              "are killed or whose client goes away; the whole store is compared with a model after every statement, as read by SHOW "
              "VARIABLES, SELECT @@ and the application; time zones (every offset of 15 minutes, arbitrary strings) around changes of "
              "day, month and year; any version string",
    "outside": "which part of a multi-assignment SET that fails is applied; GLOBAL and PERSIST scope (refused); user-defined variables "
               "(refused); how booleans are spelled (1, True, ON); values of a type that MySQL would refuse but the server accepts (the "
               "value read must then be of the type of the variable)",
    "assumptions": ["how sqlglot parses a text doesn't depend on the contents of a literal", "the clock is a stub"],
}

# kind of every variable; names that aren't listed are adopted as they are
INT = ["auto_increment_increment", "interactive_timeout", "lower_case_table_names", "max_allowed_packet", "max_execution_time",
       "net_buffer_length", "net_write_timeout", "sql_select_limit", "wait_timeout"]
BOOL = ["autocommit", "sql_auto_is_null", "transaction_read_only"]
CHARSET = ["character_set_client", "character_set_connection", "character_set_database", "character_set_results", "character_set_server"]
STR = ["collation_connection", "collation_database", "collation_server", "init_connect", "sql_mode", "transaction_isolation", "event_scheduler",
       "default_storage_engine", "default_tmp_storage_engine"]
READONLY = ["external_user", "license", "performance_schema", "system_time_zone", "version", "version_comment"]
WRITABLE = INT + BOOL + CHARSET + STR + ["time_zone"]
ALL = WRITABLE + READONLY


def kind_of(name):
    return "int" if name in INT else "bool" if name in BOOL or name == "performance_schema" else "charset" if name in CHARSET else \
        "tz" if name == "time_zone" else "str"


class Model:
    """expected values (as text of the value; booleans as True/False); ANY: adopt what is read"""

    def __init__(self):
        self.v = {}
        self.default = {}


class Any:
    pass


ANY = Any()


def norm(kind, x):
    """value read as text -> comparable"""
    if x is None:
        return None
    if kind == "bool":
        low = x.lower()
        if low in ("true", "on", "1"):
            return True
        if low in ("false", "off", "0"):
            return False
        fail("not a boolean", x)
    return x


class Server:
    def __init__(self, P, handler=None):
        clock.install()
        clock.reset()
        self.sql = Sql(P)
        self.hub = Hub(handler or self.handler)
        self.hub.schema = {"db1": {"t": {"a": "int"}}}
        self.seen = []
        self.future = None
        self.wide = None
        self.w = World(session_factory=self.factory, identity_provider=Users())
        self.model = {}
        self.default = {}

    def factory(self, *a, **k):
        s = self.hub.factory(*a, **k)
        s.dialect = self.sql.dialect
        return s

    def handler(self, s, e, sql, attrs):
        self.seen.append({n: s.variables.get(n) for n in ALL})
        sql = [concrete(x.name) for x in e.find_all(exp.Column, exp.Literal)]
        if "boom" in sql:
            raise MysqlError("boom")
        if "bang" in sql:
            raise RuntimeError("bang")
        if "park" in sql:
            self.future = asyncio.get_running_loop().create_future()
            return self.parked(self.future)
        if "stream" in sql:
            return ResultSet(rows=self.rows(), columns=[ResultColumn("app", ColumnType.LONG)])
        return ResultSet(rows=[(1,)], columns=[ResultColumn("app", ColumnType.LONG)])

    async def parked(self, f):
        await f
        return ResultSet(rows=[(1,)], columns=[ResultColumn("app", ColumnType.LONG)])

    async def rows(self):
        yield (1,)
        raise RuntimeError("late")

    def connect(self, charset=255):
        self.c = Client(self.w.open())
        r = self.c.login(b"joe", caps=BASE | DEPRECATE_EOF | QUERY_ATTRS, charset=charset)
        check(r.kind == "ok", "login", r)
        self.default = self.show()
        self.model = dict(self.default)
        for n in ALL:
            check(n in self.default, "variable is missing", n)
        return self.c

    def run(self, template, **vals):
        return self.ask(self.sql.make(template, **vals).encode())

    def ask(self, q):
        """the client uses the character set that it has announced"""
        return self.c.query(q if self.wide is None else q.decode().encode(self.wide))

    def show(self):
        r = self.ask(b"SHOW VARIABLES")
        check(r.kind == "rs", "SHOW VARIABLES failed", r)
        out = {}
        for k, v in r.rows:
            name = k.decode()
            check(name not in out, "variable listed twice", name)
            out[name] = norm(kind_of(name), None if v is None else v.decode())
        return out

    def app_sees(self):
        """text of the values that the application reads"""
        n = len(self.seen)
        r = self.ask(b"SELECT a FROM t")
        check(r.kind == "rs", "statement of the application failed", r)
        check(len(self.seen) == n + 1, "application isn't called")
        return self.seen[n]

    def verify(self, app=False):
        """the whole store has the values of the model"""
        got = self.show()
        check(len(got) == len(self.default), "list of variables has changed")
        for name, v in got.items():
            want = self.model[name]
            if want is ANY:
                self.typed(name, v)
                self.model[name] = v
            elif type(want) is list:
                check(v in want, "unexpected value", [name, v, want])
                self.model[name] = v
            else:
                check(v == want, "variable doesn't have the value that was assigned last", [name, v, want])
        if app:
            self.same(self.app_sees())

    def same(self, seen, over=None):
        for name in ALL:
            want = self.model[name]
            if over is not None and name in over:
                want = over[name]
                if want is ANY:
                    continue
            v = seen[name]
            got = None if v is None else norm(kind_of(name), str(v))
            check(got == want, "the application reads another value", [name, got, want])

    def typed(self, name, v):
        k = kind_of(name)
        if v is None:
            check(self.default[name] is None, "no value", name)
        elif k == "int":
            check(v.isdigit() or (v[0] == "-" and v[1:].isdigit()), "value of a number is no number", [name, v])
        elif k == "charset":
            check(v in KNOWN_CHARSETS, "unknown character set", [name, v])

    def alive(self):
        """later statements of all kinds still work"""
        for q in (b"SELECT 1", b"SELECT NOW(), CURDATE(), CURTIME(), USER(), DATABASE()", b"SELECT a FROM t", b"SHOW TABLES FROM db1"):
            r = self.ask(q)
            check(r.kind == "rs", "an accepted assignment breaks later statements", [q, r.msg])
        r = self.ask(b"SELECT @@nosuch")
        check(r.kind == "err" and r.code == 1193, "error after an accepted assignment", r)

    def select(self, names, binary=False):
        q = ("SELECT " + ", ".join("@@" + n for n in names)).encode()
        if binary:
            st = self.c.prepare(q)
            r = self.c.execute(st.stmt_id)
        else:
            r = self.ask(q)
        check(r.kind == "rs", "variables can't be read", [q, r.msg])
        check(len(r.rows) == 1 and len(r.rows[0]) == len(names), "one row", r.rows)
        return r.rows[0]

    def read(self, names):
        """SELECT @@name gives the value of the model"""
        for name, v in zip(names, self.select(names)):
            want = self.model[name]
            check((None if v is None else norm(kind_of(name), v.decode())) == want, "SELECT @@ gives another value", [name, v, want])


KNOWN_CHARSETS = ("big5", "dec8", "cp850", "hp8", "koi8r", "latin1", "latin2", "swe7", "ascii", "ujis", "sjis", "hebrew", "tis620", "euckr", "koi8u", "gb2312",
                  "greek", "cp1250", "gbk", "latin5", "armscii8", "utf8", "ucs2", "cp866", "keybcs2", "macce", "macroman", "cp852", "latin7", "cp1251",
                  "utf16", "utf16le", "cp1256", "cp1257", "utf32", "binary", "geostd8", "cp932", "eucjpms", "gb18030", "utf8mb4", "utf8mb3")

SPELL = ["SET {n} = ", "SET @@{n} = ", "SET SESSION {n} = ", "SET @@session.{n} = ", "SET LOCAL {n} = ", "SET @@LOCAL.{n} = ", "set @@Session.{n} = ",
         "SET `{n}` = ", "SET {N} = ", "SET autocommit = 1, {n} = "]


def spelled(P, name, which=None):
    s = which if which is not None else P.choice("spelling", SPELL)
    return s.replace("{n}", name).replace("{N}", name.upper())


def numbers(names, deep=False):
    """any number"""
    def fn(P):
        name = P.choice("name", names)
        n = P.int("n", 0, 2 ** 63 - 1, 7)
        s = Server(P)
        with s.w:
            s.connect()
            spell = P.choice("spelling", SPELL)
            r = s.run(spelled(P, name, spell) + "{n}", n=n)
            k = kind_of(name)
            if k == "int":
                check(r.kind == "ok", "a number is refused", r.msg)
                s.model[name] = str(n)
            elif k == "bool":
                if n <= 1:
                    check(r.kind == "ok", "a boolean is refused", r.msg)
                if r.kind == "ok":
                    s.model[name] = n != 0
            elif k == "str":
                if r.kind == "ok":
                    s.model[name] = str(n)
            else:
                check(r.kind == "err", "a number is accepted as name", [name])
            s.verify(True)
            if deep or spell == SPELL[0]:
                if k != "int" or P.flag("read", True):
                    P.pin(n)
                    s.read([name])
                s.alive()
            return [name, r.kind]
    return fn


for _k in range(3):
    CASES.append(Case("numbers-%d" % _k, numbers(WRITABLE[_k::3]), weight=8))
    CASES.append(Case("numbers-deep-%d" % _k, numbers(WRITABLE[_k::3], True), weight=5, tier="thorough"))


def words(names):
    """keywords and literals of other types"""
    def fn(P):
        name = P.choice("name", names)
        v = P.choice("v", ["TRUE", "false", "ON", "off", "Default", "DEFAULT", "NULL", "null", "'on'", "'FALSE'", "'0'", "'1'", "''", "'abc'", "1.5", "1e3", "-1",
                           "'-1'", "1 + 1", "x", "@@wait_timeout", "USER()", "(SELECT 1)", "99999999999999999999", "'UTC'", "'LATIN1'", "0x10", "'caf\u00e9'"])
        s = Server(P)
        with s.w:
            s.connect()
            first = P.flag("changed", True)
            if first:
                s.model[name] = {"int": "77", "bool": not s.default[name], "charset": "latin1", "tz": "+03:00", "str": "zz"}[kind_of(name)]
                x = s.model[name]
                r = s.run("SET %s = %s" % (name, "'" + x + "'" if type(x) is str else x))
                check(r.kind == "ok", "refused", [name, r.msg])
            r = s.run("SET SESSION %s = %s" % (name, v))
            k, low = kind_of(name), v.lower().strip("'")
            if low in ("default", "null"):
                check(r.kind == "ok", "DEFAULT or NULL is refused", r.msg)
                s.model[name] = s.default[name]
            elif r.kind == "ok":
                want = ANY
                if k == "bool" and low in ("true", "on", "1", "false", "off", "0"):
                    want = low in ("true", "on", "1")
                elif k == "str" and v[0] == "'":
                    want = v[1:-1]
                elif k == "int" and low in ("0", "1"):
                    want = low
                elif k == "int" and v == "1e3":
                    want = "1000"
                elif k == "int" and v == "-1":
                    want = "-1"
                elif k == "charset":
                    check(low == "latin1", "unknown character set is accepted", [name, v])
                    want = "latin1"
                elif k == "tz":
                    check(low == "utc", "malformed time zone is accepted", [name, v])
                    want = [v[1:-1], "UTC"]
                elif v == "@@wait_timeout":
                    want = s.model["wait_timeout"] if k != "bool" else True
                s.model[name] = want
            else:
                check(r.kind == "err", "response", r)
                if k == "bool":
                    check(low not in ("true", "on", "1", "false", "off", "0"), "a boolean is refused", [name, v])
                if k == "str" and v[0] == "'":
                    fail("a string is refused", [name, v])
                if k == "charset" and v == "'LATIN1'" or k == "tz" and v == "'UTC'":
                    fail("a valid name is refused", [name, v])
            s.verify(True)
            s.read([name])
            s.alive()
            b = s.select([name], True)
            return [name, v, r.kind]
    return fn


for _k in range(6):
    CASES.append(Case("words-%d" % _k, words(WRITABLE[_k::6]), weight=8, max_paths=5000))


def strings(names, n, ranges, like):
    """any string"""
    def fn(P):
        name = P.choice("name", names)
        v = P.str("v", n, ranges, default=like)
        s = Server(P)
        with s.w:
            s.connect()
            r = s.run(spelled(P, name, "SET @@session.{n} = ") + "'{v}'", v=v)
            k = kind_of(name)
            if k == "str":
                check(r.kind == "ok", "a string is refused", r.msg)
                s.model[name] = v
            elif k == "bool":
                low = v.lower()
                if low in ("true", "on", "1"):
                    check(r.kind == "ok", "refused", v)
                    s.model[name] = True
                elif low in ("false", "off", "0"):
                    check(r.kind == "ok", "refused", v)
                    s.model[name] = False
                elif r.kind == "ok":
                    fail("neither true nor false", v)
            elif k == "int":
                digits = v.isdigit()
                if r.kind == "ok":
                    s.model[name] = str(int(v)) if digits else ANY
            elif k == "tz":
                ok = offset(v) is not None
                if r.kind == "ok":
                    check(ok, "malformed time zone is accepted", v)
                    s.model[name] = v
                elif ok:
                    h, m = offset(v)
                    check(h > 14 or (h == 14 and m > 0), "a time zone is refused", v)
            s.verify(True)
            return [name, r.kind]
    return fn


def offset(v):
    """(hours, minutes) of a well-formed time zone, or None"""
    if v.lower() == "utc":
        return 0, 0
    if len(v) != 6 or not (v[0] == "+" or v[0] == "-") or v[3] != ":":
        return None
    for i in (1, 2, 4, 5):
        if not ("0" <= v[i] and v[i] <= "9"):
            return None
    h, m = int(v[1:3]), int(v[4:6])
    if m > 59 or h > 23:
        return None
    return h, m


_PR = ((0x20, 0x26), (0x28, 0x5b), (0x5d, 0x7e))
CASES.append(Case("strings", strings(STR, 3, _PR + ((0xa0, 0x2fff),), "abc"), weight=3))
CASES.append(Case("strings-bool", strings(BOOL, 2, _PR, "on"), weight=3))
CASES.append(Case("strings-bool4", strings(BOOL[:1], 4, _PR, "TrUe"), weight=3))
CASES.append(Case("strings-bool5", strings(BOOL[1:2], 5, _PR, "faLse"), weight=3))
CASES.append(Case("strings-int", strings(INT[:2], 3, ((0x30, 0x39), (0x61, 0x66)), "123"), weight=3))
CASES.append(Case("strings-tz", strings(["time_zone"], 6, ((0x2b, 0x2d), (0x2f, 0x3c), (0x61, 0x62)), "+05:30"), weight=6))
CASES.append(Case("strings-utc", strings(["time_zone"], 3, ((0x2b, 0x2d), (0x30, 0x3a), (0x41, 0x5a), (0x61, 0x7a)), "uTc"), weight=3))


# ---------------------------------------------------------------------------------------------- read-only, unknown

def readonly(P, names, deep=False):
    """no statement changes a read-only variable or invents one"""
    name = P.choice("name", names)
    v = P.choice("v", ["'x'", "1", "DEFAULT", "NULL", "TRUE", "@@sql_mode"])
    forms = SPELL + ["SET GLOBAL {n} = ", "SET @@global.{n} = ", "SET PERSIST {n} = ", "SET @@persist.{n} = ", "SET sql_mode = 'y', {n} = ",
                     "SELECT /*+ SET_VAR({n}={v}) */ a FROM t", "SELECT /*+ SET_VAR({n}={v}) */ 1", "SELECT /*+ SET_VAR(sql_mode='q') SET_VAR({n}={v}) */ a FROM t",
                     "SELECT * FROM (SELECT /*+ SET_VAR({n}={v}) SET_VAR(sql_mode='q') */ a FROM t) x"]
    f = P.choice("form", forms)
    s = Server(P)
    with s.w:
        s.connect()
        if P.flag("before", True) if deep else "SET_VAR" in f or "'y'" in f:
            check(s.run("SET sql_mode = 'before', wait_timeout = 5").kind == "ok", "set")
            s.model["sql_mode"], s.model["wait_timeout"] = "before", "5"
        q = f.replace("{n}", name).replace("{N}", name.upper()).replace("{v}", v)
        if "{v}" not in f:
            q = q + v
        n = len(s.seen)
        r = s.run(q)
        check(r.kind == "err", "a read-only or unknown variable is assigned", [q, r])
        if "SET_VAR" in f:
            check(len(s.seen) == n, "statement runs although its hint is refused", q)
        if "autocommit" in q:
            s.model["autocommit"] = ANY
        if "sql_mode = 'y'" in q:
            s.model["sql_mode"] = [s.model["sql_mode"], "y"]
        s.verify(True)
        s.read(ALL)
        return [q]


for _k in range(3):
    _names = (READONLY + ["nosuch", "", "x.y"])[_k::3]
    CASES.append(Case("readonly-%d" % _k, lambda P, names=_names: readonly(P, names), weight=7, max_paths=3000))
    CASES.append(Case("readonly-deep-%d" % _k, lambda P, names=_names: readonly(P, names, True), weight=7, max_paths=9000, tier="thorough"))


def unknown(P):
    """names that aren't those of a variable; names in any case"""
    base = P.choice("base", ["wait_timeout", "version", "x"])
    name = P.str("name", len(base), ((0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a)), default=base)
    form = P.choice("form", ["SET `{n}` = 5", "SET SESSION `{n}` = 5", "SELECT /*+ SET_VAR(`{n}`=5) */ a FROM t"])
    s = Server(P)
    with s.w:
        s.connect()
        r = s.run(form, n=name)
        low = name.lower()
        for x in WRITABLE:
            if len(x) == len(base) and low == x:
                if kind_of(x) == "int":
                    check(r.kind != "err", "variable isn't found", r.msg)
                if r.kind != "err":
                    want = "5" if kind_of(x) in ("int", "str") else True
                    if "SET_VAR" in form:
                        s.same(s.seen[0], {x: want})
                    else:
                        s.model[x] = want
                break
        else:
            check(r.kind == "err", "unknown or read-only variable is assigned", name)
        s.verify()
        return [r.kind]


CASES.append(Case("unknown", unknown, weight=3))


# ---------------------------------------------------------------------------------------------- programs

def step(P, s, i, what, deep=True):
    """one statement and its effect on the model"""
    m, d = s.model, s.default
    n = P.int("n%d" % i, 0, 2 ** 31 - 1, 100 + i)
    if what == "int":
        check(s.run("SET wait_timeout = {n}", n=n).kind == "ok", what)
        m["wait_timeout"] = str(n)
    elif what == "bool":
        check(s.run("SET SESSION autocommit = {n}", n=n).kind == "ok", what)
        m["autocommit"] = n != 0
    elif what == "multi":
        check(s.run("SET @@wait_timeout = {n}, SESSION sql_mode = 'm{n}', @@session.autocommit = OFF", n=n).kind == "ok", what)
        m["wait_timeout"], m["sql_mode"], m["autocommit"] = str(n), "m" + str(n), False
    elif what == "twice":
        check(s.run("SET sql_mode = 'first', sql_mode = 'second{n}'", n=n).kind == "ok", what)
        m["sql_mode"] = "second" + str(n)
    elif what == "copy":
        r = s.run("SET net_write_timeout = @@wait_timeout, sql_mode = @@sql_mode")
        check(r.kind == "ok", what, r.msg)
        m["net_write_timeout"] = m["wait_timeout"]
    elif what == "names":
        check(s.run("SET NAMES latin1").kind == "ok", what)
        m["character_set_client"] = m["character_set_results"] = m["character_set_connection"] = "latin1"
        m["collation_connection"] = "latin1_swedish_ci"
    elif what == "names-collate":
        check(s.run("SET NAMES 'utf8mb4' COLLATE 'utf8mb4_bin'").kind == "ok", what)
        m["character_set_client"] = m["character_set_results"] = m["character_set_connection"] = "utf8mb4"
        m["collation_connection"] = "utf8mb4_bin"
    elif what == "names-default":
        check(s.run("SET NAMES default").kind == "ok", what)
        for k in ("character_set_client", "character_set_results", "character_set_connection", "collation_connection"):
            m[k] = d[k]
    elif what == "charset":
        check(s.run("SET CHARACTER SET cp1251").kind == "ok", what)
        m["character_set_client"] = m["character_set_results"] = "cp1251"
        m["character_set_connection"] = m["character_set_database"]
        m["collation_connection"] = [m["collation_connection"], m["collation_database"]]
    elif what == "charset-default":
        check(s.run("SET CHARACTER SET DEFAULT").kind == "ok", what)
        m["character_set_client"], m["character_set_results"] = d["character_set_client"], d["character_set_results"]
        m["character_set_connection"] = [d["character_set_connection"], m["character_set_database"]]
        m["collation_connection"] = [m["collation_connection"], m["collation_database"]]
    elif what == "charset-db":
        check(s.run("SET character_set_database = 'latin2'").kind == "ok", what)
        m["character_set_database"] = "latin2"
    elif what == "trx":
        check(s.run("SET SESSION TRANSACTION ISOLATION LEVEL SERIALIZABLE, READ ONLY").kind == "ok", what)
        m["transaction_isolation"], m["transaction_read_only"] = "SERIALIZABLE", True
    elif what == "trx-rw":
        check(s.run("SET TRANSACTION READ WRITE").kind == "ok", what)
        m["transaction_read_only"] = False
    elif what == "tz":
        check(s.run("SET time_zone = '-07:30'").kind == "ok", what)
        m["time_zone"] = "-07:30"
    elif what == "default":
        check(s.run("SET wait_timeout = DEFAULT, sql_mode = NULL, time_zone = DEFAULT").kind == "ok", what)
        for k in ("wait_timeout", "sql_mode", "time_zone"):
            m[k] = d[k]
    elif what == "hint":
        k = len(s.seen)
        r = s.run("SELECT /*+ SET_VAR(wait_timeout={n}) SET_VAR(sql_mode='h') */ a FROM t", n=n)
        check(r.kind == "rs" and len(s.seen) == k + 1, what, r.msg)
        s.same(s.seen[k], {"wait_timeout": str(n), "sql_mode": "h"})
    elif what == "hint-fail":
        k = len(s.seen)
        r = s.run("SELECT /*+ SET_VAR(wait_timeout={n}) SET_VAR(time_zone='+01:00') */ boom FROM t", n=n)
        check(r.kind == "err" and len(s.seen) == k + 1, what)
        s.same(s.seen[k], {"wait_timeout": str(n), "time_zone": "+01:00"})
    elif what == "hint-refused":
        k = len(s.seen)
        r = s.run("SELECT /*+ SET_VAR(wait_timeout={n}) SET_VAR(autocommit='maybe') SET_VAR(sql_mode='x') */ a FROM t", n=n)
        check(r.kind == "err" and len(s.seen) == k, what)
    elif what == "bad":
        check(s.run("SET character_set_results = 'nosuch'").kind == "err", "unknown character set")
        check(s.run("SET time_zone = 'nosuch'").kind == "err", "unknown time zone")
        check(s.run("SET wait_timeout = 'abc'").kind == "err", "not a number")
    elif what == "bad-multi":
        check(s.run("SET wait_timeout = {n}, nosuch = 1", n=n).kind == "err", "unknown variable")
        m["wait_timeout"] = [m["wait_timeout"], str(n)]
    elif what == "bad-names":
        r = s.run("SET NAMES nosuch")
        check(r.kind == "err", "unknown character set")
    elif what == "text":
        k = len(s.seen)
        r = s.run("SET sql_mode = 'a'; SELECT /*+ SET_VAR(sql_mode='b') */ a FROM t; SELECT a FROM t; SET sql_mode = 'c{n}'; SELECT a FROM t", n=n)
        check(r.kind == "rs" and len(s.seen) == k + 3, what, r.msg)
        s.same(s.seen[k], {"sql_mode": "b"})
        s.same(s.seen[k + 1], {"sql_mode": "a"})
        m["sql_mode"] = "c" + str(n)
        s.same(s.seen[k + 2])
    elif what == "prepared":
        st = s.c.prepare(s.sql.make("SET wait_timeout = {n}", n=n).encode())
        check(s.c.execute(st.stmt_id).kind == "ok", what)
        m["wait_timeout"] = str(n)
    elif what == "init":
        check(s.run("BEGIN").kind == "ok" and s.run("ROLLBACK").kind == "ok" and s.c.ping().kind == "ok", what)
    else:
        raise RuntimeError(what)


STEPS = ["int", "bool", "multi", "twice", "copy", "names", "names-collate", "names-default", "charset", "charset-default", "charset-db", "trx", "trx-rw", "tz",
         "default", "hint", "hint-fail", "hint-refused", "bad", "bad-multi", "bad-names", "text", "prepared", "init"]


def programs(first, k):
    def fn(P):
        s = Server(P)
        log = []
        with s.w:
            s.connect()
            for i in range(k):
                what = P.choice("s%d" % i, first if i == 0 else STEPS, i)
                step(P, s, i, what)
                log.append(what)
                s.verify(i == k - 1)
            return log
    return fn


for _k in range(6):
    CASES.append(Case("programs-%d" % _k, programs(STEPS[_k::6], 2), weight=5, max_paths=3000))
    CASES.append(Case("longer-%d" % _k, programs(STEPS[_k::6], 4), weight=10, max_paths=30000, tier="thorough"))


# ---------------------------------------------------------------------------------------------- hints

HINTED = [
    ("SELECT /*+ SET_VAR({h}) */ {w} FROM t", False),
    ("select /*+ set_var({h}) */ {w} FROM t", False),
    ("SELECT /*+ X(y) SET_VAR({h}) MAX_EXECUTION_TIME(5) */ {w} FROM t", False),
    ("SELECT {w} FROM t WHERE a IN (SELECT /*+ SET_VAR({h}) */ b FROM u)", True),
    ("SELECT * FROM (SELECT /*+ SET_VAR({h}) */ {w} FROM t) AS x", True),
    ("SELECT /*+ SET_VAR({h}) */ {w} FROM t UNION SELECT b FROM u", True),
    ("WITH x AS (SELECT /*+ SET_VAR({h}) */ {w} FROM t) SELECT * FROM x", True),
    ("INSERT /*+ SET_VAR({h}) */ INTO t VALUES ('{w}')", False),
    ("INSERT INTO t SELECT /*+ SET_VAR({h}) */ {w} FROM u", True),
    ("EXPLAIN SELECT a FROM t; SELECT /*+ SET_VAR({h}) */ {w} FROM t", False),
]


def hints(names):
    """the statement sees the hinted value, and afterwards everything is as before however it ends"""
    def fn(P):
        name = P.choice("name", names)
        text, nested = P.choice("text", HINTED)
        w = P.choice("w", ["a", "boom", "bang", "park", "stream"])
        before = P.choice("before", ["default", "set"])
        k = kind_of(name)
        n = P.int("n", 0, 2 ** 31 - 1, 4)
        val, want = {"int": ("{n}", str(n)), "bool": ("0", False), "charset": ("'latin1'", "latin1"), "tz": ("'-05:00'", "-05:00"),
                     "str": ("'v{n}'", "v" + str(n))}[k]
        s = Server(P)
        with s.w:
            s.connect()
            if before == "set":
                v = {"int": "3", "bool": "1", "charset": "'ascii'", "tz": "'+02:00'", "str": "'old'"}[k]
                check(s.run("SET %s = %s" % (name, v)).kind == "ok", "set")
                s.model[name] = {"int": "3", "bool": True, "charset": "ascii", "tz": "+02:00", "str": "old"}[k]
            q = text.replace("{h}", name + "=" + val).replace("{w}", w)
            calls = 2 if "EXPLAIN" in text else 1
            if w == "park":
                end = P.choice("end", ["result", "error", "kill", "eof"])
                s.c.send_command(b"\x03\x00\x01" + s.sql.make(q, n=n).encode())
                check(s.future is not None, "not parked")
                s.same(s.seen[calls - 1], {name: want})
                if end == "eof":
                    sess = s.hub.sessions[0]
                    s.c.peer.eof()
                    s.future.cancel()
                    s.w.run()
                    s.same({x: sess.variables.get(x) for x in ALL})
                    return [q, end]
                if end == "kill":
                    o = Client(s.w.open())
                    o.login(b"joe")
                    check(o.query(b"KILL QUERY %d" % s.c.conn_id).kind == "ok", "kill")
                elif end == "error":
                    s.future.set_exception(MysqlError("late"))
                else:
                    s.future.set_result(None)
                s.w.run()
                r = s.c.read_query()
                check((r.kind == "rs") == (end == "result"), "response", r)
            else:
                r = s.run(q, n=n)
                check(len(s.seen) == calls, "number of statements")
                s.same(s.seen[calls - 1], {name: want})
                check((r.kind == "rs") == (w in ("a", "stream")), "response", r)
            if calls == 2:
                s.same(s.seen[0])
            s.verify(True)
            return [q, w]
    return fn


for _k in range(4):
    CASES.append(Case("hints-%d" % _k, hints([["wait_timeout", "sql_select_limit"], ["autocommit", "time_zone"], ["sql_mode", "collation_connection"],
                                             ["character_set_results", "character_set_client"]][_k]), weight=6, max_paths=4000))


def several(P):
    """several hints of one statement"""
    a = P.choice("a", ["wait_timeout=7", "sql_mode='a'", "autocommit=0", "time_zone='+01:00'"])
    b = P.choice("b", ["wait_timeout=8", "sql_mode='b'", "sql_auto_is_null=1", "Wait_Timeout=9", "nosuch=1", "version='x'", "time_zone='bad'", "wait_timeout='x'",
                       "wait_timeout", "wait_timeout=1+1", "wait_timeout=DEFAULT"])
    q = P.choice("form", ["SELECT /*+ SET_VAR(%s) SET_VAR(%s) */ {w} FROM t", "SELECT /*+ SET_VAR(%s), SET_VAR(%s) */ {w} FROM t",
                          "SELECT /*+ SET_VAR(%s) */ {w} FROM (SELECT /*+ SET_VAR(%s) */ b FROM u) AS x",
                          "SELECT /*+ SET_VAR(%s) */ {w} FROM t UNION SELECT /*+ SET_VAR(%s) */ b FROM u"])
    w = P.choice("w", ["a", "boom"])
    swap = P.flag("swap")
    s = Server(P)
    with s.w:
        s.connect()
        check(s.run("SET wait_timeout = 5, sql_mode = 'old'").kind == "ok", "set")
        s.model["wait_timeout"], s.model["sql_mode"] = "5", "old"
        r = s.run((q % ((b, a) if swap else (a, b))).replace("{w}", w))
        bad = b in ("nosuch=1", "version='x'", "time_zone='bad'", "wait_timeout='x'")
        if bad and a.split("=")[0] != b.split("=")[0]:
            check(r.kind == "err", "response", r)
        if s.seen:
            over = {}
            for x in (a, b):
                n = x.split("=")[0].lower()
                v = x.split("=")[-1].strip("'")
                if n in over or v in ("wait_timeout", "1+1"):
                    over[n] = ANY
                else:
                    over[n] = s.default[n] if v == "DEFAULT" else (v == "1") if n in BOOL else v
            if bad:
                # one of them was lost to a duplicate
                check(a.split("=")[0] == b.split("=")[0].lower(), "statement runs although a hint is refused", [a, b])
            s.same(s.seen[0], over)
        s.verify(True)
        return [q, a, b]


CASES.append(Case("several", several, weight=9, max_paths=3000))


def hint_reads(P):
    """hints of statements that the library answers"""
    n = P.int("n", 0, 2 ** 31 - 1, 4)
    q, want = P.choice("q", [("SELECT /*+ SET_VAR(wait_timeout={n}) */ @@wait_timeout", "n"), ("SELECT /*+ SET_VAR(sql_mode='z') */ @@sql_mode", "z"),
                             ("SELECT /*+ SET_VAR(time_zone='+05:30') */ NOW()", "2021-03-15 04:00:15"), ("SELECT NOW()", "2021-03-14 22:30:15"),
                             ("SELECT /*+ SET_VAR(time_zone='-23:00') */ CURDATE()", "2021-03-13"),
                             ("SELECT /*+ SET_VAR(time_zone='+01:15') */ CURTIME()", "23:45:15"), ("SELECT /*+ SET_VAR(nosuch=1) */ 1", None),
                             ("SELECT /*+ SET_VAR(time_zone='x') */ NOW()", None), ("SELECT /*+ SET_VAR(sql_mode='z') */ nosuch", None),
                             ("SELECT /*+ SET_VAR(sql_mode='z') */ schema_name FROM information_schema.schemata WHERE schema_name = 'db1'", "db1")])
    s = Server(P)
    with s.w:
        s.connect()
        r = s.run(q, n=n)
        if want is None:
            check(r.kind == "err", "response", r)
        else:
            check(r.kind == "rs", "response", r.msg)
            P.pin(n)
            check(r.rows == [[str(n).encode() if want == "n" else want.encode()]] or r.rows == [(str(n).encode() if want == "n" else want.encode(),)],
                  "value during the statement", [r.rows, want])
        s.verify(True)
        return [q]


CASES.append(Case("hint-reads", hint_reads, weight=1))


# ---------------------------------------------------------------------------------------------- behaviour

TIMES = [(2021, 3, 14, 22, 30, 15), (2020, 2, 28, 23, 59, 59), (2020, 12, 31, 23, 0, 0), (2021, 1, 1, 0, 0, 0), (2019, 3, 1, 0, 15, 1), (2021, 7, 31, 12, 0, 0)]
FUNCS = [("NOW()", "%Y-%m-%d %H:%M:%S"), ("CURDATE()", "%Y-%m-%d"), ("CURTIME()", "%H:%M:%S"), ("CURRENT_TIMESTAMP()", "%Y-%m-%d %H:%M:%S"),
         ("CURRENT_DATE", "%Y-%m-%d"), ("CURRENT_TIME", "%H:%M:%S"), ("LOCALTIME()", "%Y-%m-%d %H:%M:%S"), ("LOCALTIMESTAMP()", "%Y-%m-%d %H:%M:%S")]


def zones(P, hows=("same-text", "hint", "default", "later"), qs=(22, -52, -29, -1, 1, 56, 3, 0, 17, 4)):
    t = P.choice("t", TIMES)
    q = P.choice("q", qs)
    how = P.choice("how", hows)
    sign = "-" if q < 0 else "+"
    tz = "%s%02d:%02d" % (sign, abs(q) // 4, abs(q) % 4 * 15)
    s = Server(P)
    with s.w:
        s.connect()
        clock.at(*t)
        cols = ", ".join(f for f, _ in FUNCS)
        delta = datetime.timedelta(minutes=15 * q)
        if how == "set":
            check(s.run("SET time_zone = '%s'" % tz).kind == "ok", "a time zone is refused", tz)
            r = s.run("SELECT " + cols)
        elif how == "same-text":
            r = s.run("SELECT 1; SET time_zone = '%s'; SELECT %s" % (tz, cols))
        elif how == "hint":
            r = s.run("SELECT /*+ SET_VAR(time_zone='%s') */ %s" % (tz, cols))
        elif how == "default":
            check(s.run("SET time_zone = '%s'" % tz).kind == "ok" and s.run("SET time_zone = DEFAULT").kind == "ok", "set")
            r = s.run("SELECT " + cols)
            delta = datetime.timedelta(0)
        else:
            check(s.run("SET time_zone = '%s'" % tz).kind == "ok", "a time zone is refused", tz)
            check(s.run("SELECT NOW()").kind == "rs", "now")
            clock.at(t[0], t[1], t[2], t[3], t[4], 7)
            t = (t[0], t[1], t[2], t[3], t[4], 7)
            r = s.run("SELECT " + cols)
        check(r.kind == "rs", "response", r.msg)
        want = datetime.datetime(*t) + delta
        for (f, fmt), v in zip(FUNCS, r.rows[0]):
            check(v == want.strftime(fmt).encode(), "time of day in the time zone of the session", [f, tz, v, want.strftime(fmt)])
        if how == "hint":
            r = s.run("SELECT NOW()")
            check(r.rows[0][0] == datetime.datetime(*t).strftime("%Y-%m-%d %H:%M:%S").encode(), "time zone after a hint", r.rows)
        return [tz, how]


CASES.append(Case("zones", zones, weight=4, max_paths=2000))
CASES.append(Case("zones-west", lambda P: zones(P, ["set"], list(range(-52, 1))), weight=5, max_paths=2000))
CASES.append(Case("zones-east", lambda P: zones(P, ["set"], list(range(1, 57))), weight=5, max_paths=2000))
CASES.append(Case("zones-all", lambda P: zones(P, qs=range(-52, 57)), weight=10, max_paths=20000, tier="thorough"))


def version(P):
    """the handshake announces the version"""
    v = P.str("v", P.small("n", 1, 4, 3), ((0x21, 0x26), (0x28, 0x5b), (0x5d, 0x7e)))
    how = P.choice("how", ["schema", "forced"])
    s = Server(P)
    real = s.factory

    def factory(*a, **k):
        from mysql_mimic.variables import SYSTEM_VARIABLES
        if how == "schema":
            schema = dict(SYSTEM_VARIABLES)
            schema["version"] = (str, v, False)
            x = real(*a, variables=SessionVariables(GlobalVariables(schema)), **k)
        else:
            x = real(*a, **k)
            x.variables.set("version", v, force=True)
        return x
    s.w.server.session_factory = factory
    with s.w:
        c = s.c = Client(s.w.open())
        c.read_greeting()
        check(c.greeting.version == v.encode(), "version of the handshake", [c.greeting.version, v])
        c.caps = BASE | DEPRECATE_EOF | QUERY_ATTRS
        c.send(c.response41(b"joe", b"", c.caps), seq=1)
        check(c.auth_result().kind == "ok", "login")
        got = s.show()
        check(got["version"] == v, "version", got["version"])
        check(s.run("SET version = 'zz'").kind == "err", "version is assigned")
        r = s.app_sees()
        check(r["version"] == v, "version of the application")
        P.pin(v)
        r = s.run("SELECT VERSION(), @@version")
        check(r.kind == "rs" and list(r.rows[0]) == [v.encode(), v.encode()], "version", r.rows)
        d = Client(s.w.open())
        d.read_greeting()
        check(d.greeting.version == v.encode(), "version of a later handshake", d.greeting.version)
        return [how]


CASES.append(Case("version", version, weight=2, max_paths=150))
CASES.append(Case("version-more", version, weight=2, max_paths=600, tier="thorough"))


def charsets(P):
    """SET NAMES and SET CHARACTER SET with any name"""
    base = P.choice("base", ["utf8", "latin1", "utf8mb4", "cp1251", "greek", "x"])
    name = P.str("name", len(base), ((0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a)), default=base)
    form = P.choice("form", ["SET NAMES '{n}'", "SET CHARACTER SET '{n}'", "SET character_set_results = '{n}'", "SET SESSION character_set_connection = '{n}'"])
    s = Server(P)
    with s.w:
        s.connect()
        r = s.run(form, n=name)
        low = name.lower()
        P.assume(low != "default")
        if r.kind == "ok":
            check(low in KNOWN_CHARSETS, "unknown character set is accepted", name)
            m = s.model
            if "_results" in form:
                m["character_set_results"] = low
            elif "_connection" in form:
                m["character_set_connection"] = low
            else:
                m["character_set_client"] = m["character_set_results"] = low
                for k, x in (("ucs2", "utf-16-be"), ("utf16", "utf-16-be"), ("utf16le", "utf-16-le"), ("utf32", "utf-32-be")):
                    if low == k:
                        s.wide = x
                m["collation_connection"] = ANY
                if "NAMES" in form:
                    m["character_set_connection"] = low
        else:
            check(low not in ("utf8", "latin1", "utf8mb4", "cp1251", "greek"), "a character set is refused", name)
            for k in ("character_set_client", "character_set_results", "character_set_connection"):
                s.model[k] = [s.model[k]]
        s.verify()
        s.alive()
        return [form, r.kind]


CASES.append(Case("charsets", charsets, weight=6))


def fresh(P):
    """a new session has the defaults, whatever earlier ones did"""
    what = [P.choice("s%d" % i, STEPS, i + 1) for i in range(2)]
    s = Server(P)
    with s.w:
        s.connect()
        first = s.default
        for i, x in enumerate(what):
            step(P, s, i, x)
            s.verify()
        s.connect()
        check(len(first) == len(s.default), "variables")
        for k in first:
            check(s.default[k] == first[k], "a new session doesn't have the defaults", [k, s.default[k], first[k]])
        s.verify(True)
        return what


CASES.append(Case("fresh", fresh, weight=9, max_paths=2000))

"""C13 the application sees exactly the statements it must handle, once, in order"""
from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, Users
from harness.proto import *
from harness.symsql import Sql
from mysql_mimic.errors import MysqlError
from mysql_mimic.results import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType

CASES = []
META = {
    "quick_s": 110, "thorough_s": 500,
    "bounds": "texts of up to 3 statements (thorough 5) from a grammar of 64 statements answered by the library, 38 it may refuse, and 72 of "
              "the application, each before and after ten of them (thorough: every ordered pair) and in programs, with separators, comments and empty statements between them, "
              "as COM_QUERY and as prepared statements; arbitrary names of databases, tables and common table expressions (up to 18 "
              "characters, catalog names in any case included); arbitrary query attributes; histories of database selections by "
              "handshake, COM_INIT_DB, USE and COM_CHANGE_USER with arbitrary names",
    "outside": "statements that sqlglot can't parse; FROM-less UNIONs and parenthesized selects, SELECT ... FROM DUAL, EXPLAIN of a "
               "table and statements on common table expressions that read no table (the property doesn't say who answers them); "
               "rows of the catalog (C16)",
    "assumptions": ["how sqlglot parses a text doesn't depend on the contents of a literal or a quoted name"],
}

# statements answered by the library: (text, kind of response: "ok", column names or None (any))
LIB = [
    ("SET autocommit = 1", "ok"), ("SET @@session.sql_mode = 'x'", "ok"), ("SET SESSION sql_mode = 'x', LOCAL wait_timeout = 5", "ok"),
    ("SET NAMES utf8mb4", "ok"), ("set names utf8mb4 COLLATE utf8mb4_general_ci", "ok"), ("SET CHARACTER SET utf8mb4", "ok"),
    ("SET TRANSACTION READ ONLY", "ok"), ("SET SESSION TRANSACTION ISOLATION LEVEL READ COMMITTED", "ok"),
    ("KILL 4000000", "ok"), ("KILL QUERY 4000000", "ok"), ("kill connection 4000000", "ok"),
    ("SHOW VARIABLES", ["Variable_name", "Value"]), ("SHOW SESSION VARIABLES LIKE 'v%'", ["Variable_name", "Value"]),
    ("SHOW STATUS", ["Variable_name", "Value"]), ("SHOW WARNINGS", ["Level", "Code", "Message"]), ("SHOW ERRORS", ["Level", "Code", "Message"]),
    ("SHOW TABLES FROM db1", ["Table_name"]), ("SHOW FULL TABLES FROM db1", ["Table_name", "Table_type"]), ("show databases", ["Database"]),
    ("SHOW SCHEMAS LIKE 'd%'", ["Database"]), ("SHOW COLUMNS FROM t FROM db1", ["Field", "Type", "Null", "Key", "Default", "Extra"]),
    ("SHOW INDEX FROM t FROM db1", None), ("DESCRIBE t", ["Field", "Type", "Null", "Key", "Default", "Extra"]), ("DESC db1.t", None),
    ("BEGIN", "ok"), ("begin work", "ok"), ("START TRANSACTION", "ok"), ("START TRANSACTION READ ONLY", "ok"),
    ("COMMIT", "ok"), ("COMMIT WORK", "ok"), ("ROLLBACK", "ok"), ("ROLLBACK WORK", "ok"), ("ROLLBACK TO SAVEPOINT x", "ok"), ("ROLLBACK TO x", "ok"),
    ("COMMIT AND CHAIN", "ok"), ("COMMIT WORK AND NO CHAIN", "ok"), ("ROLLBACK AND CHAIN", "ok"),
    ("SELECT 1", ["1"]), ("SELECT 1 AS x, ';' AS y", ["x", "y"]), ("SELECT DATABASE(), USER()", None), ("SELECT @@version, CONNECTION_ID()", None),
    ("select now() LIMIT 1", None), ("SELECT 1 WHERE 1 = 1", ["1"]), ("SELECT DISTINCT 1", ["1"]), ("SELECT 1 ORDER BY 1", ["1"]),
    ("SELECT 1 LIMIT 1 OFFSET 0", ["1"]), ("SELECT 1 GROUP BY 1", ["1"]), ("SELECT 1 FOR UPDATE", ["1"]), ("WITH x AS (SELECT 1) SELECT 2", ["2"]),
    ("SELECT /*+ SET_VAR(sql_mode='y') */ 1", None), ("SELECT 'SELECT a FROM t' AS x", ["x"]),
    ("SELECT * FROM information_schema.tables", None), ("SELECT table_name FROM INFORMATION_SCHEMA.TABLES WHERE table_schema = 'd1'", None),
    ("SELECT a.table_name FROM information_schema.tables a JOIN Information_Schema.schemata b ON a.table_name = b.schema_name", None),
    ("SELECT table_name FROM information_schema.tables UNION SELECT schema_name FROM information_schema.schemata", None),
    ("SELECT * FROM (SELECT table_name FROM information_schema.tables) AS x", None),
    ("WITH x AS (SELECT table_name FROM information_schema.tables) SELECT * FROM x", None),
    ("WITH x AS (SELECT schema_name FROM information_schema.schemata), y AS (SELECT * FROM x) SELECT * FROM y", None),
    ("SELECT user FROM mysql.user", ["user"]),
    ("SELECT a.user FROM mysql.user a JOIN information_schema.schemata b ON a.user = b.schema_name", ["user"]),
    ("SELECT schema_name FROM information_schema.schemata WHERE schema_name IN (SELECT table_schema FROM information_schema.tables)", None),
    ("SELECT schema_name FROM information_schema.schemata AS t", None), ("SELECT count(*) FROM information_schema.schemata", None),
    ("SELECT /*+ SET_VAR(sql_mode='y') */ schema_name FROM information_schema.schemata", None),
]

# statements of the library that may be refused: never passed on
REFUSED = [
    "SET @@nosuch = 1", "SET @x = 1", "SET PASSWORD = 'x'", "SET ROLE ALL", "SET GLOBAL autocommit = 1", "SET version = '5'",
    "SHOW GLOBAL VARIABLES", "SHOW CREATE TABLE t", "SHOW PROCESSLIST", "SHOW ENGINES", "SHOW GRANTS", "SHOW TABLE STATUS", "SHOW TRIGGERS",
    "set password = 'x'", "Set Role all", "set nosuch", "show grants", "Show Engines", "kill 'abc'",
    "SHOW FIELDS FROM t", "SHOW KEYS FROM t", "SHOW TABLES", "SHOW nonsense", "KILL 'abc'", "KILL QUERY 1.5", "SELECT 1 INTO @x", "SELECT COUNT(*)",
    "SELECT (SELECT 2)", "SELECT EXISTS(SELECT 1)", "SELECT @@nosuch", "SELECT nosuch", "SELECT NOSUCH(1)", "DESCRIBE nosuch",
    "SELECT nosuch FROM information_schema.tables", "SELECT * FROM information_schema.nosuch", "SELECT * FROM mysql.nosuch",
    "SELECT 1 IN (SELECT schema_name FROM information_schema.schemata)",
    "SELECT schema_name FROM information_schema.schemata WHERE EXISTS(SELECT 1 FROM information_schema.tables)",
]

# statements of the application
APPS = [
    "SELECT a FROM t", "SELECT a FROM db1.t", "select * from t as x", "SELECT t.a FROM t JOIN u ON t.a = u.a", "SELECT * FROM t, information_schema.tables",
    "SELECT * FROM information_schema.tables x JOIN t ON 1 = 1", "SELECT * FROM information_schema.tables, t",
    "SELECT * FROM information_schema.tables WHERE table_name IN (SELECT a FROM t)", "SELECT (SELECT a FROM t)", "SELECT EXISTS(SELECT * FROM t)",
    "SELECT table_name, (SELECT a FROM t) FROM information_schema.tables", "SELECT 1 WHERE 1 IN (SELECT a FROM t)",
    "SELECT table_name FROM information_schema.tables UNION SELECT a FROM t", "SELECT a FROM t UNION ALL SELECT table_name FROM information_schema.tables",
    "SELECT a FROM t UNION SELECT b FROM u", "SELECT * FROM (SELECT a FROM t) AS x",
    "SELECT * FROM (SELECT * FROM (SELECT table_name FROM information_schema.tables UNION SELECT a FROM t) AS y) AS x",
    "WITH x AS (SELECT a FROM t) SELECT * FROM x", "WITH tables AS (SELECT a FROM t) SELECT * FROM information_schema.tables, tables",
    "WITH x AS (SELECT table_name FROM information_schema.tables) SELECT * FROM x, t",
    "WITH x AS (SELECT table_name FROM information_schema.tables) SELECT * FROM db1.x",
    "SELECT a FROM `information_schema`", "SELECT a FROM db1.information_schema", "SELECT a FROM tables", "SELECT a FROM information_schemas.tables",
    "SELECT information_schema.tables.a FROM t", "SELECT a FROM mysqll.user", "SELECT a FROM user", "SELECT a FROM t -- FROM information_schema.tables\n",
    "SELECT ';' FROM t", "SELECT a FROM t WHERE b = 'SET x = 1'", "SELECT @@version, NOW(), a FROM t", "SELECT a FROM t FOR UPDATE",
    "SELECT /*+ SET_VAR(sql_mode='x') */ a FROM t", "SELECT /*+ X(y) */ a FROM t", "SELECT a FROM t ORDER BY 1 LIMIT 1, 5",
    "SELECT COUNT(*) FROM t GROUP BY a HAVING COUNT(*) > 1", "SELECT a INTO @x FROM t",
    "INSERT INTO t VALUES (1)", "INSERT INTO t SELECT * FROM information_schema.tables", "INSERT INTO t (a) VALUES (NOW()), (';')", "REPLACE INTO t VALUES (1)",
    "UPDATE t SET a = 1", "UPDATE t SET a = @@wait_timeout WHERE b = USER()", "UPDATE t SET a = (SELECT COUNT(*) FROM information_schema.tables)",
    "DELETE FROM t WHERE a = 1", "DELETE FROM t", "CREATE TABLE t (a INT)", "CREATE TABLE t AS SELECT * FROM information_schema.tables",
    "CREATE VIEW v AS SELECT 1", "CREATE DATABASE x", "DROP TABLE t", "DROP DATABASE x", "ALTER TABLE t ADD COLUMN b INT", "TRUNCATE TABLE t",
    "INSERT INTO mysql.user VALUES (1)", "UPDATE mysql.user SET a = 1", "DELETE FROM mysql.user WHERE a = 1", "INSERT INTO information_schema.tables SELECT 1",
    "CREATE TABLE mysql.x (a INT)", "DROP TABLE mysql.user", "TRUNCATE TABLE mysql.user", "DELETE FROM information_schema.tables",
    "CREATE TABLE mysql.x AS SELECT user FROM mysql.user", "INSERT INTO mysql.user SELECT * FROM information_schema.tables",
    "EXPLAIN SELECT a FROM t", "DESCRIBE SELECT a FROM t", "EXPLAIN SELECT 1", "ANALYZE TABLE t", "CALL p(1)", "LOCK TABLES t READ", "GRANT ALL ON t TO x",
]

SEPS = ["; ", ";", " ;\n", ";; ;", "; /* ; */ ", "; -- ; SET x\n", ";# ;\n"]
ENDS = ["", ";", " ; ", " -- x", " /* ; */", ";;"]


class App:
    """server, one client, and the reference"""

    def __init__(self, P, db=None, handler=None, attrs=True):
        self.sql = Sql(P)
        self.hub = Hub(handler or self.handler)
        self.hub.schema = {"db1": {"t": {"a": "int"}}, "db2": {"u": {"b": "int"}}}
        self.w = World(session_factory=self.factory, identity_provider=Users())
        self.db = db
        self.expect = []           # (text, attributes, database)
        self.attrs = attrs

    def factory(self, *a, **k):
        s = self.hub.factory(*a, **k)
        s.dialect = self.sql.dialect
        return s

    def connect(self):
        self.c = Client(self.w.open())
        caps = BASE | DEPRECATE_EOF | (QUERY_ATTRS if self.attrs else 0) | (CONNECT_WITH_DB if self.db is not None else 0)
        r = self.c.login(b"joe", caps=caps, **({"db": self.db.encode()} if self.db is not None else {}))
        check(r.kind == "ok", "login", r)

    def handler(self, s, e, sql, attrs):
        return ResultSet(rows=[(len(self.hub.calls),)], columns=[ResultColumn("app", ColumnType.LONG)])

    def lazy(self):
        """the library has decided to answer when it asks for the schema: go no further"""
        def stop(s):
            raise MysqlError("no schema")
        self.hub.on_schema = stop

    def verify(self, msg=""):
        n = len(self.hub.calls)
        check(n == len(self.expect), "number of statements passed to the application", [n, len(self.expect), [x[0] for x in self.expect]])
        for got, want in zip(self.hub.calls, self.expect):
            check(got[1] == want[0], "the application doesn't receive the text of the client", [got[1], want[0]])
            check(got[2] == want[1], "query attributes", [got[2], want[1]])
            if want[2] is None:
                check(not got[3], "database of the application", got[3])
            else:
                check(got[3] == want[2], "database of the application", [got[3], want[2]])

    def last(self, r, kind):
        """the response is the one of the last statement"""
        if kind == "app":
            check(r.kind == "rs" and [x.name for x in r.cols] == [b"app"], "not the result of the last statement", r)
            v = r.rows[0][0]
            check((v[1] if r.binary else v) == (len(self.expect) if r.binary else b"%d" % len(self.expect)), "result of another statement", v)
        elif kind == "ok":
            check(r.kind == "ok", "not the response of the last statement", r)
        elif kind == "refused":
            check(r.kind != "rs" or [x.name for x in r.cols] != [b"app"], "not the result of the last statement", r)
        elif kind == "rs":
            check(r.kind == "rs" and [x.name for x in r.cols] != [b"app"], "not the result of the last statement", r)
        else:
            check(r.kind == "rs" and [x.name for x in r.cols] == [x.encode() for x in kind], "not the result of the last statement", r)

    def send(self, text, prepared=False, attrs=()):
        if prepared:
            st = self.c.prepare(text.encode())
            check(st.kind == "prep" or st.kind == "ok", "prepare", st)
            return self.c.execute(st.stmt_id, attrs=attrs) if attrs else self.c.execute(st.stmt_id)
        return self.c.query(text.encode(), attrs=attrs) if attrs else self.c.query(text.encode())

    def program(self, items, text=None, prepared=False, attrs=(), vals=None):
        """run one text of several statements: items (text, kind), kind of expected response; ("USE x", "use", name)"""
        if text is None:
            text = "; ".join(i[0] for i in items)
        text = self.sql.make(text, **(vals or {}))
        kind = None
        want = {k: v for k, v in vals_of(attrs)}
        for i in items:
            kind = i[1]
            if kind == "app":
                self.expect.append((text, want, self.db))
            elif kind == "use":
                self.db = i[2]
                kind = "ok"
            elif kind is None:
                kind = "rs"
        r = self.send(text, prepared, attrs)
        self.verify()
        if kind is not None:
            self.last(r, kind)
        return r


def vals_of(attrs):
    return [(a[0].decode(), VALS[a[0]]) for a in attrs]


VALS = {}


def attr(P, name, i):
    v = P.int(name, 0, 2 ** 31 - 1, i)
    k = b"k%d" % i
    VALS[k] = v
    return (k, T_LONG, False, u(v, 4))


def braces(s):
    return s


def pairs(first, second, part=0, parts=1):
    """every ordered pair of statements"""
    def fn(P):
        xs = first[part::parts]
        x = P.choice("a", xs)
        y = P.choice("b", second, len(second) // 2)
        a = App(P, db="db1")
        with a.w:
            a.connect()
            a.program([x, y])
            return [x[0], y[0]]
    return fn


_LIB = LIB
_APP = [(t, "app") for t in APPS]
_REF = [(t, "refused") for t in REFUSED]
_PICK = [LIB[0], LIB[8], LIB[11], LIB[24], LIB[33], LIB[47], ("USE db2", "use", "db2"), ("SELECT a FROM t", "app"), ("INSERT INTO t VALUES (1)", "app"),
         ("SELECT a FROM t UNION SELECT b FROM u", "app")]
CASES.append(Case("then-refused", pairs(_PICK, _REF), weight=5))


def layout(kinds, full):
    def fn(P):
        items = [P.choice("s%d" % i, kinds, i * 3 % len(kinds)) for i in range(2 if full else P.small("n", 1, 3, 3))]
        text = P.choice("start", ["", ";", "/* ; */ ", "-- x\n", "\n\t "]) if full else ""
        for i, x in enumerate(items):
            if i:
                text = text + (P.choice("sep%d" % i, SEPS) if full else "; ")
            text = text + x[0]
        if full:
            text = text + P.choice("end", ENDS)
        prepared = "query" if full else P.choice("command", ["query", "prepared", "again"])
        attrs = [attr(P, "attr%d" % i, i) for i in range(0 if full else P.small("attrs", 0, 2, 1))]
        a = App(P, db="db1")
        with a.w:
            a.connect()
            a.program(items, text, prepared != "query", attrs)
            if prepared == "again":
                a.program(items, text, True, [])
            return [text]
    return fn


CASES.append(Case("layout", layout([_PICK[0], _PICK[2], _PICK[7]], True), weight=12, max_paths=30000))
CASES.append(Case("commands", layout([_PICK[0], _PICK[4], _PICK[6], _PICK[7]], False), weight=10, max_paths=30000))


def triples(P):
    items = [P.choice("s%d" % i, _PICK, i * 3) for i in range(3)]
    a = App(P, db="db1")
    with a.w:
        a.connect()
        a.program(items)
        return [x[0] for x in items]


CASES.append(Case("triples", triples, weight=8, max_paths=30000))


def empty(P):
    """texts without statements"""
    t = P.choice("t", ["", ";", " ", "; ;", "-- x", "/* x */", "# y", "/* a */ ; -- b"])
    prepared = P.flag("prepared")
    a = App(P)
    with a.w:
        a.connect()
        r = a.send(t, prepared)
        check(r.kind == "ok" or r.kind == "err", "response", r)
        a.verify()
        a.program([("SELECT a FROM t", "app")])
        return [t]


CASES.append(Case("empty", empty, weight=1))


# ---------------------------------------------------------------------------------------------- names

NAME = ((0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a))
CATALOGS = ("information_schema", "mysql")
# {d}, {e}: databases, {t}: table, {x}: common table expression
READS = [
    ("SELECT table_name FROM `{d}`.tables", ["d"]),
    ("SELECT a.table_name FROM `{d}`.tables AS a JOIN `{e}`.columns AS b ON a.table_name = b.table_name", ["d", "e"]),
    ("SELECT table_name FROM `{d}`.tables UNION SELECT column_name FROM `{e}`.columns", ["d", "e"]),
    ("SELECT table_name FROM `{d}`.tables WHERE table_name IN (SELECT table_name FROM `{e}`.columns)", ["d", "e"]),
    ("SELECT * FROM (SELECT table_name FROM `{d}`.tables) AS x, `{e}`.columns", ["d", "e"]),
    ("WITH x AS (SELECT table_name FROM `{d}`.tables) SELECT * FROM x, `{e}`.columns", ["d", "e"]),
    ("SELECT (SELECT table_name FROM `{d}`.tables LIMIT 1) AS y FROM `{e}`.columns", ["d", "e"]),
]


def is_catalog(name):
    low = name.lower()
    return low == "information_schema" or low == "mysql"


def db_names(k):
    """databases with arbitrary names, like those of catalogs in any case"""
    def fn(P):
        t, names = READS[k]
        vals = {}
        for n in names:
            like = P.choice("like_" + n, ["information_schema", "mysql", "x", "performance_schema"])
            vals[n] = P.str(n, len(like), NAME, default=like)
        a = App(P, db="db1")
        with a.w:
            a.connect()
            catalog = True
            for n in names:
                catalog = catalog and is_catalog(vals[n])
            a.lazy()
            a.program([(t, "refused" if catalog else "app")], t, vals=vals)
            return [t, len(a.expect)]
    return fn


for _k in range(len(READS)):
    CASES.append(Case("names-%d" % _k, db_names(_k), weight=3))


def default_db(P):
    """unqualified tables are those of the database selected last"""
    like = P.choice("like", ["information_schema", "mysql", "x"])
    d = P.str("d", len(like), NAME, default=like)
    how = P.choice("how", ["handshake", "init_db", "use", "use-same-text", "change_user"])
    t = P.choice("t", ["SELECT schema_name FROM schemata", "SELECT a.schema_name FROM schemata AS a JOIN information_schema.tables AS b ON 1 = 1",
                       "SELECT schema_name FROM schemata UNION SELECT table_name FROM mysql.user",
                       "SELECT schema_name FROM schemata UNION SELECT a FROM db1.t"])
    a = App(P, db=d if how == "handshake" else "db2" if P.flag("other") else None)
    with a.w:
        a.connect()
        items = []
        if how == "init_db":
            check(a.c.init_db(d.encode()).kind == "ok", "init db")
        elif how == "use":
            a.program([("", "use", d)], "USE `{d}`", vals={"d": d})
        elif how == "use-same-text":
            items = [("", "use", d)]
        elif how == "change_user":
            change_user(a, b"ann", d.encode())
        a.db = d
        catalog = is_catalog(d) and "db1" not in t
        items.append((t, "refused" if catalog else "app"))
        a.lazy()
        a.program(items, ("USE `{d}`; " if how == "use-same-text" else "") + t, vals={"d": d})
        return [how, len(a.expect)]


def change_user(a, user, db):
    a.c.send_command(b"\x11" + user + b"\0" + b"\0" + db + b"\0" + u(255, 2) + b"mysql_native_password\0")
    r = a.c.auth_result()
    check(r.kind == "ok", "change user", r)
    a.c.quiet()


CASES.append(Case("default-db", default_db, weight=6))


def ctes(P):
    """a common table expression hides the tables of its name only, only where it's visible"""
    like = P.choice("like", ["x", "tables"])
    x = P.str("x", len(like), NAME, default=like)
    t = P.str("t", P.choice("tl", [len(like), 3]), NAME, default=like if False else None)
    form, vis = P.choice("form", [
        ("WITH `{x}` AS (SELECT schema_name FROM information_schema.schemata) SELECT * FROM `{t}`", True),
        ("SELECT * FROM (WITH `{x}` AS (SELECT schema_name FROM information_schema.schemata) SELECT * FROM `{t}`) AS y", True),
        ("WITH `{x}` AS (SELECT schema_name FROM information_schema.schemata), y AS (SELECT * FROM `{t}`) SELECT * FROM y", True),
        ("WITH y AS (SELECT * FROM `{t}`), `{x}` AS (SELECT schema_name FROM information_schema.schemata) SELECT * FROM y", False),
        ("WITH `{x}` AS (SELECT schema_name FROM information_schema.schemata) SELECT * FROM db1.`{t}`", False),
        ("WITH `{x}` AS (SELECT schema_name FROM information_schema.schemata) SELECT * FROM (SELECT * FROM `{t}`) AS y", True),
        ("WITH `{x}` AS (SELECT schema_name FROM `{t}`) SELECT * FROM information_schema.schemata", False),
        ("SELECT * FROM `{t}` WHERE 1 IN (WITH `{x}` AS (SELECT schema_name FROM information_schema.schemata) SELECT * FROM `{x}`)", False),
    ])
    a = App(P, db="db1")
    with a.w:
        a.connect()
        # y is another common table expression of some of the texts
        P.assume(x.lower() != "y")
        P.assume(t.lower() != "y")
        hidden = vis and x.lower() == t.lower()
        a.lazy()
        a.program([("", "refused" if hidden else "app")], form, vals={"x": x, "t": t})
        return [form, len(a.expect)]


CASES.append(Case("ctes", ctes, weight=4))


def selections(P):
    """the database of the application after any history of selections"""
    first = P.choice("handshake", [None, "d"])
    d = [P.str("d%d" % i, 2, NAME) for i in range(4)]
    a = App(P, db=d[0] if first else None)
    with a.w:
        a.connect()
        log = []
        for i in range(1, 4):
            how = P.choice("how%d" % i, ["init_db", "use", "use-app", "app-use-app", "change_user", "other-app", "reset"], (i + 1) % 6)
            log.append(how)
            if how == "init_db":
                check(a.c.init_db(d[i].encode()).kind == "ok", "init db")
                a.db = d[i]
            elif how == "use":
                a.program([("", "use", d[i])], "USE `{d}`", vals={"d": d[i]})
            elif how == "use-app":
                a.program([("", "use", d[i]), ("", "app")], "USE `{d}`; SELECT a FROM t", vals={"d": d[i]})
            elif how == "app-use-app":
                a.program([("", "app"), ("", "use", d[i]), ("", "app")], "DELETE FROM t; USE `{d}`; SELECT a FROM t", vals={"d": d[i]})
            elif how == "change_user":
                change_user(a, b"ann", d[i].encode())
                a.db = d[i]
            elif how == "reset":
                a.c.send_command(b"\x1f")
                check(a.c.read_simple().kind == "ok", "reset connection")
            elif how == "other-app":
                # nothing but USE selects a database
                a.program([("", "app"), ("SHOW TABLES FROM db1", None), ("", "app")], "CREATE DATABASE `{d}`; SHOW TABLES FROM db1; SELECT a FROM `{d}`.t",
                          vals={"d": d[i]})
            a.program([("SELECT a FROM t", "app")], prepared=i == 2)
        return log


CASES.append(Case("selections", selections, weight=5))


def long_names(P):
    """the same with names of any length"""
    d = P.strblob("d", 0, 64, 5)
    how = P.choice("how", ["handshake", "init_db", "use", "change_user"])
    a = App(P, db=d if how == "handshake" else "db2")
    with a.w:
        if how in ("use", "init_db"):
            P.assume(len(d) > 0)
        a.connect()
        if how == "init_db":
            check(a.c.init_db(d.encode()).kind == "ok", "init db")
        elif how == "use":
            a.program([("", "use", d)], "USE `{d}`", vals={"d": d})
        elif how == "change_user":
            change_user(a, b"ann", d.encode())
        a.db = d if len(d) > 0 else None
        a.program([("SELECT a FROM t", "app")])
        return [how, d]


CASES.append(Case("long-names", long_names, weight=2))


# ---------------------------------------------------------------------------------------------- failures

def failing(P):
    """after a statement that fails nothing runs twice, and the next text is served as usual"""
    items = [P.choice("s%d" % i, _PICK, (i + 2) * 2) for i in range(2)]
    bad = P.choice("bad", ["SELECT boom FROM t", "SET nosuch = 1", "SELECT a FROM FROM", "KILL 'x'"])
    at = P.small("at", 0, 2, 1)
    texts = [x[0] for x in items]
    texts.insert(at, bad)

    def handler(s, e, sql, attrs):
        if "boom" in e.sql():
            raise MysqlError("boom")
        return a.handler(s, e, sql, attrs)
    a = App(P, db="db1", handler=handler)
    with a.w:
        a.connect()
        r = a.send("; ".join(texts))
        check(r.kind == "err", "no error", r)
        before = len([1 for x in items[:at] if x[1] == "app"]) + ("boom" in bad)
        n = len(a.hub.calls)
        parses = bad != "SELECT a FROM FROM"
        if parses:
            check(n == before, "statements before the one that fails are handled exactly once, those after it aren't", [n, before])
        else:
            check(n == 0, "part of a text that can't be parsed was run", n)
        for x in items[:at] if parses else []:
            if x[1] == "use":
                a.db = x[2]
        a.hub.calls.clear()
        a.program([("SELECT a FROM t", "app")])
        return [texts]


CASES.append(Case("failing", failing, weight=3))


def static_rows(P):
    """FROM-less selects: the only row, unless it's filtered or skipped"""
    text, n = P.choice("t", [("SELECT 1 LIMIT 0", 0), ("SELECT 1 LIMIT 1 OFFSET 1", 0), ("SELECT 1 LIMIT 1, 5", 0), ("SELECT 1 WHERE 1 = 2", 0), ("SELECT 1 WHERE FALSE", 0),
                             ("SELECT 1 LIMIT 5", 1), ("SELECT 1 LIMIT 3 OFFSET 0", 1), ("SELECT 1 LIMIT 0, 2", 1), ("SELECT 1 WHERE 2 > 1 LIMIT 1", 1),
                             ("SELECT 1 ORDER BY 1 LIMIT 7 OFFSET 2", 0)])
    prepared = P.flag("prepared")
    before = P.choice("before", ["", "SELECT a FROM t; ", "SET autocommit = 1; "])
    a = App(P, db="db1")
    with a.w:
        a.connect()
        r = a.send(before + text, prepared)
        check(len(a.hub.calls) == (1 if " t" in before else 0), "calls of the application", a.hub.calls)
        check(r.kind == "rs" and len(r.rows) == n, "rows", [text, r.msg, r.rows])
        return [text]


CASES.append(Case("static-rows", static_rows, weight=1))


def expressions(P):
    """each call of the application carries the statement it's for"""
    xs = [P.choice("s%d" % i, ["SELECT c%d FROM t", "SELECT 1", "SET autocommit = 1", "INSERT INTO t VALUES (c%d)", "USE db1", "SELECT c%d FROM t"], i)
          for i in range(P.small("n", 1, 4, 3))]
    texts = [x % (i,) if "%d" in x else x for i, x in enumerate(xs)]
    a = App(P, db="db1")
    with a.w:
        a.connect()
        r = a.send("; ".join(texts))
        check(r.kind != "err", "error", r)
        want = [i for i, x in enumerate(xs) if "%d" in x]
        got = [e.sql() for e in a.hub.exprs]
        check(len(got) == len(want), "number of statements", [got, want])
        for g, i in zip(got, want):
            check("c%d" % i in g, "statements out of order", [got, want])
        return texts


CASES.append(Case("expressions", expressions, weight=4))


def longer(P):
    """longer programs"""
    items = [P.choice("s%d" % i, _PICK + [LIB[18], LIB[27], LIB[50], ("UPDATE t SET a = 1", "app")], i) for i in range(5)]
    a = App(P, db="db1")
    with a.w:
        a.connect()
        a.program(items)
        return [x[0] for x in items]


CASES.append(Case("longer", longer, weight=20, tier="thorough", max_paths=60000))


def all_pairs(part, others):
    """every pair of a statement and another, in either order"""
    def fn(P):
        alls = _LIB + _APP
        x = P.choice("a", alls[part::8])
        y = P.choice("b", others or alls)
        both = [x, y] if not others or P.flag("first", True) else [y, x]
        a = App(P, db="db1")
        with a.w:
            a.connect()
            a.program(both)
            return [b[0] for b in both]
    return fn


for _k in range(8):
    CASES.append(Case("pairs-%d" % _k, all_pairs(_k, _PICK), weight=14, max_paths=5000))
    CASES.append(Case("all-pairs-%d" % _k, all_pairs(_k, None), weight=14, tier="thorough", max_paths=5000))

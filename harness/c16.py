"""C16 catalog answers mirror the declared schema"""
from harness.case import Case
from harness.world import World, check, fail
from harness.app import Hub, Users
from harness.proto import *
from harness.symsql import Sql
from mysql_mimic.constants import INFO_SCHEMA
from mysql_mimic.schema import Column, InfoSchema, info_schema_tables
from mysql_mimic.variables import GlobalVariables, SYSTEM_VARIABLES, SessionVariables

CASES = []
META = {
    "quick_s": 110, "thorough_s": 500,
    "bounds": "schema mappings of depth 2, 3 and 4 in 22 shapes (up to 3 databases, 3 tables of a database, 4 columns of a table; empty ones "
              "included) whose names are arbitrary strings of 1 to 3 identifier characters (equal names within different parents included), "
              "of any characters of the BMP, reserved words, and up to 300 characters long; 60 catalog statements, COM_FIELD_LIST with 14 "
              "wildcards, 5 settings of the current database by 4 ways; LIKE: every pattern of up to 3 (thorough 4) characters over "
              "{a, b, %, _} and 14 longer ones against any name of 0..4 characters, and any pattern of up to 4 characters against any name "
              "of up to 3 for SHOW VARIABLES",
    "outside": "matching of letters that differ in case only; patterns that end with an escape character; databases of the same name in several "
               "catalogs; applications that declare information_schema or mysql; SHOW ... WHERE; the values of ORDINAL_POSITION (only the order "
               "they define); columns of COM_FIELD_LIST packets other than the name, the table and the default",
    "assumptions": ["how sqlglot parses a text doesn't depend on the contents of a literal",
                    "the names of statements are fixed (sqlglot generates code from them); the declared names are arbitrary"],
}

# all of them sort before the built-in databases
NARROW = ((0x24, 0x24), (0x30, 0x39), (0x5f, 0x5f), (0x61, 0x68))
LOW = ((0x24, 0x24), (0x30, 0x39), (0x5f, 0x5f), (0x61, 0x7a))
IDENT = LOW + ((0x41, 0x5a),)
TYPE = ((0x41, 0x5a), (0x28, 0x29), (0x20, 0x20))


class Server:
    def __init__(self, P, schema, variables=None):
        self.sql = Sql(P)
        self.hub = Hub(None)
        self.hub.schema = schema
        self.variables = variables
        self.w = World(session_factory=self.factory, identity_provider=Users())

    def factory(self, *a, **k):
        if self.variables is not None:
            k["variables"] = SessionVariables(GlobalVariables(self.variables))
        s = self.hub.factory(*a, **k)
        s.dialect = self.sql.dialect
        return s

    def connect(self, db=None):
        self.c = Client(self.w.open())
        r = self.c.login(b"joe", caps=BASE | DEPRECATE_EOF | QUERY_ATTRS | (CONNECT_WITH_DB if db is not None else 0), db=db)
        check(r.kind == "ok", "login", r)
        return self.c

    def rows(self, template, **vals):
        text = self.sql.make(template, **vals) if vals else template
        r = self.c.query(text.encode())
        check(r.kind == "rs", "a catalog statement fails", [template, r.msg])
        return r


def cell(x):
    return None if x is None else x if isinstance(x, bytes) else str(x).encode()


def same(r, want, ordered, what):
    """the rows are those expected, each once"""
    got = [list(x) for x in r.rows]
    want = [[cell(x) for x in w] for w in want]
    check(len(got) == len(want), what + ": number of rows", [got, want])
    if ordered:
        for g, w in zip(got, want):
            check(row_eq(g, w), what, [g, w])
    else:
        left = list(got)
        for w in want:
            for i, g in enumerate(left):
                if row_eq(g, w):
                    del left[i]
                    break
            else:
                fail(what + ": missing", [w, got])


def row_eq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
        if x is not None and not x == y:
            return False
    return True


class Decl:
    """what is declared: [(catalog, database, [(table, [(column, type)])])]"""

    def __init__(self, dbs):
        self.dbs = list(dbs)
        self.all = self.dbs + [("def", db, [(t, list(cols.items())) for t, cols in ts.items()]) for db, ts in INFO_SCHEMA.items()]

    def names(self):
        return [d for _, d, _ in self.all]

    def tables(self, db=None):
        return [(d, t) for _, d, ts in self.all for t, _ in ts if db is None or d == db]

    def columns(self, db=None, table=None):
        """(database, table, position, column, type)"""
        return [(d, t, i, c, ty) for _, d, ts in self.all for t, cols in ts if (table is None or t == table) and (db is None or d == db)
                for i, (c, ty) in enumerate(cols)]


def distinct(P, names):
    for i, a in enumerate(names):
        for b in names[:i]:
            P.assume(a != b)


# numbers of columns of the tables of the databases (of the catalogs)
SHAPES2 = [[1], [2], [2, 1], [0, 1], [1, 3], []]
SHAPES3 = [[[1]], [[2, 1]], [[1], [1]], [[2], [1, 1]], [[], [1]], [[1], []], [[0], [2]], [[3]], [[1], [1], [1]], [[0, 1], [1]], []]
SHAPES4 = [[[[1]]], [[[1]], [[2]]], [[[1], [1]], [[1]]], [[[], [1]], [[1]]], [[], [[1]]]]


def build(P, depth, shape, n=2, ranges=NARROW, types=False):
    """a mapping with arbitrary names, and what it declares"""
    count = {"d": 0, "b": 0, "c": 0}

    def name(letter, i):
        """i: default number within the parent"""
        k = count[letter]
        count[letter] += 1
        default = letter + str(i) + "x" * (n - 2) if n > 1 else {"d": "def", "b": "bah", "c": "cgf"}[letter][i]
        return P.str("%s%d" % (letter, k), n, ranges, default=default)

    def table(ncols):
        cols = []
        for i in range(ncols):
            c = name("c", i)
            cols.append((c, P.str("ty%d" % count["c"], 3, TYPE, default="INT") if types else ["INT", "TEXT", "VARCHAR(20)", "decimal(10,2)"][i % 4]))
        distinct(P, [c for c, _ in cols])
        return cols

    def database(tables):
        ts = []
        for i, k in enumerate(tables):
            ts.append((name("b", i), table(k)))
        distinct(P, [t for t, _ in ts])
        return ts

    def mapping(ts):
        return {t: dict(cols) for t, cols in ts}

    if depth == 2:
        ts = database(shape)
        dbs = [("def", "", ts)] if ts else []
        m = mapping(ts)
    else:
        dbs, m = [], {}
        for ci, cat in enumerate([shape] if depth == 3 else shape):
            cname = "def" if depth == 3 else P.str("cat%d" % ci, 2, ranges, default="k%d" % ci) if ci else "def"
            inner = {}
            new = [("def" if depth == 3 else cname, name("d", count["d"]), database(ts)) for ts in cat]
            distinct(P, [d for _, d, _ in new])
            for _, d, ts in new:
                inner[d] = mapping(ts)
            dbs += new
            if depth == 3:
                m = inner
            else:
                m[cname] = inner
        if depth == 4:
            distinct(P, ["def"] + [c for c, _, _ in dbs if c != "def"][:1])
        distinct(P, [d for _, d, _ in dbs])
    return m, Decl(dbs)


# ---------------------------------------------------------------------------------------------- statements

def col_row(c, ty, full=False):
    return [c, ty, "YES", None, None, None] + ([None] * 0)


def st_databases(D, r):
    same(r, [[d] for d in D.names()], False, "SHOW DATABASES")


def st_tables(db, full=False):
    def f(D, r):
        ts = D.tables(db)
        same(r, [[t] + (["SYSTEM TABLE" if db in INFO_SCHEMA else "BASE TABLE"] if full else []) for _, t in ts], False, "SHOW TABLES")
    return f


def st_columns(t, db, like=None):
    def f(D, r):
        rows = [list(x[:2]) for x in r.rows]
        r.rows = rows
        same(r, [[c, ty] for _, _, _, c, ty in D.columns(db, t) if like is None or like(c)], True, "SHOW COLUMNS")
    return f


def st_q(fn, ordered=False):
    def f(D, r):
        same(r, fn(D), ordered, "INFORMATION_SCHEMA")
    return f


def sort(rows):
    return sorted(rows)


STATEMENTS = [
    ("SHOW DATABASES", st_databases), ("show schemas", st_databases),
    ("SHOW TABLES FROM d0", st_tables("d0")), ("SHOW FULL TABLES FROM `d1`", st_tables("d1", True)), ("SHOW TABLES FROM d0 LIKE '%'", st_tables("d0")),
    ("SHOW TABLES FROM nosuch", st_tables("nosuch")), ("SHOW TABLES FROM mysql", st_tables("mysql")),
    ("SHOW TABLES FROM information_schema", st_tables("information_schema")),
    ("SHOW COLUMNS FROM b0 FROM d0", st_columns("b0", "d0")), ("SHOW COLUMNS FROM d0.b0", st_columns("b0", "d0")),
    ("SHOW COLUMNS FROM `b1` FROM `d1`", st_columns("b1", "d1")), ("SHOW FULL COLUMNS FROM b0 FROM d1", st_columns("b0", "d1")),
    ("DESCRIBE d0.b0", st_columns("b0", "d0")), ("DESC `d1`.`b0`", st_columns("b0", "d1")), ("SHOW COLUMNS FROM nosuch FROM d0", st_columns("nosuch", "d0")),
    ("DESCRIBE information_schema.schemata", st_columns("schemata", "information_schema")),
    ("SHOW COLUMNS FROM b0 FROM d0 LIKE 'c0'", st_columns("b0", "d0", lambda c: c == "c0")),
    ("SELECT schema_name FROM information_schema.schemata", st_q(lambda D: [[d] for d in D.names()])),
    ("SELECT CATALOG_NAME, SCHEMA_NAME FROM INFORMATION_SCHEMA.SCHEMATA", st_q(lambda D: [[c, d] for c, d, _ in D.all])),
    ("SELECT schema_name FROM information_schema.schemata WHERE schema_name = 'd1'", st_q(lambda D: [[d] for d in D.names() if d == "d1"])),
    ("SELECT s.schema_name FROM information_schema.schemata AS s WHERE s.schema_name IN ('d0', 'd1') ORDER BY s.schema_name",
     st_q(lambda D: [[d] for d in ("d0", "d1") if len([x for x in D.names() if x == d])], True)),
    ("SELECT schema_name FROM information_schema.schemata WHERE schema_name <> 'd0'", st_q(lambda D: [[d] for d in D.names() if d != "d0"])),
    ("SELECT COUNT(*) FROM information_schema.schemata", st_q(lambda D: [[len(D.names())]])),
    ("SELECT table_catalog, table_schema, table_name FROM information_schema.tables",
     st_q(lambda D: [[c, d, t] for c, d, ts in D.all for t, _ in ts])),
    ("SELECT table_schema, table_name FROM information_schema.tables WHERE table_type = 'BASE TABLE'",
     st_q(lambda D: [[d, t] for d, t in D.tables() if d not in ("information_schema", "mysql")])),
    ("SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = 'd0'", st_q(lambda D: [[t] for _, t in D.tables("d0")])),
    ("SELECT table_schema FROM information_schema.tables WHERE table_name = 'b0'", st_q(lambda D: [[d] for d, t in D.tables() if t == "b0"])),
    ("SELECT table_schema, table_name, column_name, data_type FROM information_schema.columns WHERE table_schema NOT IN ('information_schema', 'mysql')",
     st_q(lambda D: [[d, t, c, ty] for d, t, _, c, ty in D.columns() if d not in ("information_schema", "mysql")])),
    ("SELECT column_name, column_type FROM information_schema.columns WHERE table_schema = 'd0' AND table_name = 'b0' ORDER BY ordinal_position",
     st_q(lambda D: [[c, ty] for _, _, _, c, ty in D.columns("d0", "b0")], True)),
    ("SELECT column_name FROM information_schema.columns WHERE table_schema = 'd1' AND table_name = 'b0' ORDER BY ordinal_position DESC",
     st_q(lambda D: [[c] for _, _, _, c, _ in D.columns("d1", "b0")][::-1], True)),
    ("SELECT table_schema, table_name FROM information_schema.columns WHERE column_name = 'c0'",
     st_q(lambda D: [[d, t] for d, t, _, c, _ in D.columns() if c == "c0"])),
    ("SELECT COUNT(*) FROM information_schema.columns WHERE table_schema = 'd0'", st_q(lambda D: [[len(D.columns("d0"))]])),
    ("SELECT COUNT(*) FROM information_schema.columns", st_q(lambda D: [[len(D.columns())]])),
    ("SELECT t.table_schema, c.column_name FROM information_schema.tables AS t JOIN information_schema.columns AS c ON t.table_schema = c.table_schema "
     "AND t.table_name = c.table_name WHERE t.table_name = 'b0'",
     st_q(lambda D: [[d, c] for d, t, _, c, _ in D.columns() if t == "b0"])),
    ("SELECT table_name FROM (SELECT table_name FROM information_schema.tables WHERE table_schema = 'd0') AS x", st_q(lambda D: [[t] for _, t in D.tables("d0")])),
    ("SELECT schema_name FROM information_schema.schemata WHERE schema_name IN (SELECT table_schema FROM information_schema.tables WHERE table_name = 'b0')",
     st_q(lambda D: [[d] for d in D.names() if len([1 for x, t in D.tables() if x == d and t == "b0"])])),
]
DEPTH2 = list(range(len(STATEMENTS), len(STATEMENTS) + 8))
STATEMENTS += [
    ("SHOW COLUMNS FROM b0", st_columns("b0", "")), ("DESCRIBE b0", st_columns("b0", "")), ("DESC `b1`", st_columns("b1", "")),
    ("SHOW FULL COLUMNS FROM b1 LIKE '%'", st_columns("b1", "")),
    ("SELECT table_name FROM information_schema.tables WHERE table_schema = ''", st_q(lambda D: [[t] for _, t in D.tables("")])),
    ("SELECT table_name FROM information_schema.tables WHERE table_schema NOT IN ('mysql', 'information_schema')", st_q(lambda D: [[t] for _, t in D.tables("")])),
    ("SELECT column_name, data_type FROM information_schema.columns WHERE table_name = 'b0' ORDER BY ordinal_position",
     st_q(lambda D: [[c, ty] for _, _, _, c, ty in D.columns(None, "b0")], True)),
    ("SELECT table_name, column_name FROM information_schema.columns WHERE table_schema = ''", st_q(lambda D: [[t, c] for _, t, _, c, _ in D.columns("")])),
]
LIGHT = [0, 2, 3, 8, 11, 12, 17, 20, 23, 27, 28, 33]
SCHEMATA = [i for i, (q, _) in enumerate(STATEMENTS[:DEPTH2[0]]) if "schemata" in q.lower() or "DATABASES" in q or "schemas" in q]
TABLES = [i for i, (q, _) in enumerate(STATEMENTS[:DEPTH2[0]]) if "tables" in q.lower() and i not in SCHEMATA]
COLUMNS = [i for i, (q, _) in enumerate(STATEMENTS[:DEPTH2[0]]) if i not in SCHEMATA and i not in TABLES]


def catalog(depth, shapes, which, n=2, ranges=NARROW, types=False):
    def fn(P):
        shape = P.choice("shape", shapes)
        i = P.choice("q", which)
        m, D = build(P, depth, shape, n, ranges, types)
        s = Server(P, m)
        with s.w:
            s.connect()
            q, f = STATEMENTS[i]
            f(D, s.rows(q))
            return [q]
    return fn


def chunks(l, k):
    return [l[i::k] for i in range(k)]


for _k, _c in enumerate(chunks(SHAPES3, 3)):
    CASES.append(Case("schemata-%d" % _k, catalog(3, _c, SCHEMATA), weight=5))
    CASES.append(Case("tables-%d" % _k, catalog(3, _c, TABLES), weight=5))
    CASES.append(Case("columns-%d" % _k, catalog(3, _c, COLUMNS), weight=6))
CASES.append(Case("depth2", catalog(2, SHAPES2, [i for i, (q, _) in enumerate(STATEMENTS) if "d0" not in q and "d1" not in q and i < DEPTH2[0] and i > 1] + DEPTH2), weight=4))
CASES.append(Case("depth4", catalog(4, SHAPES4, LIGHT), weight=8))
CASES.append(Case("types", catalog(3, [[[2]]], COLUMNS, types=True), weight=3))
CASES.append(Case("unicode", catalog(3, [[[1]], [[], [1]]], LIGHT, n=3, ranges=((0x20, 0x7e), (0xa0, 0xd7ff), (0xe000, 0xfffd))), weight=3))
# names that differ in case only are different names
PLAIN = [i for i, (q, _) in enumerate(STATEMENTS[:DEPTH2[0]]) if not any(x in q for x in ("d0", "d1", "b0", "b1", "c0", "nosuch"))]
CASES.append(Case("case", catalog(3, [[[1, 1]], [[2]], [[1], [1]]], PLAIN, ranges=((0x30, 0x31), (0x42, 0x44), (0x62, 0x64))), weight=4))


def case_db(P):
    """the same within one database"""
    t = [P.str("t%d" % i, 2, ((0x42, 0x44), (0x62, 0x64)), default=["bc", "Bc"][i]) for i in range(2)]
    c = [P.str("c%d" % i, 2, ((0x42, 0x44), (0x62, 0x64)), default=["bc", "Bc"][i]) for i in range(2)]
    distinct(P, t)
    distinct(P, c)
    q = P.choice("q", ["SHOW TABLES FROM dd", "SHOW FULL TABLES FROM dd", "field", "SHOW COLUMNS FROM tt FROM dd", "DESCRIBE dd.tt", "SHOW TABLES", "DESC tt",
                       "SELECT table_name, column_name FROM information_schema.columns WHERE table_schema = 'dd'"])
    m = {"dd": {t[0]: {c[0]: "INT"}, t[1]: {"x": "TEXT"}, "tt": {c[0]: "INT", c[1]: "TEXT"}}}
    D = Decl([("def", "dd", [(a, list(b.items())) for a, b in m["dd"].items()])])
    s = Server(P, m)
    with s.w:
        s.connect(b"dd")
        if q == "field":
            got = s.c.field_list(b"tt")
            check([x.name for x in got.cols] == [x.encode() for x in c], "COM_FIELD_LIST", got.cols)
            return [q]
        r = s.rows(q)
        if "TABLES" in q:
            st_tables("dd", "FULL" in q)(D, r)
        elif "tt" in q:
            st_columns("tt", "dd")(D, r)
        else:
            same(r, [[a, b] for d, a, _, b, _ in D.columns("dd")], False, q)
        return [q]


CASES.append(Case("case-db", case_db, weight=2))
CASES.append(Case("one", catalog(3, [[[1], [1]], [[1, 1]], [[2]]], LIGHT, n=1), weight=3))
for _k, _c in enumerate(chunks(list(range(DEPTH2[0])), 6)):
    CASES.append(Case("all-%d" % _k, catalog(3, SHAPES3, _c, ranges=IDENT, types=True), weight=5, tier="thorough", max_paths=20000))
    CASES.append(Case("all4-%d" % _k, catalog(4, SHAPES4, _c, ranges=IDENT), weight=5, tier="thorough", max_paths=20000))


# ---------------------------------------------------------------------------------------------- current database

def select_db(s, how, db):
    if how == "handshake":
        s.connect(db.encode())
        return
    if s.c is None:
        s.connect()
    if how == "use":
        r = s.c.query(("USE `%s`" % db).encode())
    elif how == "init":
        r = s.c.init_db(db.encode())
    else:
        s.c.send_command(s.c.c_change_user(b"joe", b"", db.encode()))
        r = s.c.auth_result()
    check(r.kind == "ok", "selection of a database", [how, r.msg])


def current(P, dbs, ways):
    """statements that rely on the current database"""
    db = P.choice("db", dbs)
    how = P.choice("how", ways)
    q = P.choice("q", ["SHOW TABLES", "SHOW FULL TABLES", "SHOW TABLES LIKE 'b%'", "SHOW COLUMNS FROM b0", "DESCRIBE b0", "DESC `b1`", "SHOW COLUMNS FROM b0 FROM d1",
                       "DESCRIBE d1.b0", "SHOW TABLES FROM d1", "SHOW COLUMNS FROM d1.b0", "SHOW COLUMNS FROM b0 FROM d0", "DESC `d0`.b1", "SHOW FULL TABLES FROM d0", "SELECT table_name FROM information_schema.tables WHERE table_schema = DATABASE()", "field-list"])
    m, D = build(P, 3, [[2, 1], [1]])
    s = Server(P, m)
    with s.w:
        s.c = None
        select_db(s, how, db)
        if q == "field-list":
            got = s.c.field_list(b"b0")
            check([c.name for c in got.cols] == [c.encode() for _, _, _, c, _ in D.columns(db, "b0")], "COM_FIELD_LIST", got.cols)
            return [db, how, q]
        r = s.rows(q)
        ex = "d1" if "d1" in q else "d0" if "d0" in q else db
        if "FROM d" in q and "b" not in q:
            st_tables(ex, "FULL" in q)(D, r)
        elif ex != db:
            st_columns("b0" if "b0" in q else "b1", ex)(D, r)
        elif "b0" in q or "b1" in q:
            st_columns("b0" if "b0" in q else "b1", db)(D, r)
        elif "LIKE" in q:
            same(r, [[t] for _, t in D.tables(db) if t.startswith("b")], False, q)
        else:
            st_tables(db, "FULL" in q)(D, r)
        return [db, how, q]


CASES.append(Case("current-0", lambda P: current(P, ["d0", "d1", "nosuch"], ["handshake", "use"]), weight=5))
CASES.append(Case("current-1", lambda P: current(P, ["d0"], ["init", "change-user"]), weight=3))
CASES.append(Case("current-more", lambda P: current(P, ["d0", "d1", "nosuch", "information_schema", "mysql"], ["handshake", "use", "init", "change-user"]),
                  weight=6, tier="thorough", max_paths=20000))


def nodb(P):
    """without current database: a table name that exists in several databases"""
    q = P.choice("q", ["SHOW COLUMNS FROM b0", "DESCRIBE b0", "field-list", "SHOW TABLES"])
    m, D = build(P, 3, [[2], [1]])
    s = Server(P, m)
    with s.w:
        s.connect()
        if q == "field-list":
            got = s.c.field_list(b"b0")
            if got.kind == "err":
                return [q]
            got = [c.name for c in got.cols]
        else:
            r = s.c.query(q.encode())
            if r.kind == "err":
                return [q]
            check(q != "SHOW TABLES", "tables of no database", r.rows)
            got = [x[0] for x in r.rows]
        hits = [d for d, t in D.tables() if t == "b0"]
        if len(hits) > 1:
            fail("[NODB] the columns of several tables of this name are listed as those of one", [q, got])
        want = [c.encode() for _, _, _, c, _ in D.columns(None, "b0")]
        check(got == want, "columns of the only table of this name", [got, want])
        return [q]


CASES.append(Case("nodb", nodb, weight=2))


def in_db(P):
    """SHOW ... IN"""
    q = P.choice("q", ["SHOW TABLES IN d0", "SHOW FULL TABLES IN d0", "SHOW COLUMNS IN b0 IN d0", "SHOW COLUMNS FROM b0 IN d0", "SHOW COLUMNS IN b0 FROM d0"])
    s = Server(P, {"d0": {"b0": {"c0": "INT"}}})
    with s.w:
        s.connect()
        r = s.c.query(q.encode())
        if r.kind == "err":
            fail("[SHOWIN] SHOW ... IN is refused", [q, r.msg])
        check(r.rows[0][0] == (b"b0" if "TABLES" in q else b"c0") and len(r.rows) == 1, "rows", r.rows)
        return [q]


CASES.append(Case("in", in_db, weight=1))


# ---------------------------------------------------------------------------------------------- LIKE

def like_ref(v, p):
    """does the whole value match?  v and p are lists of characters; without forks"""
    memo = {}

    def m(i, j):
        k = (i, j)
        if k in memo:
            return memo[k]
        if j == len(p):
            r = i == len(v)
        else:
            pct = p[j] == "%"
            a = False
            if pct is not False:
                a = m(i, j + 1)
                if i < len(v):
                    a = or_(a, m(i + 1, j))
                a = and_(pct, a)
            b = False
            if pct is not True and i < len(v):
                esc = p[j] == "\\"
                if esc is not False and j + 1 < len(p):
                    b = and_(esc, and_(v[i] == p[j + 1], m(i + 1, j + 2)))
                if esc is not True:
                    b = or_(b, and_(not_(esc), and_(or_(p[j] == "_", v[i] == p[j]), m(i + 1, j + 1))))
                b = and_(not_(pct), b)
            r = or_(a, b)
        memo[k] = r
        return r
    return m(0, 0)


def and_(a, b):
    if a is False or b is False:
        return False
    return b if a is True else a if b is True else a & b


def or_(a, b):
    if a is True or b is True:
        return True
    return b if a is False else a if b is False else a | b


def not_(a):
    if a is True or a is False:
        return not a
    return a == False  # noqa: E712


def patterns(n, alphabet="ab%_"):
    out = [""]
    todo = [""]
    for _ in range(n):
        todo = [x + c for x in todo for c in alphabet]
        out += todo
    return out


LONG = ["%a%b%", "a%b%c", "_%_", "%__%", "a_c%", "%%%", "\\%", "\\_%", "a\\_b", "%\\%", "a.b", "a*", "[ab]", "(a|b)", "^a$", "a+", ".", ".*", "d0", "d%0", "%_%_%", "ab%ba"]


def likes(ps, form, sizes):
    """LIKE filters of catalog statements with arbitrary names"""
    def fn(P):
        p = P.choice("p", ps)
        n = P.choice("n", sizes)
        name = P.str("name", n, ((0x21, 0x26), (0x28, 0x5b), (0x5d, 0x7e)) if len(p) > 3 else ((0x25, 0x25), (0x5f, 0x5f), (0x61, 0x63)), default="a" * n)
        what = P.choice("form", form)
        s = Server(P, {name: {}, "zz": {"zz": {"zz": "INT"}}} if what == "d" else {"zz": {"zz": {"zz": "INT"}, name: {"zz": "INT"}}} if what == "t" else
                   {"zz": {"zz": {name: "INT", "zz": "INT"}}})
        P.assume(name != "zz")
        with s.w:
            s.connect()
            if what == "d":
                q, rest = "SHOW DATABASES LIKE '%s'" % p, ["zz", "mysql", "information_schema"]
            elif what == "t":
                q, rest = "SHOW TABLES FROM zz LIKE '%s'" % p, ["zz"]
            elif what == "c":
                q, rest = "SHOW COLUMNS FROM zz FROM zz LIKE '%s'" % p, ["zz"]
            elif what == "i":
                q, rest = "SELECT column_name FROM information_schema.columns WHERE table_schema = 'zz' AND column_name LIKE '%s'" % p, ["zz"]
            else:
                q, rest = "SELECT column_name FROM information_schema.columns WHERE table_schema = 'zz' AND NOT column_name LIKE '%s'" % p, ["zz"]
            r = s.rows(q)
            got = [x[0] for x in r.rows]
            neg = what == "n"
            want = [x.encode() for x in rest if bool(like_ref(list(x), list(p))) != neg]
            hit = False
            for g in got:
                if g == name.encode():
                    check(not hit, "listed twice", [q, got])
                    hit = True
                else:
                    check(g in want, "doesn't match", [q, g])
                    want.remove(g)
            check(not want, "matches, but isn't listed", [q, want])
            ref = like_ref(list(name), list(p))
            if hit == neg:
                check(not_(ref), "doesn't match the pattern", [q, name])
            else:
                check(ref, "matches the pattern, but isn't listed", [q, name])
            return [q, got]
    return fn


for _k, _c in enumerate(chunks(patterns(2) + ["%a%", "a%b", "_a_", "a_b", "ab%", "%ab", "a%_", "_%a", "%%_", "___", "aab", "a%a"], 4)):
    CASES.append(Case("like-%d" % _k, likes(_c, ["d"], [0, 1, 2, 3]), weight=4))
CASES.append(Case("like-forms", likes(["a%", "_b", "%b%", "ab", "", "%"], ["t", "c", "i", "n"], [1, 2]), weight=4))
for _k, _c in enumerate(chunks(LONG, 2)):
    CASES.append(Case("like-long-%d" % _k, likes(_c, ["d"], [2, 3, 4]), weight=4))
for _k, _c in enumerate(chunks(patterns(4)[21:], 8)):
    CASES.append(Case("like-more-%d" % _k, likes(_c, ["d"], [0, 1, 2, 3, 4]), weight=5, tier="thorough", max_paths=30000))
CASES.append(Case("like-all-forms", likes(patterns(2) + LONG, ["t", "c", "i", "n"], [1, 2, 3]), weight=5, tier="thorough", max_paths=30000))


def like_vars(np, nv, ranges=((0x21, 0x26), (0x28, 0x40), (0x5b, 0x5b), (0x5d, 0x7a), (0xe0, 0x3ff)), default="%", names=((0x77, 0x7a),)):
    """SHOW VARIABLES LIKE with any pattern and any names"""
    def fn(P):
        p = P.str("p", np, ranges, default=(default * 4)[:np])
        v = P.str("v", nv, names, default=("xy" * 4)[:nv])
        schema = {k: SYSTEM_VARIABLES[k] for k in NEEDED}
        schema[v] = (str, "x", True)
        s = Server(P, {}, schema)
        with s.w:
            s.connect()
            r = s.rows("SHOW VARIABLES LIKE '{p}'", p=p)
            got = [x[0] for x in r.rows]
            for name in list(schema):
                ref = like_ref(list(name), list(p))
                hit = [g for g in got if g == name.encode()]
                check(len(hit) <= 1, "listed twice", [p, name])
                check(ref if hit else not_(ref), "SHOW VARIABLES LIKE", [p, name, got])
            check(len(got) <= len(schema), "rows", got)
            return [p, v]
    return fn


NEEDED = ["character_set_client", "character_set_results", "version", "time_zone", "external_user", "autocommit"]
for _np in range(5):
    for _nv in (1, 2, 3):
        if (_np, _nv) in ((0, 2), (0, 3), (4, 1)):
            continue
        CASES.append(Case("vars-%d-%d" % (_np, _nv), like_vars(_np, _nv), weight=1 + _np * _nv / 4, tier="quick" if _np < 4 or _nv < 3 else "thorough"))
CASES.append(Case("vars-5-4", like_vars(5, 4), weight=5, tier="thorough", max_paths=20000))
CASES.append(Case("vars-wide", like_vars(2, 2, names=((0x21, 0x26), (0x28, 0x40), (0x5b, 0x5b), (0x5d, 0x7a), (0x3b1, 0x3c9))), weight=2))
CASES.append(Case("vars-wide-3", like_vars(3, 3, names=((0x21, 0x26), (0x28, 0x40), (0x5b, 0x5b), (0x5d, 0x7a), (0x3b1, 0x3c9))), weight=5, tier="thorough", max_paths=30000))
CASES.append(Case("vars-few", like_vars(4, 3, ((0x25, 0x25), (0x5f, 0x5f), (0x77, 0x79)), "_"), weight=3))


# ---------------------------------------------------------------------------------------------- COM_FIELD_LIST

WILD = [b"", b"%", b"c%", b"c0", b"_", b"__", b"%0", b"c_", b"x%", b"%%", b"C0", b"c\\_", b"c\\0", b"'", b"c'%"]


def field_list(P):
    """one decodable packet for each matching column"""
    shape = P.choice("shape", [[[1]], [[2, 1]], [[3], [1]], [[0, 1]]])
    wild = P.choice("wild", WILD)
    t = P.choice("table", ["b0", "b1"]) if wild in (b"", b"c%") else "b0"
    m, D = build(P, 3, shape)
    for _, _, _, c, _ in D.columns("d0", t):
        P.assume(c != "C0")
    s = Server(P, m)
    with s.w:
        s.connect(b"d0")
        r = s.c.field_list(t.encode(), wild)
        check(r.kind == "fields", "COM_FIELD_LIST fails", r.msg)
        want = []
        for _, _, _, c, _ in D.columns("d0", t):
            if wild == b"" or like_ref(list(c), list(wild.decode())):
                want.append(c)
        check(len(r.cols) == len(want), "number of columns", [r.cols, want])
        for g, c in zip(r.cols, want):
            check(g.name == c.encode() and g.org_name == c.encode() and g.table == t.encode(), "column definition", [g.name, c])
            check(g.default is None or g.default == b"", "default", g.default)
        check(s.c.ping().kind == "ok", "ping")
        return [wild]


CASES.append(Case("field-list", field_list, weight=5))

NAMES = ["select", "table", "order", "1", "1a", "a$b", "A", "a b", "a-b", "caf\u00e9", "\u65e5\u672c", "from", "like", "x'y", "x\"y", "x\\y", "x.y", "%", "_", "null",
         "Database", "x" * 64, "?", "--", "a;b", "/*x*/", "{}", "\u00df", "full"]


def odd_names(P):
    """names that need quoting"""
    t = P.choice("t", NAMES)
    d = P.choice("d", ["d0", "select"])
    s = Server(P, {d: {t: {"c0": "INT", "t": "TEXT"}, "other": {"z": "INT"}}, "d9": {t: {"y": "INT"}}})
    with s.w:
        s.connect(d.encode())
        r = s.c.field_list(t.encode())
        check(r.kind == "fields" and [c.name for c in r.cols] == [b"c0", b"t"], "COM_FIELD_LIST", [t, r.cols, r.msg])
        check(r.cols[0].table == t.encode(), "table", r.cols[0].table)
        bt, bd = "`" + t.replace("`", "``") + "`", "`" + d.replace("`", "``") + "`"
        for q in ("SHOW COLUMNS FROM %s" % bt, "DESCRIBE %s" % bt, "SHOW COLUMNS FROM %s FROM %s" % (bt, bd), "DESCRIBE %s.%s" % (bd, bt)):
            r = s.rows(q)
            check([x[0] for x in r.rows] == [b"c0", b"t"], "columns", [q, r.rows])
        r = s.rows("SHOW TABLES FROM %s" % bd)
        check(sorted(x[0] for x in r.rows) == sorted([t.encode(), b"other"]), "tables", r.rows)
        r = s.rows("SHOW DATABASES")
        check(sorted(x[0] for x in r.rows) == sorted([d.encode(), b"d9", b"mysql", b"information_schema"]), "databases", r.rows)
        return [t, d]


CASES.append(Case("odd-names", odd_names, weight=2))


def long_names(P):
    """definitions of columns with names of any length; declared defaults"""
    c = P.strblob("c", 1, 400, 5) if P.choice("which", ["name", "default"]) == "name" else "c"
    dflt = P.strblob("dflt", 0, 400, 5) if c == "c" else P.choice("d", [None, "", "0"])
    null = P.flag("null", True)
    cols = [Column(name=c, type="INT", table="t", schema="d", default=dflt, is_nullable=null), Column(name="z", type="TEXT", table="t", schema="d")]
    s = Server(P, InfoSchema(info_schema_tables(cols)))
    with s.w:
        s.connect(b"d")
        r = s.c.field_list(b"t")
        check(r.kind == "fields" and len(r.cols) == 2, "COM_FIELD_LIST", r.msg)
        check(r.cols[0].name == c.encode(), "name", r.cols[0].name)
        d = r.cols[0].default
        check(d == (b"" if dflt is None else dflt.encode()) or d is None and dflt is None, "default", [d, dflt])
        check(r.cols[1].name == b"z", "name of the next column", r.cols[1].name)
        r = s.rows("SHOW COLUMNS FROM t")
        check(len(r.rows) == 2, "columns", r.rows)
        x = r.rows[0]
        check(x[0] == c.encode() and x[1] == b"INT" and x[2] == (b"YES" if null else b"NO"), "column", x)
        check((x[4] is None) == (dflt is None), "default", x[4])
        check(dflt is None or x[4] == dflt.encode(), "default", x[4])
        r = s.rows("SELECT column_name, column_default FROM information_schema.columns WHERE table_schema = 'd' AND table_name = 't'")
        check(len(r.rows) == 2 and r.rows[0][0] == c.encode(), "columns", r.rows)
        return [null]


CASES.append(Case("long-names", long_names, weight=3))


def changing(P):
    """the schema is asked for each statement; sessions are independent"""
    a = P.str("a", 2, LOW, default="aa")
    b = P.str("b", 2, LOW, default="bb")
    s = Server(P, {"d0": {"b0": {a: "INT"}}})
    q = P.choice("q", ["SHOW COLUMNS FROM b0 FROM d0", "DESCRIBE d0.b0", "SELECT column_name FROM information_schema.columns WHERE table_schema = 'd0'"])
    with s.w:
        s.connect()
        check([x[0] for x in s.rows(q).rows] == [a.encode()], "first", a)
        s.hub.schema = {"d0": {"b0": {b: "INT"}}}
        check([x[0] for x in s.rows(q).rows] == [b.encode()], "after a change of the schema", b)
        o = s.c
        s.connect()
        s.hub.schema = {}
        check([x[0] for x in s.rows(q).rows] == [], "after the table is gone")
        s.c = o
        check([x[0] for x in s.rows("SHOW DATABASES").rows] in ([b"information_schema", b"mysql"], [b"mysql", b"information_schema"]), "databases")
        return [q]


CASES.append(Case("changing", changing, weight=1))

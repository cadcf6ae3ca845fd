"""Commands of the protocol as data: payload builder and the reader of the prescribed response."""
from harness.proto import *
from harness.world import check, fail


class Ctx:
    """what the client knows about its connection"""

    def __init__(self):
        self.stmts = {}          # statement id -> number of parameters
        self.cols = {}           # statement id -> columns of the open cursor
        self.last = None         # most recently prepared statement id


def read(c, kind, cols=None):
    """read exactly the response prescribed for the command; None for no-reply commands"""
    if kind == "none":
        return None
    if kind == "simple":
        return c.read_simple()
    if kind == "query":
        return c.read_query()
    if kind == "exec":
        return c.read_query(binary=True)
    if kind == "cursor":
        return c.read_query(binary=True, cursor=True)
    if kind == "prep":
        return c.read_prepare()
    if kind == "fields":
        return c.read_fields()
    if kind == "fetch":
        return c.read_fetch(cols)
    raise RuntimeError(kind)


def ask(c, payload, kind, cols=None):
    """one command in lockstep"""
    c.send_command(payload)
    r = read(c, kind, cols)
    c.quiet()
    return r


def rows_handler(values=((1, "a"), (None, "b"), (3, None))):
    """handler of a RawHub: behaviour named by the SQL text"""
    from mysql_mimic.errors import MysqlError, ErrorCode

    def handler(s, e, sql, attrs):
        from mysql_mimic.results import ResultColumn, ResultSet
        from mysql_mimic.types import ColumnType
        if sql[:4] == "SHOW":
            if "nosuch" in sql:
                raise MysqlError("no such table")
            return [("a", "int", "YES", "", None, None), ("b", "text", "YES", "", "x", None)], \
                ["Field", "Type", "Null", "Key", "Default", "Extra"]
        if "ok" in sql:
            return None
        if "empty" in sql:
            return [], ["a"]
        if "boom" in sql:
            raise MysqlError("boom", ErrorCode.PARSE_ERROR)
        if "bang" in sql:
            raise ZeroDivisionError("bang")
        if "late" in sql:
            async def g():
                yield values[0]
                raise RuntimeError("late")
            return ResultSet(rows=g(), columns=[ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)])
        if "unenc" in sql:
            return ResultSet(rows=[values[0], (1, "\ud800")], columns=[ResultColumn("a", ColumnType.LONG),
                                                                  ResultColumn("b", ColumnType.VARCHAR)])
        if "bare" in sql:
            return list(values), ["a", "b"]
        return ResultSet(rows=list(values), columns=[ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)])
    return handler

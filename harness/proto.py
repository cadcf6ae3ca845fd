"""A strict MySQL client, written from the protocol documentation, independent of mysql_mimic."""
import hashlib
import struct

from harness.base import Violation
from harness.world import check, fail

# capabilities
LONG_PASSWORD = 1
FOUND_ROWS = 2
CONNECT_WITH_DB = 8
ODBC = 64
IGNORE_SPACE = 256
PROTOCOL_41 = 512
INTERACTIVE = 1024
SSL = 2048
TRANSACTIONS = 8192
SECURE = 1 << 15
MULTI_STATEMENTS = 1 << 16
MULTI_RESULTS = 1 << 17
PLUGIN_AUTH = 1 << 19
CONNECT_ATTRS = 1 << 20
LENENC_AUTH = 1 << 21
SESSION_TRACK = 1 << 23
DEPRECATE_EOF = 1 << 24
OPTIONAL_METADATA = 1 << 25
ZSTD = 1 << 26
QUERY_ATTRS = 1 << 27

BASE = LONG_PASSWORD | PROTOCOL_41 | SECURE | PLUGIN_AUTH

CURSOR_EXISTS = 0x40
LAST_ROW_SENT = 0x80

# types
T_DECIMAL, T_TINY, T_SHORT, T_LONG, T_FLOAT, T_DOUBLE, T_NULL, T_TIMESTAMP, T_LONGLONG, T_INT24, T_DATE, T_TIME, \
    T_DATETIME, T_YEAR, T_NEWDATE, T_VARCHAR, T_BIT = range(17)
T_BOOL = 244
T_JSON = 245
T_NEWDECIMAL = 246
T_ENUM, T_SET, T_TINY_BLOB, T_MEDIUM_BLOB, T_LONG_BLOB, T_BLOB, T_VAR_STRING, T_STRING, T_GEOMETRY = range(247, 256)

QUIT, INIT_DB, QUERY, FIELD_LIST = 1, 2, 3, 4
DEBUG, PING, CHANGE_USER = 0x0D, 0x0E, 0x11
PREPARE, EXECUTE, LONG_DATA, CLOSE, RESET, FETCH, RESET_CONN = 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F


def lenenc(n):
    if n < 251:
        return bytes([n])
    if n < 65536:
        return b"\xfc" + n.to_bytes(2, "little")
    if n < 1 << 24:
        return b"\xfd" + n.to_bytes(3, "little")
    return b"\xfe" + n.to_bytes(8, "little")


def lenstr(b):
    return lenenc(len(b)) + b


def u(n, size):
    return n.to_bytes(size, "little")


def frame(payload, seq):
    """cut a payload into packets; returns (bytes, next seq)"""
    out = []
    while True:
        part = payload[:0xFFFFFF]
        n = len(part)
        out.append(n.to_bytes(3, "little") + bytes([seq % 256]) + part)
        seq += 1
        if n < 0xFFFFFF:
            return b"".join(out), seq % 256
        payload = payload[0xFFFFFF:]


class R:
    """strict reader"""

    def __init__(self, b, what="packet"):
        self.b = b
        self.i = 0
        self.n = len(b)
        self.what = what

    def left(self):
        return self.n - self.i

    def take(self, k):
        check(k <= self.n - self.i, f"{self.what}: field runs past the end of the packet")
        r = self.b[self.i:self.i + k]
        self.i = self.i + k
        return r

    def uint(self, k):
        return int.from_bytes(self.take(k), "little")

    def peek(self):
        check(self.n - self.i >= 1, f"{self.what}: truncated")
        return self.b[self.i]

    def lenenc(self):
        f = self.uint(1)
        if f < 251:
            return f
        if f == 0xFC:
            return self.uint(2)
        if f == 0xFD:
            return self.uint(3)
        if f == 0xFE:
            return self.uint(8)
        fail(f"{self.what}: invalid length prefix")

    def lenstr(self):
        return self.take(self.lenenc())

    def nulstr(self):
        k = self.b.find(b"\x00", self.i)
        check(k >= 0, f"{self.what}: unterminated string")
        r = self.b[self.i:k]
        self.i = k + 1
        return r

    def rest(self):
        r = self.b[self.i:]
        self.i = self.n
        return r

    def end(self):
        check(self.i == self.n, f"{self.what}: trailing bytes in packet")


class Col:
    pass


class Resp:
    def __init__(self, kind):
        self.kind = kind
        self.code = None
        self.msg = None
        self.cols = []
        self.rows = []
        self.status = 0
        self.final = None        # terminator Resp
        self.meta_status = None
        self.packets = 0

    def __repr__(self):
        return f"<{self.kind} code={self.code} cols={len(self.cols)} rows={len(self.rows)}>"


class Incomplete(Violation):
    """the server fell silent"""


class Client:
    """Strict protocol state machine over a Peer."""

    def __init__(self, peer):
        self.peer = peer
        self.w = peer.w
        self.caps = 0
        self.server_caps = 0
        self.buf = b""
        self.pk = []           # complete packets not consumed yet: (seq, payload, is_multi)
        self.seq = 0           # next expected server sequence number
        self.out_seq = 0
        self.nonce = None
        self.conn_id = None
        self.greeting = None
        self.stmts = {}
        self.partial = []
        self.lax_err = False       # errors before the capabilities are agreed upon may lack the SQL state
        self.pipelined = False     # several commands in flight: numbering may restart

    # ---- packets
    def pump(self):
        self.buf = self.buf + self.peer.raw()
        while True:
            n = len(self.buf)
            if n < 4:
                break
            ln = int.from_bytes(self.buf[:3], "little")
            if n < ln + 4:
                break
            seq = self.buf[3]
            payload = self.buf[4:4 + ln]
            self.buf = self.buf[4 + ln:]
            self.partial.append(payload)
            if self.pipelined and seq == 1:
                self.seq = 1
            check(seq == self.seq % 256, "sequence number of server packet is not the successor of the previous one")
            self.seq = (self.seq + 1) % 256
            if ln == 0xFFFFFF:
                continue
            full = self.partial[0] if len(self.partial) == 1 else b"".join(self.partial)
            self.partial = []
            self.pk.append(full)

    def next(self):
        if not self.pk:
            self.pump()
        if not self.pk:
            raise Incomplete("the server sent no (complete) response")
        return self.pk.pop(0)

    def has(self):
        if not self.pk:
            self.pump()
        return bool(self.pk)

    def quiet(self):
        """nothing unsolicited is on the wire"""
        self.pump()
        check(not self.pk and not self.partial and len(self.buf) == 0, "unsolicited bytes from the server",
              [p for p in self.pk] + [self.buf])

    def send(self, payload, seq=None, run=True, cuts=None):
        data, nxt = frame(payload, self.out_seq if seq is None else seq)
        self.seq = nxt
        self.peer.feed(data, run=run)

    def send_command(self, payload, run=True):
        """command phase: numbering restarts"""
        self.out_seq = 0
        data, nxt = frame(payload, 0)
        self.seq = nxt
        self.peer.feed(data, run=run)

    # ---- handshake
    def read_greeting(self):
        p = self.next()
        r = R(p, "handshake")
        if r.peek() == 0xFF:
            return self.parse_err(p)
        check(r.uint(1) == 10, "handshake: protocol version")
        g = Col()
        g.version = r.nulstr()
        g.conn_id = r.uint(4)
        a1 = r.take(8)
        check(r.uint(1) == 0, "handshake: filler")
        lo = r.uint(2)
        g.charset = r.uint(1)
        g.status = r.uint(2)
        hi = r.uint(2)
        g.caps = lo | (hi << 16)
        alen = r.uint(1)
        r.take(10)
        a2 = b""
        if g.caps & SECURE:
            k = alen - 8
            a2 = r.take(13 if k < 13 else k)
        g.plugin = b""
        if g.caps & PLUGIN_AUTH:
            g.plugin = r.nulstr()
        r.end()
        g.auth = a1 + a2
        self.greeting = g
        self.nonce = g.auth[:20]
        self.server_caps = g.caps
        self.conn_id = g.conn_id
        return g

    def response41(self, user, auth=b"", caps=BASE | DEPRECATE_EOF, db=None, plugin=b"mysql_native_password",
                   attrs=None, charset=255, max_packet=1 << 24, full_caps=None):
        caps = caps if full_caps is not None else caps
        b = u(caps, 4) + u(max_packet, 4) + bytes([charset]) + bytes(23) + user + b"\x00"
        eff = caps & self.server_caps
        if eff & LENENC_AUTH:
            b = b + lenstr(auth)
        else:
            b = b + bytes([len(auth)]) + auth
        if eff & CONNECT_WITH_DB:
            b = b + (db or b"") + b"\x00"
        if eff & PLUGIN_AUTH:
            b = b + plugin + b"\x00"
        if eff & CONNECT_ATTRS:
            kv = b"".join([lenstr(k) + lenstr(v) for k, v in (attrs or {}).items()])
            b = b + lenenc(len(kv)) + kv
        if eff & ZSTD:
            b = b + b"\x03"
        return b

    def login(self, user=b"u", password=None, caps=BASE | DEPRECATE_EOF, db=None, charset=255, attrs=None):
        """complete login with mysql_native_password; returns the final Resp"""
        g = self.read_greeting()
        if isinstance(g, Resp):
            return g
        self.caps = caps & g.caps
        auth = native(password, self.nonce) if password else b""
        self.out_seq = self.seq
        self.send(self.response41(user, auth, caps, db, attrs=attrs, charset=charset), seq=self.seq)
        return self.auth_result()

    def auth_result(self, password=None):
        p = self.next()
        if p[0] == 0xFE:
            r = R(p, "auth switch")
            r.uint(1)
            res = Resp("switch")
            res.plugin = r.nulstr()
            res.data = r.rest()
            return res
        if p[0] == 1:
            res = Resp("more")
            res.data = p[1:]
            return res
        return self.parse_okerr(p)

    # ---- generic packets
    def parse_err(self, p):
        r = R(p, "ERR packet")
        check(r.uint(1) == 0xFF, "ERR header")
        e = Resp("err")
        e.code = r.uint(2)
        if (self.caps & PROTOCOL_41 and not self.lax_err) or r.left() and r.peek() == 35:
            check(r.uint(1) == 35, "ERR packet: sqlstate marker")
            e.state = r.take(5)
        e.msg = r.rest()
        e.packets = 1
        return e

    def parse_ok(self, p, eof=False):
        r = R(p, "OK packet")
        h = r.uint(1)
        check(h == (0xFE if eof else 0), "OK header")
        o = Resp("ok")
        o.affected = r.lenenc()
        o.last_id = r.lenenc()
        if self.caps & PROTOCOL_41:
            o.status = r.uint(2)
            o.warnings = r.uint(2)
        elif self.caps & TRANSACTIONS:
            o.status = r.uint(2)
        if r.left():
            # info: string<EOF>, or lenenc with session tracking
            if self.caps & SESSION_TRACK:
                o.info = r.lenstr()
            else:
                o.info = r.rest()
        r.end()
        o.packets = 1
        return o

    def parse_eof(self, p):
        r = R(p, "EOF packet")
        check(r.uint(1) == 0xFE, "EOF header")
        o = Resp("eof")
        o.warnings = r.uint(2)
        o.status = r.uint(2)
        r.end()
        o.packets = 1
        return o

    def parse_okerr(self, p):
        check(len(p) > 0, "empty packet where OK or ERR was expected")
        if p[0] == 0xFF:
            return self.parse_err(p)
        check(p[0] == 0, "neither OK nor ERR", p)
        return self.parse_ok(p)

    def is_terminator(self, p):
        n = len(p)
        if n == 0 or p[0] != 0xFE:
            return False
        if self.caps & DEPRECATE_EOF:
            return n < 0xFFFFFF
        return n < 9

    def parse_terminator(self, p):
        if self.caps & DEPRECATE_EOF:
            return self.parse_ok(p, eof=True)
        return self.parse_eof(p)

    def parse_coldef(self, p, field_list=False):
        r = R(p, "column definition")
        c = Col()
        check(r.lenstr() == b"def", "column definition: catalog")
        c.schema = r.lenstr()
        c.table = r.lenstr()
        c.org_table = r.lenstr()
        c.name = r.lenstr()
        c.org_name = r.lenstr()
        check(r.lenenc() == 0x0C, "column definition: fixed length")
        c.charset = r.uint(2)
        c.length = r.uint(4)
        c.type = r.uint(1)
        c.flags = r.uint(2)
        c.decimals = r.uint(1)
        r.take(2)
        if field_list:
            if r.peek() == 0xFB:
                r.uint(1)
                c.default = None
            else:
                c.default = r.lenstr()
        r.end()
        return c

    # ---- commands: response readers
    def read_simple(self):
        return self.parse_okerr(self.next())

    def read_query(self, binary=False, rows=True, cursor=False):
        """response of COM_QUERY / COM_STMT_EXECUTE"""
        p = self.next()
        check(len(p) > 0, "empty packet as query response")
        if p[0] == 0xFF:
            return self.parse_err(p)
        if p[0] == 0:
            return self.parse_ok(p)
        check(p[0] != 0xFB, "LOCAL INFILE request")
        check(p[0] != 0xFE or len(p) >= 9, "EOF as query response")
        r = R(p, "column count")
        if self.caps & OPTIONAL_METADATA:
            check(r.uint(1) == 1, "metadata flag")
        n = r.lenenc()
        r.end()
        check(n > 0, "result set with zero columns")
        res = Resp("rs")
        res.binary = binary
        res.ncols = n
        for i in range(n):
            p = self.next()
            if len(p) > 0 and p[0] == 0xFF:
                return self.parse_err(p)         # the statement failed before its rows
            res.cols.append(self.parse_coldef(p))
        if not self.caps & DEPRECATE_EOF:
            p = self.next()
            if len(p) > 0 and p[0] == 0xFF:
                return self.parse_err(p)
            e = self.parse_eof(p)
            res.meta_status = e.status
        if rows:
            if cursor and not self.caps & DEPRECATE_EOF:
                if res.meta_status & CURSOR_EXISTS:
                    res.final = e
                    res.kind = "cursor"
                    return res
            self.read_rows(res)
            if cursor and res.final.kind == "ok" and res.final.status & CURSOR_EXISTS:
                res.kind = "cursor"
        return res

    def read_rows(self, res):
        while True:
            p = self.next()
            check(len(p) > 0 or res.ncols == 0, "empty row packet")
            if p[0] == 0xFF:
                # a statement may fail while rows are being sent
                res.final = self.parse_err(p)
                return res
            if self.is_terminator(p):
                res.final = self.parse_terminator(p)
                return res
            res.rows.append(self.parse_binrow(p, res.cols) if res.binary else self.parse_textrow(p, res.cols))

    def parse_textrow(self, p, cols):
        r = R(p, "text row")
        out = []
        for c in cols:
            if r.peek() == 0xFB:
                r.uint(1)
                out.append(None)
            else:
                out.append(r.lenstr())
        r.end()
        return out

    def parse_binrow(self, p, cols):
        r = R(p, "binary row")
        check(r.uint(1) == 0, "binary row header")
        n = len(cols)
        bm = r.take((n + 9) // 8)
        out = []
        for i, c in enumerate(cols):
            if bm[(i + 2) // 8] & (1 << ((i + 2) % 8)):
                out.append(None)
            else:
                out.append(read_binary(r, c.type))
        check((bm[0] & 3) == 0, "binary row: reserved NULL bits set")
        r.end()
        return out

    def read_prepare(self):
        p = self.next()
        check(len(p) > 0, "empty packet as prepare response")
        if p[0] == 0xFF:
            return self.parse_err(p)
        r = R(p, "prepare OK")
        check(r.uint(1) == 0, "prepare OK header")
        res = Resp("prep")
        res.stmt_id = r.uint(4)
        res.num_cols = r.uint(2)
        res.num_params = r.uint(2)
        r.uint(1)
        r.uint(2)
        if r.left() and self.caps & OPTIONAL_METADATA:
            r.uint(1)
        r.end()
        if res.num_params:
            for i in range(res.num_params):
                p = self.next()
                if len(p) > 0 and p[0] == 0xFF:
                    return self.parse_err(p)
                self.parse_coldef(p)
            if not self.caps & DEPRECATE_EOF:
                p = self.next()
                if len(p) > 0 and p[0] == 0xFF:
                    return self.parse_err(p)
                self.parse_eof(p)
        if res.num_cols:
            for i in range(res.num_cols):
                res.cols.append(self.parse_coldef(self.next()))
            if not self.caps & DEPRECATE_EOF:
                self.parse_eof(self.next())
        return res

    def read_fields(self):
        res = Resp("fields")
        while True:
            p = self.next()
            check(len(p) > 0, "empty packet in COM_FIELD_LIST response")
            if p[0] == 0xFF:
                return self.parse_err(p)
            if self.is_terminator(p):
                res.final = self.parse_terminator(p)
                return res
            res.cols.append(self.parse_coldef(p, field_list=True))

    def read_fetch(self, cols):
        p = self.next()
        check(len(p) > 0, "empty packet as fetch response")
        res = Resp("fetch")
        res.cols = cols
        res.ncols = len(cols)
        res.binary = True
        first = True
        while True:
            if p[0] == 0xFF:
                e = self.parse_err(p)
                e.rows = res.rows
                return e
            if self.is_terminator(p):
                res.final = self.parse_terminator(p)
                res.status = res.final.status
                return res
            res.rows.append(self.parse_binrow(p, cols))
            p = self.next()

    # ---- commands: builders
    def c_query(self, sql, attrs=None):
        b = b"\x03"
        if self.caps & QUERY_ATTRS:
            attrs = attrs or []
            b = b + lenenc(len(attrs)) + b"\x01"
            if attrs:
                b = b + params_block(attrs, True)
        return b + sql

    def query(self, sql, attrs=None):
        self.send_command(self.c_query(sql, attrs))
        r = self.read_query()
        self.quiet()
        return r

    def ping(self):
        self.send_command(b"\x0e")
        r = self.read_simple()
        self.quiet()
        return r

    def prepare(self, sql):
        self.send_command(b"\x16" + sql)
        r = self.read_prepare()
        self.quiet()
        return r

    def c_execute(self, stmt_id, params=(), flags=0, attrs=(), nparams=None, param_count_available=None):
        allp = list(params) + list(attrs)
        if self.caps & QUERY_ATTRS:
            if param_count_available is None:
                param_count_available = bool(attrs)
            if param_count_available:
                flags = flags | 8
        b = b"\x17" + u(stmt_id, 4) + bytes([flags]) + u(1, 4)
        if self.caps & QUERY_ATTRS:
            if len(params) or param_count_available:
                b = b + lenenc(len(allp))
                if allp:
                    b = b + params_block(allp, True)
        elif allp:
            b = b + params_block(allp, False)
        return b

    def execute(self, stmt_id, params=(), flags=0, attrs=()):
        self.send_command(self.c_execute(stmt_id, params, flags, attrs))
        r = self.read_query(binary=True, cursor=bool(flags & 1))
        self.quiet()
        return r

    def fetch(self, stmt_id, n, cols):
        self.send_command(b"\x1c" + u(stmt_id, 4) + u(n, 4))
        r = self.read_fetch(cols)
        self.quiet()
        return r

    def stmt_close(self, stmt_id):
        self.send_command(b"\x19" + u(stmt_id, 4))
        self.quiet()

    def stmt_reset(self, stmt_id):
        self.send_command(b"\x1a" + u(stmt_id, 4))
        r = self.read_simple()
        self.quiet()
        return r

    def long_data(self, stmt_id, param, data):
        self.send_command(b"\x18" + u(stmt_id, 4) + u(param, 2) + data)
        self.quiet()

    def init_db(self, name):
        self.send_command(b"\x02" + name)
        r = self.read_simple()
        self.quiet()
        return r

    def field_list(self, table, wildcard=b""):
        self.send_command(b"\x04" + table + b"\x00" + wildcard)
        r = self.read_fields()
        self.quiet()
        return r

    def c_change_user(self, user, auth=b"", db=b"", charset=255, plugin=b"mysql_native_password", attrs=None):
        b = b"\x11" + user + b"\x00"
        if self.caps & SECURE:
            b = b + bytes([len(auth)]) + auth
        else:
            b = b + auth + b"\x00"
        b = b + db + b"\x00" + u(charset, 2)
        if self.caps & PLUGIN_AUTH:
            b = b + plugin + b"\x00"
        if self.caps & CONNECT_ATTRS:
            kv = b"".join([lenstr(k) + lenstr(v) for k, v in (attrs or {}).items()])
            b = b + lenenc(len(kv)) + kv
        return b

    def quit(self):
        self.send_command(b"\x01")


def params_block(params, named):
    """params: list of (name bytes, type, unsigned, value bytes or None)"""
    n = len(params)
    bm = [0] * ((n + 7) // 8)
    for i, p in enumerate(params):
        if p[3] is None:
            bm[i // 8] |= 1 << (i % 8)
    b = bytes(bm) + b"\x01"
    for p in params:
        b = b + bytes([p[1]]) + (b"\x80" if p[2] else b"\x00")
        if named:
            b = b + lenstr(p[0])
    for p in params:
        if p[3] is not None:
            b = b + p[3]
    return b


def native(password, nonce):
    """mysql_native_password proof"""
    h1 = hashlib.sha1(password).digest()
    h2 = hashlib.sha1(h1).digest()
    h3 = hashlib.sha1(nonce + h2).digest()
    return bytes([a ^ b for a, b in zip(h1, h3)])


STRINGISH = {T_DECIMAL, T_NEWDECIMAL, T_VARCHAR, T_VAR_STRING, T_STRING, T_BLOB, T_TINY_BLOB, T_MEDIUM_BLOB, T_LONG_BLOB,
             T_ENUM, T_SET, T_JSON, T_BIT, T_GEOMETRY}


def read_binary(r, t):
    """binary protocol value"""
    if t in STRINGISH:
        return ("s", r.lenstr())
    if t == T_LONGLONG:
        return ("i", r.uint(8), 8)
    if t in (T_LONG, T_INT24):
        return ("i", r.uint(4), 4)
    if t in (T_SHORT, T_YEAR):
        return ("i", r.uint(2), 2)
    if t in (T_TINY, T_BOOL):
        return ("i", r.uint(1), 1)
    if t == T_DOUBLE:
        return ("d", r.take(8))
    if t == T_FLOAT:
        return ("f", r.take(4))
    if t in (T_DATE, T_DATETIME, T_TIMESTAMP):
        n = r.uint(1)
        check(n == 0 or n == 4 or n == 7 or n == 11, "temporal value: invalid length")
        if n == 0:
            return ("dt", 0, 0, 0, 0, 0, 0, 0)
        y, m, d = r.uint(2), r.uint(1), r.uint(1)
        H = M = S = us = 0
        if n >= 7:
            H, M, S = r.uint(1), r.uint(1), r.uint(1)
        if n == 11:
            us = r.uint(4)
        return ("dt", y, m, d, H, M, S, us)
    if t == T_TIME:
        n = r.uint(1)
        check(n == 0 or n == 8 or n == 12, "time value: invalid length")
        if n == 0:
            return ("t", 0, 0, 0, 0, 0, 0)
        neg = r.uint(1)
        d = r.uint(4)
        H, M, S = r.uint(1), r.uint(1), r.uint(1)
        us = 0
        if n == 12:
            us = r.uint(4)
        return ("t", neg, d, H, M, S, us)
    if t == T_NULL:
        return None
    fail(f"binary row: column type {t} has no binary representation")

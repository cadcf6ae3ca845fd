"""Runtime hooks inserted by the AST instrumentation."""
from __future__ import annotations
import builtins, enum, io, operator, re, struct, hashlib, types, datetime as _dt, codecs, functools, itertools, string as _string
import z3
from . import core, values as V, rx
from .values import (SymInt, SymBool, SymBytes, SymByteArray, SymStr, SymFloat, SymMemView, is_sym, pin, plain, mkbool,
                     mkint, mkbytes, mkstr, segs_of, ssegs_of, rlen, and_all, teq, not_, as_num, items_to_int, int_to_items)
from .core import note

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
MethodWrapper = type("".__str__)
MethodDescr = type(str.join)
EnumType = enum.EnumType

SYM = V.SYM_TYPES
SYMT = V.SYM_SET


def anysym(a, k=None):
    for x in a:
        if type(x) in SYMT:
            return True
    if k:
        for x in k.values():
            if type(x) in SYMT:
                return True
    return False


def deepsym(x, d=0):
    if type(x) in SYMT:
        return True
    if d < 2 and type(x) in (list, tuple, set, dict):
        it = x.items() if type(x) is dict else x
        for y in it:
            if deepsym(y, d + 1):
                return True
    return False


# ------------------------------------------------------------------ models

class SymBytesIO:
    """io.BytesIO over possibly symbolic bytes."""
    def __init__(self, initial=b""):
        self.segs = list(segs_of(initial))
        self.pos = 0
        self.closed = False

    def _all(self):
        return mkbytes(self.segs)

    def read(self, n=-1):
        L = rlen(self.segs)
        if n is None:
            n = -1
        n = as_num(n)
        if n > 2 ** 63 - 1:
            raise OverflowError("Python int too large to convert to C ssize_t")
        if n < 0:
            e = L
        else:
            e = self.pos + n
            if e > L:
                e = L
        if e <= self.pos:
            return b""
        r = mkbytes(V.rslice(self.segs, self.pos, e, True))
        self.pos = e
        return r
    read1 = read

    def readline(self, *a):
        return pin(self.read())

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos = self.pos + off
        else:
            self.pos = rlen(self.segs) + off
        return self.pos

    def getvalue(self):
        return self._all()

    def getbuffer(self):
        return SymMemView(self._all() if is_sym(self._all()) else V.SymBytes(plain(self._all()), self.segs))

    def write(self, b):
        L = rlen(self.segs)
        n = rlen(segs_of(b))
        e = self.pos + n
        tail = V.rslice(self.segs, e, L, True) if e < L else []
        self.segs = V.norm(V.rslice(self.segs, 0, self.pos, True) + segs_of(b) + tail)
        self.pos = e
        return n

    def close(self):
        self.closed = True

    def readable(self):
        return True

    def seekable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __len__(self):
        return int(rlen(self.segs))


_FMT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
        "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False), "?": (1, False), "c": (1, False)}


def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "@"
    i = 0
    if fmt and fmt[0] in "@=<>!":
        order = fmt[0]
        i = 1
    if order == "@":
        # native alignment: only safe for single item formats
        body = fmt[i:]
        if len(re.findall(r"[a-zA-Z?]", body)) > 1:
            return None
        if "l" in body or "L" in body:
            return None
        order = "<"
    big = order in (">", "!")
    out = []
    for m in re.finditer(r"\s*(\d*)([a-zA-Z?])", fmt[i:]):
        out.append((int(m.group(1)) if m.group(1) else None, m.group(2)))
    return big, out


def _fsize(items):
    n = 0
    for cnt, c in items:
        if c in ("s", "p", "x"):
            n += 1 if cnt is None else cnt
        elif c == "f":
            n += 4 * (1 if cnt is None else cnt)
        elif c == "e":
            n += 2 * (1 if cnt is None else cnt)
        elif c == "d":
            n += 8 * (1 if cnt is None else cnt)
        else:
            n += _FMT[c][0] * (1 if cnt is None else cnt)
    return n


def struct_pack(fmt, *args):
    if isinstance(fmt, SymStr):
        # e.g. f"<{l}s" with symbolic l: only the Ns / NsB shapes
        return _pack_symfmt(fmt, args)
    if not deepsym(args):
        return struct.pack(fmt, *args)
    pf = _parse_fmt(fmt)
    if pf is None:
        note("struct native fmt")
        return struct.pack(fmt, *[pin(a) for a in args])
    big, items = pf
    segs = []
    ai = 0
    for cnt, c in items:
        if c == "x":
            segs.append(("L", [0] * (1 if cnt is None else cnt)))
            continue
        if c == "s":
            n = 1 if cnt is None else cnt
            v = args[ai]
            ai += 1
            segs += _fix(v, n)
            continue
        for _ in range(1 if cnt is None else cnt):
            v = args[ai]
            ai += 1
            if c in "fd":
                segs += _pack_float(v, c, big)
                continue
            if c == "?":
                v = V.SymInt(int(bool(v)), 0, 0, 0) if False else (v.as_int() if type(v) is SymBool else int(bool(v)))
                segs.append(("L", [v]))
                continue
            size, signed = _FMT[c]
            v = as_num(v)
            if type(v) is SymInt:
                lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
                if v < lo or v > hi:
                    raise struct.error("argument out of range")
                its = int_to_items(v, size)
            else:
                its = list(struct.pack("<" + c, v))
            segs.append(("L", its[::-1] if big else its))
    if ai != len(args):
        raise struct.error("pack expected %d items for packing (got %d)" % (ai, len(args)))
    return mkbytes(segs)


def _fix(v, n):
    if not isinstance(v, (bytes, bytearray)):
        raise struct.error("argument for 's' must be a bytes object")
    s = segs_of(v)
    L = rlen(s)
    if L == n:
        return s
    if L > n:
        return V.rslice(s, 0, n, True)
    k = n - L
    return s + [("L", [0] * pin(k))]


def _pack_symfmt(fmt, args):
    # split the symbolic format around int tokens
    segs = fmt.segs
    cur = ""
    seq = []
    for s in segs:
        if s[0] == "L" and not any(type(c) is SymInt for c in s[1]):
            seq.append("".join(map(chr, s[1])))
        elif s[0] == "T" and s[1].kind == "int":
            seq.append(s[1].info[0])
        else:
            return struct_pack(pin(fmt), *args)
    out = []
    ai = 0
    i = 0
    if isinstance(seq[0], str) and seq[0][:1] in "<=>!@":
        if seq[0][0] not in "<=" and any(ch not in "sBbx" for x in seq if isinstance(x, str) for ch in x[1:]):
            return struct_pack(pin(fmt), *args)
        seq[0] = seq[0][1:]
    k = 0
    while k < len(seq):
        x = seq[k]
        if isinstance(x, str):
            rest = x
            if rest:
                nargs = len([1 for ch in rest if ch.isalpha() or ch == "?"])
                if any(ch.isdigit() for ch in rest):
                    return struct_pack(pin(fmt), *args)
                out += segs_of(struct_pack("<" + rest, *args[ai:ai + nargs]))
                ai += nargs
            k += 1
            continue
        nxt = seq[k + 1] if k + 1 < len(seq) else ""
        if not (isinstance(nxt, str) and nxt[:1] == "s"):
            return struct_pack(pin(fmt), *args)
        if x < 0:
            raise struct.error("bad char in struct format")
        out += _fix(args[ai], x)
        ai += 1
        seq[k + 1] = nxt[1:]
        k += 1
    if ai != len(args):
        raise struct.error("pack expected %d items for packing" % ai)
    return mkbytes(out)


def _pack_float(v, c, big):
    if isinstance(v, SymFloat):
        if c == "d" and v.src is None:
            its = int_to_items(v.pat, 8)
        elif c == "f" and v.src == "f32":
            its = int_to_items(v.pat, 4)
        elif c == "d" and v.src == "f32":
            val = float.__float__(v)
            key = z3.Function("f32to64", z3.BitVecSort(32), z3.BitVecSort(64))
            t = key(z3.Extract(31, 0, V.fit(v.pat.t, 33)))
            its = _uf_items(t, struct.pack("<d", val))
        else:
            struct.pack("<f", float.__float__(v))
            key = z3.Function("f64to32", z3.BitVecSort(64), z3.BitVecSort(32))
            t = key(z3.Extract(63, 0, V.fit(v.pat.t, 65)))
            its = _uf_items(t, struct.pack("<f", float.__float__(v)))
    else:
        its = list(struct.pack("<" + c, pin(v)))
    return [("L", its[::-1] if big else its)]


def _uf_items(t, conc):
    n = len(conc)
    return [SymInt(conc[i], z3.ZeroExt(1, z3.Extract(8 * i + 7, 8 * i, t)), 0, 255) for i in range(n)]


def struct_unpack(fmt, data):
    if not is_sym(data) and not is_sym(fmt):
        return struct.unpack(fmt, data)
    if isinstance(fmt, SymStr):
        fmt = pin(fmt)
    pf = _parse_fmt(fmt)
    if pf is None:
        return struct.unpack(fmt, pin(data))
    big, items = pf
    size = _fsize(items)
    L = rlen(segs_of(data))
    if L != size:
        raise struct.error(f"unpack requires a buffer of {size} bytes")
    out = []
    pos = 0
    data = mkbytes(segs_of(data))
    if not is_sym(data):
        return struct.unpack(fmt, data)
    for cnt, c in items:
        if c in ("s", "x"):
            n = 1 if cnt is None else cnt
            if c == "s":
                out.append(data[pos:pos + n])
            pos += n
            continue
        for _ in range(1 if cnt is None else cnt):
            if c in "fd":
                n = 4 if c == "f" else 8
                its = V.bfull(data[pos:pos + n])
                if big:
                    its = its[::-1]
                pos += n
                out.append(_unpack_float(its, c))
                continue
            n, signed = _FMT[c]
            its = V.bfull(data[pos:pos + n])
            pos += n
            if big:
                its = its[::-1]
            if c == "c":
                out.append(mkbytes([("L", its)]))
            elif c == "?":
                out.append(its[0] != 0)
            else:
                out.append(items_to_int(its, signed))
    return tuple(out)


def _unpack_float(its, c):
    pat = items_to_int(its)
    if type(pat) is not SymInt:
        return struct.unpack("<" + c, bytes(its))[0]
    n = 4 if c == "f" else 8
    val = struct.unpack("<" + c, int(pat).to_bytes(n, "little"))[0]
    return SymFloat(val, pat, "f32" if c == "f" else None)


def struct_unpack_from(fmt, buf, offset=0):
    if not is_sym(buf) and not is_sym(offset):
        return struct.unpack_from(fmt, buf, offset)
    n = struct.calcsize(fmt)
    b = mkbytes(segs_of(buf))
    return struct_unpack(fmt, b[offset:offset + n])


def struct_pack_into(fmt, buf, offset, *args):
    d = struct_pack(fmt, *args)
    if not is_sym(d) and not is_sym(buf) and not is_sym(offset):
        return struct.pack_into(fmt, buf, offset, *args)
    n = rlen(segs_of(d))
    if not isinstance(buf, SymByteArray):
        buf[pin(offset):pin(offset) + int(n)] = pin(d)
    else:
        buf[offset:offset + n] = d


class SymStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = struct.calcsize(fmt)

    def pack(self, *a):
        return struct_pack(self.format, *a)

    def unpack(self, d):
        return struct_unpack(self.format, d)

    def unpack_from(self, b, offset=0):
        return struct_unpack_from(self.format, b, offset)

    def pack_into(self, b, o, *a):
        return struct_pack_into(self.format, b, o, *a)


def _collisionfree(name, n, arg, t, conc, pre):
    """assumption: no two different inputs hashed in one run have the same digest"""
    run = core.RUN
    if run is None:
        return
    for h in run.hashes:
        if h[0] == name and h[1] == n and (h[2].eq(arg) if arg is not None and h[2] is not None else
                                           arg is None and h[2] is None and h[5] == pre):
            return
    L = len(conc)

    def terms(e):
        if e[2] is not None:
            return e[2], e[3]
        return (z3.BitVecVal(int.from_bytes(e[5], "big"), 8 * e[1]) if e[1] else None), \
            z3.BitVecVal(int.from_bytes(e[4], "big"), 8 * L)
    new = (name, n, arg, t, conc, pre)
    for h in run.hashes:
        if h[0] == name and (arg is not None or h[2] is not None):
            a1, t1 = terms(new)
            a2, t2 = terms(h)
            run.domain.append((t1 == t2) == (a1 == a2) if h[1] == n else t1 != t2)
    run.hashes.append(new)


class SymHash:
    def __init__(self, name, data=b""):
        self.name = name
        self.segs = list(segs_of(data))

    def update(self, d):
        self.segs += segs_of(d)

    def digest(self):
        d = mkbytes(self.segs)
        conc = hashlib.new(self.name, plain(d)).digest()
        if not is_sym(d):
            _collisionfree(self.name, len(d), None, None, conc, plain(d))
            return conc
        if any(s[0] != "L" for s in d.segs):
            note("hash of opaque")
            pin(d)
            return conc
        its = V.bfull(d)
        n = len(its)
        f = z3.Function(f"{self.name}_{n}", z3.BitVecSort(8 * n), z3.BitVecSort(8 * len(conc)))
        arg = z3.Concat(*[V.byte_term(i) for i in its]) if n > 1 else V.byte_term(its[0])
        arg = z3.simplify(arg)
        t = f(arg)
        L = len(conc)
        _collisionfree(self.name, n, arg, t, conc, None)
        return mkbytes([("L", [SymInt(conc[i], z3.ZeroExt(1, z3.Extract(8 * (L - i) - 1, 8 * (L - i) - 8, t)), 0, 255)
                               for i in range(L)])])

    def hexdigest(self):
        return pin(self.digest()).hex() if is_sym(self.digest()) else self.digest().hex()

    def copy(self):
        h = SymHash(self.name)
        h.segs = list(self.segs)
        return h

    @property
    def digest_size(self):
        return hashlib.new(self.name).digest_size


def m_len(x):
    if isinstance(x, (SymBytes, SymByteArray, SymStr, SymMemView)):
        return x._len()
    return len(x)


def m_int(x=0, base=None, **k):
    if base is not None:
        return V.sint(x, pin(base)) if is_sym(x) else int(x, pin(base))
    if is_sym(x):
        if isinstance(x, (V.SymSeconds,)):
            return x._trunc()
        if isinstance(x, V.SymFlint):
            return x.i
        return V.sint(x)
    return int(x, **k)


def m_str(x="", *a, **k):
    if a or k:
        if isinstance(x, (SymBytes, SymByteArray)):
            return V.rdecode(x, *a, **k)
        return str(x, *a, **k)
    if is_sym(x):
        return V.sstr(x)
    if isinstance(x, BaseException) and len(x.args) == 1 and is_sym(x.args[0]) and type(x).__str__ is BaseException.__str__:
        return V.sstr(x.args[0])
    f = type(x).__str__
    r = f(x) if not isinstance(x, type) and isinstance(f, FunctionType) else str(x)
    return r


def m_bytes(x=b"", *a, **k):
    if a or k:
        if isinstance(x, SymStr):
            return V.rencode(x, *a, **k)
        return bytes(x, *a, **k)
    if isinstance(x, (SymBytes, SymByteArray, SymMemView)):
        return mkbytes(x.segs)
    if type(x) is SymInt:
        sx_alloc(x)
        n = pin(x)
        return bytes(n)
    if type(x) in (list, tuple) or hasattr(x, "__next__"):
        x = list(x)
        if any(type(i) in (SymInt, SymBool) for i in x):
            for i in x:
                i = as_num(i)
                if not (i >= 0 and i <= 255):
                    raise ValueError("bytes must be in range(0, 256)")
            return mkbytes([("L", [as_num(i) for i in x])])
        return bytes(x)
    f = getattr(type(x), "__bytes__", None)
    if isinstance(f, FunctionType):
        return f(x)
    return bytes(x)


def m_bytearray(x=b"", *a, **k):
    if a or k:
        return V.SymByteArray(bytearray(x, *a, **k))
    if type(x) is SymInt:
        sx_alloc(x)
        return V.SymByteArray(bytes(pin(x)))
    if isinstance(x, int):
        sx_alloc(x)
        return V.SymByteArray(bytes(x))
    b = m_bytes(x)
    if is_sym(b):
        return V.mkbytearray(b.segs)
    return V.SymByteArray(b)


def m_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return bool(x)


class SymRange:
    def __init__(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        self.a, self.b, self.step = as_num(a), as_num(b), pin(step)

    def __iter__(self):
        i = self.a
        if self.step > 0:
            while i < self.b:
                yield i
                i = i + self.step
        else:
            while i > self.b:
                yield i
                i = i + self.step

    def __contains__(self, x):
        return bool(x >= self.a) and bool(x < self.b)

    def __len__(self):
        return len(range(pin(self.a), pin(self.b), self.step))


def m_range(*a):
    if anysym(a):
        return SymRange(*a)
    return range(*a)


def m_ord(x):
    if isinstance(x, SymStr):
        its = V.sfull(x)
        if len(its) != 1:
            raise TypeError("ord() expected a character")
        return its[0]
    if isinstance(x, (SymBytes, SymByteArray)):
        return V.bfull(x)[0]
    return ord(x)


def m_chr(x):
    if type(x) is SymInt:
        if x < 0 or x > 0x10FFFF:
            raise ValueError("chr() arg not in range")
        return mkstr([("L", [x])])
    return chr(x)


def m_hex(x):
    if not is_sym(x):
        return hex(x)
    if type(x) is not SymInt or x.lo < 0 or x.hi > 2 ** 64:
        return hex(pin(x))
    n = 1
    while n < 17 and not (x < 16 ** n):
        n += 1
    items = []
    for k in range(n - 1, -1, -1):
        d = (x >> (4 * k)) & 15
        if type(d) is SymInt:
            v = int(d) + 48 + (39 if int(d) > 9 else 0)
            t = V.fit(d.t, 9)
            items.append(SymInt(v, t + z3.If(t > z3.BitVecVal(9, 9), z3.BitVecVal(87, 9), z3.BitVecVal(48, 9)), 48, 102))
        else:
            items.append(ord("%x" % d))
    return "0x" + mkstr([("L", items)])


def m_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) in SYMT:
            if isinstance(x, SymStr):
                return str
            if type(x) is SymInt:
                return int
            if type(x) is SymBool:
                return bool
            if isinstance(x, SymBytes):
                return bytes
            if isinstance(x, SymByteArray):
                return bytearray
            if isinstance(x, float):
                return float
            if isinstance(x, _dt.datetime):
                return _dt.datetime
            if isinstance(x, _dt.date):
                return _dt.date
            if isinstance(x, _dt.timedelta):
                return _dt.timedelta
            if isinstance(x, SymMemView):
                return memoryview
        if type(x) is SymByteArray:
            return bytearray
    return type(*a, **k)


def m_memoryview(x):
    if isinstance(x, SymMemView):
        return x
    if isinstance(x, (SymBytes, SymByteArray)):
        return SymMemView(x)
    return memoryview(x)


def m_from_bytes(b, byteorder="big", *, signed=False):
    if is_sym(b) or isinstance(b, (list, tuple)) and deepsym(b):
        its = V.bfull(b if is_sym(b) else m_bytes(b))
        if byteorder == "big":
            its = its[::-1]
        if not its:
            return 0
        return items_to_int(its, signed)
    return int.from_bytes(b, byteorder, signed=signed)


def m_fromhex(s):
    if is_sym(s):
        if isinstance(s, SymStr) and all(x[0] == "L" for x in s.segs):
            its = V.sfull(s)
            if not any(type(i) is SymInt for i in its):
                return bytes.fromhex(plain(s))
            out = []
            if len(its) % 2:
                pin(s)
                return bytes.fromhex(plain(s))
            def nib(c):
                if type(c) is not SymInt:
                    return int(chr(c), 16)
                if c >= 48 and c <= 57:
                    return c - 48
                if c >= 97 and c <= 102:
                    return c - 87
                if c >= 65 and c <= 70:
                    return c - 55
                raise ValueError("non-hexadecimal number found in fromhex() arg")
            for i in range(0, len(its), 2):
                out.append(nib(its[i]) * 16 + nib(its[i + 1]))
            return mkbytes([("L", out)])
        return bytes.fromhex(pin(s))
    return bytes.fromhex(s)


def m_format(v, spec=""):
    return V.sformat(v, spec) if is_sym(v) else format(v, plain(spec))


def m_repr(x):
    if type(x) is SymInt:
        return V.int_to_str(x)
    if is_sym(x):
        return repr(pin(x))
    return repr(x)


def m_float(x=0.0):
    if isinstance(x, float) and is_sym(x):
        return x
    if type(x) is SymInt:
        return float(pin(x))
    if is_sym(x):
        if isinstance(x, SymStr) and len(x.segs) == 1 and x.segs[0][0] == "T" and x.segs[0][1].kind == "float":
            return x.segs[0][1].info[0]
        return float(pin(x))
    return float(x)


def m_isinstance(x, c):
    return isinstance(x, c)


def m_round(x, *a):
    if isinstance(x, (V.SymSeconds, V.SymFlint)):
        return round(plain(float.__float__(x)), *a)
    return round(x, *a)


def m_minmax(f):
    def g(*a, **k):
        if k or len(a) == 1 or not anysym(a):
            return f(*a, **k)
        # fork-free min/max for ints
        r = as_num(a[0])
        for y in a[1:]:
            y = as_num(y)
            if type(r) is SymInt or type(y) is SymInt:
                c = (y < r) if f is min else (y > r)
                if type(c) is SymBool:
                    (al, ah), (bl, bh) = V.rng(r), V.rng(y)
                    lo, hi = (min(al, bl), min(ah, bh)) if f is min else (max(al, bl), max(ah, bh))
                    w = max(V.need(al, ah), V.need(bl, bh))
                    r = mkint(f(int(r), int(y)), z3.If(c.t, V.term_of(y, w), V.term_of(r, w)), lo, hi)
                elif c:
                    r = y
            else:
                r = f(r, y)
        return r
    return g


def m_timedelta(*a, **k):
    if not anysym(a, k):
        return _dt.timedelta(*a, **k)
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    kw = dict(zip(names, a))
    kw.update(k)
    mul = {"days": 86400 * 10**6, "seconds": 10**6, "microseconds": 1, "milliseconds": 1000, "minutes": 60 * 10**6,
           "hours": 3600 * 10**6, "weeks": 7 * 86400 * 10**6}
    us = 0
    for n, v in kw.items():
        v = as_num(v)
        if isinstance(v, float):
            note("timedelta float")
            return _dt.timedelta(**{n: pin(v) for n, v in kw.items()})
        us = us + v * mul[n]
    return V.mktd(us)


def m_date(*a, **k):
    if anysym(a, k):
        return _dt.date(*[pin(x) for x in a], **{n: pin(x) for n, x in k.items()})
    return _dt.date(*a, **k)


def m_datetime(*a, **k):
    if anysym(a, k):
        return _dt.datetime(*[pin(x) for x in a], **{n: pin(x) for n, x in k.items()})
    return _dt.datetime(*a, **k)


def m_struct(fmt):
    return SymStruct(fmt)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_hash(name):
    def f(data=b"", **k):
        return SymHash(name, data)
    return f


def m_hnew(name, data=b"", **k):
    return SymHash(name, data)


def m_sorted(it, *, key=None, reverse=False):
    l = list(it)
    if not any(deepsym(x) for x in l):
        return sorted(l, key=key, reverse=reverse)
    return sorted(l, key=key, reverse=reverse)      # forks through __lt__


def m_codec_decode(b, enc="utf-8", errors="strict"):
    return V.rdecode(b, enc, errors) if is_sym(b) else codecs.decode(b, enc, errors)


def m_codec_encode(b, enc="utf-8", errors="strict"):
    return V.rencode(b, enc, errors) if is_sym(b) else codecs.encode(b, enc, errors)


_CACHE_FIX = {}


def m_lru_cache(*a, **k):
    real = functools.lru_cache(*a, **k)
    if len(a) == 1 and callable(a[0]) and not k:
        return _lru(a[0], real)
    return lambda fn: _lru(fn, real(fn))


def _lru(fn, cached):
    @functools.wraps(fn)
    def w(*a, **k):
        if anysym(a, k):
            return fn(*a, **k)
        return cached(*a, **k)
    w.cache_clear = cached.cache_clear
    w.cache_info = cached.cache_info
    return w


def m_cache(fn):
    return _lru(fn, functools.cache(fn))


# argument is symbolic -> model; table for callables always replaced
def m_set(it=()):
    out = set()
    sym = False
    for x in it:
        if not sym and _symkey(x):
            sym = True
        if sym:
            hit, x = _resolve_key(out, x)
        out.add(x)
    return out


ALWAYS = {
    io.BytesIO: SymBytesIO, set: m_set, bytearray: m_bytearray, len: m_len, struct.Struct: m_struct, hashlib.sha1: m_hash("sha1"),
    hashlib.sha256: m_hash("sha256"), hashlib.md5: m_hash("md5"), hashlib.new: m_hnew,
    functools.lru_cache: m_lru_cache, functools.cache: m_cache, memoryview: m_memoryview,
}
ONSYM = {
    int: m_int, str: m_str, bytes: m_bytes, bool: m_bool, range: m_range, ord: m_ord, chr: m_chr, hex: m_hex,
    type: m_type, format: m_format, repr: m_repr, float: m_float, min: m_minmax(min), max: m_minmax(max),
    struct.pack: struct_pack, struct.unpack: struct_unpack, struct.unpack_from: struct_unpack_from,
    struct.pack_into: struct_pack_into,
    int.from_bytes: m_from_bytes, bytes.fromhex: m_fromhex, _dt.timedelta: m_timedelta, _dt.date: m_date,
    _dt.datetime: m_datetime, codecs.decode: m_codec_decode, codecs.encode: m_codec_encode, round: m_round,
    re.match: rx.m_match, re.search: rx.m_search, re.fullmatch: rx.m_fullmatch, re.sub: rx.m_sub,
    re.findall: rx.m_findall, re.finditer: rx.m_finditer, re.split: rx.m_split, re.escape: rx.m_escape,
    re.compile: rx.m_compile, re.subn: rx.m_subn,
}
DEEP = {bytes, sum, str, sorted}
NATIVE_OK = {isinstance, abs, divmod, any, all, zip, enumerate, list, tuple, dict, set, iter, next, hash, getattr, setattr,
             hasattr, issubclass, id, print, map, filter, reversed, callable, sorted, sum, super, property, vars}


def _resolve_key(d, key):
    """the stored key of dict/set d equal to the (symbolic) key, or a unique miss marker."""
    for k in list(d):
        if type(k) is not type(key) and not _cmpable(k, key):
            continue
        e = (key == k)
        if e is NotImplemented:
            continue
        if e:
            return True, k
    return False, key


def _cmpable(k, key):
    if isinstance(key, int):
        return isinstance(k, (int, float))
    if isinstance(key, str):
        return isinstance(k, str)
    if isinstance(key, (bytes, bytearray)):
        return isinstance(k, (bytes, bytearray))
    return True


def _symkey(k):
    return type(k) in SYMT or type(k) is tuple and any(type(x) in SYMT for x in k)


def _haskeysym(d):
    for k in d:
        if type(k) in SYMT or type(k) is tuple and any(type(x) in SYMT for x in k):
            return True
    return False


_DICT_KEYED = {"get", "pop", "setdefault", "__getitem__", "__contains__", "__setitem__", "move_to_end"}


def enum_ctor(cls, x):
    if issubclass(cls, enum.Flag):
        return x
    for m in cls:
        if isinstance(m.value, int) == isinstance(x, int):
            if x == m.value:
                return m
    raise ValueError(f"{plain(x)!r} is not a valid {cls.__qualname__}")


WORK = 0
LIMIT = 10 ** 9
DEFAULT_LIMIT = 600000


def arm_budget(on, limit=None):
    """work budget (instrumented calls) of the code under test until disarmed"""
    global WORK, LIMIT
    if on:
        WORK = 0
        LIMIT = limit or DEFAULT_LIMIT
    else:
        LIMIT = 10 ** 12


ALLOC = 512


def sx_alloc(n):
    """n octets (or items) are allocated at once"""
    global WORK
    if n > (LIMIT - WORK) * ALLOC:
        if n >= 2 << 30:
            raise OverflowError("too large") if n >= 1 << 63 else MemoryError()
        WORK = 0
        raise core.Hang("work budget exceeded by an allocation")
    WORK += plain(n) // ALLOC if n > 0 else 0


def _fnarg(f):
    """a modelled callable handed to a higher-order function"""
    try:
        if f in ALWAYS or f in ONSYM or type(f) is MethodDescr:
            return functools.partial(sx_call, f)
    except TypeError:
        pass
    return f


HIGHER = {map, filter, functools.partial, functools.reduce, itertools.starmap, itertools.takewhile, itertools.dropwhile,
          itertools.filterfalse}
KEYED = {sorted, min, max}


def sx_tick():
    """one iteration of a loop"""
    global WORK
    WORK += 1
    if WORK > LIMIT:
        WORK = 0
        raise core.Hang("work budget exceeded")


def sx_call(f, *a, **k):
    global WORK
    WORK += 1
    if WORK > LIMIT:
        WORK = 0
        raise core.Hang("work budget exceeded")
    t = type(f)
    if t is FunctionType or t is MethodType:
        if anysym(a, k):
            m = PYMODELS.get(f)
            if m is not None:
                return m(*a, **k)
        return f(*a, **k)
    try:
        m = ALWAYS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if t is type or t is BuiltinType:
        if f in HIGHER and a:
            return f(_fnarg(a[0]), *a[1:], **k)
        if "key" in k and f in KEYED:
            k["key"] = _fnarg(k["key"])
    if t is BuiltinType or t is MethodWrapper:
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType) and not isinstance(s, type):
            return call_method(f, s, f.__name__, a, k)
    sym = anysym(a, k)
    if not sym:
        try:
            deep = f in DEEP
        except TypeError:
            deep = False
        if deep and a:
            return ONSYM[f](*a, **k) if f in ONSYM else f(*a, **k)
        return f(*a, **k)
    if isinstance(f, EnumType) and len(a) == 1:
        return enum_ctor(f, a[0])
    try:
        m = ONSYM.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if t is MethodDescr:
        # str.upper(x) style
        if a and is_sym(a[0]):
            n = f.__name__
            return getattr(a[0], n)(*a[1:], **k)
        if a:
            return call_method(getattr(a[0], f.__name__), a[0], f.__name__, a[1:], k)
    try:
        ok = f in NATIVE_OK
    except TypeError:
        ok = True
    if t is BuiltinType and not ok:
        note("builtin " + getattr(f, "__name__", "?"))
    return f(*a, **k)


def call_method(f, s, name, a, k):
    """bound builtin method of a concrete (or symbolic, not overridden) object"""
    ts = type(s)
    if type(s) in SYMT:
        if name not in ("__init__",):
            note(f"{ts.__name__}.{name} not modelled")
            pin(s)
            return getattr(plain(s), name)(*[pin(x) for x in a], **k)
        return f(*a, **k)
    if ts is bytes or ts is bytearray:
        if name == "join":
            parts = list(a[0])
            if any(type(p) in SYMT for p in parts):
                return V.rjoin_bytes(s, parts)
            return f(parts)
        if anysym(a, k):
            if ts is bytes:
                return getattr(V.SymBytes(s, [("L", list(s))]), name)(*a, **k)
            if name in ("extend", "append"):
                note("concrete bytearray extended with symbols")
            return f(*[pin(x) for x in a], **k)
        return f(*a, **k)
    if ts is str:
        if name == "join":
            parts = list(a[0])
            if any(isinstance(p, SymStr) for p in parts):
                return V.rjoin_str(s, parts)
            return f(parts)
        if name == "format" and (deepsym(a) or deepsym(k)):
            return str_format(s, a, k)
        if anysym(a, k):
            return getattr(SymStr(s, [("L", [ord(c) for c in s])] if s else []), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, (dict, types.MappingProxyType)) and name in _DICT_KEYED and a:
        key = a[0]
        if _symkey(key) or (len(s) < 64 and _haskeysym(s)):
            hit, kk = _resolve_key(s, key)
            if not hit and type(key) in SYMT and any(not type(x) in SYMT and x == plain(key) for x in ()):
                pass
            return f(kk, *a[1:], **k)
        return f(*a, **k)
    if isinstance(s, (set, frozenset)) and name in ("add", "discard", "remove", "__contains__") and a:
        key = a[0]
        if _symkey(key) or _haskeysym(s):
            hit, kk = _resolve_key(s, key)
            return f(kk)
        return f(*a, **k)
    if ts is set and name == "update":
        for it in a:
            for x in it:
                if _symkey(x) or _haskeysym(s):
                    hit, x = _resolve_key(s, x)
                s.add(x)
        return None
    if isinstance(s, re.Pattern) and anysym(a, k):
        return rx.pattern_method(s, name, a, k)
    if ts is list and name in ("index", "count", "remove") and (anysym(a) or deepsym(s)):
        return f(*a, **k)     # uses == -> forks
    if isinstance(s, int) and name == "to_bytes" and anysym(a, k):
        return f(*[pin(x) for x in a], **{n: pin(v) for n, v in k.items()})
    return f(*a, **k)


def str_format(s, a, k):
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            note("str.format complex field")
            return s.format(*[pin(x) for x in a], **{n: pin(v) for n, v in k.items()})
        if conv == "r":
            v = m_repr(v)
        elif conv == "s":
            v = m_str(v)
        out.append(m_format(v, spec or ""))
    return V.rjoin_str("", out)


def sx_fstr(*parts):
    """parts: str or (value, conv, spec)"""
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = m_repr(v)
            elif conv == 115:
                v = m_str(v)
            elif conv == 97:
                v = ascii(v)
            if type(v) in SYMT:
                p = V.sformat(v, spec)
            elif isinstance(v, BaseException) and not spec:
                p = m_str(v)
            else:
                p = format(v, plain(spec) if isinstance(spec, SymStr) else spec)
        if isinstance(p, SymStr):
            sym = True
        out.append(p)
    if not sym:
        return "".join(out)
    return V.rjoin_str("", out)


def sx_contains(item, c):
    """item in c"""
    si = type(item) in SYMT
    if type(c) is SymInt:
        item = as_num(item)
        return (c & item) == item
    if type(c) in SYMT:
        if type(item) is SymInt or type(item) in SYMT or True:
            if isinstance(c, (SymBytes, SymByteArray)) and isinstance(item, int):
                ts = [teq(x, item) if type(x) is SymInt else (teq(item, x) if type(item) is SymInt else x == item)
                      for x in V.bfull(c)]
                return _or(ts, int(item) in plain(c))
            return item in c
    if si:
        tc = type(c)
        if isinstance(c, (set, frozenset, dict, list, tuple)) or tc in (type({}.keys()), type({}.values())):
            ts = []
            v = False
            pv = plain(item)
            for x in c:
                if not _cmpable(x, item):
                    continue
                e = (item == x)
                if e is True:
                    return True
                if type(e) is SymBool:
                    ts.append(e.t)
                    v = v or e.v
            return _or(ts, v)
        if isinstance(c, range):
            if c.step == 1:
                return (item >= c.start) & (item < c.stop) if type(item >= c.start) is SymBool and \
                    type(item < c.stop) is SymBool else bool(item >= c.start) and bool(item < c.stop)
        if isinstance(c, (bytes, bytearray)) and type(item) is SymInt:
            return _or([teq(item, x) for x in set(c)], int(item) in c)
        if isinstance(c, str) and isinstance(item, SymStr):
            its = V.sfull(item)
            if len(its) == 1:
                return _or([teq(its[0], ord(x)) for x in set(c)], plain(item) in c)
            return item in SymStr(c, ssegs_of(c))
        if isinstance(c, enum.Flag):
            item = as_num(item)
            return (item & int(c)) == item
        if isinstance(c, EnumType):
            return sx_contains(item, [m.value for m in c])
        return item in c
    if isinstance(c, (list, tuple, set, frozenset, dict)) and len(c) < 64 and (_haskeysym(c) or type(item) is tuple and _symkey(item)):
        for x in c:
            if type(x) in SYMT:
                if _cmpable(item, x) and x == item:
                    return True
            elif x == item:
                return True
        return False
    return item in c


def _or(ts, v):
    if any(t is True for t in ts):
        return True
    ts = [t for t in ts if t is not False]
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0], v)


def sx_notin(item, c):
    return not_(sx_contains(item, c))


def sx_getitem(o, k):
    if type(k) in SYMT:
        if type(o) in SYMT:
            return o[k]
        if isinstance(o, (dict, types.MappingProxyType)):
            hit, kk = _resolve_key(o, k)
            return o[kk]
        if isinstance(o, EnumType):
            for n, m in o.__members__.items():
                if k == n:
                    return m
            raise KeyError(plain(k))
        if isinstance(o, (list, tuple, bytes, bytearray, str)) and type(k) is SymInt:
            n = len(o)
            if not (k >= -n and k < n):
                raise IndexError("index out of range")
            if isinstance(o, (bytes, str)) and k.lo >= 0 and n <= 512:
                return _table(o, k)
            return o[pin(k)]
        return o[k]
    if isinstance(k, slice) and type(o) not in SYMT and (
            isinstance(k.start, SYM) or isinstance(k.stop, SYM) or isinstance(k.step, SYM)):
        if isinstance(o, bytes):
            return SymBytes(o, segs_of(o))[k]
        if isinstance(o, str):
            return SymStr(o, ssegs_of(o))[k]
        n = len(o)
        a, b = V._slice_bounds(k, n)
        return o[pin(a):pin(b):pin(k.step)]
    if isinstance(o, dict) and o and len(o) < 64 and (_haskeysym(o) or type(k) is tuple and _symkey(k)):
        hit, kk = _resolve_key(o, k) if type(k) is tuple else _resolve_key_conc(o, k)
        return o[kk]
    return o[k]


def _table(o, k):
    n = len(o)
    isb = isinstance(o, bytes)
    vals = list(o) if isb else [ord(c) for c in o]
    hi = max(vals)
    lo = min(vals)
    w = V.need(lo, hi)
    e = z3.BitVecVal(vals[-1], w)
    for i in range(n - 2, -1, -1):
        e = z3.If(k.t == z3.BitVecVal(i, k.t.size()), z3.BitVecVal(vals[i], w), e)
    r = mkint(vals[int(k)], e, lo, hi)
    return r if isb else mkstr([("L", [r])])


def _resolve_key_conc(d, key):
    for k in list(d):
        if type(k) in SYMT:
            if _cmpable(key, k) and k == key:
                return True, k
        elif k is key or k == key:
            return True, k
    return False, key


def sx_setitem(o, k, v):
    if isinstance(o, dict) and type(o) not in SYMT:
        if _symkey(k):
            hit, k = _resolve_key(o, k)
        elif o and len(o) < 64 and _haskeysym(o):
            hit, k = _resolve_key_conc(o, k)
        o[k] = v
        return
    if type(k) in SYMT and type(o) not in SYMT:
        if isinstance(o, (list, bytearray)):
            n = len(o)
            if not (k >= -n and k < n):
                raise IndexError("assignment index out of range")
            k = pin(k)
    o[k] = v


def sx_delitem(o, k):
    if isinstance(o, dict):
        if _symkey(k):
            hit, k = _resolve_key(o, k)
        elif o and len(o) < 64 and _haskeysym(o):
            hit, k = _resolve_key_conc(o, k)
        del o[k]
        return
    if type(k) in SYMT and type(o) not in SYMT:
        k = pin(k)
    del o[k]


_OPS = {
    "+": (operator.add, "__radd__", operator.iadd), "-": (operator.sub, "__rsub__", operator.isub),
    "*": (operator.mul, "__rmul__", operator.imul), "//": (operator.floordiv, "__rfloordiv__", operator.ifloordiv),
    "%": (operator.mod, "__rmod__", operator.imod), "&": (operator.and_, "__rand__", operator.iand),
    "|": (operator.or_, "__ror__", operator.ior), "^": (operator.xor, "__rxor__", operator.ixor),
    "<<": (operator.lshift, "__rlshift__", operator.ilshift), ">>": (operator.rshift, "__rrshift__", operator.irshift),
}


def sx_binop(op, a, b):
    f = _OPS[op]
    if type(b) in SYMT or (op == "%" and isinstance(a, (str, bytes))):
        if op == "%" and isinstance(a, str) and (deepsym(b) or isinstance(a, SymStr)):
            return V.fmt_percent(a, b)
        if type(b) in (SymInt, SymBool):
            if isinstance(a, enum.Enum) and isinstance(a, int):
                return f[0](int(a.value), as_num(b))
            if type(b) is SymBool and isinstance(a, int):
                if type(a) is bool and op in "&|^":
                    return f[0](b, a)
                return f[0](a, b.as_int())
            if op == "*" and isinstance(a, (bytes, str, list, tuple)) and not type(a) in SYMT:
                sx_alloc(b * len(a))
                return a * pin(b)
        elif isinstance(b, (SymBytes, SymByteArray)) and isinstance(a, (bytes, bytearray)) and op == "+" \
                and not type(a) in SYMT:
            return b.__radd__(a)
        elif isinstance(b, SymStr) and type(a) is str and op == "+":
            return b.__radd__(a)
        elif isinstance(b, V.SymTimedelta) and not type(a) in SYMT:
            r = getattr(b, f[1], None)
            if r is not None:
                x = r(a)
                if x is not NotImplemented:
                    return x
    elif type(a) is SymInt and isinstance(b, enum.Enum) and isinstance(b, int):
        return f[0](a, int(b.value))
    return f[0](a, b)


def sx_iop(op, a, b):
    if type(b) in SYMT or type(a) in SYMT:
        if isinstance(a, bytearray) and op == "+":
            if isinstance(a, SymByteArray):
                a.extend(b)
                return a
        elif isinstance(a, list):
            return _OPS[op][2](a, b)
        else:
            return sx_binop(op, a, b)
    return _OPS[op][2](a, b)


_CMP = {"==": (operator.eq, operator.eq), "!=": (operator.ne, operator.ne), "<": (operator.lt, operator.gt),
        "<=": (operator.le, operator.ge), ">": (operator.gt, operator.lt), ">=": (operator.ge, operator.le)}


def sx_cmp(op, a, b):
    if type(b) in SYMT and not type(a) in SYMT:
        return _CMP[op][1](b, a)
    if type(a) is SymInt and isinstance(b, enum.Enum) and isinstance(b, int):
        b = int(b.value)
    if op in ("==", "!=") and type(a) in (tuple, list) and type(b) is type(a) and (deepsym(a) or deepsym(b)):
        if len(a) != len(b):
            return op == "!="
        r = all(bool(sx_cmp("==", x, y)) for x, y in zip(a, b))
        return r if op == "==" else not r
    return _CMP[op][0](a, b)


def sx_is(a, c, neg):
    if type(a) is SymBool and (c is True or c is False):
        r = a == c
        return not_(r) if neg else r
    return (a is not c) if neg else (a is c)


PYMODELS = {re.match: rx.m_match, re.search: rx.m_search, re.fullmatch: rx.m_fullmatch, re.sub: rx.m_sub,
            re.findall: rx.m_findall, re.finditer: rx.m_finditer, re.split: rx.m_split, re.escape: rx.m_escape,
            re.compile: rx.m_compile, re.subn: rx.m_subn}

ENTERED = set()


sx_enter = ENTERED.add

NAMES = {"sx_enter": sx_enter, "sx_tick": sx_tick, "sx_call": sx_call, "sx_fstr": sx_fstr, "sx_contains": sx_contains, "sx_notin": sx_notin,
         "sx_getitem": sx_getitem, "sx_setitem": sx_setitem, "sx_delitem": sx_delitem, "sx_binop": sx_binop,
         "sx_iop": sx_iop, "sx_cmp": sx_cmp, "sx_is": sx_is}

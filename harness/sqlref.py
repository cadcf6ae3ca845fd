"""Reference lexer for MySQL text, written from the manual (default sql_mode); works on symbolic strings."""
from harness.world import check, fail


def isspace(c):
    return c == " " or c == "\t" or c == "\n" or c == "\r" or c == "\x0b" or c == "\x0c"


def scan(sql, n=None):
    """positions of placeholders; second result: whether the text ends outside of quotes and block comments"""
    n = len(sql) if n is None else n
    i = 0
    pos = []
    while i < n:
        c = sql[i]
        if c == "?":
            pos.append(i)
            i += 1
        elif c == "'" or c == '"':
            q = c
            i += 1
            closed = False
            while i < n:
                c = sql[i]
                if c == "\\":
                    i += 2
                    continue
                if c == q:
                    if i + 1 < n and sql[i + 1] == q:
                        i += 2
                        continue
                    closed = True
                    i += 1
                    break
                i += 1
            if not closed:
                return pos, False
        elif c == "`":
            i += 1
            closed = False
            while i < n:
                if sql[i] == "`":
                    closed = True
                    i += 1
                    break
                i += 1
            if not closed:
                return pos, False
        elif c == "#" or c == "-" and i + 1 < n and sql[i + 1] == "-" and (i + 2 >= n or isspace(sql[i + 2])):
            while i < n and not sql[i] == "\n":
                i += 1
        elif c == "/" and i + 1 < n and sql[i + 1] == "*":
            i += 2
            closed = False
            while i + 1 < n:
                if sql[i] == "*" and sql[i + 1] == "/":
                    closed = True
                    i += 2
                    break
                i += 1
            if not closed:
                return pos, False
        else:
            i += 1
    return pos, True


ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}


def string_literal(sql, i):
    """value of the string literal at i: (list of characters, end)"""
    n = len(sql)
    q = sql[i]
    check(q == "'" or q == '"', "no string literal where the value was expected", sql)
    q = "'" if q == "'" else '"'
    i += 1
    out = []
    while True:
        check(i < n, "unterminated string literal", sql)
        c = sql[i]
        if c == "\\":
            check(i + 1 < n, "unterminated string literal", sql)
            d = sql[i + 1]
            done = False
            for k in ESC:
                if d == k:
                    out.append(ESC[k])
                    done = True
                    break
            if not done:
                if d == "%" or d == "_":
                    out.append("\\")
                out.append(d)
            i += 2
        elif c == q:
            if i + 1 < n and sql[i + 1] == q:
                out.append(q)
                i += 2
            else:
                return out, i + 1
        else:
            out.append(c)
            i += 1


def word_end(sql, i):
    """end of the number / keyword at i (concrete punctuation around it)"""
    n = len(sql)
    j = i
    while j < n and not (sql[j] in " \t\n,();=<>*/#'\"`?" or sql[j] == "\r"):
        j += 1
    return j


def starts(sql, piece, i):
    k = len(piece)
    return len(sql) - i >= k and sql[i:i + k] == piece


def wordy(c):
    return ("a" <= c) & (c <= "z") | ("A" <= c) & (c <= "Z") | ("0" <= c) & (c <= "9") | (c == "_") | (c == "$") | (c > "\x7f")


def apart(sql, i, e, v):
    """the literal at i..e doesn't form one token (or a comment) with its neighbours"""
    string = isinstance(v, (str, Opaque))
    if i > 0:
        c = sql[i - 1]
        bad = wordy(c) | (c == "@")
        if string:
            bad = bad | (c == sql[i])
        else:
            bad = bad | (c == ".")
            if sql[i] == "-":
                bad = bad | (c == "-")
        check(not bad, "a parameter forms one token with the text in front of it", sql)
    if e < len(sql) and not string:
        c = sql[e]
        check(not (wordy(c) | (c == ".") | (c == "@")), "a parameter forms one token with the text behind it", sql)


def match_bound(sql, pieces, values):
    """sql is pieces[0] lit(values[0]) pieces[1] ... ; white space may surround a literal"""
    i = 0
    check(starts(sql, pieces[0], 0), "text in front of the first parameter is altered", sql)
    i = len(pieces[0])
    for k, v in enumerate(values):
        nxt = pieces[k + 1]
        if isinstance(v, int) and not isinstance(v, bool):
            w = str(v)                     # the usual form, compared as a whole
            if not starts(sql, w, i) and starts(sql, " " + w, i):
                i += 1
            if starts(sql, w, i):
                apart(sql, i, i + len(w), v)
                i += len(w)
                if not starts(sql, nxt, i) and starts(sql, " " + nxt, i):
                    i += 1
                check(starts(sql, nxt, i), "text behind a parameter is altered", sql)
                i += len(nxt)
                continue
        while i < len(sql) and sql[i] == " ":
            i += 1
        b = i
        i = literal(sql, b, v, nxt, k == len(values) - 1)
        apart(sql, b, b + len(sql[b:i].rstrip()) if not isinstance(v, (str, Opaque)) else i, v)
        while i < len(sql) and not starts(sql, nxt, i) and sql[i] == " ":
            i += 1
        check(starts(sql, nxt, i), "text behind a parameter is altered", sql)
        i += len(nxt)
    check(i == len(sql), "text is appended", sql)


def literal(sql, i, v, nxt, last):
    if isinstance(v, Opaque):
        v = v.s
        w = "'" + v + "'"
        check(starts(sql, w, i) or starts(sql, '"' + v + '"', i), "string parameter is altered")
        return i + len(w)
    if isinstance(v, str):
        chars, e = string_literal(sql, i)
        check(len(chars) == len(v), "string parameter is altered", (sql, v))
        for a in range(len(chars)):
            check(chars[a] == v[a], "string parameter is altered", (sql, v))
        return e
    # number or keyword: ends where the next piece begins
    if len(nxt) == 0 and not last:
        j = sql.find(" ", i)
        check(j > i, "no literal for a parameter", sql)
    elif len(nxt):
        j = sql.find(nxt, i + 1)
        check(j > i, "no literal for a parameter, or text behind it is altered", sql)
    else:
        j = len(sql)
    t = sql[i:j].strip()
    if v is None:
        check(t.upper() == "NULL", "NULL parameter is not NULL", sql)
    elif isinstance(v, float):
        check(t.lower() not in ("nan", "inf", "-inf"), "not a literal", sql)
        check(float(t) == v, "float parameter denotes another value", (sql, v))
    else:
        if t == "TRUE" or t == "FALSE":
            check(int(t == "TRUE") == v, "boolean parameter", sql)
        else:
            check(int(t) == v, "integer parameter denotes another value", (sql, v))
    return j


class Opaque:
    """a string of letters compared as a whole"""

    def __init__(self, s):
        self.s = s


def split(sql):
    """pieces of a template around its placeholders"""
    pos, ok = scan(sql)
    out = []
    e = 0
    for p in pos:
        out.append(sql[e:p])
        e = p + 1
    out.append(sql[e:])
    return out

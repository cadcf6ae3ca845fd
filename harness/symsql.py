"""SQL text with symbolic literals and names.

sqlglot is not encoded: it parses the text with place-holders, which are replaced by the symbolic values in the parsed
expressions.  Assumption: how sqlglot parses the text doesn't depend on the contents of a literal or a quoted name.
Plain runs parse the text itself."""
from sqlglot import expressions as exp
from sqlglot.dialects import MySQL

REG = {}


def concrete(x):
    from sx.values import plain
    return plain(x)


def fill(v, subst):
    if v in subst:
        return subst[v]
    out = None
    while True:
        best = -1
        for k in subst:
            i = v.find(k)
            if i >= 0 and (best < 0 or i < best):
                best, key = i, k
        if best < 0:
            return v if out is None else out + v
        out = ("" if out is None else out) + v[:best] + subst[key]
        v = v[best + len(key):]


class SymMySQL(MySQL):
    def parse(self, sql, **opts):
        hit = REG.get(concrete(sql))
        if hit is None:
            return super().parse(sql, **opts)
        text, subst = hit
        out = super().parse(text, **opts)
        for e in out:
            if e is not None:
                for node in list(e.find_all(exp.Literal, exp.Identifier, exp.Var)):
                    v = node.args.get("this")
                    if type(v) is str:
                        node.args["this"] = fill(v, subst)
        return out


class Sql:
    def __init__(self, P):
        self.P = P
        self.n = 0
        self.dialect = SymMySQL if P.symbolic else MySQL
        REG.clear()

    def reset(self):
        REG.clear()

    def make(self, template, **vals):
        """text of the statement; {name} in the template stands for a number, or for (part of) the contents of quotes.
        A sign of numbers belongs to the template."""
        if not self.P.symbolic:
            return template.format(**{k: str(v) for k, v in vals.items()})
        real = ""
        subst = {}
        names = {}
        rest = template
        place = ""
        while True:
            i = rest.find("{")
            if i < 0:
                real = real + rest
                place = place + rest
                break
            j = rest.index("}", i)
            k = rest[i + 1:j]
            v = vals[k]
            if k not in names:
                self.n += 1
                names[k] = "98%06d" % self.n if isinstance(v, int) else "zq%06d" % self.n
                subst[names[k]] = str(v)
            real = real + rest[:i] + str(v)
            place = place + rest[:i] + names[k]
            rest = rest[j + 1:]
        REG[concrete(real)] = (place, subst)
        return real

"""Registration of cases: a case is a concrete shape whose remaining inputs are symbolic."""
CASES = []


class Case:
    def __init__(self, name, fn, weight=1.0, max_paths=4000, maxconds=1500, tier="quick", query_ms=4000, bounds="",
                 limit=None):
        self.name = name
        self.fn = fn
        self.weight = weight
        self.max_paths = max_paths
        self.maxconds = maxconds
        self.tier = tier
        self.query_ms = query_ms
        self.bounds = bounds
        self.limit = limit


def case(name, **kw):
    def deco(fn):
        CASES.append(Case(name, fn, **kw))
        return fn
    return deco


def add(name, fn, **kw):
    CASES.append(Case(name, fn, **kw))

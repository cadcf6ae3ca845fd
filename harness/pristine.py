"""The state of the modules under test as it was before the first server: each World starts from it, as in a fresh process.
(Contents of containers of modules, classes, defaults and instances; caches of functools. Bindings of functions and classes are left alone.)"""
import collections
import functools
import sys

KINDS = (dict, list, set, collections.deque, collections.defaultdict, collections.OrderedDict, bytearray)
SIMPLE = (int, float, str, bytes, bool, type(None), tuple, frozenset)
DEPTH = 4
_saved = None


def mine(x):
    return getattr(x, "__module__", None) is not None and str(getattr(x, "__module__")).split(".")[0] == "mysql_mimic"


def items(x):
    return list(x.items()) if isinstance(x, dict) else list(x)


def same(x, old):
    now = items(x)
    if len(now) != len(old):
        return False
    if isinstance(x, dict):
        return all(a[0] is b[0] and a[1] is b[1] for a, b in zip(now, old))
    if isinstance(x, set):
        return {id(a) for a in now} == {id(b) for b in old}
    return all(a is b for a, b in zip(now, old))


class Snapshot:
    def __init__(self):
        self.containers = []       # (container, items)
        self.bindings = []         # (namespace owner, name, value)
        self.objects = []          # (instance, copy of its dict)
        self.caches = []
        self.seen = set()
        for name, m in list(sys.modules.items()):
            if m is not None and (name == "mysql_mimic" or name.startswith("mysql_mimic.")):
                for k, v in list(vars(m).items()):
                    if not k.startswith("__"):
                        self.bind(m, k, v)

    def bind(self, owner, k, v, depth=0):
        if type(v) in KINDS or type(v) in SIMPLE:
            self.bindings.append((owner, k, v))
        self.value(v, depth)

    def value(self, v, depth):
        if id(v) in self.seen or depth > DEPTH or type(v) in SIMPLE and type(v) is not tuple:
            return
        self.seen.add(id(v))
        t = type(v)
        if t is tuple:
            for x in v[:50]:
                self.value(x, depth + 1)
        elif t in KINDS:
            self.containers.append((v, items(v)))
            if t is not bytearray and len(v) < 2000:
                for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                    self.value(x, depth + 1)
        elif isinstance(v, type):
            if mine(v) and not hasattr(v, "_member_map_"):
                for k, x in list(vars(v).items()):
                    if not k.startswith("__") and k != "_abc_impl":
                        self.bind(v, k, x, depth + 1)
        elif hasattr(v, "cache_clear"):
            self.caches.append(v)
        elif hasattr(v, "__func__"):
            self.value(v.__func__, depth)
        elif callable(v) and hasattr(v, "__defaults__"):
            if mine(v):
                for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                    self.value(x, depth + 1)
                for c in v.__closure__ or ():
                    try:
                        self.value(c.cell_contents, depth + 1)
                    except ValueError:
                        pass
                if v.__dict__:
                    self.value(v.__dict__, depth + 1)
        elif mine(t) and hasattr(v, "__dict__") and not hasattr(t, "_member_map_"):
            self.objects.append((v, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self.value(x, depth + 1)

    def restore(self):
        for owner, k, v in self.bindings:
            if vars(owner).get(k, self) is not v:
                setattr(owner, k, v)
        for x, old in self.containers:
            if not same(x, old):
                x.clear()
                (x.update if isinstance(x, (dict, set)) else x.extend)(old)
        for v, d in self.objects:
            if not same(v.__dict__, list(d.items())):
                v.__dict__.clear()
                v.__dict__.update(d)
        for c in self.caches:
            c.cache_clear()


def restore():
    global _saved
    if _saved is None:
        _saved = Snapshot()
    else:
        _saved.restore()


def stats():
    return len(_saved.bindings), len(_saved.containers), len(_saved.objects), len(_saved.caches)

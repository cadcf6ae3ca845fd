"""Path exploration: branch recording, solver-driven generation of new inputs."""
from __future__ import annotations
import heapq, time, sys, os
import z3

_ctx = z3.main_ctx()


from harness.base import StopPath, Violation, Hang


class Run:
    """State of one concolic run."""
    __slots__ = ("given", "inputs", "conds", "known", "maxconds", "domain", "notes", "pins", "aborted",
                 "queries", "solver_s", "fresh", "deadline", "aux", "h", "hashes")

    def __init__(self, given, maxconds=600):
        self.given = given            # name -> concrete value chosen by the solver
        self.inputs = {}              # name -> (z3 var, kind, value)
        self.conds = []               # (term, outcome, site, flippable)
        self.known = {}               # ast id -> (term, outcome)
        self.domain = []              # constraints always true
        self.hashes = []
        self.maxconds = maxconds
        self.notes = {}
        self.pins = 0
        self.aborted = None
        self.fresh = 0
        self.aux = {}
        self.h = 0


RUN: Run | None = None
SYMBOLIC = True     # False in plain replay mode (never with this module loaded, but harmless)


def cur():
    return RUN


def note(what):
    if RUN is not None:
        RUN.notes[what] = RUN.notes.get(what, 0) + 1


_SKIP = ("/verif/sx/", "sx/values.py", "sx/core.py", "sx/hooks.py", "sx/rx.py")
_SXDIR = os.path.dirname(os.path.abspath(__file__))


def _site():
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if not fn.startswith(_SXDIR):
            return (fn, f.f_lineno)
        f = f.f_back
    return ("?", 0)


def branch(term, outcome, flippable=True):
    """Record that `term` (z3 Bool) evaluated to `outcome` under the current inputs."""
    r = RUN
    if r is None or r.aborted:
        return outcome
    if z3.is_true(term) or z3.is_false(term):
        return outcome
    k = term.get_id()
    if k in r.known:
        return outcome
    s = z3.simplify(term)
    if z3.is_true(s) or z3.is_false(s):
        r.known[k] = (term, outcome)
        return outcome
    k2 = s.get_id()
    if k2 in r.known:
        r.known[k] = (term, outcome)
        return outcome
    r.known[k] = (term, outcome)
    r.known[k2] = (s, outcome)
    r.conds.append((s, outcome, _site(), flippable))
    if CONDDBG:
        note("cond " + _where())
    r.h = hash((r.h, k2, outcome))
    if len(r.conds) > r.maxconds:
        r.aborted = "maxconds"          # the rest of the run is concrete: it may still hang or violate
    return outcome


PINS = {}
SLOW = float(os.environ.get("SX_SLOW", "0"))
CONDDBG = bool(os.environ.get("SX_CONDS"))
PINDBG = bool(os.environ.get("SX_PINS"))
PIN_CAP = 300


def _where():
    """innermost frames outside of the engine (debugging aid)"""
    import sys
    f = sys._getframe(2)
    out = []
    while f is not None and len(out) < 3:
        fn = f.f_code.co_filename
        if "/sx/" not in fn or not out and False:
            out.append("%s:%d" % (os.path.basename(fn), f.f_lineno))
        f = f.f_back
    return "<".join(out)


def pin_terms(pairs):
    """pairs: [(bv term, concrete int)].  Concretize the tuple; alternatives are enumerated by flips."""
    r = RUN
    if r is None or not pairs:
        return
    r.pins += 1
    if PINDBG:
        note("pin at " + _where())
    key = (r.h, tuple(t.get_id() for t, _ in pairs))
    vals = tuple(v for _, v in pairs)
    ent = PINS.get(key)
    if ent is None:
        ent = PINS[key] = ([], [t for t, _ in pairs])      # keeps the terms (ids) alive
    lst = ent[0]
    if vals not in lst:
        lst.append(vals)
    for i, vs in enumerate(lst):
        eqs = [t == z3.BitVecVal(v, t.size()) for (t, _), v in zip(pairs, vs)]
        c = z3.And(*eqs) if len(eqs) > 1 else eqs[0]
        flip = i < PIN_CAP
        if not flip:
            note("pin cap reached")
        if branch(c, vs == vals, flip):
            return


def assume(x):
    """Assume a (Sym)bool; abandon the path when concretely false."""
    if not bool(x):
        raise StopPath()


class Result:
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.assumed_out = 0
        self.branches = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.divergences = 0
        self.pins = 0
        self.notes = {}
        self.aborted = 0
        self.exhausted = False
        self.left = 0
        self.violations = []    # (given inputs, msg, detail)
        self.samples = []
        self.wall = 0.0
        self.sites = set()

    def todict(self):
        d = dict(self.__dict__)
        d["sites"] = len(self.sites)
        return d


def _model_value(m, var, kind):
    v = m.eval(var, model_completion=True)
    if kind[0] == "bool":
        return bool(z3.is_true(v))
    if kind[0] == "int":
        # (int, lo, hi, width) : signed bit-vector
        return v.as_signed_long()
    if kind[0] == "ubv":
        return v.as_long()
    raise TypeError(kind)


def explore(fn, max_paths=1000, time_s=60.0, query_ms=3000, seed=1, maxconds=600, stop_on_violation=True,
            max_samples=6, inputs0=None, on_path=None, triage=None):
    """Explore fn() (which draws inputs through values.Provider)."""
    global RUN
    PINS.clear()
    res = Result()
    t0 = time.time()
    heap = [(0, 0, dict(inputs0 or {}), 0, None)]
    n = 0
    seen_sites = {}
    while heap:
        if res.paths >= max_paths or time.time() - t0 > time_s:
            break
        _, _, given, bound, expect = heapq.heappop(heap)
        run = Run(given, maxconds=maxconds)
        RUN = run
        viol = None
        try:
            ret = fn()
            res.completed += 1
        except StopPath:
            ret = None
            res.assumed_out += 1
        except Violation as e:
            viol = e
            ret = None
        except Hang as e:
            viol = Violation("the server does not come to rest: " + str(e))
            ret = None
        except (MemoryError, RecursionError) as e:
            viol = Violation("unexpected " + repr(e)[:300])
            ret = None
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            viol = Violation("unexpected " + repr(e)[:300], ["%s:%d" % (f.filename, f.lineno) for f in tb[-6:]])
            ret = None
        finally:
            RUN = None
        res.paths += 1
        if run.aborted:
            res.aborted += 1
        res.pins += run.pins
        for k, v in run.notes.items():
            res.notes[k] = res.notes.get(k, 0) + v
        vals = {k: v[2] for k, v in run.inputs.items()}
        if on_path is not None:
            on_path(vals, viol, ret)
        if viol is not None:
            verdict = triage(vals, viol) if triage is not None else "violation"
            if verdict == "violation":
                res.violations.append((vals, viol.msg, viol.detail))
                if stop_on_violation:
                    break
        elif ret is not None and (len(res.samples) < max_samples):
            res.samples.append((vals, ret))
        elif ret is not None and max_samples:
            # reservoir-like deterministic replacement to spread the samples
            if res.completed % (7 + len(res.samples)) == 0:
                res.samples[res.completed % len(res.samples)] = (vals, ret)
        # divergence check
        if expect is not None:
            eidx, eterm, eout = expect
            ok = eidx < len(run.conds) and run.conds[eidx][1] == eout and \
                run.conds[eidx][0].get_id() == eterm.get_id()
            if not ok:
                # maybe the condition is entailed elsewhere
                kk = run.known.get(eterm.get_id())
                if not (kk and kk[1] == eout):
                    res.divergences += 1
                    if len(run.conds) <= eidx:
                        bound = min(bound, len(run.conds))
        res.branches += max(0, len(run.conds) - bound)
        # generate children
        s = z3.Solver()
        s.set("timeout", query_ms)
        for d in run.domain:
            s.add(d)
        conds = run.conds
        for i, (t, out, site, flip) in enumerate(conds):
            lit = t if out else z3.Not(t)
            neg = z3.Not(t) if out else t
            if i >= bound and flip:
                key = (site, out)
                res.sites.add(site)
                q0 = time.time()
                s.push()
                s.add(neg)
                r = s.check()
                res.queries += 1
                if r == z3.sat:
                    m = s.model()
                    new = dict(vals)
                    for name, (var, kind, val) in run.inputs.items():
                        if var is None:
                            continue
                        new[name] = _model_value(m, var, kind)
                    cnt = seen_sites.get(key, 0) + 1
                    seen_sites[key] = cnt
                    n += 1
                    heapq.heappush(heap, (cnt, n, new, i + 1, (i, t, not out)))
                    res.sat += 1
                elif r == z3.unsat:
                    res.unsat += 1
                else:
                    res.unknown += 1
                s.pop()
                res.solver_s += time.time() - q0
                if SLOW and time.time() - q0 > SLOW:
                    print("SLOW %.1fs %s %s\n     %s" % (time.time() - q0, r, site, str(t)[:600].replace("\n", " ")), flush=True)
                if time.time() - t0 > time_s * 1.3 + 5:
                    res.aborted += 1
                    break
            s.add(lit)
    res.left = len(heap)
    res.exhausted = not heap and not res.violations and res.unknown == 0 and res.aborted == 0
    res.wall = time.time() - t0
    return res

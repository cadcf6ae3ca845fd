#!/usr/bin/env python3
"""Replay counterexamples / sampled paths on the plain, uninstrumented code of /repo.
usage: replay.py FILE            one counterexample; exit 1 when the property is violated
       replay.py --batch FILE    JSON list of {property, case, inputs}; prints JSON results"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from harness import runner
runner.setup_plain(REPO)
from harness.base import StopPath, Violation, Hang
from harness.plainify import conv
from sx.plainprov import PlainProvider


def fresh():
    if "harness.world" in sys.modules:
        sys.modules["harness.world"].World.current = None


def find(prop, name):
    mod = importlib.import_module("harness." + prop.lower())
    for c in mod.CASES:
        if c.name == name:
            return c
    raise SystemExit("no such case: " + name)


def run(prop, name, inputs):
    c = find(prop, name)
    fresh()
    try:
        r = c.fn(PlainProvider(inputs))
        return {"status": "ok", "transcript": conv(r)}
    except StopPath:
        return {"status": "assumption"}
    except Violation as e:
        return {"status": "violation", "msg": str(e.msg), "detail": conv(e.detail)}
    except Hang as e:
        return {"status": "violation", "msg": "the server does not come to rest: " + str(e)}
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return {"status": "violation", "msg": "unexpected " + repr(e)[:300],
                "detail": ["%s:%d" % (f.filename, f.lineno) for f in tb[-6:]]}


def main():
    if sys.argv[1] == "--batch":
        with open(sys.argv[2]) as f:
            jobs = json.load(f)
        out = [run(j["property"], j["case"], j["inputs"]) for j in jobs]
        with open(sys.argv[2] + ".out", "w") as f:
            json.dump(out, f)
        return 0
    with open(sys.argv[1]) as f:
        j = json.load(f)
    r = run(j["property"], j["case"], j["inputs"])
    print("property", j["property"], "case", j["case"], "->", r["status"])
    for k in ("msg", "detail", "transcript"):
        if r.get(k) is not None:
            print(k + ":", json.dumps(r[k])[:4000])
    if r["status"] == "violation":
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

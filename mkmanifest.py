#!/usr/bin/env python3
"""(developer tool) write MANIFEST.json from the harness modules that exist"""
import ast, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(HERE, "harness", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    meta = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            meta = eval(compile(ast.Expression(n.value), f, "eval"))
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt run.py %s --tier quick" % p,
        "thorough_cmd": "python3-vt run.py %s --tier thorough" % p,
        "technique": "symbolic (concolic) execution of the real code with an SMT solver (z3), counterexamples replayed on the plain code",
        "level": "model_checking",
        "level_note": "Bounded: " + meta["bounds"] + ". Outside: " + meta["outside"] + ". The verdict is for every value within these bounds "
                      "where a case's path frontier was exhausted (see evidence: exhaustive, frontier_left, queries_unknown), otherwise for the "
                      "paths explored. Trusts the engine's models of str/bytes/int/struct/re operations, validated by replaying sampled paths "
                      "on the uninstrumented code.",
    })
d = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "DESIGN.md describes the engine, the bounds and the findings; known_findings.txt lists repaired and recorded defects."}
json.dump(d, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

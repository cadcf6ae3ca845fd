#!/usr/bin/env python3
"""Decide one property: symbolic exploration of all its cases, replay, evidence.
usage: run.py C05 [--tier quick|thorough] [--case NAME] [--time S] [-v]"""
import argparse, importlib, json, multiprocessing, os, resource, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
PY = sys.executable


def known_keys(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split()
            if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                out[w[2][4:]] = " ".join(w[3:])
    return out


def replay_one(prop, case, inputs, path):
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case, "inputs": inputs}, f, indent=1)
    bp = path + ".batch"
    with open(bp, "w") as f:
        json.dump([{"property": prop, "case": case, "inputs": inputs}], f)
    try:
        subprocess.run([PY, os.path.join(HERE, "replay.py"), "--batch", bp], stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, timeout=240)
        with open(bp + ".out") as f:
            return json.load(f)[0]
    except Exception as e:
        return {"status": "replay-failed", "msg": repr(e)}
    finally:
        for x in (bp, bp + ".out"):
            if os.path.exists(x):
                os.remove(x)


def fresh():
    """no server of an earlier run is left"""
    if "harness.world" in sys.modules:
        sys.modules["harness.world"].World.current = None


def worker(conn, prop, idx, time_s, seed, outdir, known):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        from sx import core, hooks
        from sx.provider import SymProvider
        from sx.values import plain
        from harness.plainify import conv
        mod = sys.modules["harness." + prop.lower()]
        c = mod.CASES[idx]
        if c.limit:
            hooks.DEFAULT_LIMIT = c.limit
        unconf, findings, confirmed = [], {}, []

        def triage(vals, viol):
            n = len(unconf) + len(confirmed) + sum(findings.values())
            path = os.path.join(outdir, "%s-%02d-%d.json" % (prop, idx, n))
            k = viol.msg.split(" ", 1)[0]
            if k.startswith("[") and k.endswith("]") and k[1:-1] in known:
                findings[k[1:-1]] = findings.get(k[1:-1], 0) + 1
                return "known"
            r = replay_one(prop, c.name, vals, path)
            if r["status"] == "violation":
                k = r["msg"].split(" ", 1)[0]
                if k.startswith("[") and k.endswith("]") and k[1:-1] in known:
                    findings[k[1:-1]] = findings.get(k[1:-1], 0) + 1
                    return "known"
                confirmed.append({"path": path, "msg": r["msg"], "detail": r.get("detail"), "inputs": vals,
                                  "symbolic_msg": viol.msg})
                return "violation"
            unconf.append({"path": path, "msg": viol.msg, "detail": conv(viol.detail, plain), "replay": r})
            return "unconfirmed" if len(unconf) < 8 else "violation"

        hooks.ENTERED.clear()

        def fn():
            fresh()
            return c.fn(SymProvider())
        res = core.explore(fn, max_paths=c.max_paths, time_s=time_s, query_ms=c.query_ms, seed=seed,
                           maxconds=c.maxconds, triage=triage)
        d = res.todict()
        d["samples"] = [(v, conv(t, plain)) for v, t in res.samples]
        d["violations"] = confirmed
        d["unconfirmed"] = unconf
        d["findings"] = findings
        d["entered"] = sorted(hooks.ENTERED)
        d["sitelist"] = sorted("%s:%d" % (os.path.basename(a), b) for a, b in res.sites if "/repo/" in a or "mysql_mimic" in a)
        conn.send(("ok", d))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--time", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    from harness import runner
    os.environ["VERIF_TIER"] = tier
    modname = "harness." + prop.lower()
    spec_opts = {}
    op = os.path.join(HERE, "harness", prop.lower() + ".opts.json")
    if os.path.exists(op):
        spec_opts = json.load(open(op))
    instrument = runner.setup_symbolic(REPO, spec_opts.get("instrument", ()))
    import sx.hooks
    mod = importlib.import_module(modname)
    known = known_keys(prop)
    cases = [(i, c) for i, c in enumerate(mod.CASES) if (tier == "thorough" or c.tier == "quick")
             and (a.case is None or a.case in c.name)]
    total = a.time or (mod.META.get("quick_s", 60) if tier == "quick" else mod.META.get("thorough_s", 600))
    wsum = sum(c.weight for _, c in cases)
    outdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(outdir, f))
    ctx = multiprocessing.get_context("fork")
    jobs = a.j
    pending = sorted(cases, key=lambda x: -x[1].weight)
    running = {}
    results = {}
    budget = {i: (max(3.0, total * min(jobs, len(cases)) * c.weight / wsum) if len(cases) > 1 else total) for i, c in cases}
    for i in budget:
        budget[i] = min(budget[i], total)
    stop = False
    while pending or running:
        while pending and len(running) < jobs and not stop:
            i, c = pending.pop(0)
            pr, pw = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(pw, prop, i, budget[i], seed, outdir, known))
            p.start()
            pw.close()
            running[i] = (p, pr, time.time(), c)
        if stop and not running:
            break
        for i in list(running):
            p, pr, ts, c = running[i]
            done = False
            if pr.poll(0.02):
                try:
                    st, d = pr.recv()
                except EOFError:
                    st, d = "error", "worker died"
                done = True
            elif not p.is_alive():
                st, d = "error", "worker died (exit %s)" % p.exitcode
                done = True
            elif time.time() - ts > budget[i] * 2.5 + 60:
                p.kill()
                st, d = "error", "worker overran its time"
                done = True
            if done:
                p.join(5)
                pr.close()
                del running[i]
                results[i] = (c, st, d)
                if a.v:
                    if st == "ok":
                        print("%-34s paths=%d branches=%d q=%d unsat=%d unk=%d left=%d ab=%d div=%d pins=%d ex=%s %.1fs(%.1f) viol=%d unconf=%d kf=%s %s" % (
                            c.name, d["paths"], d["branches"], d["queries"], d["unsat"], d["unknown"], d["left"], d["aborted"],
                            d["divergences"], d["pins"], d["exhausted"], d["wall"], d["solver_s"], len(d["violations"]),
                            len(d["unconfirmed"]), d["findings"], json.dumps(d["notes"])[:160]), flush=True)
                        for u in d["unconfirmed"][:2]:
                            print("   UNCONF", u["msg"][:300], str(u["detail"])[:300], u["replay"]["status"], str(u["replay"].get("msg"))[:200])
                        for u in d["violations"][:2]:
                            print("   VIOL", u["msg"][:500], str(u["detail"])[:600], "| inputs", str(u["inputs"])[:400])
                    else:
                        print(c.name, "ERROR", d)
                if st == "ok" and d["violations"]:
                    stop = stop or not a.v
        if stop:
            for i in list(running):
                p, pr, ts, c = running[i]
                p.kill()
                p.join(5)
                del running[i]
            pending = []
        time.sleep(0.01)
    # replay sampled paths on the plain code
    validated = mismatches = 0
    mism = []
    jobs_ = []
    for i, (c, st, d) in results.items():
        if st == "ok":
            for v, t in d["samples"]:
                jobs_.append((c.name, v, t))
    if jobs_ and not stop:
        chunks = [jobs_[k::4] for k in range(4)]
        procs = []
        for k, ch in enumerate(chunks):
            if not ch:
                continue
            f = os.path.join(outdir, "%s-batch%d" % (prop, k))
            with open(f, "w") as fh:
                json.dump([{"property": prop, "case": n, "inputs": v} for n, v, _ in ch], fh)
            procs.append((subprocess.Popen([PY, os.path.join(HERE, "replay.py"), "--batch", f],
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), f, ch))
        for p, f, ch in procs:
            try:
                _, err = p.communicate(timeout=300)
                out = json.load(open(f + ".out"))
            except Exception as e:
                p.kill()
                mism.append({"error": repr(e)})
                out = []
            for (n, v, t), r in zip(ch, out):
                if r["status"] == "ok" and json.dumps(r["transcript"]) == json.dumps(t):
                    validated += 1
                elif r["status"] == "violation" and r["msg"].startswith("["):
                    validated += 1
                else:
                    mismatches += 1
                    mism.append({"case": n, "inputs": v, "symbolic": str(json.dumps(t))[:1500], "plain": str(json.dumps(r))[:1500]})
            for x in (f, f + ".out"):
                if os.path.exists(x):
                    os.remove(x)
    viols, findings, errors, unconf = [], {}, [], []
    tot = {k: 0 for k in ("paths", "completed", "branches", "queries", "unsat", "sat", "unknown", "divergences", "pins", "aborted", "left", "assumed_out")}
    solver = 0.0
    entered, sites, notes = set(), set(), {}
    samples = []
    percase = {}
    for i, (c, st, d) in sorted(results.items()):
        if st != "ok":
            errors.append((c.name, d))
            continue
        for k in tot:
            tot[k] += d[k]
        solver += d["solver_s"]
        entered |= set(d["entered"])
        sites |= set(d["sitelist"])
        for k, v in d["notes"].items():
            notes[k] = notes.get(k, 0) + v
        viols += d["violations"]
        unconf += d["unconfirmed"]
        for k, v in d["findings"].items():
            findings[k] = findings.get(k, 0) + v
        percase[c.name] = {"paths": d["paths"], "branches": d["branches"], "unsat": d["unsat"], "sat": d["sat"], "unknown": d["unknown"],
                           "frontier_left": d["left"], "exhausted": d["exhausted"], "wall_s": round(d["wall"], 2),
                           "bounds": c.bounds}
        if d["samples"]:
            samples.append({"case": c.name, "inputs": {k: v for k, v in list(d["samples"][-1][0].items())[:40]},
                            "observed": json.dumps(d["samples"][-1][1])[:600]})
        if d["completed"] == 0 and not d["violations"] and not d["findings"] and not d["unconfirmed"]:
            errors.append((c.name, "no path completed"))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
          "violations": len(viols),
          "assumptions": mod.META.get("assumptions", []),
          "coverage": {
              "states": tot["completed"], "transitions": tot["branches"], "traces_validated_against_impl": validated,
              "trace_mismatches": mismatches, "samples": samples[:12],
              "exhaustive": bool(percase) and all(x["exhausted"] for x in percase.values()),
              "paths": tot["paths"], "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"],
              "queries_unknown": tot["unknown"], "solver_s": round(solver, 2), "frontier_left": tot["left"],
              "divergences": tot["divergences"], "pins": tot["pins"], "aborted_paths": tot["aborted"],
              "bounds": mod.META.get("bounds", ""), "outside": mod.META.get("outside", ""),
              "functions_encoded": sorted(x for x in entered if x.startswith("mysql_mimic")),
              "functions_encoded_other": len([x for x in entered if not x.startswith("mysql_mimic")]),
              "branch_sites": len(sites), "cases": percase, "notes": notes,
              "unconfirmed_counterexamples": [{"msg": u["msg"], "replay": u["replay"]["status"]} for u in unconf],
              "known_findings_seen": findings}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if a.case is None:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for m in mism[:5]:
        print("MISMATCH", json.dumps(m)[:2500])
    for u in unconf[:5]:
        print("UNCONFIRMED (not reproduced on the plain code):", u["msg"][:300], "| replay:", u["replay"]["status"], str(u["replay"].get("msg"))[:200])
    for n, e in errors:
        print("ERROR in case", n, ":", e)
    for k in sorted(findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print("%s %s: %d cases, %d paths, %d decisions, %d queries (%d unsat, %d unknown), %d left, solver %.1fs, wall %.1fs, "
          "%d traces validated" % (prop, tier, len(results), tot["paths"], tot["branches"], tot["queries"], tot["unsat"],
                                   tot["unknown"], tot["left"], solver, wall, validated))
    if viols:
        for v in viols[:3]:
            print("violated:", v["msg"][:600], str(v["detail"])[:600])
            print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

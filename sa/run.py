"""Command line: decide one property from the current source of /repo.

    python3 -m sa.run ID [--tier quick|thorough]

exit 0  every obligation of every rule holds on every trace partition
exit 1  a rule is violated (VIOLATION line, replay file naming the construct)
exit 2  the analysis could not decide (unsupported construct, vanished anchor)
"""
from __future__ import annotations

import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXLIT = 40  # lengths around these numbers are enumerated
SHORT = 6  # and sampled before that above this number
LONGEST = 20_000
RULE_TIME = {"quick": 600, "thorough": 780}


def short(path):
    from . import engine

    return path[len(engine.REPO) + 1:] if path and path.startswith(engine.REPO + "/") else path


def one_rule(job):
    """Explore one rule in a process of its own."""
    spec, rule, opts, k = job
    sys.setrecursionlimit(20000)
    import threading

    out = {}

    def body():
        try:
            out.update(explore_rule(spec, rule, opts, k))
        except BaseException as e:  # noqa: BLE001
            out.update({"rule": rule, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]})

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    return out


def explore_rule(spec, rule, opts, k):
    from . import core, engine
    from . import interp as I

    engine.OPTIONS.clear()
    engine.OPTIONS.update(opts)
    core.CFG.K = k
    core.CFG.EXTRA = ()
    t0 = time.time()
    f = I.MODULES["spec_" + spec].ns.get(rule)
    if f is None:
        return {"rule": rule, "error": "no such rule"}
    core.STATS.cutoff_literals.clear()
    core.STATS.functions.clear()
    limit = RULE_TIME[opts.get("tier", "quick")]
    r = engine.explore(rule, f, maxtime=limit)
    runs = 1
    sampled = set()
    # rules over sentences of the grammar tables: no sequence of unknown length
    while not r.violations and not r.undecided and not opts.get("sentences"):
        extra = set()
        big = sorted(c for c in core.STATS.cutoff_literals if c > SHORT and c not in sampled)
        for c in big[:3]:
            sampled.add(c)
            if c <= LONGEST:
                before, core.CFG.EXTRA = core.CFG.EXTRA, (c, c + 1)
                s = engine.sample(rule, f, c, int(os.environ.get("VERIF_SEED", "1")), 150)
                core.CFG.EXTRA = before
                r.violations += s.violations
                if s.violations:
                    break
        if r.violations:
            break
        for c in core.STATS.cutoff_literals:
            if c <= MAXLIT:
                extra |= {x for x in (c - 1, c, c + 1) if x > core.CFG.K}
            else:
                r.undecided.append({"message": f"the code distinguishes the sequence length {c}, beyond the cutoff", "path": [], "calls": []})
        if r.undecided or extra <= set(core.CFG.EXTRA):
            break
        core.CFG.EXTRA = tuple(sorted(extra | set(core.CFG.EXTRA)))
        r = engine.explore(rule, f, maxtime=max(30, min(limit, 600 - (time.time() - t0))))
        runs += 1
    return {
        "rule": rule, "spec": spec, "grammar": opts.get("grammar", False), "paths": r.paths, "cuts": r.cuts, "obligations": r.obligations, "violations": r.violations,
        "undecided": r.undecided, "samples": r.samples, "lengths": I.lens(), "runs": runs,
        "literals": sorted(core.STATS.cutoff_literals), "functions": sorted(f"{short(f)}:{q}" for f, q in core.STATS.functions), "steps": core.STATS.steps,
        "forks": core.STATS.forks, "wall": round(time.time() - t0, 2), "doc": (f.doc if hasattr(f, "doc") else None),
    }


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    pid = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.setrecursionlimit(20000)
    from . import engine, registry

    prop = registry.PROPERTIES[pid]
    jobs = []
    for rule in prop["rules"]:
        spec, name = rule[0], rule[1]
        opts = dict(rule[2]) if len(rule) > 2 else {}
        opts.setdefault("tier", tier)
        k = opts.pop("K", 2)
        if tier == "thorough":
            k = opts.pop("KT", k + 1)
        jobs.append((spec, name, opts, k))
    results, errors = [], []
    try:
        engine.setup(sorted({j[0] for j in jobs}))
    except Exception as e:  # the source cannot be analysed at all
        errors.append(f"{type(e).__name__}: {e}")
        if os.environ.get("SA_DEBUG"):
            raise
    if not errors:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(one_rule, jobs, chunksize=1)
    for r in results:
        if r.get("error"):
            errors.append(f"{r['rule']}: {r['error']}" + ("\n" + r.get("tb", "") if os.environ.get("SA_DEBUG") else ""))
    return report(pid, prop, tier, seed, results, errors, t0)


def fingerprint(v):
    """What identifies a violation: rule, message, facts of the partition."""
    return {"rule": v["rule"], "message": v["message"], "path": v["path"]}


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def is_known(v, k):
    return k["rule"] == v["rule"] and k["message"] == v["message"] and all(any(f in x for x in v["path"] + v["details"]) for f in k["facts"])


def report(pid, prop, tier, seed, results, errors, t0):
    from . import registry

    known = load_known(pid)
    viols, und, seen_known = [], [], []
    funcs = {}
    for r in results:
        if r.get("error"):
            continue
        for v in r["violations"]:
            v["rule"] = r["rule"]
            v["details"] = [str(x) for x in v["details"]]
            m = [k for k in known if is_known(v, k)]
            if m:
                if m[0] not in seen_known:
                    seen_known.append(m[0])
            else:
                viols.append(v)
        for u in r["undecided"]:
            u["rule"] = r["rule"]
            und.append(u)
        for f in r["functions"]:
            funcs[f] = funcs.get(f, 0) + 1
        if not r["violations"] and not r["undecided"] and (r["paths"] == 0 or r["obligations"] == 0 or not (r["functions"] or r["grammar"])):
            errors.append(f"{r['rule']}: no trace partition reaches its end (vacuous)")
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": registry.EXPLANATION,
            "rule": prop["about"],
            "trace_partitions": sum(r.get("paths", 0) for r in results),
            "partitions_cut_by_assumption": sum(r.get("cuts", 0) for r in results),
            "obligations": sum(r.get("obligations", 0) for r in results),
            "discharged": sum(r.get("obligations", 0) for r in results) - len(viols),
            "abstract_steps": sum(r.get("steps", 0) for r in results),
            "functions_analysed": sorted(funcs),
            "rules": [{k: r.get(k) for k in ("rule", "spec", "paths", "cuts", "obligations", "forks", "lengths", "literals", "wall", "samples", "error")}
                      for r in results],
            "undecided": [f"{u['rule']}: {u['message']}" for u in und] + errors,
        },
        "violations": len(viols),
        "wall_s": round(time.time() - t0, 2),
        "assumptions": registry.ASSUMPTIONS,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as fp:
        json.dump(ev, fp, indent=1)
    if viols:
        rp = os.path.join(VERIF, "evidence", "replay", pid + ".txt")
        with open(rp, "w", encoding="utf-8") as fp:
            for v in viols:
                fp.write(f"property {pid}: {prop['about']}\nrule {v['rule']}: {v['message']}\n")
                for d in v["details"]:
                    fp.write("  " + d + "\n")
                fp.write("functions on the path (latest last):\n")
                for f, q in dedupe(v["calls"])[-25:]:
                    fp.write(f"  {short(f)}: {q}\n")
                fp.write("facts of the path:\n")
                for x in v["path"]:
                    fp.write("  " + x + "\n")
                fp.write("effects on the path:\n")
                for x in v["trace"]:
                    fp.write("  " + x[:400] + "\n")
                fp.write("\n")
        v = viols[0]
        fs = dedupe(v["calls"])[-4:]
        print(f"{v['rule']}: {v['message']}")
        for d in v["details"][:4]:
            print("  " + d[:600])
        print("  in: " + " -> ".join(f"{short(f)}:{q}" for f, q in fs))
        print("  when: " + " & ".join(v["path"][-12:])[:600])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if und or errors:
        for e in errors:
            print("UNDECIDED " + e)
        for u in und[:5]:
            print(f"UNDECIDED {u['rule']}: {u['message']}; at {[q for _, q in u['calls']][-4:]}; when {u['path'][-8:]}")
        return 2
    print(f"{pid}: {ev['coverage']['obligations']} obligations over {ev['coverage']['trace_partitions']} partitions hold, "
          f"{len(funcs)} functions analysed, {ev['wall_s']}s")
    return 0


def dedupe(calls):
    out = []
    for c in calls:
        c = tuple(c[:2])
        if c not in out:
            out.append(c)
        else:
            out.remove(c)
            out.append(c)
    return out


if __name__ == "__main__":
    sys.exit(main())

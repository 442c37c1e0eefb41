"""Runs one check: explores its cases symbolically in parallel, validates sampled
paths and any counterexample on the real, uninstrumented code, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

from . import engine as E
from . import loader

VERIF = loader.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


def load_check(pid, instrument):
    loader.install(instrument)
    return loader.load_file("check_" + pid, os.path.join(VERIF, "checks", pid + ".py"), instrument)


def known_ids(pid):
    try:
        with open(KNOWN) as f:
            return {k["id"]: k for k in json.load(f)["known"] if k["property"] == pid}
    except FileNotFoundError:
        return {}


# ------------------------------------------------------------------ worker
def replay_sub(pid, items, timeout=300):
    """Replays [(case, inputs)] in a plain process; returns list of results."""
    p = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "--replay-batch", pid],
                       input=json.dumps(items), capture_output=True, text=True, timeout=timeout, cwd=VERIF)
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("REPLAY:"):
            return json.loads(line[7:])
    raise RuntimeError("replay process failed: " + p.stdout[-500:] + p.stderr[-2000:])


class limit:
    """Ends what runs on for more than so many seconds of processor time."""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def over(*a):
            raise E.Hang()
        signal.signal(signal.SIGVTALRM, over)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def run_replay_one(fn, params, inputs, known):
    ctx = E.Replay(inputs)
    ctx.known_ids = known
    from . import ctxtools
    ctxtools.reset_world()
    try:
        with limit(40):
            fn(ctx, **params)
        return {"r": "ok", "labels": sorted(ctx.reached)}
    except E.Hang:
        return {"r": "violation", "msg": "does not end", "info": "", "labels": sorted(ctx.reached)}
    except E.PathDone:
        return {"r": "cut", "labels": sorted(ctx.reached)}
    except E.Violation as v:
        return {"r": "violation", "msg": v.msg, "info": repr(v.info)[:2000], "labels": sorted(ctx.reached)}
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = [("%s:%d" % (os.path.relpath(f.filename, "/"), f.lineno)) for f in tb][-3:]
        return {"r": "exception", "msg": "%s: %s" % (type(ex).__name__, str(ex)[:300]), "where": where,
                "labels": sorted(ctx.reached)}


def replay_batch(pid):
    mod = load_check(pid, False)
    items = json.load(sys.stdin)
    cs = {}
    for tier in ("quick", "thorough"):
        for c in mod.cases(tier):
            cs.setdefault(c["name"], c)
    out = []
    for name, inputs in items:
        c = cs[name]
        out.append(run_replay_one(c["fn"], c.get("params", {}), inputs, known_ids(pid)))
    print("REPLAY:" + json.dumps(out))


def run_case(args):
    pid, tier, cname, deadline, seed = args
    t0 = time.time()
    mod = WORK["mod"]
    case = WORK["cases"][cname]
    from . import rt, ctxtools
    E.CURRENT = None
    eng = E.Engine(deadline=min(deadline, t0 + case.get("budget", 1e9)), seed=seed,
                   max_paths=case.get("max_paths", 300000))
    eng.known_ids = WORK["known"]
    fn, params = case["fn"], case.get("params", {})
    kept = []
    keep_n = case.get("validate", 4)
    res = {"case": cname, "violation": None, "error": None}
    cand = []
    calls = ctxtools.trace_calls()

    def body(e):
        e.labels = set()
        ctxtools.reset_world()
        try:
            with limit(case.get("path_limit", 150)):
                fn(e, **params)
        except E.Hang:
            raise E.Violation("does not end", e.concrete_inputs(), {"exception": True, "tb": "path takes too long"})
        except E.Control:
            raise
        except Exception as ex:
            tb = traceback.format_exc(limit=-6)
            if not e.feasible():
                raise E.PathDone()
            raise E.Violation("unexpected %s: %s" % (type(ex).__name__, str(ex)[:200]),
                              e.concrete_inputs(), {"exception": True, "tb": tb})
        n = e.stats.paths
        if len(kept) < keep_n or (n & (n - 1)) == 0 and len(kept) < 3 * keep_n:
            if e.feasible():
                kept.append((dict(e.concrete_inputs()), sorted(e.labels)))
    try:
        while True:
            try:
                eng.explore(body)
                break
            except E.Violation as v:
                E.CURRENT = None
                eng.stats.paths += 1
                r = replay_sub(pid, [[cname, v.inputs]])[0]
                if r["r"] in ("violation", "exception"):
                    res["violation"] = {"case": cname, "msg": v.msg, "inputs": v.inputs,
                                        "info": repr(v.info)[:4000], "real": r}
                    break
                isexc = isinstance(v.info, dict) and v.info.get("exception")
                cand.append((v.msg, v.inputs, repr(v.info)[:3000], r))
                if not isexc:
                    res["error"] = "counterexample does not reproduce on the real code: %s %r %s -> %r" % (
                        v.msg, v.inputs, repr(v.info)[:800], r)
                    break
                eng.stats.incomplete.append("engine could not follow: %s [%s]" % (v.msg, (v.info or {}).get("tb", "")[-600:]))
                if len(cand) > 20:
                    res["error"] = "too many paths the engine could not follow: %r" % (cand[:2],)
                    break
    except E.Budget as b:
        E.CURRENT = None
        eng.stats.incomplete.append(str(b))
    except E.Unknown as b:
        E.CURRENT = None
        eng.stats.incomplete.append("solver unknown: %s" % b)
    except Exception:
        E.CURRENT = None
        res["error"] = traceback.format_exc()[-3000:]
    res["stats"] = eng.stats
    res["kept"] = kept
    res["wall"] = time.time() - t0
    res["calls"] = sorted(calls)
    res["known"] = {k: v["what"] for k, v in eng.known_hit.items()}
    miss = [l for l in case.get("expect", []) if l not in eng.stats.reached]
    res["missing"] = miss
    return res


WORK = {}


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", 600 if tier == "quick" else 5400))
    deadline = t0 + budget
    os.makedirs(EVID, exist_ok=True)
    mod = load_check(pid, True)
    cases = mod.cases(tier)
    only = os.environ.get("VERIF_CASE")
    if only:
        cases = [c for c in cases if only in c["name"]]
    WORK["mod"] = mod
    WORK["known"] = known_ids(pid)
    WORK["cases"] = {c["name"]: c for c in cases}
    assert len(WORK["cases"]) == len(cases), "duplicate case names"
    nproc = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
    cases.sort(key=lambda c: -c.get("weight", 1))
    jobs = [(pid, tier, c["name"], deadline, seed) for c in cases]
    results = []
    if nproc == 1 or len(jobs) == 1:
        for j in jobs:
            results.append(run_case(j))
            if results[-1]["violation"]:
                break
    else:
        with mp.get_context("fork").Pool(min(nproc, len(jobs)), maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(run_case, jobs, chunksize=1):
                results.append(r)
                if r["violation"]:
                    pool.terminate()
                    break
    total = E.Stats()
    calls, missing, errors, viol, known = set(), [], [], None, {}
    for r in results:
        total.merge(r["stats"])
        calls |= set(r["calls"])
        if r["error"]:
            errors.append((r["case"], r["error"]))
        if r["violation"] and viol is None:
            viol = r["violation"]
        known.update(r["known"])
        if r["missing"] and not r["stats"].incomplete and not r["violation"]:
            missing.append((r["case"], r["missing"]))
    # validation of sampled paths on the real code
    items, exp = [], []
    if viol is None:
        for r in results:
            for inputs, labels in r["kept"]:
                items.append([r["case"], inputs])
                exp.append(labels)
    validated = 0
    if items:
        outs = []
        for k in range(0, len(items), 400):
            outs += replay_sub(pid, items[k:k + 400], timeout=600)
        for it, lab, o in zip(items, exp, outs):
            if o["r"] in ("violation", "exception") and viol is None:
                viol = {"case": it[0], "msg": o.get("msg"), "inputs": it[1], "info": "", "real": o}
            elif o["r"] != "ok" or o["labels"] != lab:
                errors.append((it[0], "engine and real code disagree: %r expected labels %r got %r" % (it[1], lab, o)))
            else:
                validated += 1
    for k, v in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, v))
    funcs = sorted(calls)
    cov = {
        "states": total.paths, "transitions": total.forks + total.forced,
        "traces_validated_against_impl": validated,
        "samples": total.samples[:4] or [{"case": r["case"]} for r in results[:2]],
        "cases": [{"name": r["case"], "paths": r["stats"].paths, "wall_s": round(r["wall"], 2),
                   "obligations": r["stats"].obligations} for r in sorted(results, key=lambda r: r["case"])],
        "solver_queries": total.queries, "solver_sat": total.sat, "solver_unsat": total.unsat,
        "solver_s": round(total.solver_s, 2),
        "obligations": total.obligations, "discharged": total.discharged,
        "reachability_witnesses": total.reached,
        "functions_encoded": funcs, "functions_encoded_n": len(funcs),
        "modules": loader.LOADED and {k: v for k, v in sorted(loader.LOADED.items()) if any(f.startswith(k + ".") for f in funcs)},
        "bounds": getattr(mod, "BOUNDS", ""), "outside": getattr(mod, "OUTSIDE", ""),
        "complete_within_bounds": not total.incomplete and total.concretized == 0,
        "incomplete": total.incomplete[:20], "incomplete_n": len(total.incomplete),
        "exhaustive": False,
        "explanation": "Every feasible path of the real functions within the bounds is explored symbolically; "
                       "z3 decides each branch and each obligation for all values on the path.",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if viol else 0}
    evname = pid + ".json" if not only else pid + ".partial.json"
    with open(os.path.join(EVID, evname), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d obligations (%d discharged), %d queries, solver %.1fs, %d validated, wall %.1fs%s" % (
        pid, tier, len(results), total.paths, total.obligations, total.discharged, total.queries,
        total.solver_s, validated, time.time() - t0, " INCOMPLETE(%d)" % len(total.incomplete) if total.incomplete else ""))
    for i in sorted(set(x[:160 if not os.environ.get("VERIF_V") else 2000] for x in total.incomplete))[:8]:
        print("  incomplete:", i)
    if viol:
        rp = os.path.join(EVID, "replay_%s.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, **viol}, f, indent=1, default=str)
        print("  case=%s: %s" % (viol["case"], viol["msg"]))
        print("  inputs=%s" % json.dumps(viol["inputs"])[:1500])
        print("  real code: %s" % json.dumps(viol["real"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    for c, e in errors[:5]:
        print("ERROR %s: %s" % (c, e))
    if missing:
        print("ERROR vacuous: expected situations never reached: %r" % (missing[:5],))
    if errors or missing:
        return 2
    return 0


def replay_file(path):
    """Replays a recorded violation on the real code; exit 1 when it reproduces."""
    with open(path) as f:
        v = json.load(f)
    mod = load_check(v["property"], False)
    for tier in ("quick", "thorough"):
        for c in mod.cases(tier):
            if c["name"] == v["case"]:
                r = run_replay_one(c["fn"], c.get("params", {}), v["inputs"], known_ids(v["property"]))
                print(json.dumps(r, indent=1))
                return 1 if r["r"] in ("violation", "exception") else 0
    return 2

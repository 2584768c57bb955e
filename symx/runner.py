"""Runs the jobs of one property in parallel, replays counterexamples on the
unmodified code, writes evidence."""

from __future__ import annotations

import hashlib
import importlib
import json
import logging
import os
import random
import subprocess
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"


def setup_process(patch=True):
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("HOME", "/root")
    sys.dont_write_bytecode = True
    import warnings

    warnings.filterwarnings("ignore")
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    logging.disable(logging.CRITICAL)
    if patch:
        import scipy.sparse, scipy.optimize, pandas, xarray, linopy, networkx  # noqa: F401,E401

        from . import env, spm

        env.patch_numpy()  # before pypsa, which imports some of these by name
        spm.patch()
    import pypsa  # noqa: F401

    if patch:
        env.patch()
    try:
        import tqdm  # noqa: F401
    except ImportError:
        pass


def load(check):
    return importlib.import_module(f"checks.{check}")


def jobs_of(check, tier, only=None):
    mod = load(check)
    out = []
    for j in mod.jobs(tier):
        name, fn, cfg = j[0], j[1], j[2]
        opts = j[3] if len(j) > 3 else {}
        if only and only not in name:
            continue
        out.append((name, fn.__name__, cfg, opts))
    return out


def fp_values(fp, values, seed=0):
    """evaluate fingerprint entries (Sym or float) with every input fixed."""
    from .sym import Sym, evalf

    out = []
    for x in fp:
        if isinstance(x, Sym):
            env = {a: values.get(a.name, 0.0) for a in x.base_atoms()}
            out.append(evalf(x, env))
        else:
            out.append(float(x))
    return out


def run_job(check, job, seed, tier, deadline):
    """worker: explore one job; returns a plain dict."""
    from .ctx import Ctx, Skip
    from .engine import Engine, PathEnd, Stats

    name, fname, cfg, opts = job
    t0 = time.time()
    mod = load(check)
    fn = getattr(mod, fname)
    stats = Stats()
    res = {"job": name, "cfg": cfg, "fn": fname, "cands": [], "errors": [], "validate": None,
           "fallback": 0}
    limit = opts.get("max_s", 240 if tier == "quick" else 1500)
    eng = Engine(seed=seed, max_paths=opts.get("max_paths", 48 if tier == "quick" else 400),
                 deadline=min(deadline, t0 + limit), stats=stats,
                 q_timeout=opts.get("q_timeout", 8000))
    rng = random.Random(f"{seed}/{name}")

    def one(e):
        ctx = Ctx(e)
        try:
            fn(ctx, **cfg)
        except (PathEnd, Skip):
            raise PathEnd() from None
        except Exception as ex:  # noqa: BLE001
            vals = e.path_values()
            if vals is None:
                return
            res["errors"].append(
                {"type": type(ex).__name__, "msg": str(ex)[:300], "values": vals,
                 "tb": traceback.format_exc()[-3000:]}
            )
            raise PathEnd() from None
        if res["validate"] is None and ctx.fp:
            vals = e.path_values()
            if vals is not None:
                r2 = random.Random(f"{seed}/{name}/fp")
                params = {a.name for a in e.bounds}
                tied = {a.name for f in e.pc for s in f.syms() for a in s.base_atoms()}
                for k in vals:
                    if k not in params and k not in tied:
                        vals[k] = r2.randint(-40, 40) / 8.0
                try:
                    res["validate"] = {"values": vals, "fp": fp_values(ctx.fp, vals)}
                except (ZeroDivisionError, ValueError, OverflowError):
                    pass

    try:
        eng.explore(one)
    except Exception as ex:  # noqa: BLE001
        res["errors"].append({"type": "Engine" + type(ex).__name__, "msg": str(ex), "values": None,
                              "tb": traceback.format_exc()[-3000:]})
    res["cands"] = [c.__dict__ for c in eng.candidates]
    if res["errors"]:
        fallback(fn, cfg, res, seed, name, stats, deadline)
    res["stats"] = stats.__dict__
    res["wall"] = time.time() - t0
    return res


def fallback(fn, cfg, res, seed, name, stats, deadline):
    """Encoding could not follow the code: parameters concrete, LP variables
    (and solver-chosen quantities) still symbolic."""
    from .ctx import Ctx, Skip
    from .engine import Engine, PathEnd

    for k in range(3):
        rng = random.Random(f"{seed}/{name}/{k}")
        eng = Engine(seed=seed + k, max_paths=16, deadline=deadline, stats=stats)
        ctxs = []

        def one(e):
            ctx = Ctx(e, conc=rng)
            ctxs.append(ctx)
            try:
                fn(ctx, **cfg)
            except (PathEnd, Skip):
                raise PathEnd() from None
            except Exception as ex:  # noqa: BLE001
                res["errors"].append({"type": type(ex).__name__, "msg": str(ex)[:300],
                                      "values": dict(ctx.conc_values), "conc": True,
                                      "tb": traceback.format_exc()[-3000:]})
                raise PathEnd() from None

        eng.explore(one)
        res["fallback"] += 1
        for c in eng.candidates:
            d = dict(c.__dict__)
            d["values"] = {**d["values"], **(ctxs[-1].conc_values if ctxs else {})}
            res["cands"].append(d)


def _worker_init():
    setup_process(True)
    os.environ["SYMX_WORKER"] = "1"


# --------------------------------------------------------------------------
# concrete side (fresh processes, nothing shimmed)


def concrete(items):
    """run in a fresh, unshimmed process."""
    from .ctx import Ctx, Skip

    out = []
    for it in items:
        mod = load(it["check"])
        fn = getattr(mod, it["fn"])
        ctx = Ctx(values=dict(it["values"] or {}))
        ctx.tol = it.get("tol", getattr(mod, "TOL", 1e-7))
        r = {"failed": [], "exc": None, "fp": None, "skip": False}
        try:
            fn(ctx, **it["cfg"])
            r["fp"] = [float(x) for x in ctx.fp]
        except Skip:
            r["skip"] = True
        except Exception as ex:  # noqa: BLE001
            r["exc"] = f"{type(ex).__name__}: {str(ex)[:300]}"
            r["tb"] = traceback.format_exc()[-3000:]
        r["failed"] = ctx.failed
        r["goals"] = ctx.n_goals
        out.append(r)
    return out


def concrete_subprocess(items, timeout=600):
    if not items:
        return []
    n = max(1, min(8, len(items)))
    chunks = [items[i::n] for i in range(n)]
    procs = []
    for ch in chunks:
        p = subprocess.Popen(
            [PY, "-B", "-m", "symx.concrete"], cwd=VERIF, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
            env={**os.environ, "PYTHONPATH": str(VERIF), "PYTHONDONTWRITEBYTECODE": "1",
                 "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1"},
        )
        procs.append(p)
    import threading

    outs = [None] * n

    def go(i):
        try:
            o, e = procs[i].communicate(json.dumps(chunks[i]), timeout=timeout)
            outs[i] = json.loads(o.splitlines()[-1])
        except Exception as ex:  # noqa: BLE001
            procs[i].kill()
            outs[i] = [{"failed": [], "exc": None, "fp": None, "skip": False, "goals": 0,
                        "broken": repr(ex)} for _ in chunks[i]]

    th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in th]
    [t.join() for t in th]
    res = [None] * len(items)
    for i in range(n):
        for k, r in enumerate(outs[i]):
            res[i + k * n] = r
    return res


def close(a, b):
    import math

    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


# --------------------------------------------------------------------------


def load_known():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text()) if k.get("status") == "known"]


def main(pid, check, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    setup_process(True)
    mod = load(check)
    deadline = t0 + getattr(mod, "BUDGET", {"quick": 420, "thorough": 3000})[tier]
    jobs = jobs_of(check, tier, only)
    random.Random(seed).shuffle(jobs)
    nproc = int(os.environ.get("SYMX_PROCS", "8"))
    results = []
    ctxm = mp.get_context("fork")
    dead = 0
    if nproc == 1:
        for j in jobs:
            results.append(run_job(check, j, seed, tier, deadline))
    else:
        with ProcessPoolExecutor(nproc, mp_context=ctxm) as ex:
            futs = {ex.submit(run_job, check, j, seed, tier, deadline): j for j in jobs}
            for f in as_completed(futs):
                try:
                    results.append(f.result())
                except Exception as e:  # noqa: BLE001
                    dead += 1
                    print(f"job {futs[f][0]} died: {e!r}", file=sys.stderr)
    results.sort(key=lambda r: r["job"])
    # ---- concrete side: validation samples + replays
    items, tags = [], []
    for r in results:
        if r["validate"]:
            items.append({"check": check, "fn": r["fn"], "cfg": r["cfg"], "values": r["validate"]["values"]})
            tags.append(("validate", r, None))
        seen = set()
        for c in r["cands"]:
            k = (c["goal_name"], json.dumps(c["values"], sort_keys=True))
            if k in seen or len(seen) >= 12:
                continue
            seen.add(k)
            items.append({"check": check, "fn": r["fn"], "cfg": r["cfg"], "values": c["values"]})
            tags.append(("cand", r, c))
        for e in r["errors"][:6]:
            if e["values"] is not None:
                items.append({"check": check, "fn": r["fn"], "cfg": r["cfg"], "values": e["values"]})
                tags.append(("error", r, e))
    conc = concrete_subprocess(items, timeout=max(60, deadline - time.time() + 200))
    validated, mismatches, unrep = 0, [], []
    violations = []
    for it, (kind, r, x), o in zip(items, tags, conc):
        if kind == "validate":
            if o.get("fp") is None or o.get("exc"):
                if o.get("exc"):
                    violations.append((it, r, {"goal_name": "exception", "desc": o["exc"]}, o))
                continue
            a, b = r["validate"]["fp"], o["fp"]
            if len(a) == len(b) and all(close(p, q) for p, q in zip(a, b)):
                validated += 1
            else:
                bad = [(i, p, q) for i, (p, q) in enumerate(zip(a, b)) if not close(p, q)][:5]
                mismatches.append({"job": r["job"], "len": [len(a), len(b)], "bad": bad})
            if o["failed"]:
                violations.append((it, r, {"goal_name": o["failed"][0][0], "desc": str(o["failed"][0])}, o))
        elif kind == "cand":
            if o["failed"] or o["exc"]:
                violations.append((it, r, x, o))
            else:
                unrep.append({"job": r["job"], "goal": x["goal_name"], "desc": x["desc"][:300],
                              "skip": o["skip"], "broken": o.get("broken")})
        else:
            if o["exc"] or o["failed"]:
                violations.append((it, r, {"goal_name": "exception", "desc": o["exc"] or str(o["failed"][0])}, o))
            else:
                unrep.append({"job": r["job"], "goal": "encoding error " + x["type"], "desc": x["msg"],
                              "skip": o["skip"], "broken": o.get("broken"), "tb": x["tb"][-1200:]})
    # ---- unreproduced counterexamples: decide the same harness with the
    # parameters fixed to the counterexample's values (float-exact LP)
    known = load_known()
    reported, knownhits = {}, {}
    for it, r, c, o in violations:
        goal = c["goal_name"]
        desc = (o["failed"][0][1] if o["failed"] else o["exc"]) or ""
        kf = next((k for k in known if k["property"] == pid and k["job"] in r["job"]
                   and (k["goal"] in goal or k["goal"] in desc)), None)
        if kf:
            knownhits[kf["what"]] = kf
            continue
        reported.setdefault((r["job"], goal.split(":")[0]), (it, r, c, o))
    rc = 0
    for kf in knownhits.values():
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    rep_dir = VERIF / "replays"
    for (job, goal), (it, r, c, o) in sorted(reported.items())[: 60 if verbose else 10]:
        rep_dir.mkdir(exist_ok=True)
        h = hashlib.sha1(json.dumps([job, goal], sort_keys=True).encode()).hexdigest()[:10]
        path = rep_dir / f"{pid}-{h}.json"
        path.write_text(json.dumps({**it, "property": pid, "job": job, "goal": c["goal_name"],
                                    "claim": c["desc"], "observed": o["failed"] or o["exc"],
                                    "how": f"cd /verif && {PY} -m symx.concrete {path}"}, indent=1))
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  job {job}: {c['goal_name']}")
        for fl in (o["failed"] or [[o["exc"]]])[:4]:
            print("   ", str(fl)[:500])
        rc = 1
    # ---- evidence
    tot = {"paths": 0, "decisions": 0, "forks": 0, "queries": 0, "solver_s": 0.0, "obligations": 0,
           "discharged": 0, "reach": 0}
    lv = {"linear": 0, "nonlinear": 0, "concretised": 0}
    inc, concr, incompl = [], [], []
    for r in results:
        s = r["stats"]
        for k in tot:
            tot[k] += s[k]
        for k in lv:
            lv[k] += s["by_level"][k]
        inc += [f"{r['job']}: {x}" for x in s["inconclusive"]]
        concr += [f"{r['job']}: {x}" for x in s["concretised"]]
        incompl += [f"{r['job']}: {x}" for x in s["incomplete"]]
    nfb = sum(1 for r in results if r["fallback"])
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["forks"],
            "traces_validated_against_impl": validated,
            "samples": [{"job": r["job"], "cfg": r["cfg"], "paths": r["stats"]["paths"],
                         "obligations": r["stats"]["obligations"], "wall_s": round(r["wall"], 2)}
                        for r in results[:6]],
            "meaning": "states = symbolic execution paths of the real code explored (structural "
                       "configuration x path condition); transitions = undetermined branch "
                       "decisions forked on; traces_validated = paths whose encoding was evaluated "
                       "at concrete inputs and compared with an unshimmed run of /repo",
            "jobs": len(results),
            "jobs_died": dead,
            "functions_encoded": getattr(mod, "FUNCTIONS", []),
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_the_claim": getattr(mod, "OUTSIDE", ""),
            "obligations": tot["obligations"],
            "discharged": tot["discharged"],
            "discharged_by": lv,
            "queries": tot["queries"],
            "branch_decisions": tot["decisions"],
            "solver_s": round(tot["solver_s"], 2),
            "vacuity_witnesses": tot["reach"],
            "inconclusive": inc[:40],
            "inconclusive_count": len(inc),
            "concretised_inputs": sorted(set(concr))[:40],
            "unexplored": incompl[:40],
            "jobs_on_concrete_parameters": nfb,
            "encoding_mismatches": mismatches[:10],
            "unreproduced": unrep[:10],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{pid} {tier}: jobs={len(results)} paths={tot['paths']} obligations={tot['obligations']} "
          f"discharged={tot['discharged']} {lv} validated={validated} inconclusive={len(inc)} "
          f"concretised={len(set(concr))} unexplored={len(incompl)} fallback={nfb} "
          f"mismatch={len(mismatches)} unreproduced={len(unrep)} known={len(knownhits)} "
          f"solver={tot['solver_s']:.1f}s wall={time.time() - t0:.1f}s")
    if verbose:
        for k, v in (("inconclusive", inc), ("concretised", sorted(set(concr))), ("unexplored", incompl),
                     ("mismatch", mismatches), ("unreproduced", unrep)):
            shown = set()
            for i, x in enumerate(v[:10]):
                if isinstance(x, dict):
                    tb = x.pop("tb", "")
                    print(f"  {k}: " + json.dumps(x, default=str)[:500])
                    if str(x.get("desc")) not in shown:
                        print(tb)
                    shown.add(str(x.get("desc")))
                else:
                    print(f"  {k}: {x}")
        for r in sorted(results, key=lambda r: -r["wall"])[:8]:
            print(f"  {r['wall']:.1f}s {r['job']} paths={r['stats']['paths']} obl={r['stats']['obligations']}")
    if rc == 0 and (dead or not results or tot["obligations"] == 0):
        print("ERROR: no result", file=sys.stderr)
        return 3
    return rc


COMMON_ASSUMPTIONS = [
    "numbers are exact reals (float rounding is outside the claim; counterexamples are replayed in floats)",
    "pandas, numpy, xarray and linopy are executed for real on object arrays; float-dtype coercions in "
    "them are shimmed (symx/env.py)",
    "logging and the pre-solve consistency check have empty bodies while symbolic",
]

"""Check driver: runs the harnesses of one property in parallel, writes evidence, prints the verdict."""

from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TRUSTED = [
    "z3 (real arithmetic with uninterpreted library functions)",
    "symx encoder: exact rational semantics for Python/numpy floats, models of the numpy/scipy functions used",
    "CPython, numpy, scipy for the concrete replays",
]


def load_known():
    path = os.path.join(ROOT, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=Cxx harness=<name> label=<label>  :: description
                head, _, desc = line[len("finding:"):].partition("::")
                d = dict(kv.split("=", 1) for kv in head.split())
                out.setdefault(d["property"], []).append((d["harness"], d.get("label", "*"), desc.strip()))
    return out


def _work(job):
    try:
        return job.execute()
    except BaseException as e:  # engine failure: inconclusive, never success
        return dict(prop=job.prop, name=job.name, paths=0, forks=0, queries=0, solver_s=0, unknowns=0, obligations=1,
                    discharged=0, closed_by_normal_form=0, atoms=0, validated=0, replays=0, violations=[],
                    inconclusive=[f"engine error {type(e).__name__}: {e} {traceback.format_exc()[-600:]}"],
                    mismatches=[], samples=[], files=[], wall_s=0, notes=[], slow=[])


_JOBS = None


def _idx(i):
    return i, _work(_JOBS[i])


def run_property(pid, tier="quick", seed=1, verbose=False, only=None, procs=8):
    global _JOBS
    t0 = time.time()
    mod = importlib.import_module(f"props.{pid.lower()}")
    jobs = mod.jobs(tier, seed)
    if only:
        jobs = [j for j in jobs if only in j.name]
    _JOBS = jobs
    results = [None] * len(jobs)
    total = 840 if tier == "quick" else 6 * 3600
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].budget_s)
    with mp.get_context("fork").Pool(min(procs, max(1, len(jobs))), maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_idx, order, chunksize=1)
        for _ in range(len(jobs)):
            left = total - (time.time() - t0)
            try:
                i, r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                break
            results[i] = r
            if verbose:
                print(f"  [{r['wall_s']:7.2f}s] {r['name']}: paths={r['paths']} obl={r['discharged']}/{r['obligations']} "
                      f"q={r['queries']} val={r['validated']} {'VIOL' if r['violations'] else ''} {r['inconclusive']} {r['slow']}",
                      flush=True)
        pool.terminate()
    for i, r in enumerate(results):
        if r is None:
            results[i] = dict(prop=pid, name=jobs[i].name, paths=0, forks=0, queries=0, solver_s=0, unknowns=0,
                              obligations=1, discharged=0, closed_by_normal_form=0, atoms=0, validated=0, replays=0,
                              violations=[], inconclusive=["overall time limit"], mismatches=[], samples=[], files=[],
                              wall_s=0, notes=[], slow=[])
    return mod, jobs, results, time.time() - t0


def main(argv):
    pid = argv[0]
    if pid == "--selftest":
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in argv
    only = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--only" in argv:
        only = argv[argv.index("--only") + 1]
    if "--replay" in argv:
        return replay(pid, argv[argv.index("--replay") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod, jobs, results, wall = run_property(pid, tier, seed, verbose, only)
    known = load_known().get(pid, [])
    used_known = set()
    fresh = []
    for r in results:
        for v in r["violations"]:
            k = next((k for k in known if k[0] == r["name"] and (k[1] == "*" or k[1] in v["label"].replace(" ", "_"))), None)
            if k:
                used_known.add(k)
            else:
                fresh.append((r, v))
    for k in known:
        if k in used_known:
            print(f"KNOWN-FINDING: property={pid} {k[2]}")
        elif any(j.name == k[0] for j in jobs):
            print(f"note: listed finding did not show up in this run: {k[0]} ({k[2]})")
    tot = lambda key: sum(r[key] for r in results)
    inconc = [(r["name"], x) for r in results for x in r["inconclusive"]]
    for n, x in inconc[:20]:
        print(f"INCONCLUSIVE property={pid} harness={n}: {x[:400]}")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rc = 0
    rdir = os.path.join(ROOT, "evidence", "replay")
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        rc = 1
        for i, (r, v) in enumerate(fresh[:10]):
            path = os.path.join(rdir, f"{pid}_{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, harness=r["name"], tier=tier, seed=seed, label=v["label"], detail=v["detail"],
                               inputs=v["env"], failures=v["all"], rerun=f"./check {pid} --replay {path}"), f, indent=1)
            print(f"  {r['name']}: {v['label']}: {v['detail']}  inputs={ {k: x for k, x in list(v['env'].items())[:8]} }")
            print(f"VIOLATION property={pid} replay={path}")
    samples = [s for r in results for s in r["samples"]][:4]
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("forks") + tot("paths"),
            traces_validated_against_impl=tot("validated"), samples=samples or [{"note": "no replayed path"}],
            exhaustive=not inconc and not fresh,
            harnesses=len(results), obligations=tot("obligations"), discharged=tot("discharged"),
            closed_by_normal_form=tot("closed_by_normal_form"),
            solver_queries=tot("queries"), solver_seconds=round(tot("solver_s"), 2), solver_unknown=tot("unknowns"),
            concrete_replays=tot("replays"),
            functions_encoded=getattr(mod, "ENCODED", []),
            source_files=sorted({f for r in results for f in r["files"]})[:60],
            bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
            inconclusive=[f"{n}: {x}"[:300] for n, x in inconc][:20],
            per_harness=[dict(name=r["name"], paths=r["paths"], obligations=r["obligations"], discharged=r["discharged"],
                              queries=r["queries"], solver_s=r["solver_s"], wall_s=r["wall_s"]) for r in results][:200],
            explanation="states = symbolic paths covered, transitions = forks + path ends; every path obligation is "
                        "decided by z3 over all inputs within the bounds, one witness per path is replayed on the real code",
            trusted_base=TRUSTED,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "floating point numbers are treated as exact reals; rounding, overflow and nan inputs are outside the claim",
        ],
        wall_s=round(wall, 2), violations=len(fresh),
    )
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: harnesses={len(results)} paths={tot('paths')} obligations={tot('obligations')} discharged={tot('discharged')} "
          f"queries={tot('queries')} solver={tot('solver_s'):.1f}s validated={tot('validated')} violations={len(fresh)} "
          f"inconclusive={len(inconc)} wall={wall:.1f}s")
    if rc == 0 and tot("discharged") == 0 and tot("validated") == 0:
        print("nothing could be decided")
        return 2
    return rc


def selftest():
    """The engine and the code under test load, and one solver query is answered."""
    import z3

    from .loader import Registry

    s = z3.Solver()
    x = z3.Real("x")
    s.add(x * x == 2, x > 2)
    assert str(s.check()) == "unsat"
    Registry(stubs={}).imp("pysatl_criterion.hypothesis_testing.multiple_testing.fwer")
    print("ready: z3", z3.get_version_string())
    return 0


def replay(pid, path):
    from fractions import Fraction

    d = json.load(open(path))
    mod = importlib.import_module(f"props.{pid.lower()}")
    job = next(j for j in mod.jobs(d["tier"], d["seed"]) if j.name == d["harness"])
    job.replays = 0
    R = job.replay({k: Fraction(v) for k, v in d["inputs"].items()})
    if R is None:
        print("inputs are outside the assumed domain")
        return 0
    for f in R.failures:
        print("FAILS", f)
    print("observed", R.observed[:10])
    return 1 if R.failures else 0

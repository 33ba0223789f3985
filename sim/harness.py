"""Runs the groups of a property over worker processes, minimises and reports.

    python -m sim.harness C01 [--tier quick|thorough] [--seed N] [--workers N] [--scale F]
    python -m sim.harness --replay FILE
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the harness failed.
"""

from __future__ import annotations

import argparse
import glob
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from multiprocessing import get_context

from sim import boot

boot.pin()

from sim import seeds  # noqa: E402

FINDINGS = os.path.join(boot.VERIF, "known-findings.json")


def prop_module(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def code_under_test_raised(exc):
    """was the exception raised inside the code under test (or below a call it made)?"""
    src = os.path.realpath(boot.SRC)
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        name = os.path.realpath(frame.f_code.co_filename)
        # tinygp is only ever entered through a class of smolgp (its kernels inherit from tinygp's)
        if name.startswith(src + os.sep) or "/site-packages/tinygp/" in name:
            return True
    return False


def judge(mod, trace, stats):
    """None, or {"kind", "text"} for a violation"""
    from sim.analysis import Mismatch

    try:
        mod.check(trace, stats)
    except Mismatch as m:
        return {"kind": m.kind, "text": m.text}
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as exc:
        if code_under_test_raised(exc):
            text = str(exc).strip().splitlines()
            return {
                "kind": f"raised {type(exc).__name__}",
                "text": f"raised {type(exc).__name__}: {(text or [''])[0][:160]}",
            }
        raise
    return None


def run_group(pid, gi, group, seed, lo, hi):
    """one task: runs lo..hi of a group, in a worker process"""
    t0 = time.time()
    mod = prop_module(pid)
    stats = Counter()
    shapes = set()
    samples = []
    log = []
    violation = None
    n = 0
    for r in range(lo, hi):
        rng = seeds.rng_for(seed, pid, group["id"], r)
        trace = mod.gen(group, rng)
        trace["run"] = [seed, group["id"], r]
        sig = mod.signature(trace)
        if sig is not None:
            shapes.add(seeds.digest(sig))
        for k, v in trace.get("faults", {}).items():
            stats["fault:" + k] += v
        stats["ticks"] += trace.get("sim_ticks", 0)
        n += 1
        v = judge(mod, trace, stats)
        log.append(seeds.digest([trace, stats.pop("digest", None), v]))
        if r == lo and lo == 0:
            samples.append(mod.describe(trace))
        if v is not None:
            violation = {"trace": trace, **v}
            break
    return dict(
        gi=gi, group=group["id"], n=n, stats=dict(stats), shapes=list(shapes), samples=samples,
        log=seeds.digest(log), violation=violation, wall=time.time() - t0, largest=largest_errors(),
    )


def largest_errors():
    from sim.analysis import LARGEST

    return dict(LARGEST)


def _worker(args):
    import jax  # noqa: F401

    try:
        return run_group(*args)
    except BaseException as exc:  # a harness failure, never a verdict
        return dict(gi=args[1], group=args[2]["id"], error=f"{type(exc).__name__}: {exc}\n{traceback.format_exc()}")


def reproduce(pid, trace):
    mod = prop_module(pid)
    return judge(mod, trace, Counter())


def minimise(pid, trace, kind, budget):
    """greedy: accept the first smaller trace with the same class of violation"""
    mod = prop_module(pid)
    t_end = time.time() + budget
    tried = 0
    best = trace
    improved = True
    while improved and time.time() < t_end:
        improved = False
        for cand in mod.shrink(best):
            if time.time() > t_end:
                break
            tried += 1
            try:
                v = judge(mod, cand, Counter())
            except Exception:
                continue
            if v is not None and v["kind"] == kind:
                best = cand
                improved = True
                break
    return best, tried


def replay_file(path, quiet=False):
    doc = json.load(open(path))
    v = reproduce(doc["property"], doc["trace"])
    if v is None:
        print(f"replay {path}: the property holds on this trace")
        return 0
    same = v["kind"] == doc["kind"] and v["text"] == doc["text"]
    print(f"replay {path}: {v['text']}")
    print("replay: same violation" if same else f"replay: recorded was {doc['text']}")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


def shrink_main(args):
    """in its own process: minimise a violation and write the replay file"""
    src, dst, budget = args
    doc = json.load(open(src))
    best, tried = minimise(doc["property"], doc["trace"], doc["kind"], float(budget))
    v = reproduce(doc["property"], best)
    if v is None or v["kind"] != doc["kind"]:
        best, v = doc["trace"], {"kind": doc["kind"], "text": doc["text"]}
    json.dump(
        dict(property=doc["property"], kind=v["kind"], text=v["text"], seed=doc["seed"], tried=tried,
             minimised_from=doc["size"], size=prop_module(doc["property"]).size(best), trace=best),
        open(dst, "w"), indent=1,
    )
    return 0


def child(*argv, timeout):
    env = dict(os.environ)
    cmd = [sys.executable, "-m", "sim.harness", *argv]
    return subprocess.run(cmd, cwd=boot.VERIF, env=env, capture_output=True, text=True, timeout=timeout)


def report_violation(pid, seed, v, t0):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    mod = prop_module(pid)
    stem = os.path.join(d, f"{pid}-{seed}-{seeds.digest(v['trace'])[:8]}")
    raw, out = stem + ".raw.json", stem + ".json"
    doc = dict(property=pid, kind=v["kind"], text=v["text"], seed=seed, size=mod.size(v["trace"]), trace=v["trace"])
    json.dump(doc, open(raw, "w"), indent=1)
    budget = max(20.0, min(90.0, 600.0 - (time.time() - t0)))
    try:
        child("--shrink", raw, out, str(budget), timeout=budget + 90)
    except subprocess.TimeoutExpired:
        pass
    if not os.path.exists(out):
        out = raw
    note = "not replayed"
    try:
        r = child("--replay", out, timeout=90)
        note = "same violation in a fresh process" if "replay: same violation" in r.stdout else (
            "fresh process: " + r.stdout.strip().splitlines()[0] if r.stdout.strip() else "replay gave no output")
    except subprocess.TimeoutExpired:
        pass
    doc = json.load(open(out))
    print(f"seed {seed}, run {doc['trace'].get('run')}: {doc['text']}")
    print(f"trace: {json.dumps(mod.describe(doc['trace']))[:1500]}")
    print(f"replay: {note}")
    print(f"VIOLATION property={pid} replay={os.path.relpath(out, boot.VERIF)}")


def run_findings(pid):
    """the listed findings of this property: print the ones that still fail"""
    try:
        doc = json.load(open(FINDINGS))
    except FileNotFoundError:
        return
    for f in doc.get("findings", []):
        if f["property"] != pid:
            continue
        r = child("--replay", os.path.join(boot.VERIF, f["replay"]), timeout=200)
        if r.returncode == 1:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "0")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--shrink", nargs=3)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    if a.shrink:
        return shrink_main(a.shrink)
    pid = a.prop
    t0 = time.time()
    print(f"VERIF_SEED={a.seed} property={pid} tier={a.tier}", flush=True)
    mod = prop_module(pid)
    groups = mod.groups(a.tier)
    if a.only:
        groups = [g for g in groups if a.only in g["id"]]
    assert len({g["id"] for g in groups}) == len(groups), "group ids must differ"
    tasks = []
    for gi, g in enumerate(groups):
        runs = max(1, int(g["runs"] * a.scale))
        # a run depends only on (seed, group, number): how runs are split over tasks changes nothing
        parts = g.get("parts", 1)
        edges = [runs * k // parts for k in range(parts + 1)]
        for lo, hi in zip(edges, edges[1:]):
            tasks.append((g.get("cost", 1.0) / parts, (pid, gi, g, a.seed, lo, hi)))
    tasks.sort(key=lambda x: -x[0])
    workers = a.workers or min(8, os.cpu_count() or 1, len(tasks))
    limit = float(os.environ.get("SIM_LIMIT", "780" if a.tier == "quick" else "14000"))
    results, errors, violation = [], [], None
    pool = ProcessPoolExecutor(workers, mp_context=get_context("spawn"), max_tasks_per_child=1)
    futs = {pool.submit(_worker, t) for _, t in tasks}
    pending = set(futs)
    timed_out = False
    while pending:
        done, pending = wait(pending, timeout=5, return_when=FIRST_COMPLETED)
        for f in done:
            r = f.result()
            if "error" in r:
                errors.append(r)
                continue
            results.append(r)
            if a.verbose:
                print(r["group"], r["n"], f"{r['wall']:.1f}s", r["log"], {k: float(f"{v:.2g}") for k, v in r["largest"].items()}, r["violation"] and r["violation"]["text"], flush=True)
            if r["violation"] and violation is None:
                violation = r["violation"]
        if violation or errors:
            break
        if time.time() - t0 > limit:
            timed_out = True
            break
    if pending or timed_out:
        for f in pending:
            f.cancel()
        for p in list((pool._processes or {}).values()):
            p.kill()
    pool.shutdown(wait=True, cancel_futures=True)
    if violation is None and not errors and not timed_out:
        run_findings(pid)
    wall = time.time() - t0
    if not a.no_evidence and boot.SRC == "/repo/src":
        write_evidence(mod, pid, a, groups, results, violation, wall)
    n = sum(r["n"] for r in results)
    print(f"{n} runs in {wall:.1f} s, {len(groups)} configurations, log {seeds.digest(sorted((r['gi'], r['log']) for r in results))}")
    if violation:
        report_violation(pid, a.seed, violation, t0)
        return 1
    if errors:
        print("HARNESS ERROR in group", errors[0]["group"], "\n", errors[0]["error"][-3000:])
        return 2
    if timed_out:
        print("HARNESS ERROR: out of time before all runs were done")
        return 3
    print(f"held property={pid}")
    return 0


def write_evidence(mod, pid, a, groups, results, violation, wall):
    stats, shapes, samples, largest = Counter(), set(), [], {}
    for r in sorted(results, key=lambda r: r["gi"]):
        stats.update(r["stats"])
        shapes.update(r["shapes"])
        samples += r["samples"]
        for k, v in r["largest"].items():
            largest[k] = max(largest.get(k, 0.0), float(f"{v:.3g}"))
    n = sum(r["n"] for r in results)
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:") and k != "ticks"}
    doc = dict(
        property=pid, tier=a.tier, seed=a.seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=n,
            distinct_nontrivial=len(shapes),
            rule=mod.RULE,
            samples=samples[:3],
            configurations=[g["id"] for g in groups],
            runs_per_hour=round(n / max(wall, 1e-9) * 3600),
            seeds=n,
            seeds_note="each run has its own seed, derived from VERIF_SEED, the configuration and the run number",
            simulated_time_ticks=int(stats["ticks"]),
            faults_injected=faults,
            probes=probes,
            largest_error_as_fraction_of_tolerance=largest,
            real_components=mod.REAL,
            stubs=mod.STUBS,
        ),
        assumptions=mod.ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=int(violation is not None),
    )
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(doc, open(os.path.join(d, f"{pid}.json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())

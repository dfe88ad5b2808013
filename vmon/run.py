"""python -m vmon.run <ID> [--tier quick|thorough] [--replay FILE] [--only SUBSTR] [-v]"""
from __future__ import annotations

import argparse
import collections
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import time

import numpy as np

from . import core

_mod = None


def _work(args):
    case, timeout = args
    return core.run_case(_mod, case, timeout)


def load_known(prop):
    out = []
    p = os.path.join(core.VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


def main(argv=None):
    global _mod
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VMON_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true", default=bool(os.environ.get("VMON_NO_EVIDENCE")))
    a = ap.parse_args(argv)
    t0 = time.time()
    core.setup_process()
    prop = a.prop.upper()
    _mod = importlib.import_module(f"vmon.checks.{prop.lower()}")
    tier = a.tier

    if a.replay:
        case = json.load(open(a.replay))["case"]
        cases = [case]
    else:
        cases = list(_mod.cases(core.rng_for(a.seed, prop, tier), tier))
        for i, c in enumerate(cases):
            c.setdefault("id", i)
            c.setdefault("seed", int(core.rng_for(a.seed, prop, tier, i).integers(2**31)))
        if a.only:
            cases = [c for c in cases if a.only in json.dumps(c)]
    timeout = getattr(_mod, "CASE_TIMEOUT", 120) * (4 if tier == "thorough" else 1)
    soft = getattr(_mod, "SOFT_BUDGET", 420) if tier == "quick" else 5400
    if hasattr(_mod, "warmup"):
        _mod.warmup()

    results = []
    skipped = 0
    lost = 0
    if len(cases) == 1 or a.jobs == 1:
        for c in cases:
            if time.time() - t0 > soft:
                skipped += 1
                continue
            results.append(_work((c, timeout)))
    else:
        # long cases first gives better packing; order does not matter to the verdict
        order = sorted(cases, key=lambda c: -c.get("cost", 1))
        from concurrent.futures import ProcessPoolExecutor, as_completed
        from concurrent.futures.process import BrokenProcessPool

        pending = collections.deque(order)
        with ProcessPoolExecutor(min(a.jobs, len(order)), mp_context=mp.get_context("fork")) as ex:
            futs = {}
            try:
                import concurrent.futures as cf

                while pending or futs:
                    while pending and len(futs) < 2 * a.jobs:
                        if time.time() - t0 > soft:
                            skipped += len(pending)
                            pending.clear()
                            break
                        c = pending.popleft()
                        futs[ex.submit(_work, (c, timeout))] = c
                    if not futs:
                        break
                    done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
                    for f in done:
                        futs.pop(f)
                        results.append(f.result())
            except BrokenProcessPool:
                lost = len(futs) + len(pending)
    results.sort(key=lambda r: r["id"])

    n = collections.Counter()
    distinct = collections.defaultdict(set)
    margin = {}
    notes = collections.Counter()
    status = collections.Counter()
    viol = []
    byid = {c["id"]: c for c in cases}
    for r in results:
        n.update(r["n"])
        notes.update(r["notes"])
        status[r["status"]] += 1
        for k, v in r["distinct"].items():
            distinct[k].update(v)
        for k, v in r["margin"].items():
            margin[k] = max(margin.get(k, 0.0), v)
        for v in r["viol"]:
            viol.append((r["id"], v))

    known = load_known(prop)
    new, matched = [], collections.OrderedDict()
    for cid, v in viol:
        k = next((d for d in known if fnmatch.fnmatchcase(v["key"], d["key"])), None)
        if k is not None:
            matched[k["key"]] = k
        else:
            new.append((cid, v))

    missing = [c for c in getattr(_mod, "REQUIRED", []) if n.get(c, 0) == 0]
    wall = time.time() - t0
    ndist = sum(len(v) for v in distinct.values())
    nondeg = [c for c in cases if c["id"] in {r["id"] for r in results if r["status"] == "ok"}]
    samples = []
    if nondeg:
        step = max(1, len(nondeg) // 4)
        samples = [core.jsonable({k: v for k, v in c.items()}) for c in nondeg[::step][:4]]
    evid = dict(
        property=prop, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=int(sum(n.values())), distinct_nontrivial=int(ndist),
            rule=_mod.RULE + " Counted per (clause, mechanism key, case): an evaluation is non-trivial only if the "
            "monitor compared a value returned by the real code with its oracle.",
            samples=samples, cases_run=len(results), cases_by_status=dict(status), cases_skipped_budget=skipped,
            clauses={k: dict(evaluations=n[k], distinct=len(distinct[k]),
                             worst_error_over_tolerance=(round(margin[k], 4) if k in margin else None)) for k in sorted(n)},
            notes=dict(notes), known_findings_seen=[k for k in matched]),
        assumptions=getattr(_mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2), violations=len(new))
    if not a.replay and not a.only and not a.no_evidence:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        p = os.path.join(core.VERIF, "evidence", f"{prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(evid, f, indent=1)
        os.replace(p + ".tmp", p)

    print(f"{prop} tier={tier} seed={a.seed} cases={len(results)} {dict(status)} skipped={skipped} "
          f"evals={sum(n.values())} distinct={ndist} wall={wall:.1f}s")
    if a.v:
        for k in sorted(n):
            print(f"   {k:45s} n={n[k]:6d} distinct={len(distinct[k]):5d} margin={margin.get(k, float('nan')):.3g}")
        if notes:
            print("   notes", dict(notes))
        slow = sorted(results, key=lambda r: -r["wall"])[:4]
        print("   slowest", [(r["id"], byid[r["id"]].get("kind"), round(r["wall"], 1)) for r in slow])
    for k, d in matched.items():
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    if new:
        rdir = os.path.join(os.environ.get("VMON_REPLAYS", os.path.join(core.VERIF, "replays")), prop)
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir, exist_ok=True)
        seen = collections.OrderedDict()
        for cid, v in new:
            seen.setdefault(v["key"], (cid, v))
        for j, (key, (cid, v)) in enumerate(list(seen.items())[:12]):
            path = os.path.join(rdir, f"{j:02d}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, case=core.jsonable_case(byid[cid]) if hasattr(core, "jsonable_case") else byid[cid],
                               violation=v, seed=a.seed, tier=tier), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   [{v['key']}] {v['msg']}")
            if a.v:
                print("     ", json.dumps(v["detail"])[:1500])
        return 1
    if status.get("timeout", 0) + status.get("memory", 0) + skipped + lost > 0.25 * len(cases):
        print(f"INCONCLUSIVE property={prop}: {dict(status)} skipped={skipped} lost={lost}")
        return 2
    if missing and not a.replay and not a.only:
        print(f"INCONCLUSIVE property={prop}: clauses never observed: {missing}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

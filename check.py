#!/usr/bin/env python3-vt
"""check.py <property>   decides one property of /repo's current tree (see DESIGN.md)."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from dbcv import build, core, report, sched      # noqa: E402


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from dbcv import registry
    prop = registry.PROPS[pid]
    budget = 840 if tier == "quick" else 3300
    keep = os.environ.get("DBCV_SCRATCH")
    scratch = build.Scratch(keep=keep)
    try:
        ctx = build.Ctx(scratch, sdk=prop.sdk)
        tb = time.time()
        prog = (lambda r: print("  %-70s %s %d obligations %.1fs %s" % (r.name, "ok" if r.proved else "OPEN", len(r.obs), r.secs,
                                                                        r.unsupported or (r.error or "")[:300]), flush=True)) if "-v" in sys.argv else None
        deadline = t0 + budget * 0.5
        pool = sched.Pool(ctx, registry.UNITS, int(os.environ.get("DBCV_JOBS", "8")), deadline, prog)
        pool.run(prop.units)
        # anything a solver did not decide gets another, calmer, attempt
        open_ = [n for n, r in pool.results.items() if not r.proved and not r.unsupported and not any(o.status == "refuted" for o in r.obs)]
        if open_ and tb - t0 < 300:
            pool.deadline = max(time.time() + 30, t0 + budget * 0.72)
            pool.retry(open_, 3, 3.0 if tier == "quick" else 10.0)
        rc = report.conclude(pid, prop, registry, ctx, pool.results, tier, seed, t0, t0 + budget)
    finally:
        scratch.close()
    return rc


if __name__ == "__main__":
    sys.exit(main())

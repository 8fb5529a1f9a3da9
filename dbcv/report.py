"""From unit results to a verdict, the replay files, the evidence file."""
import json
import os
import sys
import time

from . import build, replay

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")

BASE_TRUST = [
    "rustc 1.85.0: the MIR it emits for the crate (dev profile, debug assertions on) means what the shipped program means",
    "the MIR reader and symbolic executor in /verif/dbcv (mir.py, engine.py)",
    "solver verdict 'unsat' of z3 4.8.12 / z3-new / cvc5 / z3 Python API",
    "machine integers are modelled exactly (every overflow, cast and shift), as mathematical integers with ranges",
    "partial correctness: nothing is claimed about calls that return an error, panic or do not terminate",
]


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN)) if k.get("property") == pid and k.get("kind") == "finding"]


class Replayer:
    """one build of the replay harness for all units that were not proved"""

    def __init__(self, ctx, registry, results, seed, deadline):
        self.seed, self.deadline = seed, deadline
        self.h, self.why = None, ""
        open_ = [n for n in results if not results[n].proved]
        cons = {c.key: c for n in open_ for c in registry.UNITS[n].cons if ctx.prog.find(c.key) is not None}
        self.left = max(1, len(cons))
        if not cons:
            return
        try:
            h = replay.Harness(ctx, list(cons.values()))
            h.build()
            self.h = h
            self.why = str(h.skipped)
        except Exception as e:      # noqa
            self.why = "%s: %s" % (type(e).__name__, str(e)[:500])

    def search(self, u, r):
        total, notes = 0, []
        for c in u.cons:
            if self.h is None or c.key not in self.h.targets:
                notes.append("%s not run: %s" % (c.key, self.why[:300]))
                continue
            now = time.time()
            until = now + max(10, (self.deadline - now) / self.left)
            self.left = max(1, self.left - 1)
            models = [o.model for o in r.failed if o.model and o.name.startswith(c.key)][:10]
            try:
                found, n = replay.search(self.h, c.key, self.seed, min(until, self.deadline), models)
            except Exception as e:      # noqa
                notes.append("%s: %s: %s" % (c.key, type(e).__name__, e))
                continue
            total += n
            if found is not None:
                return found, total, notes
        return None, total, notes


def conclude(pid, prop, registry, ctx, results, tier, seed, t0, deadline):
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    obs = [o for r in results.values() for o in r.obs]
    proved = [o for o in obs if o.status == "proved"]
    backends = {}
    for o in proved:
        backends[o.backend] = backends.get(o.backend, 0) + 1
    violations, known, bounded, searched = [], [], [], []
    kf = known_findings(pid)
    replayer = Replayer(ctx, registry, results, seed, min(deadline - 10, time.time() + (240 if tier == "quick" else 1500)))
    for name in sorted(results):
        r = results[name]
        if r.proved:
            continue
        u = registry.UNITS[name]
        found = None
        info = {"unit": name, "unsupported": r.unsupported, "error": r.error,
                "failed obligations": [{"name": o.name, "status": o.status, "backend": o.backend, "model": o.model, "info": o.info}
                                       for o in r.failed][:20]}
        found, n, note = replayer.search(u, r)
        searched.append({"unit": name, "inputs tried on the real code": n, "failing input": found, "note": note})
        hard = bool(r.failed)
        if found is None and not hard:
            # outside the verifier's reach (unsupported construct, changed signature, time): the bounded search stands in
            bounded.append({"unit": name, "why": r.unsupported or r.error, "bound": searched[-1]})
            continue
        listed = [k for k in kf if k.get("unit") == name and all(any(k2 in o.name for k2 in k["obligations"]) for o in r.failed)]
        if listed:
            known.append((listed[0], name))
            continue
        path = os.path.join(evdir, "replay", "%s-%d.json" % (pid, len(violations) + 1))
        info["failing input"] = found
        info["property"] = pid
        with open(path, "w") as f:
            json.dump(info, f, indent=1, default=str)
        violations.append((path, found is not None, name, info))
    functions = sorted({f for r in results.values() for f in r.functions})
    inl = {}
    ext = {}
    for r in results.values():
        for k, v in r.inlined.items():
            inl[k] = inl.get(k, 0) + v
        for k, v in r.externals.items():
            ext.setdefault(k, str(v))
    covers = sum(r.covers for r in results.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(obs), "discharged": len(proved),
            "checker_cmd": "python3-vt check.py %s (VC generation over rustc MIR; z3 Python API, z3, z3-new, cvc5)" % pid,
            "trusted_base": BASE_TRUST + sorted("modelled or havocked external: %s (%s)" % kv for kv in ext.items()),
            "functions under contract": functions,
            "functions verified by inlining at their callers": sorted(inl),
            "units": {n: {"obligations": len(r.obs), "discharged": sum(o.status == "proved" for o in r.obs), "success paths covered": r.covers,
                          "paths": r.paths, "seconds": round(r.secs, 1)} for n, r in sorted(results.items())},
            "discharged by back end": backends,
            "solver seconds": round(sum(o.secs for o in obs), 1),
            "vacuity: reachable success paths": covers,
            "bounded stand-ins (not counted as proved)": bounded,
            "concrete search": searched,
            "mir sha256": ctx.mir_sha,
            "build seconds": round(ctx.build_secs, 1),
            "build facts": ctx.checks,
            "undischarged": [o.name for o in obs if o.status != "proved"][:40],
        },
        "assumptions": BASE_TRUST + sorted("external: %s" % k for k in ext),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, name in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for path, concrete, name, info in violations:
        for o in info["failed obligations"][:5]:
            print("  failed obligation: %s (%s)" % (o["name"], o["status"]))
        if concrete:
            print("  failing input: %s" % json.dumps(info["failing input"], default=str)[:800])
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if concrete else " no-failing-input-found"))
    print("%s: %d/%d obligations discharged in %d units, %d functions under contract, %d bounded, %.0fs" % (
        pid, len(proved), len(obs), len(results), len(functions), len(bounded), time.time() - t0))
    if not violations and not proved:
        print("nothing was decided")
        return 2
    return 1 if violations else 0

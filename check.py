#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current source."""
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from ygv import budget, build, registry                                            # noqa: E402
from ygv.report import HOLDS, VIOLATED, UNDECIDED                          # noqa: E402


def known():
    r = {}
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else ():
        l = l.strip()
        if l.startswith("finding: "):
            d = dict(x.split("=", 1) for x in l[9:].split(" ", 2)[:2])
            r.setdefault(d["property"], {})[d["key"]] = l[9:].split(" ", 2)[2]
    return r


def rel(w):
    return w.replace(build.REPO.rstrip("/") + "/", "") if isinstance(w, str) else w


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    p = registry.PROPS[pid]
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))      # a runaway obligation is undecided, not fatal
    budget.start(2400 if tier == 'thorough' else 300)
    try:
        obs = p.run(tier == "thorough")
    except build.AnalysisBroken as e:
        print("analysis cannot be carried out: %s" % e, file=sys.stderr)
        return 2
    kf = known().get(pid, {})
    bad, found = [], []
    for o in obs.of(VIOLATED):
        (found if o.key in kf else bad).append(o)
    held, und = obs.of(HOLDS), obs.of(UNDECIDED)
    if not held and not bad and not found:
        print("no obligation of %s could be decided" % pid, file=sys.stderr)
        for o in und[:10]:
            print("  undecided %s: %s" % (o.key, o.detail), file=sys.stderr)
        return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    sample = held[:3] + held[len(held) // 2:len(held) // 2 + 2]
    cov = {
        "explanation": p.rule,
        "technique": p.technique,
        "obligations": len(obs.l),
        "discharged": len(held),
        "violated": len(bad),
        "known_findings": len(found),
        "undecided": len(und),
        "undecided_obligations": ["%s (%s): %s" % (o.key, rel(o.where), o.detail) for o in und][:60],
        "functions_analysed": len(obs.functions),
        "functions": sorted(obs.functions)[:200],
        "samples": ["%s at %s: %s" % (o.key, rel(o.where), o.detail or "holds") for o in sample],
    }
    cov.update(obs.info)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
          "assumptions": p.assumptions, "wall_s": round(time.time() - t0, 3),
          "violations": [{"obligation": o.key, "at": rel(o.where), "detail": o.detail} for o in bad]}
    evp = os.path.join(HERE, "evidence", pid + ".json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d hold, %d undecided, %d known, %d violated (%.1fs)" % (
        pid, len(obs.l), len(held), len(und), len(found), len(bad), time.time() - t0))
    for o in found:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o.key, kf[o.key]))
    if bad:
        rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in bad:
                f.write("%s\n  at %s\n  %s\n" % (o.key, rel(o.where), o.detail))
        for o in bad[:12]:
            print("  %s at %s: %s" % (o.key, rel(o.where), o.detail[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

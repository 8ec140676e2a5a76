#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source by static analysis."""
import hashlib, json, os, shlex, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("VERIF_OUT", VERIF)      # development only: where the evidence goes
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from va import mir, report  # noqa: E402


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        findings, cov, undecided = report.run(prop, tier)
    except mir.AnalysisError as e:
        # the source cannot be analysed at all: nothing was explored, nothing is claimed
        findings, cov, undecided = [], {"explanation": "nothing was analysed: %s" % e}, [str(e)]
    except Exception as e:
        # a construct the analysis has no representation for: nothing is decided, and that is what is reported
        traceback.print_exc()
        findings, cov, undecided = [], {"explanation": "nothing was decided: %s: %s" % (type(e).__name__, e)}, ["internal: %s: %s" % (type(e).__name__, e)]
    known = report.load_known(report.KNOWN)
    new = []; old = {}
    for f in findings:
        k = next((k for k in known if report.matches(k, f)), None)
        if k is None: new.append(f)
        else: old.setdefault(k["text"], []).append(f)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    cov["known_findings_seen"] = sorted(old)
    cov["undecided"] = sorted(set(undecided))[:200]
    cov["undecided_paths"] = len(undecided)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": report.ASSUMPTIONS, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    path = os.path.join(OUT, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for u in sorted(set(undecided))[:20]:
        print("UNDECIDED: " + u)
    if new:
        d = os.path.join(OUT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, f in enumerate(new[:20]):
            rp = os.path.join(d, "%s-%d.txt" % (prop, i))
            with open(rp, "w") as o:
                o.write(report.replay_text(prop, f))
            print("%s  %s" % (f["span"], f["text"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("ok: %s: nothing found against it (%s)" % (prop, report.summary(cov)))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)

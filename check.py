#!/usr/bin/env python3
"""check.py <property-id>  [quick|thorough]

Decides one property from the source under /repo (VERIF_REPO overrides) and
writes /verif/evidence/<id>.json.  Exit 0: holds.  Exit 1: VIOLATION line.
Exit 2: the check could not give an answer."""
import json, os, sys, time, importlib, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "props"))
sys.setrecursionlimit(20000)

from result import Result, Vanished            # noqa: E402
import front                                    # noqa: E402


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = l[len("finding:"):].strip()
                pid = f.split()[0].split("=")[1]
                key = f.split()[1]
                assert key.startswith("key=")
                out.append((pid, key[4:], " ".join(f.split()[2:])))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    try:
        with front.Frontend() as fe:
            r = mod.run(fe, tier)
    except Vanished as e:
        print("ERROR property=%s anchor vanished: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the check could not run" % pid)
        return 2
    kn = {k: d for p, k, d in known() if p == pid}
    fresh = []
    seen_known = {}
    for v in r.violations:
        if v["key"] in kn:
            seen_known[v["key"]] = kn[v["key"]]
        else:
            fresh.append(v)
    EV = os.environ.get("VERIF_EVID", os.path.join(HERE, "evidence"))
    os.makedirs(EV, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": dict(r.coverage, explanation=r.explanation, rule=r.rule),
          "assumptions": r.assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(fresh)}
    rp = os.path.join(EV, pid + ".violations.txt")
    if os.path.exists(rp):
        os.remove(rp)
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for k, d in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if fresh:
        with open(rp, "w") as f:
            for v in fresh:
                f.write("%s\n  at %s\n  key %s\n" % (v["msg"], v["where"], v["key"]))
        for v in fresh[:40]:
            print("  %s: %s   [key %s]" % (v["where"], v["msg"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s %s (%.1fs)" % (pid, json.dumps({k: v for k, v in r.coverage.items() if isinstance(v, (int, str))}), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())

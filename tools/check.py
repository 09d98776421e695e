#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property for /repo's current tree."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import V, Fatal, analyse
import props

UB_KINDS = ("ub",)


def known():
    r = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                a = line[len("known: "):].split(" ", 1)
                r.append((a[0].split("=", 1)[1], a[1]))
    return r


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    t0 = time.time()
    spec = props.PROPS[pid]
    os.makedirs(V + "/evidence", exist_ok=True)
    ctx = props.Ctx(pid, thorough)
    try:
        spec(ctx)
        ctx.close()
    except Fatal as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error" % pid)
        return 2
    kn = [k[1] for k in known() if k[0] == pid]
    new, old = [], []
    for v in ctx.violations:
        (old if any(k == v["id"] for k in kn) else new).append(v)
    ev = {
        "property": pid,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": ctx.coverage(),
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(V + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["id"]))
    c = ev["coverage"]
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %.1f s" % (
        pid, c["obligations"], c["discharged"], c["undecided"], len(ctx.violations), ev["wall_s"]))
    for n in ctx.notes:
        print("note: " + n)
    if new:
        rp = V + "/evidence/%s.violation.txt" % pid
        with open(rp, "w") as f:
            f.write("property %s is violated; reproduce with: cd /verif && python3 tools/check.py %s\n\n" % (pid, pid))
            for v in new:
                f.write("== %s\n%s\n\n" % (v["id"], v["text"]))
        for v in new[:5]:
            print("-- " + v["id"])
            print("\n".join(v["text"].split("\n")[:14]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if c["discharged"] == 0:
        print("ERROR property=%s nothing could be decided" % pid)
        return 2
    return 0


sys.exit(main())

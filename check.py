#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree.  See DESIGN.md."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import components, vf


def known_findings(pid):
    out = []
    p = os.path.join(vf.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            # finding: property=<id> key=<what identifies it> <what fails>
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2].strip()
                key, _, what = rest.partition(" ")
                out.append((key[len("key="):], what))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = components.PLAN[pid]
    tot = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "runs": []}
    viol, failed = [], []
    findings = known_findings(pid)
    keys = {k for k, _ in findings}
    for fn, kw in plan(tier):
        t1 = time.time()
        try:
            r = fn(pid=pid, tier=tier, seed=seed, **kw)
        except Exception:      # the other runs may still decide
            traceback.print_exc()
            failed.append(kw)
            continue
        for k in ("states", "transitions"):
            tot[k] += r.get(k, 0)
        tot["traces_validated_against_impl"] += r.get("traces", 0)
        tot["samples"] += r.get("samples", [])[:3]
        tot["runs"].append(dict(r.get("info", {}), run=r["name"], wall_s=round(time.time() - t1, 1), states=r.get("states", 0),
                                transitions=r.get("transitions", 0), traces=r.get("traces", 0)))
        viol += [(r["name"],) + v for v in r.get("violations", [])]
        print("%s: %-28s states %7d  transitions %8d  traces %5d  violations %d  (%.1f s)" % (
            pid, r["name"], r.get("states", 0), r.get("transitions", 0), r.get("traces", 0), len(r.get("violations", [])), time.time() - t1), flush=True)
        if tier == "quick" and any("%s:%s" % v[:2] not in keys for v in viol):
            break
    real, known = [], {}
    for v in viol:
        key = "%s:%s" % (v[0], v[1])
        hit = [f for f in findings if f[0] == key]
        if hit:
            known[hit[0]] = v
        else:
            real.append(v)
    for (key, what) in findings:
        if (key, what) in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    tot["samples"] = tot["samples"][:6] or [r["run"] for r in tot["runs"]]
    vf.write_evidence(pid, tier, seed, "model_checking", tot, time.time() - t0, len(real), components.ASSUMPTIONS)
    seen = set()
    for name, tag, data in real:
        if (name, tag) in seen:
            continue
        seen.add((name, tag))
        if len(seen) > 10:
            break
        rp = vf.write_replay(pid, "%s-%s" % (name, "".join(c if c.isalnum() else "_" for c in tag)), {"property": pid, "run": name, "tag": tag, "tier": tier, "seed": seed, "data": data})
        print("%s broken: %s in %s" % (pid, tag, name))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    print("%s: %s in %.1f s" % (pid, "VIOLATED" if real else "NO ANSWER from %d runs" % len(failed) if failed else "held on everything explored", time.time() - t0))
    return 1 if real else 2 if failed else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

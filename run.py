#!/usr/bin/env python3
"""Run the check of one property:  run.py <ID> [quick|thorough]
   Build everything:              run.py setup
   Re-execute a recorded failure: run.py replay <file>

Exit 0: the property held on everything explored (known findings are named).
Exit 1: VIOLATION property=<id> replay=<path> was printed.
Exit 2: the check itself could not run.
"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vbuild, checks  # noqa: E402

LIMIT = {"quick": 840, "thorough": 10800}


def known_findings():
    """Lines 'finding: property=<id> key=<key> <what fails>'.

    A key is the exact identification the harness gives to a failing input,
    call site or history; a trailing '*' matches any suffix."""
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            p = line.split(None, 3)
            out.append((p[1].split("=", 1)[1], p[2].split("=", 1)[1],
                        p[3] if len(p) > 3 else ""))
    return out


def build(name):
    return vbuild.build(name, **checks.HARNESS[name])


def run_part(exe, args, tier):
    t = time.time()
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=LIMIT[tier],
                           cwd=HERE, errors="replace")
    except subprocess.TimeoutExpired:
        print("error: %s ran out of time" % os.path.basename(exe))
        sys.exit(2)
    for line in r.stdout.splitlines():
        if line.startswith("RESULT "):
            res = json.loads(line[7:])
            res["wall"] = time.time() - t
            return res
    sys.stdout.write("\n".join(r.stdout.splitlines()[-20:]) + "\n")
    sys.stdout.write("\n".join(r.stderr.splitlines()[-20:]) + "\n")
    print("error: %s gave no result (exit %d)" % (os.path.basename(exe), r.returncode))
    sys.exit(2)


def check(pid, tier):
    t0 = time.time()
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = next(c for c in man["checks"] if c["property"] == pid)
    known = [k for k in known_findings() if k[0] == pid]
    parts, viol, seen = [], [], {}
    for harness, args in checks.CHECK[pid]:
        a = args(tier) if callable(args) else args
        exe = build(harness)
        res = run_part(exe, [pid, tier] + a, tier)
        parts.append((harness, a, res))
        for v in res["violations"]:
            hit = next((k for k in known if v["key"] == k[1] or
                        (k[1].endswith("*") and v["key"].startswith(k[1][:-1]))), None)
            if hit:
                seen.setdefault(hit[1], [hit, v])
            else:
                viol.append((harness, a, v))
    for key, (hit, v) in seen.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, hit[2]))
    rep = os.path.join(HERE, "replay")
    os.makedirs(rep, exist_ok=True)
    for n, (harness, a, v) in enumerate(viol[:5]):
        path = os.path.join(rep, "%s-%d.txt" % (pid, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": harness, "args": a, "tier": tier,
                       "key": v["key"], "replay": v["replay"], "text": v["text"]},
                      f, indent=1)
            f.write("\n")
        print("  %s: %s" % (v["key"], v["text"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    tot = lambda k: sum(r[k] for _, _, r in parts)
    cov = {"states": tot("states"), "transitions": tot("transitions"),
           "traces_validated_against_impl": tot("traces"),
           "exhaustive": all(r["complete"] for _, _, r in parts),
           "samples": [s for _, _, r in parts for s in r["samples"]][:12],
           "parts": [{"harness": h, "args": a, "states": r["states"],
                      "transitions": r["transitions"], "traces": r["traces"],
                      "complete": r["complete"], "details": r.get("extra", {}),
                      "wall_s": round(r["wall"], 2)} for h, a, r in parts]}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": entry["level"], "coverage": cov,
          "assumptions": checks.ASSUME.get(pid, []) + [
              "nothing is sampled: the stated space is enumerated completely and in a "
              "fixed order, so the seed has no influence"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: states=%d transitions=%d traces=%d complete=%s known=%d violations=%d %.1fs"
          % (pid, tier, cov["states"], cov["transitions"],
             cov["traces_validated_against_impl"], cov["exhaustive"], len(seen),
             len(viol), time.time() - t0))
    if not viol and not cov["exhaustive"]:
        print("error: the exploration did not finish")
        return 2
    return 1 if viol else 0


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for name in checks.HARNESS:
            build(name)
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        exe = build(d["harness"])
        os.environ["MC_ONLY"] = d["key"]
        os.environ["MC_VERBOSE"] = "1"
        res = run_part(exe, [d["property"], d["tier"]] + d["args"], d["tier"])
        hits = [v for v in res["violations"] if v["key"] == d["key"]]
        for v in hits:
            print("reproduced %s\n%s\n%s" % (v["key"], v["replay"], v["text"]))
        if not hits:
            print("not reproduced on this tree: %s\n%s" % (d["key"], d["replay"]))
        return 1 if hits else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(pid, tier)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit as e:
        if isinstance(e.code, str):
            print("error: " + e.code)
            code = 2
        else:
            code = e.code
    except Exception as e:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)

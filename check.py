#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   or   check.py --replay <file>"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import base  # noqa: E402
import props  # noqa: E402


def known_findings():
    out = []
    with open(os.path.join(base.VERIF, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: "):
                prop, _, what = line[len("known: "):].partition(" ")
                out.append((prop[len("property="):], what.strip()))
    return out


def write_replay(prop, i, detail, replay):
    d = os.path.join(base.VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, i))
    with open(path, "w") as f:
        json.dump(dict(replay, property=prop, detail=detail), f, indent=1)
    return path


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        print(r["detail"])
        if "cmd" in r:
            p = props.CHECKS[r["property"]]
            p.prepare()
            rc, out, err = base.sh(r["cmd"], timeout=800)
            print(out, err, "exit", rc)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = props.CHECKS[prop]
    res = base.Result(prop, tier, seed)
    start = time.time()
    replay_dir = os.path.join(base.VERIF, "replay")
    if os.path.isdir(replay_dir):
        for f in os.listdir(replay_dir):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(replay_dir, f))
    try:
        check.run(res)
    except base.NoBuild as e:
        res.violation("programs written as documented do not compile against this tree:\n" + e.log[-4000:], {})
    except base.Broken as e:
        print("BROKEN: %s" % e)
        return 2
    listed = known_findings()
    for what, n in res.known.items():
        if (prop, what) not in listed:
            res.violation("%s (%d cases)" % (what, n), {})
    if not res.violations and (res.evaluations < check.least or len(res.hashes) < 1):
        print("BROKEN: only %d evaluations" % res.evaluations)
        return 2
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": len(res.hashes),
        "rule": check.rule,
        "samples": res.samples or ["none"],
        "observed": dict(sorted(res.counters.items())),
    }
    if res.notes:
        cov["notes"] = res.notes
    cov.update(res.extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(time.time() - start, 2),
          "violations": len(res.violations)}
    os.makedirs(os.path.join(base.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(base.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what, n in sorted(res.known.items()):
        if (prop, what) in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if res.violations:
        for i, (detail, replay) in enumerate(res.violations[:8]):
            path = write_replay(prop, i, detail, replay)
            print(detail[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: held; %d evaluations, %d distinct, %.1f s" % (prop, res.evaluations, len(res.hashes), time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's working tree
   check.py --replay FILE       run the input of a replay file again

Environment: VERIF_TIER (quick | thorough), VERIF_SEED.
Exit 0: held on everything explored; 1: VIOLATION line; 2: the machinery failed."""
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import plans  # noqa: E402
from pipe import Broken, Pipe  # noqa: E402


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return plans.replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t = time.time()
    pipe = Pipe(prop, tier, seed)
    try:
        out = plans.run(pipe)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            pipe.close()
    ev = out["evidence"]
    ev.update(property=prop, tier=tier, seed=seed, wall_s=round(time.time() - t, 1),
              violations=len(out["violations"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in out["known"]:
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    for v in out["violations"]:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        for d in v["differences"][:6]:
            print("   ", json.dumps(d)[:300])
    print("%s %s: %d traces, %.0f s" % (prop, "violated" if out["violations"] else "held",
                                        ev["coverage"].get("traces_validated_against_impl", 0), time.time() - t))
    return 1 if out["violations"] else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("BROKEN:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

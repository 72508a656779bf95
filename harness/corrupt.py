"""Does the comparison bind?  Recorded runs with one thing changed, each of which the specification
has to reject.  Not a check: for whoever works on the machinery."""
import collections
import copy
import json
import sys

import pipe


def changed(v, r):
    k = v[0]
    if k == "i":
        w = list(v)
        i = r.choice([2, 3, 4])
        w[i] = (w[i] + r.choice([1, 255, 65535])) % 65536
        return w
    if k == "s":
        s = list(v[1])
        n = r.randrange(len(s) + 1)
        if s and r.random() < .5:
            del s[min(n, len(s) - 1)]
        else:
            s.insert(n, r.choice([0, 32, 65, 0xfffd]))
        return ["s", s]
    if k == "d":
        w = list(v)
        i = r.choice([1, 2])
        w[i] += r.choice([-60, -2, 2, 3600])
        return w
    if k == "b":
        return ["b", not v[1]]
    return ["i", False, 0, 0, 0]


def corrupt(rec, r):
    rec = copy.deepcopy(rec)
    kind = r.choice(["value", "value", "value", "missing", "added", "twice", "moved", "nw", "size", "cmd", "out"])
    i = r.randrange(len(rec["obs"]))
    p, v = rec["obs"][i]
    if kind == "value":
        w = changed(v, r)
        rec["obs"][i] = [p, w]
        kind += " " + v[0]
    elif kind == "missing":
        del rec["obs"][i]
    elif kind == "added":
        rec["obs"].append([p[:-1] + ["more"], v])
    elif kind == "twice":
        rec["obs"].append([p, changed(v, r)])
    elif kind == "moved":
        rec["obs"][i] = [p[:-1] + [p[-1] + "_"], v]
    elif kind == "nw":
        rec["nw"] = 0 if rec["nw"] else 1
    elif kind == "size":
        rec["size"] += r.choice([-1, 1, 4])
    elif kind == "cmd":
        rec["cmd"] = rec["cmd"] + [32] if r.random() < .5 or not rec["cmd"] else rec["cmd"][1:]
    elif kind == "out":
        rec["out"] = "exception"
    return kind, rec


def main(seed):
    p = pipe.Pipe("corrupt", "quick", seed)
    try:
        jobs = p.sweep("whole") + p.sweep("chains")[:5] + p.samples() + p.fuzz(150, .2)
        jobs = [j for j in jobs if "chain" not in j]
        recs, kinds, free = [], {}, 0
        for line in open(p.record1(jobs)):
            rec = json.loads(line)
            for k in range(8):
                kind, new = corrupt(rec, p.rng)
                new["id"] = "%s~%d" % (rec["id"], k)
                kinds[new["id"]] = kind
                recs.append(new)
        src, ver = p.path("trace"), p.path("verdicts")
        with open(src, "w") as f:
            f.writelines(json.dumps(x) + "\n" for x in recs)
        p.tlc("TraceParse", env={"TRACE": src, "VERDICTS": ver})
        n, quiet = collections.Counter(), collections.Counter()
        for line in open(ver):
            v = json.loads(line)
            kind = kinds[v["id"]]
            n[kind] += 1
            if not (v["missing"] or v["extra"] or v["other"]):
                quiet[kind] += 1
        for kind in sorted(n):
            print("%-10s %4d changed, %4d not rejected" % (kind, n[kind], quiet[kind]))
    finally:
        p.close()


main(int(sys.argv[1]) if len(sys.argv) > 1 else 1)

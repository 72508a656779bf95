"""What each check does: which model runs, which inputs, and which differences between what the
specification demands and what was recorded are violations of the property."""
import json
import os
import sys

from pipe import SPEC, VERIF, Broken, Pipe, difference_text, seq_text

KNOWN = os.path.join(VERIF, "known_findings.json")
PROVIDER = ("link_info", "location_info", "network_provider_type")

TIMES = {"creation_time", "accessed_time", "modified_time"}


def header(p):
    return p[0] == "header" and p[-1] not in TIMES


def times(p):
    return p[-1] in TIMES or p[-1] == "modification_time"


def target(p):
    return p[0] == "target" or p[:2] == ("extra", "SHELL_ITEM_IDENTIFIER_BLOCK")


def info(p):
    return p[0] == "link_info"


def data(p):
    return p[0] == "data"


def extra(p):
    return p[0] == "extra"


def store(p):
    return p[:2] == ("extra", "METADATA_PROPERTIES_BLOCK")


def size(p):
    return p == ("size",)


def anything(p):
    return True


def nothing(p):
    return False


def behind_header(p):
    return p[0] != "header"


def identifiers(p):
    k = p[-1]
    return ("guid" in k or "sha256" in k or "droid" in k or "serial" in k or "provider" in k or "version" in k
            or "identifier" in k or "format_id" in k or "_code" in k or "delegate" in k or "signature" in k
            or k in ("known_folder_id", "flags") or "DARWIN" in "".join(p))


def chains(pipe, plan):
    """Links back to back: everything that differs from the link alone counts."""
    res = pipe.validate(pipe.sweep("chains"))
    whole = dict(plan, paths=anything, clauses=("size", "command"))
    return [(j, r, dict(v, differences=judge(whole, r, v))) for j, r, v in res]


def targets(pipe, plan):
    """What is printed for the command."""
    jobs = pipe.sweep("outputs")[::2] + pipe.samples() + pipe.fuzz(3000 if pipe.deep else 300, .3, "printed")
    jobs += pipe.sweep("commands")[:: 1 if pipe.deep else 8]
    res = pipe.validate(jobs, "TraceViews")
    return [(dict(j, module="TraceViews", views=["target", "target_json"]), r, dict(v, differences=judge({"views": ["target", "target_json"]}, r, v))) for j, r, v in res]


def documents(pipe):
    """Documents in pairs: the same bytes with different options."""
    docs = pipe.sweep("docs")
    for j in pipe.samples()[:: 1 if pipe.deep else 6] + pipe.fuzz(6 if pipe.deep else 3, .3, "doc"):
        docs += [dict(j, cp="cp1252", atb=True), dict(j, cp="ascii", atb=False)]
    return docs


def session_jobs(pipe):
    docs = documents(pipe)
    hists = []
    depth, keep, num, length = (3, 30000, 1500, 40) if pipe.deep else (2, 5000, 250, 30)
    short, long = pipe.path("short"), pipe.path("long")
    a = pipe.pool.submit(pipe.model, "MC_SessionShort", "MC_Session", env={"DEPTH": str(depth), "OUT": short}, workers=1)
    pipe.tlc("MC_Session", os.path.join(SPEC, "MC_SessionLong.cfg"), {"DEPTH": str(length), "OUT": long},
             args=["-simulate", "num=%d" % num, "-depth", str(length + 3), "-seed", str(pipe.seed)])
    a.result()
    for name in (short, long):
        with open(name) as f:
            new = [json.loads(x if x.startswith("[") else json.loads(x)) for x in f]
        if not new:
            raise Broken("no histories")
        if len(new) > keep:
            new = pipe.rng.sample(new, keep)
        pipe.cov["histories_" + ("short" if name == short else "long")] += len(new)
        hists += new
    jobs = []
    for i, h in enumerate(hists):
        k = i % (len(docs) // 2)
        o = (i // (len(docs) // 2)) % (len(docs) // 2)
        real = {1: 2 * k + 1, 2: 2 * k + 2, 3: 2 * (o if o != k else (o + 1) % (len(docs) // 2)) + 1}
        jobs.append({"id": "h%d" % i, "events": [dict(e, doc=real[e["doc"]]) for e in h]})
    return docs, jobs


def thread_jobs(pipe, docs):
    """Orders of two threads' pieces of work; what was document 1, 2, 3 is spread over all of them."""
    out = pipe.path("orders")
    pipe.model("MC_Threads", env={"OUT": out}, workers=1)
    with open(out) as f:
        orders = [json.loads(json.loads(x)) for x in f]
    if not orders:
        raise Broken("no orders of threads")
    pipe.cov["orders_enumerated"] = len(orders)
    keep = 12000 if pipe.deep else 2400
    if len(orders) > keep:
        orders = pipe.rng.sample(orders, keep)
    pairs = len(docs) // 2
    jobs = []
    for i, o in enumerate(orders):
        k = pipe.rng.randrange(pairs)
        other = (k + 1 + pipe.rng.randrange(pairs - 1)) % pairs
        real = {1: 2 * k + 1, 2: 2 * k + 2, 3: 2 * other + 1 + pipe.rng.randrange(2)}
        jobs.append({"id": "t%d" % i, "order": o["order"],
                     "questions": [dict(q, doc=real[q["doc"]], via=pipe.rng.choice(["bytes", "handle"])) for q in o["questions"]]})
    return jobs


def play(pipe, docs, jobs):
    h = [j for j in jobs if "events" in j]
    t = [j for j in jobs if "order" in j]
    return (play1(pipe, docs, h, "play", "TraceSession") if h else []) + (play1(pipe, docs, t, "threads", "TraceThreads") if t else [])


def play1(pipe, docs, jobs, how, module):
    d = pipe.path("docs.json")
    with open(d, "w") as f:
        json.dump(docs, f)
    fresh = pipe.path("fresh.json")
    r = pipe.python("session.py", ["fresh", d, fresh], env={"PYTHONHASHSEED": "7"})
    if r.returncode:
        raise Broken("session.py fresh: " + r.stderr[-2000:])

    def part(js):
        src, dst, ver = pipe.path("hist"), pipe.path("trace"), pipe.path("verdicts")
        with open(src, "w") as f:
            f.writelines(json.dumps(j) + "\n" for j in js)
        r = pipe.python("session.py", [how, d, src, dst])
        if r.returncode:
            raise Broken("session.py %s: rc %s %s" % (how, r.returncode, r.stderr[-2000:]))
        _, text = pipe.tlc(module, env={"TRACE": dst, "FRESH": fresh, "VERDICTS": ver}, override=False)
        pipe.cov["trace_states"] += pipe.stats(text)[1]
        pipe.cov["session_events"] += sum(len(j.get("events") or j["order"]) for j in js)
        recs = {x["id"]: x for x in map(json.loads, open(dst))}
        vs = [json.loads(x) for x in open(ver)]
        if len(vs) != len(js):
            raise Broken("%s: %d verdicts for %d histories" % (module, len(vs), len(js)))
        by = {j["id"]: j for j in js}
        pipe.cov["orders_given_up"] += sum(1 for r in recs.values() if r.get("free"))
        return [(by[v["id"]], {"id": v["id"]}, {"differences": [
            {"clause": "reply", "at": b["at"], "call": b["call"], "document": b["doc"],
             "reply": recs[v["id"]]["events"][b["at"] - 1].get("reply")} for b in v["bad"]]}) for v in vs]

    out = []
    for r in pipe.pool.map(part, pipe.shard(jobs)):
        out += r
    return out


def sessions(pipe, plan):
    docs, jobs = session_jobs(pipe)
    jobs += thread_jobs(pipe, docs)
    res = play(pipe, docs, jobs)
    return [(dict(j, docs=docs) if v["differences"] else j, r, v) for j, r, v in res]


def replay_session(pipe, job):
    return play(pipe, job["docs"], [job])[0][2]["differences"]


CLI_PAGES = ["cp1252", "cp437", "ascii", "cp1251"]


def command_jobs(pipe):
    docs = [d for i, d in enumerate(documents(pipe)) if i % 2 == 0]
    out = pipe.path("lines")
    pipe.model("MC_Cli", env={"OUT": out}, workers=1)
    with open(out) as f:
        lines = [json.loads(json.loads(x)) for x in f]
    if not lines:
        raise Broken("no command lines")
    pipe.cov["command_lines_enumerated"] = len(lines)
    keep = 40000 if pipe.deep else 5000
    kinds = {}
    for w in lines:  # as many of each combination of options
        opts = {o for x in w if x["k"] == "switches" for o in x["v"]}
        there = [x["v"] for x in w if x["k"] == "file"]
        kinds.setdefault((tuple(sorted(opts)), any(x["k"] == "cp" for x in w), tuple(there)), []).append(w)
    lines = []
    for k in sorted(kinds):
        n = keep // 16 if k[2] == (1,) else keep // 128
        lines += pipe.rng.sample(kinds[k], n) if len(kinds[k]) > n else (kinds[k] * 8)[:n]
    real = set(pipe.rng.sample(range(len(lines)), 600 if pipe.deep else 60))
    jobs = [{"id": "l%d" % i, "words": w, "doc": 1 + i * 7 % len(docs), "real": i in real} for i, w in enumerate(lines)]
    pipe.cov["real_processes"] = len(real)
    return docs, jobs


def run_lines(pipe, docs, jobs):
    d, fresh, where = pipe.path("docs.json"), pipe.path("fresh.json"), pipe.path("files")
    with open(d, "w") as f:
        json.dump(docs, f)
    r = pipe.python("cli.py", ["fresh", d, ",".join(CLI_PAGES), fresh], env={"PYTHONHASHSEED": "7"})
    if r.returncode:
        raise Broken("cli.py fresh: " + r.stderr[-2000:])
    os.makedirs(where)
    cli_files(docs, where)

    def part(js):
        src, dst, ver = pipe.path("lines"), pipe.path("trace"), pipe.path("verdicts")
        with open(src, "w") as f:
            f.writelines(json.dumps(j) + "\n" for j in js)
        r = pipe.python("cli.py", ["play", where, src, dst])
        if r.returncode:
            raise Broken("cli.py play: rc %s %s" % (r.returncode, r.stderr[-2000:]))
        _, text = pipe.tlc("TraceCli", env={"TRACE": dst, "FRESH": fresh, "VERDICTS": ver}, override=False)
        pipe.cov["trace_states"] += pipe.stats(text)[1]
        recs = {x["id"]: x for x in map(json.loads, open(dst))}
        vs = [json.loads(x) for x in open(ver)]
        if len(vs) != len(js):
            raise Broken("TraceCli: %d verdicts for %d lines" % (len(vs), len(js)))
        by = {j["id"]: j for j in js}
        return [(by[v["id"]], {"id": v["id"]}, {"taken": [v["effect"]["out"] or "no report"], "differences": [
            {"clause": b, "arguments": recs[v["id"]]["args"], "exit": recs[v["id"]]["exit"],
             "printed": recs[v["id"]]["printed"], "expected": v["effect"]} for b in v["bad"]]}) for v in vs]

    out = []
    for r in pipe.pool.map(part, pipe.shard(jobs)):
        out += r
    for _, _, v in out:
        pipe.actions[v["taken"][0]] += 1
    return out


def cli_files(docs, where):
    names = ["doc-%d", "with space %d.lnk", "umlaut-\u00fc-%d.lnk", "./-dash-%d.lnk", "sub/x%d"]
    os.makedirs(os.path.join(where, "sub"))
    for i, d in enumerate(docs, 1):
        data = bytes.fromhex(d["b"]) if isinstance(d["b"], str) else bytes(d["b"])
        for n in names:
            with open(os.path.join(where, n % i), "wb") as f:
                f.write(data)


def commands(pipe, plan):
    docs, jobs = command_jobs(pipe)
    res = run_lines(pipe, docs, jobs)
    return [(dict(j, docs=docs) if v["differences"] else j, r, v) for j, r, v in res]


def replay_command(pipe, job):
    return run_lines(pipe, job["docs"], [job])[0][2]["differences"]


# topics, random documents (quick, thorough), share of damaged ones, mutants (quick, thorough),
# differences, clauses, models
P = {
    "C01": dict(topics=["header", "hotkey"], fuzz=(800, 20000), damage=.2, mut=(0, 0), paths=header, clauses=(),
                models=[dict(name="MC_Write", part="header")]),
    "C02": dict(topics=["times"], fuzz=(800, 20000), damage=.2, mut=(200, 4000), paths=times, clauses=("warning",),
                models=[dict(name="MC_Times")]),
    "C03": dict(topics=["layout", "biglist", "biginfo"], fuzz=(1500, 25000), damage=.2, mut=(300, 4000), paths=behind_header, clauses=(),
                models=[dict(name="MC_Compose", docs="sections")]),
    "C04": dict(topics=["items", "biglist"], fuzz=(1500, 25000), damage=.4, mut=(300, 6000), paths=target, clauses=("warning",),
                models=[dict(name="MC_Local", docs="whole")]),
    "C05": dict(topics=["contents"], fuzz=(2000, 30000), damage=.3, mut=(300, 6000), paths=target, clauses=(),
                models=[dict(name="MC_Write", part="items")]),
    "C06": dict(topics=["local", "biginfo"], fuzz=(2000, 30000), damage=.3, mut=(300, 6000), paths=info, clauses=(),
                models=[dict(name="MC_Write", part="local")]),
    "C07": dict(topics=["network", "biginfo"], fuzz=(2000, 30000), damage=.3, mut=(300, 6000), paths=info, clauses=(),
                models=[dict(name="MC_Write", part="network")]),
    "C08": dict(topics=["strings", "bigstrings"], fuzz=(1500, 25000), damage=.2, mut=(300, 6000), paths=data, clauses=(),
                models=[dict(name="MC_Write", part="strings")]),
    "C09": dict(topics=["extra", "bigblocks"], fuzz=(1500, 25000), damage=.3, mut=(300, 6000), paths=extra, clauses=(),
                models=[dict(name="MC_Order", docs="apart")]),
    "C10": dict(topics=["blocks"], fuzz=(1800, 30000), damage=.3, mut=(300, 6000), paths=extra, clauses=(),
                models=[dict(name="MC_Write", part="blocks")]),
    "C11": dict(topics=["store", "bigstore"], fuzz=(1800, 30000), damage=.3, mut=(600, 8000), paths=store, clauses=("warning",),
                models=[dict(name="MC_Write", part="store")]),
    "C12": dict(topics=["texts"], fuzz=(1200, 25000), damage=.3, mut=(300, 6000), paths=behind_header,
                clauses=("warning", "spurious warning"),
                models=[dict(name="MC_Text")]),
    "C13": dict(topics=["poke", "items", "ends", "many", "shrunk", "cuts"], fuzz=(1200, 30000), damage=.8, mut=(1200, 30000), paths=nothing, clauses=(),
                want=["outputs"],
                models=[dict(name="MC_Machine", docs="ends")]),
    "C14": dict(topics=["defects", "poke", "poked", "ends", "shrunk"], fuzz=(1000, 30000), damage=.8, mut=(500, 10000), paths=anything,
                clauses=("warning", "spurious warning", "size", "command"),
                models=[dict(name="MC_Local", docs="whole")]),
    "C15": dict(topics=["sizes", "bigblocks", "bigstrings"], fuzz=(2000, 30000), damage=.5, mut=(500, 10000), paths=size, clauses=("size",),
                more=chains,
                models=[dict(name="MC_Chain", docs="links")]),
    "C16": dict(topics=["prefixes", "cuts"], fuzz=(500, 10000), damage=.9, mut=(0, 0), paths=anything,
                clauses=("warning", "size", "command"),
                models=[dict(name="MC_Prefix", docs="whole")]),
    "C17": dict(topics=["outputs", "shrunk", "layout"], fuzz=(600, 8000), damage=.3, mut=(100, 3000), module="TraceViews",
                views=["dflt", "json_all", "json", "yaml_all", "yaml"]),
    "C18": dict(topics=["commands"], fuzz=(800, 10000), damage=.4, mut=(100, 3000), paths=nothing,
                clauses=("command",), more=targets,
                models=[dict(name="MC_Command")]),
    "C22": dict(topics=["outputs", "shrunk", "cuts", "layout"], fuzz=(1200, 15000), damage=.4, mut=(200, 4000), module="TraceViews", views=["api"]),
    "C19": dict(run=sessions, replay=replay_session),
    "C20": dict(run=commands, replay=replay_command),
    "C21": dict(topics=["ids", "bigblocks"], fuzz=(1500, 25000), damage=.2, mut=(200, 4000), paths=identifiers,
                clauses=("warning",),
                models=[dict(name="MC_Ids", digests=True, plain=True)]),
}


def known():
    with open(KNOWN) as f:
        return json.load(f)["known"]


def split_known(prop, job, rec, diffs, listed):
    """Differences that are exactly a listed finding are set apart."""
    prov = [d for d in diffs if tuple(d.get("path", "").split("/")) == PROVIDER]
    if not prov:
        return diffs, []
    raw = [seq_text(v) for p, v in rec["obs"] if p[-1] == "r_network_provider_type"]
    flags = [seq_text(v) for p, v in rec["obs"] if p[-1] == "common_network_relative_link_flags"]
    if flags and not flags[0] & 2:
        return diffs, []
    exp = [d["value"] for d in prov if d["kind"] == "missing"]
    obs = [d["value"] for d in prov if d["kind"] == "extra"]
    for k in listed:
        if ([k["r_network_provider_type"]] == raw and exp == ([k["expected"]] if k["expected"] else [])
                and obs == ([k["observed"]] if k["observed"] else [])):
            return [d for d in diffs if d not in prov], [k]
    return diffs, []


def judge(plan, rec, v):
    """The differences of one record that concern the property."""
    out = []
    if v.get("bad") is not None:  # TraceViews
        if v["out"] != "ok":
            return [{"clause": v["out"], "stage": rec.get("stage"), "what": rec.get("exc")}]
        for b in v["bad"]:
            if plan.get("views") == "all" or b["view"] in plan["views"]:
                ds = [difference_text(b["view"], k, p) for k in ("missing", "extra") for p in b[k]]
                out += ds or [{"view": b["view"], "clause": "text"}]
        return out
    for c in v["other"]:
        if c in ("exception", "timeout"):
            out.append({"clause": c, "stage": rec.get("stage"), "what": rec.get("exc")})
        elif c in plan["clauses"]:
            out.append({"clause": c, "recorded": {"warning": rec["nw"], "spurious warning": rec["nw"], "size": rec["size"],
                                                  "command": "".join(map(chr, rec["cmd"]))}[c]})
    for k in ("missing", "extra"):
        for p in v[k]:
            if plan["paths"](tuple(p[0])):
                out.append(difference_text("report", k, p))
    return out


def inputs(pipe, plan):
    i = 1 if pipe.deep else 0
    jobs = []
    for topic in plan["topics"]:
        jobs += pipe.sweep(topic)
    base = pipe.samples()
    jobs += base
    if plan["mut"][i]:
        jobs += pipe.mutants(jobs, plan["mut"][i])
    jobs += pipe.fuzz(plan["fuzz"][i], plan["damage"])
    if plan.get("want"):
        jobs = [dict(j, want=plan["want"]) for j in jobs]
    return jobs


def run(pipe):
    if pipe.prop not in P:
        raise Broken("no check for " + pipe.prop)
    plan = P[pipe.prop]
    fut = [pipe.pool.submit(pipe.extra_model, **m) for m in plan.get("models", ())]
    results = plan["run"](pipe, plan) if "run" in plan else None
    bad, found = [], {}
    listed = known()
    samples, distinct = [], set()
    if results is None:
        results = pipe.validate(inputs(pipe, plan), plan.get("module", "TraceParse"))
        results += plan["more"](pipe, plan) if "more" in plan else []
    for f in fut:
        f.result()
    for job, rec, v in results:
        key = json.dumps([job["b"], job.get("cp"), job.get("atb")]) if "b" in job else json.dumps(job) + str(rec.get("id"))
        distinct.add(hash(key))
        ds = v["differences"] if "differences" in v else judge(plan, rec, v)
        ds, ks = split_known(pipe.prop, job, rec, ds, listed) if "obs" in rec else (ds, [])
        for k in ks:
            if k["property"] == pipe.prop:
                found[k["r_network_provider_type"]] = k
        if ds:
            bad.append((job, rec, ds))
        elif len(samples) < 3 and len(json.dumps(job)) < 1500:
            samples.append(job)
    violations = []
    if bad:
        bad.sort(key=lambda x: len(json.dumps(x[0])))
        d = os.path.join(VERIF, "work", "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for job, rec, ds in bad:
            sig = (ds[0].get("path"), ds[0].get("clause"), ds[0].get("view"))
            if sig in seen or len(violations) >= 5:
                continue
            seen.add(sig)
            name = os.path.join(d, "%s-%d.json" % (pipe.prop, len(violations)))
            with open(name, "w") as f:
                json.dump({"property": pipe.prop, "job": job, "differences": ds[:40]}, f, indent=1)
            violations.append({"replay": name, "differences": ds})
    if found:
        pipe.cov["known_findings_seen"] = len(found)
    ev = {"level": plan.get("level", "model_checking"), "coverage": {
        "states": sum(m["states"] for m in pipe.models.values()) + pipe.cov["trace_states"],
        "transitions": sum(m["transitions"] for m in pipe.models.values()) + pipe.cov["trace_states"],
        "traces_validated_against_impl": len(results),
        "evaluations": len(results), "distinct_nontrivial": len(distinct),
        "rule": "every job is one run of the real code judged by the specification; distinct: as input and options",
        "inputs": {k: n for k, n in sorted(pipe.cov.items()) if k not in ("trace_states", "traces_validated")},
        "actions_taken": dict(pipe.actions), "models": pipe.models, "samples": samples}}
    lines = ["r_network_provider_type %s: named %s instead of %s" % (k["r_network_provider_type"], k["observed"], k["expected"])
             for k in listed if k["property"] == pipe.prop]
    return {"violations": violations, "known": lines, "evidence": ev}


def replay(path):
    with open(path) as f:
        r = json.load(f)
    pipe = Pipe(r["property"], "quick", 1)
    plan = P[r["property"]]
    try:
        if "replay" in plan:
            ds = plan["replay"](pipe, r["job"])
        else:
            job = r["job"]
            res = pipe.validate([job], job.get("module") or plan.get("module", "TraceParse"))
            ds = judge(dict(plan, views=job["views"]) if "views" in job else plan, res[0][1], res[0][2])
    finally:
        pipe.close()
    for d in ds:
        print(json.dumps(d))
    print("violated" if ds else "held")
    return 1 if ds else 0

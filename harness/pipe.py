"""The machinery shared by all checks: running TLC, recording runs of the real parser, having
them judged by the specification, sorting out what is left."""
import collections
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("LNK_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
sys.path.insert(0, HERE)
import fuzz  # noqa: E402


ZONES = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "LINT-14", "AoE12", "CET-1CEST,M3.5.0,M10.5.0/3"]


class Broken(Exception):
    """The machinery itself failed (exit 2)."""


def seq_text(v):
    """A value of a report, for people."""
    if v and v[0] == "s":
        return "".join(map(chr, v[1]))
    if v and v[0] == "i":
        return (-1 if v[1] else 1) * ((v[2] << 32) + (v[3] << 16) + v[4])
    if v == ["n"]:
        return None
    return v


class Pipe:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.n = 0
        self.rng = random.Random("%s %s" % (seed, prop))
        self.cov = collections.Counter()
        self.actions = collections.Counter()
        self.models = {}
        self.notes = []
        self.classes = None
        self.pool = cf.ThreadPoolExecutor(SHARDS)
        cps = {c or "cp1252" for c in fuzz.CODEPAGES}
        self.cps = self.path("codepages.json")
        with open(self.cps, "w") as f:
            json.dump(fuzz.codepage_tables(cps), f)

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------------ TLC
    def tlc_classes(self):
        """The Java form of SHA-256 (an operator override; MC_Ids compares it with the TLA+ one)."""
        if self.classes is None:
            d = self.path("classes")
            os.makedirs(d)
            r = subprocess.run(["javac", "-cp", TLA, "-d", d, os.path.join(VERIF, "java", "Sha256.java")],
                               capture_output=True, text=True)
            if r.returncode:
                raise Broken("javac: " + r.stderr[-2000:])
            self.classes = d
        return self.classes

    def tlc(self, module, cfg=None, env=None, override=True, args=(), timeout=800, workers=1, heap="3g",
            ok=(0,)):
        meta = self.path("meta")
        out = self.path(module + ".out")
        cp = ([self.tlc_classes()] if override else []) + [TLA, COMM]
        if cfg is None:
            cfg = os.path.join(SPEC, module + ".cfg")
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-XX:CICompilerCount=2", "-cp", ":".join(cp), "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(args) + [module + ".tla"]
        e = dict(os.environ, CODEPAGES=self.cps, TIER=self.tier, **(env or {}))
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        text = open(out).read()
        shutil.rmtree(meta, ignore_errors=True)
        if rc not in ok:
            useful = [x for x in text.splitlines() if not x.startswith(("Parsing", "Semantic", "Linting"))]
            raise Broken("%s (%s): TLC ended with %s\n%s" % (module, cfg, rc, "\n".join(useful)[:6000]))
        return rc, text

    @staticmethod
    def stats(text):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if not m:
            return 0, 0
        return tuple(int(x.replace(",", "")) for x in m[-1])

    def model(self, cfg, module=None, workers=2, tag=None, **kw):
        """Model checking of the specification alone: has to hold whatever the code does."""
        module = module or cfg
        t = time.time()
        rc, text = self.tlc(module, os.path.join(SPEC, cfg + ".cfg"), workers=workers, **kw)
        gen, dist = self.stats(text)
        self.models[tag or cfg] = {"states": dist, "transitions": max(0, gen - 1), "wall_s": round(time.time() - t, 1)}
        return text

    def digests(self):
        """Digests by another implementation (hashlib), for the specification's own."""
        out = self.path("digests")
        with open(out, "w") as f:
            for n in list(range(0, 132)) + [183, 184, 247, 248, 256, 300]:
                b = bytes((7 * k + n) % 256 for k in range(1, n + 3))
                f.write(json.dumps({"n": n, "sha": [ord(c) for c in hashlib.sha256(b[1:n + 1]).hexdigest()]}) + "\n")
        return out

    def extra_model(self, name, docs=None, digests=False, plain=False, part="", **kw):
        """A model with the files it is about: documents of a topic of Sweep, digests."""
        env = {"OUT": self.path("model-out"), "PART": part}
        if docs:
            env["DOCS"] = self.path("docs")
            self.tlc("Sweep", self.empty_cfg(), {"TOPIC": docs, "OUT": env["DOCS"]})
        if digests:
            env["DIGESTS"] = self.digests()
        self.model(name, env=env, timeout=3000 if self.deep else 800, **kw)
        if plain:  # once more without the Java form of SHA-256
            self.model(name, env=env, override=False, tag=name + "_plain", **kw)

    # ----------------------------------------------------------------- jobs
    def empty_cfg(self):
        p = self.path("empty.cfg")
        open(p, "w").close()
        return p

    def sweep(self, topic):
        out = self.path("sweep-" + topic)
        self.tlc("Sweep", self.empty_cfg(), {"TOPIC": topic, "OUT": out})
        jobs = []
        with open(out) as f:
            for i, line in enumerate(f):
                j = json.loads(line)
                j["id"] = "%s-%d" % (topic, i)
                jobs.append(j)
        if not jobs:
            raise Broken("sweep %s is empty" % topic)
        self.cov["sweep_" + topic] += len(jobs)
        return jobs

    def fuzz(self, n, damage=0.4, tag="fuzz", pick=None):
        g = fuzz.Gen(self.rng.getrandbits(60))
        jobs = []
        for i in range(n):
            jobs.append(dict(id="%s-%d" % (tag, i), b=g.case(damage).hex(), cp=g.r.choice(fuzz.CODEPAGES),
                             atb=g.r.random() < 0.8, src="handle" if g.r.random() < 0.2 else "bytes"))
        self.cov["random_documents"] += n
        return jobs

    def samples(self):
        d = os.path.join(REPO, "tests", "samples")
        jobs = []
        if os.path.isdir(d):
            for name in sorted(os.listdir(d)):
                b = open(os.path.join(d, name), "rb").read()
                if len(b) >= 76:
                    jobs.append(dict(id="sample-" + name, b=b.hex(), cp="cp1252", atb=True))
        self.cov["repository_samples"] += len(jobs)
        return jobs

    def mutants(self, jobs, n, tag="mut"):
        """Bytes of other jobs changed, cut, inserted, removed."""
        g = fuzz.Gen(self.rng.getrandbits(60))
        out = []
        jobs = [j for j in jobs if len(j["b"]) < 8000]
        for i in range(n):
            j = g.r.choice(jobs)
            b = j["b"]
            b = bytes.fromhex(b) if isinstance(b, str) else bytes(b)
            for _ in range(g.r.choice([1, 1, 2])):
                m = g.damage(b) if len(b) >= 76 else b
                if len(m) >= 76:
                    b = m
            out.append(dict(j, id="%s-%d-of-%s" % (tag, i, j["id"]), b=b.hex()))
        self.cov["mutants"] += n
        return out

    # --------------------------------------------------------------- record
    def shard(self, jobs, k=None):
        """Parts of about the same weight."""
        def weight(j):
            return 1 + len(j.get("b", "")) // 4000
        k = max(1, min(k or SHARDS, (sum(map(weight, jobs)) + 19) // 20, len(jobs)))
        parts = [[0, []] for _ in range(k)]
        for j in sorted(jobs, key=weight, reverse=True):
            p = min(parts, key=lambda x: x[0])
            p[0] += weight(j)
            p[1].append(j)
        return [p[1] for p in parts if p[1]]

    def python(self, script, args, env=None, timeout=900):
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache",
                 PYTHONPATH=REPO, LNK_REPO=REPO, PYTHONHASHSEED="0", LC_ALL="C.UTF-8", TZ=self.rng.choice(ZONES),
                 PYTHONWARNINGS="ignore")
        e.update(env or {})
        r = subprocess.run([PY, os.path.join(HERE, script)] + list(args), env=e, capture_output=True, text=True,
                           timeout=timeout, cwd=self.dir)
        return r

    def record1(self, jobs):
        src, dst = self.path("jobs"), self.path("trace")
        with open(src, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        r = self.python("record.py", [src, dst])
        lines = 0
        if os.path.exists(dst):
            with open(dst) as f:
                lines = sum(1 for _ in f)
        if r.returncode:
            if r.returncode < 0 and lines < len(jobs) and not any("chain" in j for j in jobs):
                # the interpreter itself died on this job: that is an outcome of the job
                self.append_crash(dst, jobs[lines])
            else:
                raise Broken("record.py: rc %s\n%s" % (r.returncode, r.stderr[-3000:]))
        return dst

    @staticmethod
    def append_crash(dst, j):
        b = j["b"]
        with open(dst, "a") as f:
            f.write(json.dumps({"id": j["id"], "out": "exception", "stage": "process", "exc": "the interpreter died",
                                "obs": [], "nw": 0, "size": -1, "cmd": [],
                                "b": list(bytes.fromhex(b)) if isinstance(b, str) else b,
                                "cp": j.get("cp") or "cp1252", "atb": j.get("atb", True)}) + "\n")

    def validate1(self, jobs, module):
        if not jobs:
            return []
        trace = self.record1(jobs)
        verdicts = self.path("verdicts")
        rc, text = self.tlc(module, env={"TRACE": trace, "VERDICTS": verdicts})
        gen, dist = self.stats(text)
        self.cov["trace_states"] += dist
        recs = {}
        with open(trace) as f:
            for line in f:
                r = json.loads(line)
                recs[r["id"]] = r
        out = []
        with open(verdicts) as f:
            for line in f:
                v = json.loads(line)
                out.append((recs[v["id"]], v))
        if len(out) != len(recs):
            raise Broken("%s: %d verdicts for %d records" % (module, len(out), len(recs)))
        byid = {j["id"]: j for j in jobs}
        os.remove(trace)
        return [(byid.get(r["id"]) or byid[r["id"].rsplit("/", 1)[0]], r, v) for r, v in out]

    def validate(self, jobs, module="TraceParse"):
        """Every job run by the real parser and judged by the specification."""
        self.tlc_classes()
        if module == "TraceViews":
            jobs = [dict(j, want=["views"]) for j in jobs]
        big = 4000  # records per TLC run, for memory
        shards = []
        for k in range(0, len(jobs), big):
            shards += self.shard(jobs[k:k + big])
        self.rng.shuffle(shards)
        res = []
        for r in self.pool.map(lambda s: self.validate1(s, module), shards):
            res += r
        self.cov["traces_validated"] += len(res)
        for _, _, v in res:
            for a in v.get("taken", ()):
                self.actions[a] += 1
        return res


def difference_text(view, kind, pair):
    return {"view": view, "kind": kind, "path": "/".join(pair[0]), "value": seq_text(pair[1])}

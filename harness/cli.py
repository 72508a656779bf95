"""Runs of the real command line tool (see spec/Cli.tla).

cli.py fresh DOCS CODEPAGES OUT      what the library prints, each output in a process of its own
cli.py play DIR JOBS OUT             command lines; DIR holds the files doc-N and their other names

A job is {"id", "words", "doc", "real"}: words of Cli.tla, run in this process or (real) in a new one.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import subprocess
import sys
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("LNK_REPO", "/repo"))
warnings.simplefilter("ignore")
from LnkParse3.lnk_file import main as lnkparse  # noqa: E402
from session import CALLS, in_child, make  # noqa: E402

OUTPUTS = ["text", "text_all", "print_json", "print_json_all", "target", "target_json"]
NAMES = ["doc-%d", "with space %d.lnk", "umlaut-\u00fc-%d.lnk", "./-dash-%d.lnk", "sub/x%d", "ABS/doc-%d"]
GONE = ["missing", "missing.lnk", "sub", "nosuch/doc-1", "doc-", "./doc-1/x"]


def fingerprint(s):
    return hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest()[:24] if s else "NOTHING"


def fresh(docs, cps):
    def all_of(d, c, call):
        try:
            return fingerprint(CALLS[call](make(dict(d, cp=c, atb=True), "bytes")))
        except Exception as e:
            return "raised " + type(e).__name__

    return [{c: {call: in_child(lambda: all_of(d, c, call)) for call in OUTPUTS} for c in cps} for d in docs]


def arguments(job, where):
    out = []
    h = int(hashlib.sha256(job["id"].encode()).hexdigest(), 16)
    for w in job["words"]:
        if w["w"] == ["FILE"]:
            n = NAMES[h % len(NAMES)]
            out.append(os.path.join(where, "doc-%d" % job["doc"]) if n.startswith("ABS") else n % job["doc"])
        elif w["w"] == ["MISSING"]:
            out.append(GONE[h % len(GONE)])
        else:
            out += w["w"]
    return out


def in_process(args):
    buf, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["lnkparse"] + args
    code = 0
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
            lnkparse()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Exception as e:
        code = 1
        if os.environ.get("CLI_DEBUG"):
            sys.__stderr__.write(repr(e) + "\n")
    finally:
        sys.argv = old
    return code, buf.getvalue()


def new_process(args, k):
    how = ["-m", "LnkParse3.lnk_file"] if k % 2 else [
        "-c", "import sys; from LnkParse3.lnk_file import main; sys.exit(main())"]
    r = subprocess.run([sys.executable] + how + args, capture_output=True, timeout=120,
                       env=dict(os.environ, PYTHONIOENCODING="utf-8", PYTHONWARNINGS="ignore"))
    return r.returncode, r.stdout.decode("utf-8", "surrogateescape")


def main():
    if sys.argv[1] == "fresh":
        docs = json.load(open(sys.argv[2]))
        json.dump(fresh(docs, sys.argv[3].split(",")), open(sys.argv[4], "w"))
        return
    signal.alarm(800)
    where, src, dst = sys.argv[2:5]
    os.chdir(where)
    with open(src) as f, open(dst, "w") as g:
        for k, line in enumerate(f):
            job = json.loads(line)
            args = arguments(job, where)
            code, text = new_process(args, k) if job["real"] else in_process(args)
            words = [dict(w, v=job["doc"]) if w["w"] == ["FILE"] else w for w in job["words"]]
            g.write(json.dumps({"id": job["id"], "words": words, "args": args, "exit": code,
                                "printed": fingerprint(text)}) + "\n")


if __name__ == "__main__":
    main()

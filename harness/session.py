"""Histories of calls on the real library (see spec/Session.tla).

session.py fresh DOCS OUT            every call on every document, each in a process of its own
session.py play DOCS HISTORIES OUT   histories, all in one process, one after the other
session.py threads DOCS ORDERS OUT   two threads, their pieces of work in the given orders (see spec/Threads.tla)

DOCS: a JSON list of {"b": bytes, "cp", "atb"}.  Replies are fingerprints of what was returned or
printed.  Only the public interface of LnkFile is used.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("LNK_REPO", "/repo"))
warnings.simplefilter("ignore")
import LnkParse3  # noqa: E402
from record import api_view, flat  # noqa: E402

FLAGS = ["has_relative_path", "has_arguments", "is_unicode", "has_name", "has_working_dir", "has_icon_location",
         "has_target_id_list", "has_link_info", "force_no_link_info"]


def printed(f, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f(*a, **k)
    return buf.getvalue()


CALLS = {
    "json": lambda o: o.get_json(),
    "json_all": lambda o: o.get_json(True),
    "print_json": lambda o: printed(o.print_json),
    "print_json_all": lambda o: printed(o.print_json, True),
    "text": lambda o: printed(o.print_lnk_file),
    "text_all": lambda o: printed(o.print_lnk_file, True),
    "target": lambda o: printed(o.print_shortcut_target),
    "target_json": lambda o: printed(o.print_shortcut_target, pjson=True),
    "command": lambda o: o.lnk_command,
    "size": lambda o: o.size,
    "flags": lambda o: [getattr(o, f)() if hasattr(o, f) else None for f in FLAGS],
}


def parts(o):
    """The lists and dictionaries the parts of a link return."""
    out = []
    for part, name in (("header", "link_flags"), ("header", "file_flags"), ("targets", "as_list"), ("extras", "as_dict")):
        f = getattr(getattr(o, part, None), name, None)
        out.append(f() if callable(f) else None)
    return out


CALLS["parts"] = parts
CALLS["accessors"] = lambda o: api_view(o, o.get_json(True))


def fingerprint(x):
    if not isinstance(x, str):
        x = json.dumps(flat(x))
    return hashlib.sha256(x.encode("utf-8", "surrogatepass")).hexdigest()[:24]


def make(doc, via):
    data = bytes.fromhex(doc["b"]) if isinstance(doc["b"], str) else bytes(doc["b"])
    kw = {}
    if doc.get("cp"):
        kw["cp"] = doc["cp"]
    if not doc.get("atb", True):
        kw["allow_terminal_blocks"] = False
    if via == "handle":
        return LnkParse3.lnk_file(fhandle=io.BytesIO(data), **kw)
    if via == "part":  # what is before the position of a handle is not the link's
        f = io.BytesIO(b"L\0\0\0 before" * 9 + data)
        f.seek(99)
        return LnkParse3.lnk_file(f, **kw)
    if via in ("file", "raw"):
        with tempfile.TemporaryFile(buffering=0 if via == "raw" else -1) as f:
            f.write(data)
            f.seek(0)
            return LnkParse3.lnk_file(f, **kw)
    return LnkParse3.lnk_file(indata=data, **kw)


def ask(o, call):
    try:
        x = CALLS[call](o)
    except Exception as e:
        return None, "raised " + type(e).__name__
    return x, fingerprint(x)


def spoil(x, rng):
    """What a caller may do to a result it was given."""
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k], rng)
            if rng.random() < 0.5:
                del x[k]
            elif rng.random() < 0.5 and not isinstance(x[k], (dict, list)):
                x[k] = "spoilt"
        x["spoilt"] = ["spoilt"]
    elif isinstance(x, list):
        for v in x:
            spoil(v, rng)
        if rng.random() < 0.5:
            x.clear()
        x.append("spoilt")


def in_child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(120)
            with os.fdopen(w, "w") as g:
                g.write(json.dumps(f()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as g:
        s = g.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else "died"


def fresh(docs):
    def one(d, c):
        try:
            o = make(d, "bytes")
        except Exception as e:
            return "raised " + type(e).__name__
        return ask(o, c)[1]

    return [{c: in_child(lambda: one(d, c)) for c in CALLS} for d in docs]


def play(docs, hist, rng):
    objs, out = {}, []
    for e in hist["events"]:
        e = dict(e)
        if e["ev"] == "new":
            try:
                objs[e["slot"]] = make(docs[e["doc"] - 1], rng.choice(["handle", "file", "raw"]) if e["via"] == "handle" else e["via"])
                e["ok"] = True
            except Exception as x:
                objs.pop(e["slot"], None)
                e["ok"] = False
        else:
            o = objs.get(e["slot"])
            x, e["reply"] = ask(o, e["call"]) if o is not None else (None, "no object")
            if e["alter"]:
                spoil(x, rng)
        out.append(e)
    return {"id": hist["id"], "events": out}


LIBRARY = os.path.dirname(os.path.abspath(LnkParse3.__file__)) + os.sep


def lines_of(f, at_line):
    """Runs f; at_line is called before every line of the library that this thread executes."""
    def local(frame, event, arg):
        if event == "line":
            at_line()
        return local

    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(LIBRARY) else None)
    try:
        return f()
    finally:
        sys.settrace(None)


class Turns:
    """Lets two threads work in the given order.  If whose turn it is does not get on (it may wait for
    the other one), the order is given up and only recorded."""

    given_up = 0        # orders, in this process

    def __init__(self, order):
        self.order, self.at, self.free, self.events = order, 0, False, []
        self.cond = threading.Condition()

    def wait(self, w):
        while not self.free and self.at < len(self.order) and self.order[self.at] != w:
            at = self.at
            if not self.cond.wait(1.0 if Turns.given_up < 20 else 0.02) and at == self.at:
                self.free = True
                Turns.given_up += 1

    def start(self, w):
        with self.cond:
            self.wait(w)

    def piece_done(self, w, reply=False):
        with self.cond:
            self.wait(w)
            self.events.append({"ev": "work", "w": w})
            if reply:
                self.events.append({"ev": "reply", "w": w})
            self.at += 1
            self.cond.notify_all()
            if not reply:
                self.wait(w)


def work(docs, q):
    try:
        o = make(docs[q["doc"] - 1], q["via"])
        return CALLS[q["call"]](o), None
    except Exception as e:
        return None, "raised " + type(e).__name__


COUNT = {}


def lines_needed(docs, q):
    k = (q["doc"], q["via"], q["call"])
    if k not in COUNT:
        n = [0]

        def one():
            n[0] += 1
        lines_of(lambda: work(docs, q), one)
        COUNT[k] = n[0]
    return COUNT[k]


def threads(docs, job, rng):
    turns = Turns(job["order"])
    pieces = job["order"].count(1)
    cuts = []
    for q in job["questions"]:
        n = max(lines_needed(docs, q), pieces + 1)
        cuts.append(sorted(rng.sample(range(1, n), pieces - 1)))
    results = {}

    def run(w):
        todo = list(cuts[w - 1])
        n = [0]

        def one():
            n[0] += 1
            if todo and n[0] == todo[0]:
                todo.pop(0)
                turns.piece_done(w)

        turns.start(w)
        results[w] = lines_of(lambda: work(docs, job["questions"][w - 1]), one)
        for _ in todo:
            turns.piece_done(w)
        turns.piece_done(w, True)

    ts = [threading.Thread(target=run, args=(w,), daemon=True) for w in (1, 2)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    for e in turns.events:
        if e["ev"] == "reply":
            x, err = results[e["w"]]
            e["reply"] = err or fingerprint(x)
    return {"id": job["id"], "pieces": pieces, "questions": job["questions"], "events": turns.events, "free": turns.free}


def main():
    docs = json.load(open(sys.argv[2]))
    if sys.argv[1] == "fresh":
        json.dump(fresh(docs), open(sys.argv[3], "w"))
    else:
        signal.alarm(800)
        how = play if sys.argv[1] == "play" else threads
        with open(sys.argv[3]) as f, open(sys.argv[4], "w") as g:
            for line in f:
                h = json.loads(line)
                g.write(json.dumps(how(docs, h, random.Random(h["id"]))) + "\n")


if __name__ == "__main__":
    main()

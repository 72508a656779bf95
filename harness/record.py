"""Runs the real parser (from /repo) on jobs and records what it did.

Usage: record.py JOBS.ndjson OUT.ndjson     (run with the interpreter of /repo's build)

A job is {"id", "b": hex, "cp": str|null, "atb": bool, "want": [...]}; see do_job for what a
record contains.  Nothing in here knows the file format: it only calls the public API and
flattens the results.
"""
import contextlib
import datetime
import io
import json
import os
import resource
import signal
import sys
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("LNK_REPO", "/repo"))
import LnkParse3  # noqa: E402

EPOCH = datetime.datetime(1601, 1, 1, tzinfo=datetime.timezone.utc)


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def val(v):
    if v is None:
        return ["n"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, int):
        m = abs(v)
        if m >> 48:
            return ["I", str(v)]
        return ["i", int(v < 0), m >> 32, (m >> 16) & 65535, m & 65535]
    if isinstance(v, str):
        return ["s", [ord(c) for c in v]]
    if isinstance(v, datetime.datetime):
        if v.tzinfo is None:
            return ["?", "naive datetime"]
        d = v - EPOCH
        return ["d", d.days, d.seconds, d.microseconds]
    return ["?", type(v).__name__]


def flat(v, path=(), out=None):
    if out is None:
        out = []
    if isinstance(v, dict):
        if not v:
            out.append([list(path), ["o"]])
        for k, x in v.items():
            flat(x, path + (k if isinstance(k, str) else "?" + repr(k),), out)
    elif isinstance(v, (list, tuple)):
        if not v:
            out.append([list(path), ["l"]])
        for i, x in enumerate(v):
            flat(x, path + ("#%d" % i,), out)
    else:
        out.append([list(path), val(v)])
    return out


def out_of(f, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f(*a, **k)
    return buf.getvalue()


def data_of(job):
    b = job["b"]
    return bytes.fromhex(b) if isinstance(b, str) else bytes(b)


def make(job):
    data = data_of(job)
    kw = {}
    if job.get("cp"):
        kw["cp"] = job["cp"]
    if not job.get("atb", True):
        kw["allow_terminal_blocks"] = False
    if job.get("src") == "handle":
        return LnkParse3.lnk_file(fhandle=io.BytesIO(data), **kw)
    return LnkParse3.lnk_file(indata=data, **kw)


def yaml_view(text):
    """The readable report, read back."""
    import yaml

    first, _, rest = text.partition("\n")
    if first != "Windows Shortcut Information:":
        return None
    return yaml.safe_load("\n".join(x[3:] if x.startswith("   ") else x for x in rest.split("\n")))


FLAGS = ["has_target_id_list", "has_link_info", "has_name", "has_relative_path", "has_working_dir", "has_arguments",
         "has_icon_location", "is_unicode", "force_no_link_info"]
OTHER_NAMES = {"guid": "link_cls_id", "accessed_time": "access_time", "modified_time": "write_time",
               "windowstyle": "window_style", "hotkey": "hot_key", "r_hotkey": "raw_hot_key", "header_size": "size",
               "link_info_size": "size", "link_info_header_size": "header_size", "link_info_flags": "flags"}


def api_view(lnk, full):
    """The parts of the object asked one by one.  Where there is nothing to ask: as in the report."""
    def ask(part, keys, shown):
        out = {}
        for k in keys:
            f = getattr(part, OTHER_NAMES.get(k, k), None)
            out[k] = f() if callable(f) else shown.get(k)
        return out

    api = {"flags": {f: getattr(lnk, f)() for f in FLAGS if callable(getattr(lnk, f, None))}, "size": lnk.size,
           "header": ask(getattr(lnk, "header", None), full["header"], full["header"])}
    strings = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location"]
    api["data"] = ask(getattr(lnk, "string_data", None), strings, full["data"])
    if "target" in full:
        t = getattr(lnk, "targets", None)
        api["target"] = dict(full["target"])
        if callable(getattr(t, "id_list_size", None)):
            api["target"]["size"] = t.id_list_size()
        if callable(getattr(t, "as_list", None)):
            api["target"]["items"] = t.as_list()
    info = full["link_info"]
    api["link_info"] = ask(getattr(lnk, "info", None), [k for k in info if k != "location_info"], info)
    if "location_info" in info:
        api["link_info"]["location_info"] = ask(getattr(lnk, "info", None), list(info["location_info"]), info["location_info"])
    e = getattr(lnk, "extras", None)
    api["extra"] = e.as_dict() if callable(getattr(e, "as_dict", None)) else full["extra"]
    api["walked"] = walked(lnk, full, ask)
    return flat(api)


def walked(lnk, full, ask):
    """Items and blocks got by going through the ID list and the extra data."""
    out = {"extra": full["extra"]}
    if "target" in full:
        items = full["target"]["items"]
        t = getattr(lnk, "targets", None)
        if hasattr(t, "__iter__"):
            items = [x for x in (decoded(lambda x=x: x.as_item()) for x in t) if x is not None]
        out["target"] = {"items": items}
    e = getattr(lnk, "extras", None)
    if hasattr(e, "__iter__"):
        out["extra"] = {}
        for x in e:
            name = x.name()
            d = decoded(lambda x=x: x.as_dict())
            if d is None:
                continue
            d.update(ask(x, [k for k, v in d.items() if v is None or isinstance(v, (str, int))], d))
            if isinstance(full["extra"].get(name), list):
                out["extra"].setdefault(name, []).append(d)
            else:
                out["extra"][name] = d
    return out


def decoded(f):
    try:
        return f()
    except Timeout:
        raise
    except Exception:
        return None


def do_job(job):
    rec = {"id": job["id"], "out": "ok", "obs": [], "nw": 0, "size": -1, "cmd": [],
           "b": list(data_of(job)), "cp": job.get("cp") or "cp1252",
           "atb": job.get("atb", True)}
    want = job.get("want", [])
    stage = "construct"
    try:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            lnk = make(job)
            stage = "get_json"
            full = lnk.get_json(True)
            rec["nw"] = len(seen)
        rec["obs"] = flat(full)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            stage = "size"
            rec["size"] = min(int(lnk.size), 2**30)
            stage = "command"
            rec["cmd"] = [ord(c) for c in lnk.lnk_command]
            if "outputs" in want or "views" in want:
                views = {}
                stage = "get_json default"
                views["dflt"] = flat(lnk.get_json())
                stage = "print_json"
                views["json_all"] = flat(json.loads(out_of(lnk.print_json, True), parse_float=str))
                views["json"] = flat(json.loads(out_of(lnk.print_json), parse_float=str))
                stage = "print_lnk_file"
                for name, a in (("yaml_all", True), ("yaml", False)):
                    t = out_of(lnk.print_lnk_file, a)
                    try:
                        y = yaml_view(t)
                        views[name] = flat(y) if y is not None else [[["unreadable"], ["n"]]]
                    except Timeout:
                        raise
                    except Exception as e:
                        views[name] = [[["unreadable", type(e).__name__], ["n"]]]
                stage = "print_shortcut_target"
                views["target"] = [ord(c) for c in out_of(lnk.print_shortcut_target)]
                views["target_json"] = flat(json.loads(out_of(lnk.print_shortcut_target, pjson=True)))
                stage = "accessors"
                views["api"] = api_view(lnk, full)
                if "views" in want:
                    rec["views"] = views
    except Timeout:
        rec["out"] = "timeout"
        rec["stage"] = stage
    except Exception as e:  # the property: there is none
        rec["out"] = "exception"
        rec["stage"] = stage
        rec["exc"] = repr(e)[:300]
    return rec


def do_chain(job):
    """Links stored back to back, read by advancing by the reported size.  Record k is what was
    reported where that led for the k-th time, next to the bytes of the k-th link."""
    links = [bytes.fromhex(b) if isinstance(b, str) else bytes(b) for b in job["chain"]]
    data = b"".join(links)
    off = 0
    for k, alone in enumerate(links):
        rec = do_job(dict(job, b=data[off:].hex(), atb=False, id="%s/%d" % (job["id"], k)))
        rec["b"] = list(alone)
        rec["at"] = off
        yield rec
        off += max(rec["size"], 1)


def main():
    src, dst = sys.argv[1:3]
    limit = float(os.environ.get("JOB_SECONDS", "10"))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    # processor time, so that a busy machine does not count; and a long real time for a sleep
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    timeouts = 0
    with open(src) as f, open(dst, "w") as g:
        for line in f:
            job = json.loads(line)
            if timeouts >= 3:  # enough to report; the rest would take too long
                break
            signal.setitimer(signal.ITIMER_VIRTUAL, limit)
            signal.setitimer(signal.ITIMER_REAL, limit * 12)
            if "chain" in job:
                for rec in do_chain(job):
                    timeouts += rec["out"] == "timeout"
                    g.write(json.dumps(rec) + "\n")
                continue
            try:
                rec = do_job(job)
            except Timeout:
                rec = {"id": job["id"], "out": "timeout", "obs": [], "nw": 0, "size": -1, "cmd": [],
                       "b": list(data_of(job)), "cp": job.get("cp") or "cp1252",
                       "atb": job.get("atb", True)}
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
            timeouts += rec["out"] == "timeout"
            g.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()

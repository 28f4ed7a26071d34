"""Which properties a rejected run breaks: from what differed, during which operation and hook."""

STRUCT = {"nodes", "par", "kids", "dep", "rid", "flags"}
SCENE_OPS = {"mk", "sl", "cl", "ap", "sc", "sh", "shs", "scv", "br"}
FIELD_OPS = {"fw", "fv", "ft", "fr", "fq"}
ADD_OPS = {"new", "add", "addn", "addp"}
REMOVE_OPS = {"free", "rmc"}
FRAME_OPS = {"process"}
STATE_OPS = {"queue", "terminate", "pause", "unpause"}

RET = {"process": {"P07"}, "queue": {"P07"}, "terminate": {"P07"}, "pause": {"P06"}, "unpause": {"P06"},
       "new": {"P01", "P25"}, "add": {"P01", "P02", "P04"}, "addn": {"P01", "P02", "P04"}, "addp": {"P01", "P02"},
       "free": {"P08"}, "rmc": {"P08"}, "name": {"P02"}, "sing": {"P11"}, "singx": {"P11"}, "post": {"P13"},
       "hdr": {"P14"}, "ftr": {"P14"}, "mode": {"P06", "P17"},
       "ptr": {"P09"}, "use": {"P09"}, "unw": {"P20", "P09"}, "grid": {"P10"}, "raw": {"P10"}, "abs": {"P10"},
       "td": {"P24"}, "nodes": {"P24"}, "conn": {"P12", "P25"}, "disc": {"P12"}, "emit": {"P12"},
       "mk": {"P16"}, "sl": {"P15"}, "cl": {"P16"}, "ap": {"P16"}, "sc": {"P16"}, "sh": {"P16"}, "shs": {"P16"}, "scv": {"P16"}, "br": {"P16"},
       "stray": {"P26"}, "fw": {"P17"}, "fv": {"P17"}, "ft": {"P17"}, "fr": {"P17"}, "fq": {"P17"}}


OBJ = {"rid": {"P19"}, "field": {"P17"}, "opt": {"P20"}, "sig": {"P12"}, "log": {"P13"}, "name": {"P02"}, "path": {"P10"}, "codec": {"P18"}, "glam": {"P23"}, "doc": {"P21"}}


def hook_props(text):
    """Properties on a hook named in `text`."""
    out = set()
    if "ready" in text or "loaded" in text:
        out.add("P04")
    if "process" in text.replace("ret ", ""):
        out |= {"P05", "P06"}
    if "TreeExit" in text:
        out.add("P07")
    if "Freed" in text or "RemovedAsChild" in text:
        out.add("P08")
    if '"sig' in text or "sigr" in text:
        out |= {"P12", "P25"}
    return out


def scene_diff(rej):
    """For operations which show a scene: what of it differs."""
    w, g = rej.get("want", ""), rej.get("got", "")
    out = set()
    if rej["op"] in ("cl", "br", "scv", "sc", "ap", "mk"):
        out.add("P16")
    if rej["op"] == "sl":
        out.add("P15")
    # Field values are the part behind the third colon of each node.
    import re
    strip = lambda t: re.sub(r"(\([A-Za-z]+:[^:()]*:[01]:)[^()]*", r"\1", t)
    if strip(w.replace("ret ", "", 1)) == strip(g) or "_" in g:
        out.add("P17")
    return out


def props(rej):
    d, op, hook, ev = set(rej["diff"]), rej.get("op", ""), rej.get("hook", ""), rej.get("event", "")
    want, got = str(rej.get("want", "")), str(rej.get("got", ""))
    extra = rej.get("args") or {}
    out = set()
    if rej.get("kind") in ("mclass", "mscene", "mconn"):
        return {"P25"} | ({"P22"} if op == "cast" else {"P17"} if op in ("clone", "load") else {"P12"} if rej["kind"] == "mconn" else set())
    if rej.get("kind"):
        return OBJ[rej["kind"]]

    past = set(rej.get("past") or ())
    # What an operation leaves behind is a matter of its own property too.
    if d & (STRUCT | {"own", "name", "loaded", "sing", "lookup", "status", "mode", "val"}) and op not in FRAME_OPS | {"stray"}:
        out |= RET.get(op, set())
    if op in ADD_OPS and "sl" in past:
        out.add("P15")
    if op == "process" and d & {"hook", "ret", "turn", "hret"} and ("end" in want or "end" in got):
        out |= {"P13"} if "panic" in past else set()
        out |= {"P06"} if past & {"pause", "unpause"} else set()
    if d & STRUCT:
        out.add("P01")
        if op in REMOVE_OPS:
            out.add("P08")
        if "rid" in d or "nodes" in d and op not in REMOVE_OPS | ADD_OPS:
            out.add("P09")
        if op == "new" or op in ADD_OPS and "loaded" not in d:
            out.add("P01")
    if "name" in d:
        out.add("P02")
    if "own" in d or "flags" in d:
        out.add("P03")
    if "loaded" in d:
        out.add("P04")
    if "status" in d:
        out.add("P14")
        if op in ("post", "unw", "use"):
            out.add("P13")
    if d & {"sing", "lookup"}:
        out.add("P11")
    if "mode" in d:
        out |= {"P06", "P17"}
    if "type" in d:
        out |= {"P25", "P16"}
    if "val" in d:
        out.add("P17")
        if op == "use":
            out.add("P22")
        if op in SCENE_OPS | ADD_OPS:
            out |= {"P16", "P25"}
    if "delta" in d:
        out.add("P05")
    if "uaf" in d:
        out |= {"P08", "P27"}
    if "drop" in d:
        out.add("P27")
    if "log" in d:
        out |= log_props(rej)
    if "hook" in d or "hret" in d or "turn" in d:
        hp = hook_props(want) | (hook_props(hook) if ev == "hook" else set())
        if ev == "ret" and "panic" in got:
            hp |= RET.get(op, set())
        if op == "process":
            hp |= {"P07"} if ("TreeExit" in want + hook or ev == "ret" or want.startswith("ret")) else set()
            if not hp & {"P04", "P08", "P12"}:
                hp |= {"P05"}
        if op in REMOVE_OPS:
            hp.add("P08")
        if op == "emit":
            hp.add("P12")
        if op in ADD_OPS:
            hp.add("P04")
        out |= hp or {"P05"}
    if "ret" in d:
        out |= RET.get(op, set())
        if op == "process":
            if "pause" in want + got or "paused" in want + got:
                out.add("P06")
        if op in SCENE_OPS:
            out |= scene_diff(rej)
            if op == "sh" or op == "sl":
                out.add("P15") if op == "sl" else None
        if op == "use" and extra.get("w") in ("is", "isof", "cast", "castm"):
            out.add("P22")
        if op == "use" and extra.get("w") == "fname":
            out.add("P02")
        if op == "ptr" and extra.get("how") in ("path", "pathd"):
            out.add("P10" if extra.get("g") == "np" else "P11")
        if op == "grid" and extra.get("g") != "np":
            out = (out - {"P10"}) | {"P11"}
        if op == "abs":
            out.add("P10")
        if op in FIELD_OPS and "panic" in got:
            out.add("P17")
    if d & {"crash", "hang"}:
        out |= RET.get(op, set())
        out |= hook_props(hook)
        if op in REMOVE_OPS | FRAME_OPS | {""}:
            out |= {"P08"}
        if op in FRAME_OPS:
            out |= {"P05", "P07"}
        if op in ADD_OPS:
            out |= {"P01", "P04"}
    return out


def log_props(rej):
    """Differences in the log: the crash report is P14's, all else P13's."""
    lg = rej.get("log") or {}
    w, g = lg.get("want", []), lg.get("got", [])
    if not isinstance(w, list) or not isinstance(g, list):
        return {"P13"}
    plain = lambda q: [x for x in q if x.startswith("<T> | ")]
    rest = lambda q: [x for x in q if not x.startswith("<T> | ")]
    out = set()
    if plain(w) != plain(g):
        out.add("P13")
    if rest(w) != rest(g):
        out.add("P14")
        if not any("[REPORT START]" in x for x in rest(w)):
            out.add("P13")
    if rej.get("op") in ("unw",):
        out |= {"P20"}
    if rej.get("op") == "use":
        out |= {"P09"}
    if rej.get("op") in ("sing", "singx"):
        out |= {"P11"}
    return out or {"P13"}

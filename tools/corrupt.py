#!/usr/bin/env python3
"""Shows that the validation is not vacuous: recordings of the real code are changed in one place each, and TLC has to reject each one.
corrupt.py [runs] - prints, per kind of change, how many were rejected.  Not a check of any property."""
import copy, json, os, random, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from profiles import P


def runs(path):
    out = []
    for e in vlib.read_jsonl(path):
        if e["e"] == "begin":
            out.append([])
        out[-1].append(e)
    return out


def pick(r, q, f):
    c = [i for i, e in enumerate(q) if f(e)]
    return r.choice(c) if c else None


def nodes(e):
    return e.get("d", {}).get("N") or []


# Each change: (run, random) -> whether it was made.
def field(name, new):
    def go(q, r):
        i = pick(r, q, lambda e: len(nodes(e)) > 1)
        if i is None:
            return False
        n = r.choice(q[i]["d"]["N"])
        old = n.get(name)
        n[name] = new(old, q[i]["d"]["N"], r)
        return n[name] != old
    return go


def drop(what):
    def go(q, r):
        i = pick(r, q[:-1], lambda e: e["e"] == what)
        if i is None:
            return False
        # The dump belongs to the history, not to the event.
        del q[i]
        return True
    return go


def swap_hooks(q, r):
    c = [i for i in range(1, len(q) - 2) if q[i]["e"] == "hook" and q[i + 1]["e"] == "hret" and q[i + 2]["e"] == "hook"
         and (q[i]["n"], q[i]["k"]) != (q[i + 2]["n"], q[i + 2]["k"]) and not q[i]["k"].startswith("sig") and not q[i + 2]["k"].startswith("sig")]
    if not c:
        return False
    i = r.choice(c)
    q[i]["n"], q[i + 2]["n"] = q[i + 2]["n"], q[i]["n"]
    q[i]["k"], q[i + 2]["k"] = q[i + 2]["k"], q[i]["k"]
    return True


def ret(q, r):
    i = pick(r, q, lambda e: e["e"] == "ret" and isinstance(e.get("v"), str) and not e["v"].startswith("c"))
    if i is None:
        return False
    q[i]["v"] += "x"
    return True


def log(q, r):
    i = pick(r, q, lambda e: e.get("lg"))
    if i is None:
        return False
    k = r.randrange(len(q[i]["lg"]))
    if r.random() < 0.5:
        del q[i]["lg"][k]
    else:
        q[i]["lg"][k] += "!"
    return True


def gone(q, r):
    i = pick(r, q, lambda e: len(nodes(e)) > 1)
    if i is None:
        return False
    del q[i]["d"]["N"][r.randrange(len(q[i]["d"]["N"]))]
    return True


CHANGES = {
    "parent": field("p", lambda o, ns, r: o + 1), "name": field("n", lambda o, ns, r: o + "x"), "owner": field("o", lambda o, ns, r: o + 1),
    "depth": field("d", lambda o, ns, r: o + 1), "children": field("c", lambda o, ns, r: o[1:] if o else [1]), "status": field("s", lambda o, ns, r: "W" if o != "W" else "P"),
    "loaded mark": field("l", lambda o, ns, r: not o), "mode": field("m", lambda o, ns, r: "Always" if o != "Always" else "Inverse"),
    "field value": field("v", lambda o, ns, r: [o[0] + "x"] + o[1:]), "id": field("r", lambda o, ns, r: str(int(o) + 1)), "node missing": gone,
    "hook not called": drop("hook"), "hook left out of turn": drop("hret"), "call missing": drop("call"), "return missing": drop("ret"),
    "hooks swapped": swap_hooks, "returned value": ret, "log": log,
}


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 12
    ctx = vlib.Ctx("corrupt", "quick", 1)
    try:
        binary = vlib.build(ctx)
        pf, rec, out = (os.path.join(ctx.work, x) for x in ("p.json", "rec.jsonl", "cor.jsonl"))
        all_ = []
        for p in ("P04", "P08", "P13", "P17", "P05", "P06"):
            with open(pf, "w") as f:
                json.dump(P[p], f)
            if os.path.exists(rec):
                os.remove(rec)
            vlib.run_harness(ctx, binary, ["random", "--seed", "5", "--traces", str(n), "--from", "0", "--profile", pf, "--out", rec, "--scratch", ctx.work], rec)
            all_ += runs(rec)
        r, made = random.Random(1), {}
        with open(out, "w") as f:
            for name, change in CHANGES.items():
                for i, q in enumerate(all_):
                    q = copy.deepcopy(q)
                    if change(q, r):
                        q[0]["id"] = f"{name}#{i}"
                        made[name] = made.get(name, 0) + 1
                        f.writelines(json.dumps(e, ensure_ascii=False) + "\n" for e in q)
        rc, lines = vlib.tlc(ctx, "TraceNodeTree", "TraceNodeTree.cfg", env={"TRACE": out}, timeout=3000, heap="8g")
        rej = {x["id"] for x in vlib.printed(lines, "REJECT")}
        missed = 0
        for name, k in made.items():
            got = sum(1 for x in rej if x.split("#")[0] == name)
            missed += k - got
            print(f"{name:24} {got} of {k} rejected")
        print("not rejected:", missed, "tlc", rc)
    finally:
        ctx.close()


if __name__ == "__main__":
    main()

"""Machinery shared by all checks: building the harness, running it, and having TLC judge what it did."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
JAVA_OPTS = "-Dfile.encoding=UTF-8 -Xss64m"


class ToolError(Exception):
    pass


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(V, "work", f"{prop}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.target = os.environ.get("VERIF_TARGET", os.path.join(V, "target"))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.cases = 0
        self.samples, self.notes, self.findings = [], {}, []
        self.ops = {}

    def left(self, limit):
        return limit - (time.time() - self.t0)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def build(ctx):
    """Builds the harness against /repo's working tree."""
    env = dict(os.environ, CARGO_TARGET_DIR=ctx.target, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(ctx.target, "debug", "nt-harness")


def tlc(ctx, module, cfg, env=None, workers=1, timeout=600, extra=(), heap="2g"):
    """Runs TLC; returns (exit code, output lines)."""
    meta = os.path.join(ctx.work, f"md-{module}-{os.path.basename(cfg)}-{time.time_ns()}")
    e = dict(os.environ, JAVA_TOOL_OPTIONS=JAVA_OPTS + f" -Xmx{heap} -Djava.io.tmpdir={ctx.work}", **(env or {}))
    # TLC leaves a file of module copies in the temporary directory.
    e["TMPDIR"] = ctx.work
    cmd = ["tlc", "-workers", str(workers), "-config", os.path.join(SPEC, cfg), "-metadir", meta, "-noGenerateSpecTE",
           *extra, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=ctx.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"TLC did not finish {module} {cfg} within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode("utf-8", "replace").split("\n")


def tlc_counts(lines):
    for l in reversed(lines):
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
        if m:
            return int(m.group(2)), int(m.group(1))
    return 0, 0


def printed(lines, tag):
    """What the specification printed as "<tag> <json>"."""
    out = []
    for l in lines:
        if l.startswith('"' + tag + " "):
            out.append(json.loads(json.loads(l, strict=False)[len(tag) + 1:], strict=False))
    return out


def run_harness(ctx, binary, args, out, stall=60, env=None):
    """Runs the harness; returns None, or how it died ("crash"/"hang")."""
    e = dict(os.environ, **(env or {}))
    p = subprocess.Popen([binary, *args], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=ctx.work)
    last, t_last = -1, time.time()
    while True:
        try:
            _, err = p.communicate(timeout=0.2)
            break
        except subprocess.TimeoutExpired:
            size = os.path.getsize(out) if os.path.exists(out) else 0
            if size != last:
                last, t_last = size, time.time()
            elif time.time() - t_last > stall:
                p.kill()
                p.communicate()
                return "hang"
    if p.returncode == 0:
        return None
    if p.returncode == 2:
        raise ToolError("harness: " + err.decode("utf-8", "replace")[-2000:])
    return "crash"


def read_jsonl(path):
    out = []
    with open(path, encoding="utf-8", errors="replace") as f:
        for l in f:
            try:
                out.append(json.loads(l))
            except ValueError:
                pass      # a line cut short by a crash
    return out


def clean_tail(path):
    """Drops a last line which was cut short."""
    with open(path, "rb") as f:
        data = f.read()
    if data and not data.endswith(b"\n"):
        with open(path, "wb") as f:
            f.write(data[:data.rfind(b"\n") + 1])


def death(path, how):
    """Describes the operation during which the harness died."""
    ev = read_jsonl(path)
    stack, tid, kind, last = [], "?", "", ""
    for e in ev:
        if e.get("e") == "begin":
            stack, tid, kind, last = [], e.get("id"), e.get("kind", ""), ""
        elif e.get("e") == "op":
            last = e.get("op")
        elif e.get("e") == "call":
            stack.append(("op", e.get("op")))
        elif e.get("e") == "hook":
            stack.append(("hook", e.get("k")))
        elif e.get("e") in ("ret", "hret") and stack:
            stack.pop()
    op = next((x for k, x in reversed(stack) if k == "op"), f"the operation after {last}" if kind else "")
    hook = next((x for k, x in reversed(stack) if k == "hook"), "")
    return {"id": tid, "line": len(ev), "diff": [how], "event": how, "op": op, "hook": hook, "kind": kind, "want": "to go on",
            "got": f"the process {'stopped responding' if how == 'hang' else 'died'} during {op}", "log": []}


def segment(path, tid):
    """The events of one run."""
    out, on = [], False
    with open(path, encoding="utf-8", errors="replace") as f:
        for l in f:
            if '"e":"begin"' in l:
                on = json.loads(l).get("id") == tid
            if on:
                out.append(l.rstrip("\n"))
    return out


def validate_shard(ctx, binary, k, mk_args, out, module="TraceNodeTree", respawn=4, limit=600):
    """Runs the harness (again after a crash), and has TLC validate what it recorded."""
    deaths, skip = [], 0
    if os.path.exists(out):
        os.remove(out)
    for _ in range(respawn + 1):
        how = run_harness(ctx, binary, mk_args(skip), out)
        if how is None:
            break
        clean_tail(out)
        deaths.append(death(out, how))
        skip = sum(1 for e in read_jsonl(out) if e.get("e") == "begin")
    n = sum(1 for l in open(out, encoding="utf-8", errors="replace") if '"e":"begin"' in l)
    if n == 0:
        return dict(rejects=deaths, traces=0, states=0, out=out)
    rc, lines = tlc(ctx, module, module + ".cfg", env={"TRACE": out}, timeout=limit)
    rej = printed(lines, "REJECT")
    if rc != 0:
        raise ToolError(f"TLC failed on {out} ({rc}):\n" + "\n".join(l for l in lines if not l.startswith(("Parsing", "Semantic", "Linting")))[-3000:])
    st, tr = tlc_counts(lines)
    for r in rej + deaths:
        r["file"] = out
    return dict(rejects=deaths + rej, traces=n, states=st, out=out)


def count_ops(ctx, path):
    for e in read_jsonl(path):
        k = e["op"] if e.get("e") in ("call", "op") else ("hook:" + e["k"] if e.get("e") == "hook" else None)
        if k:
            ctx.ops[k] = ctx.ops.get(k, 0) + 1


def save_replay(ctx, prop, rej, lines):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha1(json.dumps([rej.get("id"), rej.get("diff"), rej.get("line")]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{key}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "rejected": {k: v for k, v in rej.items() if k != "file"},
                   "how": "the recorded run below is not a behaviour of the specification; the events after 'begin' "
                          "are operations (call), hooks entered (hook) and returns, as performed by the real code",
                   "events": lines[:4000]}, f, indent=1, ensure_ascii=False)
    return path

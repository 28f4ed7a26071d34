#!/usr/bin/env python3
"""Decides one property: check.py <property>.  Exit 0: held; 1: VIOLATION; 2: the check could not run."""
import concurrent.futures as cf
import json, os, random, re, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import blame, macros, vlib
from plans import MACROS, MC, OBJECTS, RANDOM, TWINS
from profiles import P
from vlib import Ctx, ToolError, V

SHARDS = 8
BUDGET = {"quick": dict(traces=70, scripts=2000, wall=420, rounds=1, objects=8000, otraces=300, macros=130, rmacros=40, mconns=700),
          "thorough": dict(traces=300, scripts=60000, wall=2700, rounds=12, objects=100000, otraces=1000, macros=2400, rmacros=600, mconns=20000)}


def models(ctx, names, deep, workers=8, module="MCNodeTree", prefix="MC"):
    """Explores the models exhaustively; returns the scripts of the behaviours."""
    scripts = []
    # The quick bounds tell more behaviours apart than the deep ones, so both are used.
    for m, suffix in [(m, x) for m in names for x in (("_deep", "") if deep else ("",))]:
        cfg = f"{prefix}_{m}{suffix}.cfg"
        try:
            rc, lines = vlib.tlc(ctx, module, cfg, workers=workers, timeout=2400 if suffix else 300, heap="12g" if deep else "6g")
        except ToolError:
            if not suffix:
                raise
            ctx.notes[m] = "deep exploration stopped after 2400 s without a violation"
            continue
        if rc != 0:
            keep = [l for l in lines if not l.startswith(('"SCRIPT', "Parsing", "Semantic", "Linting"))]
            raise ToolError(f"the specification does not satisfy its properties in {cfg} ({rc}):\n" + "\n".join(keep)[:6000])
        st, tr = vlib.tlc_counts(lines)
        ctx.states += st
        ctx.transitions += tr
        got = vlib.printed(lines, "SCRIPT")
        ctx.notes.setdefault("models", {})[cfg] = dict(states=st, transitions=tr, behaviours=len(got))
        scripts += [(m + suffix, json.dumps(x)) for x in got]
    return scripts


def signature(s):
    """The operations of a script without most of their arguments."""
    x = json.loads(s)
    if isinstance(x, dict):
        x = x.get("ops", [])
    return tuple(f"{o.get('op', '')}.{o.get('w', '')}{o.get('how', '')}{o.get('k', '')}" for o in x if isinstance(o, dict))


def spread(rnd, group, n):
    """A sample in which all sorts of scripts occur, as far as possible."""
    by = {}
    for s in group:
        by.setdefault(signature(s[1]), []).append(s)
    queues = list(by.values())
    for q in queues:
        rnd.shuffle(q)
    rnd.shuffle(queues)
    out = []
    while len(out) < n:
        queues = [q for q in queues if q]
        out += [q.pop() for q in queues][:n - len(out)]
    return out


def pick_scripts(ctx, scripts, limit):
    rnd = random.Random(ctx.seed)
    scripts = sorted(set(scripts))
    if len(scripts) > limit:
        # The same share of every model, what small ones leave going to the others.
        by = {}
        for s in scripts:
            by.setdefault(s[0], []).append(s)
        scripts, left, room = [], len(by), limit
        for v in sorted(by.values(), key=len):
            k = min(len(v), room // left)
            scripts += v if k == len(v) else spread(rnd, v, k)
            room, left = room - k, left - 1
    rnd.shuffle(scripts)
    out = []
    for i, (m, s) in enumerate(scripts):
        x = json.loads(s)
        out.append({"id": f"{m}#{i}", "ops": x} if isinstance(x, list) else {"id": f"{m}#{i}", **x})
    return out


def enrich(rejects):
    """Adds to each rejection the arguments of the operation under way, and what was done before."""
    for r in rejects:
        stack, args, past = [], None, set()
        with open(r["file"], encoding="utf-8", errors="replace") as f:
            for i, l in enumerate(f, 1):
                if i > r["line"]:
                    break
                if '"e":"begin"' in l:
                    stack, past = [], set()
                elif '"e":"call"' in l:
                    try:
                        e = json.loads(l)
                    except ValueError:
                        continue
                    stack.append({k: v for k, v in e.items() if k not in ("d", "lg")})
                    past |= {e.get("op", "")} | ({"panic"} if e.get("lv") == "P" or e.get("op") in ("unw", "use") else set())
                elif '"e":"hook"' in l:
                    stack.append(None)
                elif ('"e":"ret"' in l or '"e":"hret"' in l) and stack:
                    last = stack.pop()
                    if i == r["line"]:
                        args = last
        if args is None:
            args = next((x for x in reversed(stack) if x), None)
        r["args"], r["past"] = args or {}, sorted(past)
        if args and r.get("op") == "":
            r["op"] = args.get("op", "")


def shards(ctx, jobs):
    with cf.ThreadPoolExecutor(SHARDS) as ex:
        return [r for r in ex.map(lambda j: j(), jobs)]


def replay_scripts(ctx, binary, scripts, mode="script", module="TraceNodeTree"):
    jobs = []
    for k in range(SHARDS):
        part = scripts[k::SHARDS]
        if not part:
            continue
        inp, out = os.path.join(ctx.work, f"{mode}{k}.in"), os.path.join(ctx.work, f"{mode}{k}.jsonl")
        with open(inp, "w") as f:
            f.writelines(json.dumps(x) + "\n" for x in part)
        scr = os.path.join(ctx.work, f"scr{k}")
        # A run of two trees is recorded as two.
        two = any("tr" in o for x in part[:1] for o in x.get("ops", [])[:1] if mode == "script")
        mk = lambda skip, inp=inp, out=out, scr=scr, two=two: [mode, "--in", inp, "--out", out, "--skip", str((skip + 1) // 2 if two else skip), "--scratch", scr]
        jobs.append(lambda k=k, mk=mk, out=out: vlib.validate_shard(ctx, binary, k, mk, out, module=module, limit=1500))
    return shards(ctx, jobs)


def random_objects(ctx, binary, kinds, traces, round_):
    jobs = []
    for k in range(SHARDS):
        kind = kinds[k % len(kinds)]
        out = os.path.join(ctx.work, f"ro{k}.jsonl")
        seed = own_seed(ctx) + round_ * SHARDS + k
        mk = lambda skip, kind=kind, out=out, seed=seed: ["robjects", "--kind", kind, "--seed", str(seed), "--traces", str(traces), "--from", str(skip), "--out", out]
        jobs.append(lambda k=k, mk=mk, out=out: vlib.validate_shard(ctx, binary, k, mk, out, module="TraceObjects", limit=1500))
    return shards(ctx, jobs)


def own_seed(ctx):
    """Every property has random histories of its own."""
    return (ctx.seed * 100 + int(ctx.prop[1:])) * 1000


def random_histories(ctx, binary, plan, traces, round_):
    jobs, wheel = [], [p for p, n in plan for _ in range(n)]
    for k in range(SHARDS):
        prof = wheel[k % len(wheel)]
        pf, out = os.path.join(ctx.work, f"{prof}.json"), os.path.join(ctx.work, f"r{k}.jsonl")
        with open(pf, "w") as f:
            json.dump(P.get(prof, {}), f)
        seed = own_seed(ctx) + round_ * SHARDS + k
        share = max(1, int(traces * P.get(prof, {}).get("share", 1)))
        scr = os.path.join(ctx.work, f"scr{k}")
        # A run of two trees is recorded as two.
        two = "twin" in P.get(prof, {})
        mk = lambda skip, pf=pf, out=out, scr=scr, seed=seed, two=two, share=share: ["random", "--seed", str(seed), "--traces", str(share), "--from", str((skip + 1) // 2 if two else skip),
                                                              "--profile", pf, "--out", out, "--scratch", scr]
        jobs.append(lambda k=k, mk=mk, out=out, prof=prof: profiled(vlib.validate_shard(ctx, binary, k, mk, out, limit=1500), prof))
    return shards(ctx, jobs)


def profiled(result, prof):
    for r in result["rejects"]:
        r["profile"] = prof
    return result


def programs(ctx, kinds, b, deep):
    """Programs of declarations, scene expressions and connections: enumerated by the specification and random ones, written in varying ways."""
    rnd = random.Random(ctx.seed)
    groups = []
    for k in kinds:
        got = sorted({x for _, x in models(ctx, [k], deep, module="MCMacros", prefix="MM")})
        n = b["mconns"] if k == "mconn" else b["macros"]
        groups.append([json.loads(x) for x in (got if len(got) <= n else rnd.sample(got, n))] + [macros.random_item(rnd, k) for _ in range(b["rmacros"])])
    items = []
    for i in range(max(map(len, groups))):
        for g in groups:
            if i < len(g):
                items.append(dict(g[i], id=f"{g[i]['kind']}#{i}", style=0 if rnd.random() < 0.25 else 1))
    for k in range(0, len(items), 1200):
        found, res = macros.run_items(ctx, items[k:k + 1200], f"{ctx.seed}-{k}")
        for r, lines in found:
            r["properties"] = ["P25"]
            (ctx.findings if ctx.prop == "P25" else ctx.others).append((r, lines) if ctx.prop == "P25" else r)
        if res:
            take(ctx, [res], "programs")
        if ctx.findings:
            break


def together(ctx, r):
    """Whether a rejected run of a tree beside another one is accepted without that one."""
    base, which = r["id"].split("&")
    if "profile" in r:
        seed, k = base.split("/")
        what = ["--profile", os.path.join(ctx.work, r["profile"] + ".json"), "--seed", seed, "--traces", str(int(k) + 1), "--only", k]
    else:
        f = os.path.join(ctx.work, "solo.in")
        with open(f, "w") as g:
            g.write(json.dumps(next(x for x in ctx.scripts if x["id"] == base)) + "\n")
        seed, k, what = "", "0", ["--in", f]
    for solo in ([which] if r["event"] not in ("crash", "hang") else ["1", "2"]):
        ctx.solos = getattr(ctx, "solos", 0) + 1
        out = os.path.join(ctx.work, f"solo{ctx.solos}.jsonl")
        mk = lambda skip: ["random" if seed else "script", *what, "--from", str(int(k) + skip), "--skip", str(skip), "--solo", solo,
                           "--out", out, "--scratch", os.path.join(ctx.work, "solo")]
        if vlib.validate_shard(ctx, ctx.binary, 0, mk, out)["rejects"]:
            return False
    return True


def concerns(ctx, r):
    """The properties which a rejected run breaks."""
    props = set(blame.props(r))
    if "&" not in str(r["id"]):
        return props
    return {"P28"} if ctx.prop == "P28" and getattr(ctx, "solos", 0) < 12 and together(ctx, r) else props - {"P28"}


def take(ctx, results, kind):
    """Counts what was validated, and sorts the rejections by whether they concern this property."""
    rejects = [r for x in results for r in x["rejects"]]
    enrich(rejects)
    for x in results:
        ctx.traces += x["traces"]
        ctx.notes[kind] = ctx.notes.get(kind, 0) + x["traces"]
        vlib.count_ops(ctx, x["out"])
    if results and len(ctx.samples) < 4:
        ev = vlib.read_jsonl(results[0]["out"])[:40]
        ctx.samples.append({"kind": kind, "events": [{k: v for k, v in e.items() if k not in ("d", "lg", "t")} for e in ev]})
    for r in rejects:
        props = concerns(ctx, r)
        r["properties"] = sorted(props)
        if ctx.prop in props or not props:
            ctx.findings.append((r, vlib.segment(r["file"], r["id"])))
        else:
            ctx.others.append(r)


def known():
    """The findings which are listed and not repaired."""
    out = []
    with open(os.path.join(V, "known-findings.txt"), encoding="utf-8") as f:
        for l in f:
            m = re.match(r"known: property=(\S+) match=(.*?) what=(.*)", l)
            if m:
                out.append(dict(property=m.group(1), match=m.group(2), what=m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    ctx.others = []
    b = BUDGET[tier]
    try:
        if MACROS.get(prop):
            programs(ctx, MACROS[prop], b, tier == "thorough")
            if ctx.findings:
                return report(ctx)
        binary = ctx.binary = vlib.build(ctx)
        if MC.get(prop):
            scripts = models(ctx, MC[prop], tier == "thorough")
            take(ctx, replay_scripts(ctx, binary, pick_scripts(ctx, scripts, b["scripts"])), "scripts")
        if TWINS.get(prop):
            ctx.scripts = pick_scripts(ctx, models(ctx, TWINS[prop], tier == "thorough", module="MCTwins", prefix="MT"), b["scripts"])
            take(ctx, replay_scripts(ctx, binary, ctx.scripts), "scripts of two trees")
        if OBJECTS.get(prop):
            names = [m for m, _ in OBJECTS[prop]]
            scripts = models(ctx, names, tier == "thorough", module="MCObjects", prefix="OC")
            take(ctx, replay_scripts(ctx, binary, pick_scripts(ctx, scripts, b["objects"]), mode="objects", module="TraceObjects"), "object scripts")
            kinds = sorted({k for _, k in OBJECTS[prop]})
            for r in range(b["rounds"]):
                take(ctx, random_objects(ctx, binary, kinds, b["otraces"], r), "random object runs")
                if ctx.findings:
                    break
        if RANDOM.get(prop):
            for r in range(b["rounds"]):
                take(ctx, random_histories(ctx, binary, RANDOM[prop], b["traces"], r), "random histories")
                if ctx.findings or ctx.left(b["wall"]) < 0:
                    break
        return report(ctx)
    except Exception as e:
        if isinstance(e, ToolError):
            print(f"ERROR: {e}", file=sys.stderr)
        else:
            traceback.print_exc()
        # What was found before counts all the same.
        return report(ctx) if ctx.findings else 2
    finally:
        ctx.close()


def report(ctx):
    from collections import Counter
    violations = []
    ks = [k for k in known() if k["property"] == ctx.prop]
    for r, lines in ctx.findings:
        k = next((k for k in ks if k["match"] in json.dumps(r, ensure_ascii=False)), None)
        if k:
            print(f"KNOWN-FINDING: property={ctx.prop} {k['what']}")
        else:
            violations.append((r, lines))
    for r in ctx.others[:5]:
        print(f"NOTE: a run was rejected, which concerns {','.join(r['properties'])}, not {ctx.prop}: {r['op']} {r['diff']} want {r['want']} got {r['got'][:200]}")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces, samples=ctx.samples or ["none"],
               cases=ctx.cases, operations=dict(sorted(ctx.ops.items())), **ctx.notes)
    with open(os.path.join(V, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="model_checking", coverage=cov,
                       assumptions=["single-threaded use; the environment described in DESIGN.md"],
                       wall_s=round(time.time() - ctx.t0, 1), violations=len(violations)), f, indent=1, ensure_ascii=False)
    seen = set()
    for r, lines in violations:
        key = (tuple(r["diff"]), r["op"], r["hook"])
        if key in seen:
            continue
        seen.add(key)
        path = vlib.save_replay(ctx, ctx.prop, r, lines)
        print(f"  {r['op']} in {r['hook'] or 'no hook'}: differs in {','.join(r['diff'])}; want {str(r['want'])[:300]}; got {str(r['got'])[:300]}")
        print(f"VIOLATION property={ctx.prop} replay={path}")
        if len(seen) >= 5:
            break
    print(f"{ctx.prop}: {len(violations)} violations; {ctx.states} states, {ctx.traces} traces, {ctx.cases} cases, {time.time() - ctx.t0:.0f} s")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())

"""R01-R09: schedules from RpcServer.tla replayed on the real server, judged by RpcMonitor.tla."""
import json, os, random, subprocess
from vlib import *

D = os.path.join(SPEC, "server")
IDS = [[1, 2, 3], [0, 2**53 - 1, 7], [2**53, 2**53 + 1, 2**53 - 1], [2**64 - 1, 2**64 - 2, 0],
       [2**31, 2**32, 2**32 + 1], [1, 257, 65537], [1, 2**32 + 1, 2**33 + 1], [10, 1, 100]]
ALL = ["call", "gcall", "badcall", "open", "cancel", "bad", "garbage"]
INV = ["NoViolation", "SubsOwn", "Reachable", "OwnFrames", "QueueOrder", "CountOK"]


def consts(conns=2, ids=2, kinds=ALL, req=3, emit=2, env=7, disc=False, unproxy=False, dropmap=False,
           bad=False, sched=True):
    return dict(Conns=set(range(1, conns + 1)), Ids=set(range(1, ids + 1)), Kinds=kinds, MaxReq=req,
                MaxEmit=emit, MaxEnv=env, AllowDisc=disc, AllowUnproxy=unproxy, AllowDropMap=dropmap,
                AllowBadItem=bad, Scheduled=sched)


# exhaustive schedule families: name -> (constants, mode)
GEN = {
    "stream": (consts(kinds=["open", "cancel"], env=7, disc=True), "proxy"),
    "calls": (consts(kinds=["call", "gcall", "badcall", "bad", "garbage"], env=6), "proxy"),
    "mixed": (consts(ids=1, env=6, emit=1, disc=True), "proxy"),
    "queue": (consts(ids=2, kinds=["gcall", "open", "cancel", "call"], env=6, emit=1), "proxy"),
    "items": (consts(conns=1, ids=2, kinds=["open", "cancel", "call"], env=8, bad=True), "proxy"),
    "cancel1": (consts(conns=1, ids=2, kinds=["open", "cancel"], req=4, env=8), "proxy"),
    "leave": (consts(ids=1, kinds=["gcall", "call", "open"], env=7, disc=True, emit=1), "proxy"),
    "down": (consts(ids=2, kinds=["open", "gcall"], env=7, disc=True, unproxy=True, emit=1), "proxy"),
    "raw": (consts(conns=2, ids=2, kinds=["open", "cancel", "call"], env=7, dropmap=True, disc=True), "raw"),
    "bad": (consts(ids=1, kinds=["bad", "garbage", "open", "call"], env=6, emit=1), "proxy"),
}
FOCUS = {
    "R01": ["calls", "mixed", "queue", "leave"],
    "R02": ["calls", "queue", "mixed", "leave"],
    "R03": ["stream", "items", "mixed", "queue"],
    "R04": ["cancel1", "stream", "queue", "items", "raw"],
    "R05": ["stream", "mixed", "queue", "leave"],
    "R06": ["bad", "calls", "mixed"],
    "R07": ["leave", "mixed", "stream", "down"],
    "R08": ["raw", "down", "stream", "leave"],
    "R09": ["mixed", "stream", "calls", "bad", "leave"],
}
DIRECT = {"R01": "reply", "R02": "order", "R03": "item", "R04": "cancel", "R06": "badreq", "R08": "release",
          "R09": "junk"}


def generate(name, over=None):
    c, mode = GEN[name]
    c = dict(c, **(over or {}))
    r = tlc(os.path.join(D, "RpcGen.tla"),
            cfg_text(constants=c, invariants=INV, view="view", extra="ACTION_CONSTRAINT Emitted\nCONSTRAINT Canon\n"),
            workers=3, heap="3g", timeout=840)
    return r, [(h, mode) for h in maximal(r.lines())]


def simulate(num, depth, seed, raw=False):
    c = consts(conns=3, ids=3, req=14, emit=4, env=44, disc=True, unproxy=False, dropmap=raw, bad=True)
    r = tlc(os.path.join(D, "RpcGen.tla"),
            cfg_text(constants=c, invariants=INV, extra="ACTION_CONSTRAINT Emitted\n"),
            workers=1, args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)], timeout=840)
    return r, [(h, "raw" if raw else "proxy") for h in maximal(r.lines())]


# ------------------------------------------------------------------ schedules
def parse(ops):
    t, out = 0, []
    for op in ops.split():
        k = op[0]
        if k == "s":
            t += 1
            i = next(i for i, ch in enumerate(op[1:], 1) if ch.isalpha())
            out.append(dict(op=op, k="s", c=int(op[1:i]), kind=op[i], id=int(op[i + 1:]), t=t))
        elif k in "gx":
            out.append(dict(op=op, k=k, t=int(op[1:])))
        elif k == "e":
            out.append(dict(op=op, k=k, t=int(op[1:-1]), b=op[-1]))
        elif k in "cdmpyq":
            out.append(dict(op=op, k=k, c=int(op[1:])))
        else:
            out.append(dict(op=op, k=k))
    return out


def unparse(ps):
    """renumbers requests after some were taken out"""
    m, t, out = {}, 0, []
    for p in ps:
        if p["k"] == "s":
            t += 1
            m[p["t"]] = t
            out.append(p["op"])
        elif p["k"] in "gx":
            if p["t"] in m:
                out.append(f"{p['k']}{m[p['t']]}")
        elif p["k"] == "e":
            if p["t"] in m:
                out.append(f"e{m[p['t']]}{p['b']}")
        else:
            out.append(p["op"])
    return " ".join(out)


def without(ops, f):
    ps = parse(ops)
    gone = {p["t"] for p in ps if p["k"] == "s" and f(p)}
    return unparse([p for p in ps if not f(p) and not (p["k"] in "gex" and p["t"] in gone)])


def epilogue(ops, mode):
    """finish suspended handlers, see that everybody is still served, then shut down"""
    ps = parse(ops)
    t = sum(p["k"] == "s" for p in ps)
    opened = {p["t"] for p in ps if p["k"] == "g"}
    alive = [p["c"] for p in ps if p["k"] == "c"]
    for p in ps:
        if p["k"] == "d":
            alive.remove(p["c"])
    up = not any(p["k"] == "u" for p in ps)
    out = [ops, "r"]
    g = [p["t"] for p in ps if p["k"] == "s" and p["kind"] == "G" and p["t"] not in opened]
    if g:
        out += [f"g{x}" for x in g] + ["r"]
    for c in alive:
        out.append(f"s{c}C9")
        t += 1
    if up:
        out += ["c9", "s9C1", "s9O1", f"e{t + 2}0"]
        t += 2
        alive = alive + [9]
    out.append("r")
    out += [f"d{c}" for c in alive] + (["u"] if up else []) + ["r"]
    return " ".join(out)


def wsify(ops, rng):
    """sprinkles frames which are not requests"""
    out, alive = [], []
    for p in parse(ops):
        out.append(p["op"])
        if p["k"] == "c":
            alive.append(p["c"])
        if p["k"] == "d" and p["c"] in alive:
            alive.remove(p["c"])
        if alive and rng.random() < 0.3:
            out.append(rng.choice("pyq") + str(rng.choice(alive)))
    return " ".join(out)


# ------------------------------------------------------------------ execution
def build():
    p, target = cargo_build("server")
    if p.returncode:
        raise ToolError("harness/server does not build\n" + p.stdout[-4000:])
    return os.path.join(target, "debug", "vserver")


def execute(binary, scheds, shards=8, limit=20):
    """runs schedules; returns the paths of the recorded traces"""
    d = scratch("srv")
    shards = max(1, min(shards, len(scheds) // 50 + 1))
    env = dict(os.environ, V_LIMIT=str(limit), RUST_BACKTRACE="0")

    def one(i):
        mine = scheds[i::shards]
        path = os.path.join(d, f"t{i}.ndjson")
        hangs = 0
        with open(path, "w") as out:
            while mine:
                p = subprocess.run([binary], input="\n".join(json.dumps(s) for s in mine), env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                lines = [l for l in p.stdout.split("\n") if l.endswith("}")]
                out.write("".join(l + "\n" for l in lines))
                if p.returncode == 0:
                    break
                if not lines and p.returncode != 3:
                    raise ToolError(f"driver died: {p.returncode} {p.stderr[-2000:]}")
                last = json.loads(lines[-1])["n"] if lines else mine[0]["n"]
                k = next(i for i, s in enumerate(mine) if s["n"] == last)
                if p.returncode != 3:   # crashed (abort, out of memory) in the next schedule
                    k += 1
                    out.write(json.dumps({"n": mine[k]["n"], "ev": [{"e": "connect", "c": 1},
                              {"e": "send", "c": 1, "t": 1, "k": "call", "id": 1}, {"e": "quiet"}]}) + "\n")
                mine = mine[k + 1:]
                hangs += 1
                if hangs > 2:
                    break
        return path

    return d, parallel([lambda i=i: one(i) for i in range(shards)], 8)


def judge(paths):
    """-> {schedule: {(kind, c)}}, number of executions judged"""
    def one(p):
        if os.path.getsize(p) == 0:
            return {}, 0
        r = tlc(os.path.join(D, "ServerTrace.tla"), os.path.join(D, "ServerTrace.cfg"), env={"TRACES": p},
                workers=1, heap="2500m", timeout=800)
        v = {}
        for l in r.lines():
            n, kind, c, t = l.split()
            v.setdefault(int(n), set()).add((kind, int(c)))
        return v, r.distinct - 1
    res = parallel([lambda p=p: one(p) for p in paths], 4)
    out, n = {}, 0
    for v, k in res:
        out.update(v)
        n += k
    return out, n


def run(binary, scheds, **kw):
    d, paths = execute(binary, scheds, **kw)
    try:
        v, n = judge(paths)
        tr = {}
        if v:
            want = set(sorted(v, key=lambda n: n)[:400])
            for p in paths:
                for l in open(p):
                    e = json.loads(l)
                    if e["n"] in want:
                        tr[e["n"]] = e
        return v, n, tr
    finally:
        shutil.rmtree(d, ignore_errors=True)


CAUSE = {
    "R04": lambda c: (lambda p: p["k"] == "s" and p["kind"] == "X"),
    "R05": lambda c: (lambda p: p.get("c", c) != c),
    "R06": lambda c: (lambda p: p["k"] == "s" and p["kind"] in "bz"),
    "R07": lambda c: (lambda p: p["k"] == "d" and p["c"] != c),
}


def attribute(prop, binary, byn, viol):
    """which of the violations are of this property: a kind of its own, or harm that vanishes
    when the events the property speaks of are taken out of the schedule"""
    mine = {}
    for n, vs in viol.items():
        for kind, c in vs:
            starved = prop == "R05" and byn[n]["ops"] == "starve" and c == 2
            if DIRECT.get(prop) == kind or starved:
                mine.setdefault(n, set()).add((kind, c))
    if prop in CAUSE or prop == "R09":
        todo, back = [], {}
        order = sorted((n for n in viol if byn[n]["mode"] != "threads"), key=lambda n: len(byn[n]["ops"]))[:300]
        for n in order:
            s = byn[n]
            for kind, c in viol[n]:
                if (kind, c) in mine.get(n, ()):
                    continue
                if prop == "R09":
                    if s["mode"] != "ws":
                        continue
                    s2 = dict(s, mode="proxy")
                else:
                    ops = without(s["ops"], CAUSE[prop](c))
                    if ops == s["ops"]:
                        continue
                    s2 = dict(s, ops=ops)
                k = len(todo)
                todo.append(dict(s2, n=k))
                back[k] = (n, kind, c)
        if todo:
            v2, _, _ = run(binary, todo)
            for k, (n, kind, c) in back.items():
                if (kind, c) not in v2.get(k, ()):
                    mine.setdefault(n, set()).add((kind, c))
    return mine


FREE = consts(ids=1, kinds=["call", "gcall", "open", "cancel", "bad"], req=2, emit=1, env=7, disc=True, unproxy=True,
              bad=True, sched=False)


def check(prop, tier):
    rep = Report(prop, tier)
    thorough = tier == "thorough"
    rng = random.Random(SEED)
    over = {}
    jobs = [build,
            lambda: tlc(os.path.join(D, "RpcServer.tla"), cfg_text(constants=FREE, invariants=INV, view="view"), workers=3),
            lambda: simulate(3000 if thorough else 250, 160, SEED),
            lambda: simulate(1000 if thorough else 80, 160, SEED + 7, raw=True)]
    if thorough:
        jobs.append(lambda: tlc(os.path.join(D, "RpcServer.tla"), cfg_text(
            constants=dict(FREE, MaxReq=3, Ids={1, 2}, MaxEnv=8), invariants=INV, view="view"), workers=4, timeout=800,
            heap="8g"))
        jobs.append(lambda: tlc(os.path.join(D, "RpcServer.tla"), cfg_text(
            constants=dict(FREE, MaxEnv=6), invariants=INV,
            extra="PROPERTIES AnsweredEventually ReleasedEventually\n"), workers=2, timeout=800))
    names = FOCUS[prop]
    for nm in names:
        o = {"MaxEnv": GEN[nm][0]["MaxEnv"] + 1} if thorough else {}
        jobs.append(lambda nm=nm, o=o: generate(nm, o))
    res = parallel(jobs, 5)
    binary, free, sims, rsims = res[0], res[1], res[2], res[3]
    fams = res[6 if thorough else 4:]
    rep.model(free)
    if thorough:
        rep.model(res[4]); rep.model(res[5])
    cap = 120000 if thorough else 9000
    hist = []
    for (r, hs) in fams:
        rep.model(r)
        hist += sample(hs, cap, SEED)
    hist += sims[1] + rsims[1]
    scheds = []
    for h, mode in hist:
        n = len(scheds)
        ops = epilogue(h, mode)
        if prop == "R09":
            mode = "ws"
            ops = wsify(ops.replace("m1", "").replace("m2", "").replace("m3", ""), rng)
        scheds.append(dict(n=n, mode=mode, ids=rng.choice(IDS), ops=ops, seed=rng.randrange(1000)))
    if prop != "R09":
        # the same schedules over real sockets' framing, and without a proxy
        for s in sample(scheds, len(scheds) // 10, SEED + 1):
            if s["mode"] == "proxy":
                scheds.append(dict(s, n=len(scheds), mode="raw"))
        for i in range(120 if thorough else 16):
            scheds.append(dict(n=len(scheds), mode="threads", ids=rng.choice(IDS), seed=rng.randrange(1 << 30),
                               ops=f"mix {rng.choice([2, 4, 6])} {rng.choice([20, 60, 120])}"))
        for i in range(3):
            for o in ("endless", "starve"):
                scheds.append(dict(n=len(scheds), mode="threads", ids=IDS[0], seed=i, ops=o))
        scheds += soak(len(scheds), rng, thorough)
    byn = {s["n"]: s for s in scheds}
    viol, judged, traces = run(binary, scheds)
    rep.cov["traces_validated_against_impl"] = judged
    rep.cov["schedules"] = len(scheds)
    rep.cov["families"] = {n: len(f[1]) for n, f in zip(names, fams)}
    rep.cov["samples"] = [byn[i] for i in range(0, len(scheds), max(1, len(scheds) // 4))][:4]
    mine = attribute(prop, binary, byn, viol) if viol else {}
    for n in sorted(mine, key=lambda n: len(byn[n]["ops"])):
        kinds = sorted(mine[n])
        rep.violation(f"{byn[n]['mode']}:{byn[n]['ops']}:{byn[n]['seed']}", f"{kinds} in schedule {byn[n]['ops']}",
                      {"schedule": byn[n], "kinds": kinds, "trace": traces.get(n)})
        if len(rep.violations) >= 5:
            break
    rep.assumptions = [
        "tokio runs a ready task after finitely many polls of others; the deterministic driver observes quiescence "
        "through tokio's paused clock",
        "schedules are exhaustive for the constants of each family up to the sampling cap, random beyond",
    ]
    return rep.finish()


def soak(n0, rng, thorough):
    """long histories: many connections, ids, streams and items"""
    out = []
    for k in range(6 if thorough else 2):
        ops, t, conns = [], 0, 0
        live = {}
        for step in range(2500 if thorough else 700):
            x = rng.random()
            if x < 0.08 or not live:
                conns += 1
                ops.append(f"c{conns}")
                live[conns] = []
            elif x < 0.12 and len(live) > 2:
                c = rng.choice(list(live))
                ops.append(f"d{c}")
                del live[c]
            else:
                c = rng.choice(list(live))
                i = rng.randrange(1, 20)
                if x < 0.3:
                    ops.append(f"s{c}C{i}"); t += 1
                elif x < 0.5:
                    ops.append(f"s{c}O{i}"); t += 1
                    live[c] = [s for s in live[c] if s[0] != i] + [(i, t)]
                elif x < 0.58:
                    ops.append(f"s{c}X{i}"); t += 1
                    live[c] = [s for s in live[c] if s[0] != i]
                elif x < 0.62:
                    ops.append(f"s{c}b{i}"); t += 1
                elif x < 0.9:
                    if live[c]:
                        i, s = rng.choice(live[c])
                        ops += [f"e{s}{1 if rng.random() < 0.05 else 0}"] * rng.choice([1, 1, 2, 5])
                else:
                    ops.append("r")
        ops.append("r")
        ops += [f"d{c}" for c in live] + ["u", "r"]
        out.append(dict(n=n0 + k, mode="proxy", ids=[], ops=" ".join(ops), seed=k))
    return out

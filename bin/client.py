"""W01-W04: schedules from WsClient.tla replayed on the generated TypeScript client with a scripted
WebSocket and timers, judged by ClientMonitor.tla."""
import json, os, random, subprocess
from vlib import *

D = os.path.join(SPEC, "client")
H = os.path.join(VERIF, "harness", "client")
INV = ["NoViolation", "OneSocket", "CurLive", "TimerXorSocket", "IdleClosed", "PendOrder"]
KIND = {"W01": "pair", "W02": "send", "W03": "socket", "W04": "retry"}


def consts(call=3, sock=3, cb=2, env=8, val=2, noise=True, burst=0):
    return dict(MaxCall=call, MaxSock=sock, MaxCb=cb, MaxEnv=env, MaxVal=val, Noise=noise, Burst=burst)


GEN = {
    "base": consts(),
    "frames": consts(call=3, sock=1, cb=3, env=8, val=4),
    "sockets": consts(call=2, sock=4, cb=1, env=10, val=1, noise=False),
    "retry": consts(call=1, sock=9, cb=1, env=17, val=0, noise=False),
    "leave": consts(call=2, sock=3, cb=2, env=10, val=2, noise=False),
    "calls": consts(call=4, sock=3, cb=0, env=8, val=1, noise=False),
}
FOCUS = {"W01": ["base", "frames", "leave"], "W02": ["base", "calls", "sockets"],
         "W03": ["base", "sockets", "leave"], "W04": ["base", "retry", "sockets"]}


def generate(name, more):
    c = dict(GEN[name], MaxEnv=GEN[name]["MaxEnv"] + more)
    r = tlc(os.path.join(D, "WsClient.tla"),
            cfg_text(constants=c, invariants=INV, view="view", extra="ACTION_CONSTRAINT Emitted\n"),
            workers=3, timeout=840, heap="4g")
    return r, maximal(r.lines())


def simulate(num, seed, c=None):
    c = c or consts(call=12, sock=20, cb=8, env=40, val=14)
    r = tlc(os.path.join(D, "WsClient.tla"),
            cfg_text(constants=c, invariants=INV + (["Ended"] if c["Burst"] else []),
                     extra="" if c["Burst"] else "ACTION_CONSTRAINT Emitted\n"),
            workers=1, args=["-simulate", f"num={num}", "-depth", str(c["MaxEnv"] + 1), "-seed", str(seed)], timeout=840)
    return r, maximal(r.lines())


def bursts(num, seed):
    """many calls at a time"""
    hs = []
    for i, n in enumerate((70, 140, 300)):
        found = simulate(num, seed + i, consts(call=n + 10, sock=12, cb=20, env=n + 90, val=80, burst=n))[1]
        hs += {h[:120]: h for h in found}.values()      # one of each walk
    return None, hs


def together(ops, rng):
    """joins neighbouring actions of the user into one turn of the event loop"""
    out = []
    for op in ops.split():
        if out and op[0] in "QSAD" and out[-1].split("+")[-1][0] in "QSAD" and rng.random() < 0.5:
            out[-1] += "+" + op
        else:
            out.append(op)
    return " ".join(out)


def client_source():
    p, target = cargo_build("client")
    if p.returncode:
        raise ToolError("harness/client does not build\n" + p.stdout[-4000:])
    out = subprocess.run([os.path.join(target, "debug", "vclient")], stdout=subprocess.PIPE, check=True).stdout
    return out


def check(prop, tier):
    rep = Report(prop, tier)
    thorough = tier == "thorough"
    rng = random.Random(SEED)
    names = FOCUS[prop]
    jobs = [client_source, lambda: simulate(4000 if thorough else 300, SEED)]
    jobs += [lambda: bursts(20 if thorough else 4, SEED)]
    jobs += [lambda nm=nm: generate(nm, 1 if thorough else 0) for nm in names]
    res = parallel(jobs, 5)
    src, (_, sims), (_, many), fams = res[0], res[1], res[2], res[3:]
    hist = []
    for r, hs in fams:
        rep.model(r)
        hist += sample(hs, 150000 if thorough else 25000, SEED)
    hist += many
    hist += sample(sims, 400000 if thorough else 25000, SEED)
    hist += [together(h, rng) for h in sample(hist, len(hist) // 4, SEED + 1)]
    scheds = [dict(n=i, ops=h, seed=rng.randrange(1000)) for i, h in enumerate(hist)]
    byn = {s["n"]: s for s in scheds}
    d = scratch("cli")
    try:
        ts = os.path.join(d, "client.ts")
        open(ts, "wb").write(src)

        def one(i, k):
            sp, tp = os.path.join(d, f"s{i}"), os.path.join(d, f"t{i}")
            open(sp, "w").write("\n".join(json.dumps(s) for s in scheds[i::k]))
            p = subprocess.run(["timeout", "600", "node", os.path.join(H, "driver.cjs"), ts, sp, tp],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                raise ToolError(f"driver: {p.returncode}\n{p.stderr[-3000:]}")
            r = tlc(os.path.join(D, "ClientTrace.tla"), os.path.join(D, "ClientTrace.cfg"), env={"TRACES": tp},
                    workers=1, heap="2500m", timeout=800)
            v = {}
            for l in r.lines():
                n, kind = l.split()
                v.setdefault(int(n), set()).add(kind)
            tr = {}
            if v:
                for l in open(tp):
                    e = json.loads(l)
                    if e["n"] in v and len(tr) < 200:
                        tr[e["n"]] = e
            return v, r.distinct - 1, tr
        k = 6
        viol, tr = {}, {}
        for v, n, t in parallel([lambda i=i: one(i, k) for i in range(k)], 6):
            viol.update(v); tr.update(t)
            rep.cov["traces_validated_against_impl"] += n
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rep.cov["schedules"] = len(scheds)
    rep.cov["families"] = {n: len(f[1]) for n, f in zip(names, fams)}
    rep.cov["samples"] = [byn[i] for i in range(0, len(scheds), max(1, len(scheds) // 4))][:4]
    for n in sorted((n for n in viol if KIND[prop] in viol[n]), key=lambda n: len(byn[n]["ops"]))[:5]:
        rep.violation(byn[n]["ops"], f"{sorted(viol[n])} in schedule {byn[n]['ops']}",
                      {"schedule": byn[n], "kinds": sorted(viol[n]), "trace": tr.get(n)})
    rep.assumptions = ["the scripted WebSocket, timers and event loop stand for a browser's: one event at a time, "
                       "microtasks drained between events, error followed by close when opening fails",
                       "the server answers with frames of the kinds the protocol defines"]
    return rep.finish()

"""R10, W05, G01-G03: programs and sessions generated by TLC from Api.tla and Graph.tla, compiled against /repo;
requests are routed, the generated client is analysed, called, and run against the real server."""
import itertools, json, os, random, re, shutil, subprocess
from vlib import *
import rustgen

D = os.path.join(SPEC, "api")
H = os.path.join(VERIF, "harness", "api")
TARGET = os.path.join(BUILD, "api")
STATIC = len(open(os.path.join(REPO, "src/rpc/clients/static/websocket_client.ts")).read()) if os.path.exists(os.path.join(REPO, "src/rpc/clients/static/websocket_client.ts")) else 0


# ---------------------------------------------------------------- values
def val(v):
    """the Python value of a JSON value of the specification"""
    t = v["t"]
    if t in ("null", "undef"):
        return None
    if t == "bool":
        return v["b"]
    if t == "num":
        return Num(v["n"])
    if t == "str":
        return rustgen.SPECIAL.get(v["s"], "e\u0301" if v["s"] == "@combining" else v["s"])
    if t in ("arr", "set"):
        return [val(x) for x in v["e"]]
    if t == "obj":
        return {val({"t": "str", "s": k}): val(x) for k, x in v["m"]}
    if t == "map":
        return {val(k): val(x) for k, x in v["p"]}
    raise ValueError(t)


class Num:
    def __init__(self, s):
        self.s = s


def text(x):
    """JSON with the numbers as they are written in the specification"""
    if isinstance(x, Num):
        return x.s
    if isinstance(x, list):
        return "[" + ",".join(map(text, x)) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(json.dumps(k) + ":" + text(y) for k, y in x.items()) + "}"
    return json.dumps(x)


# serde_json reads some doubles as one of their neighbours
ULP = 4e-16


def same(a, b, ulp=0.0):
    """equal as JSON values; numbers as doubles (up to a relative error)"""
    if isinstance(a, Num):
        a = float(a.s)
    if isinstance(b, Num):
        b = float(b.s)
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return float(a) == float(b) or abs(a - b) <= ulp * abs(a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, ulp) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], ulp) for k in a)
    return type(a) == type(b) and a == b


# ---------------------------------------------------------------- programs
def gen(session, num, steps, seed, depth=400):
    r = tlc(os.path.join(D, "Api.tla"), cfg_text(constants=dict(Session=session, Steps=steps), invariants=["Model", "Emit"]), workers=1,
            args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)], timeout=600)
    ls = list(dict.fromkeys(r.lines()))
    r.out = ""
    return r, ls


def programs(rep, session, num, steps, procs=8):
    out = {}
    for r, ls in parallel([lambda i=i: gen(session, num, steps, SEED * 1000 + i * 37 + 1) for i in range(procs)], 8):
        rep.model(r)
        for l in ls:
            out.setdefault(json.dumps(json.loads(l)["p"], sort_keys=True), l)
    xs = [json.loads(l) for l in out.values()]
    for n, x in enumerate(xs):
        x["n"] = n
    return xs


def pre(n, s):
    return f"P{n}_{s}"


def raw(s):
    return "r#" + s if s in rustgen.KEYWORDS else s


def doc(lines):
    return "".join(f"#[doc = {rustgen.lit(' ' + l if l else '')}] " for l in lines)


def path(n, p, i):
    q = p["nss"][i]
    return (f"m{i}::" if q["sub"] else "") + pre(n, q["rust"])


def rust(x):
    """the program as a module"""
    p, n = x["p"], x["n"]
    s = f"pub mod p{n} {{ use super::*;\n"
    for i, q in enumerate(p["nss"]):
        custom = f'#[namespace(name = "{pre(n, q["name"])}")] ' if q["name"] != q["rust"] else ""
        decl = f"#[derive(Namespace, Default)] {custom}pub struct {pre(n, q['rust'])} {{ pub n: usize }}"
        s += (f"pub mod m{i} {{ use super::*; {decl} }}" if q["sub"] else decl) + "\n"
    for i, t in enumerate(p["types"]):
        ns = path(n, p, t["ns"] - 1)
        ren = f'#[serde(rename = {rustgen.lit(t["name"])})] ' if t["name"] != t["t"] else ""
        s += rustgen.decl(t["t"], x["lib"][i], zod=f'#[zod(namespace = "{ns}")] {ren}', docs=doc(t["docs"]),
                          derives="Zod, serde::Deserialize, serde::Serialize, Debug, Clone") + "\n"
    for i, q in enumerate(p["nss"]):
        if q["sub"]:
            s += f"mod i{i} {{ use super::{{*, m{i}::{pre(n, q['rust'])}}};\n"
        s += f"#[rpc::namespace] impl {pre(n, q['rust'])} {{\n"
        for k, f in enumerate(p["fns"]):
            if f["ns"] != i + 1:
                continue
            args = ", ".join(f"{raw(a['name'])}: {rustgen.ty(a['ty'])}" for a in f["args"])
            js = ", ".join(f"j(&{raw(a['name'])})" for a in f["args"])
            o = rustgen.ty(f["out"])
            act = f"act::<{o}>({n}, {k}, self.n, vec![{js}], {'true' if f['kind'] == 'stream' else 'false'})"
            sig = f"fn {raw(f['name'])}(&mut self{', ' + args if args else ''})"
            if f["kind"] == "method":
                out = "" if o == "()" else f" -> {o}"
                s += f"  pub async {sig}{out} {{ self.n += 1; one({act}) }}\n"
            elif f["boxed"]:
                s += f"  pub {sig} -> BoxStream<'static, {o}> {{ self.n += 1; many({act}).boxed() }}\n"
            else:
                s += f"  pub {sig} -> impl Stream<Item = {o}> {{ self.n += 1; many({act}) }}\n"
        s += "}\n" + ("}\n" if q["sub"] else "")
    for b, q in enumerate(p["backs"]):
        ts = [path(n, p, i - 1) for i in q]
        body = " { " + ", ".join(f"pub f{k}: {t}" for k, t in enumerate(ts)) + " }" if p["style"] == "named" else "(" + ", ".join(ts) + ");"
        s += f"#[derive(rpc::Backend, Default)] pub struct B{b}{body}\n"
    nss = ", ".join(f"ns::<{path(n, p, i)}>" for i in range(len(p["nss"])))
    backs = ", ".join(f"back::<B{b}>()" for b in range(len(p["backs"])))
    s += f"pub fn prog() -> Prog {{ Prog {{ n: {n}, nss: vec![{nss}], backs: vec![{backs}] }} }}\n}}\n"
    return s


def build(xs, name, render=rust, k=8):
    """compiles programs; returns (workspace, shards, {n: error})"""
    ws = os.path.join(BUILD, "api-" + name)
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(ws)
    bads = {}
    todo = xs
    for attempt in range(3):
        shards = [todo[i::k] for i in range(k) if todo[i::k]]
        members, at = [], []
        for i, sh in enumerate(shards):
            c = f"sh{i}"
            members.append(c)
            os.makedirs(os.path.join(ws, c, "src"), exist_ok=True)
            open(os.path.join(ws, c, "Cargo.toml"), "w").write(
                open(os.path.join(H, "Cargo.toml")).read().replace("vapi", f"api{c}").replace("[workspace]\n", "").split("[profile")[0])
            src = open(os.path.join(H, "src", "prelude.rs")).read()
            where = []
            for x in sh:
                a = src.count("\n") + 1
                src += render(x)
                where.append((a, src.count("\n"), x["n"]))
            src += "fn main() { drive(vec![" + ", ".join(f"p{x['n']}::prog()" for x in sh) + "]) }\n"
            open(os.path.join(ws, c, "src", "main.rs"), "w").write(src)
            at.append(where)
        open(os.path.join(ws, "Cargo.toml"), "w").write(
            f"[workspace]\nresolver = \"2\"\nmembers = {json.dumps(members)}\n[profile.dev]\ndebug = false\nincremental = false\ncodegen-units = 4\n")
        shutil.copy(os.path.join(H, "Cargo.lock"), ws)
        p, _ = cargo_build(ws, TARGET, extra=["--keep-going", "--message-format", "short"])
        if p.returncode == 0:
            return ws, shards, bads
        bad = {}
        for m in re.finditer(r"^(?:\S*/)?sh(\d+)/src/main\.rs:(\d+):\d+: error(.*)$", p.stdout, re.M):
            for a, z, n in at[int(m.group(1))]:
                if a <= int(m.group(2)) <= z:
                    bad.setdefault(n, m.group(3).strip(": ")[:300])
        if not bad:
            raise ToolError("generated crates do not build\n" + p.stdout[-4000:])
        bads.update(bad)
        todo = [x for x in todo if x["n"] not in bad]
    raise ToolError("generated crates do not build: " + json.dumps(bads)[:2000])


def results(xs, path):
    t = {str(x["n"]): [{"tok": f["tok"], "items": [val(r) for r in f["results"]]} for f in x["p"]["fns"]] for x in xs}

    def enc(x):
        if isinstance(x, dict):
            return "{" + ",".join(json.dumps(k) + ":" + enc(v) for k, v in x.items()) + "}"
        if isinstance(x, list):
            return "[" + ",".join(map(enc, x)) + "]"
        return text(x)
    open(path, "w").write(enc(t))


def exe(i):
    return os.path.join(TARGET, "debug", f"apish{i}")


def dump(ws, shards, bads):
    """the generated code and the registry of each program and backend; generation that does not end is recorded in bads"""
    def one(i):
        out, at = [], 0
        while at < len(shards[i]):
            p = subprocess.run(["timeout", "100", exe(i), "dump", str(at)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            ls = [json.loads(l) for l in p.stdout.splitlines() if l.endswith("}")]
            begun = [l["begin"] for l in ls if "begin" in l]
            if p.returncode == 0:
                out += [l for l in ls if "ts" in l]
                break
            k = begun[-1] if begun else at
            n = shards[i][k]["n"]
            bads[n] = "generation fails: " + (p.stderr[-300:].strip() or f"exit {p.returncode}")
            out += [l for l in ls if "ts" in l and l["n"] != n]
            at = k + 1
        return out
    return [x for r in parallel([lambda i=i: one(i) for i in range(len(shards))], 8) for x in r]


def node(mode, inp, name, extra=(), k=6):
    """runs the driver on a list of objects, in k processes"""
    d = scratch("node-" + name)
    try:
        def one(i):
            a, b = os.path.join(d, f"i{i}"), os.path.join(d, f"o{i}")
            with open(a, "w") as f:
                for x in inp[i::k]:
                    f.write(json.dumps(x) + "\n")
            p = subprocess.run(["timeout", "500", "node", "--stack-size=4000", "--max-old-space-size=3000", os.path.join(H, "driver.cjs"), mode, a, b, *extra],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise ToolError("driver.cjs: " + p.stdout[-3000:])
            return [json.loads(l) for l in open(b) if l.strip()]
        return [x for r in parallel([lambda i=i: one(i) for i in range(k) if inp[i::k]], k) for x in r]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def failures(rep, xs, bads):
    for x in xs:
        if x["n"] in bads:
            rep.violation("build:" + bads[x["n"]][:80].replace(" ", "_"), f"a program does not compile or generate: {bads[x['n']]}", {"rust": rust(x), "error": bads[x["n"]]})


# ---------------------------------------------------------------- R10
def request(x, l, rid):
    n = x["n"]
    parts = [("namespace", json.dumps(pre(n, l["ns"]))), ("method", json.dumps(l["m"])), ("id", str(rid))]
    if l["args"]["t"] != "missing":
        parts.append(("args", text(val(l["args"]))))
    perms = list(itertools.permutations(parts))
    return '{"exec":{' + ",".join(f'"{k}":{v}' for k, v in perms[l["ord"] % len(perms)]) + "}}"


def route(prop, tier):
    rep = Report(prop, tier)
    num, steps = (14, 60) if tier == "quick" else (60, 150)
    xs = programs(rep, "route", num, steps)
    ws, shards, bads = build(xs, prop)
    failures(rep, xs, bads)
    done = 0

    def one(i):
        f = os.path.join(ws, f"results{i}.json")
        results(shards[i], f)
        inp, exp = [], []
        for x in shards[i]:
            for k, l in enumerate(x["log"]):
                rid = (k * 7919 + 1) % 2**32
                t = request(x, l, rid)
                inp.append(json.dumps({"p": x["n"], "b": l["b"] - 1, "text": t}))
                exp.append((x, l, rid, t))
        p = subprocess.run(["timeout", "300", exe(i), "route"], input="\n".join(inp) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=dict(os.environ, RESULTS=f))
        if p.returncode:
            raise ToolError("route: " + p.stderr[-2000:])
        return list(zip(exp, map(json.loads, p.stdout.splitlines())))
    for (x, l, rid, t), r in [z for s in parallel([lambda i=i: one(i) for i in range(len(shards))], 8) for z in s]:
        p, e = x["p"], l["x"]
        done += 1
        f = p["fns"][e["f"] - 1] if e["f"] else None
        where = f"{len(p['nss'])}ns/{f['kind'] if f else 'error'}"

        def bad(what):
            rep.violation(f"{where}:{what}:{t}".replace(" ", ""), f"{what}: request {t[:200]} of backend {l['b']}",
                          {"rust": rust(x), "request": t, "expected": e, "observed": r})
        if "parse" in r:
            if f:
                bad("a well formed request is not understood")
            continue
        if r.get("panic"):
            bad("the request panics")
            continue
        if r["res"] is None:
            bad("no end of the response")
            continue
        calls = r["log"]
        if not f:
            if calls:
                bad("a request that names no handler, or has other arguments, is executed")
            elif len(r["res"]) != 1 or "error" not in r["res"][0] or r["res"][0]["error"].get("id") != rid:
                bad("a request that can not be executed has no error reply")
            continue
        if len(calls) != 1:
            bad(f"{len(calls)} handlers are executed instead of one")
            continue
        c = calls[0]
        if c["f"] != e["f"] - 1 or c["p"] != x["n"]:
            bad("another handler is executed")
        elif c["c"] != e["n"]:
            bad(f"the handler runs on another state ({c['c']} instead of {e['n']})")
        elif not same(c["args"], [val(a) for a in e["args"]], ULP):
            bad("the handler gets other arguments")
        else:
            kind = f["kind"]
            want = [{kind: {"id": rid, "data": val(v)}} for v in e["items"]]
            if not same(r["res"], want, ULP):
                bad("the returned values are not sent")
            elif not (same(r["res"], want) and same(c["args"], [val(a) for a in e["args"]])):
                rep.violation("float-ulp", "", {})
    rep.cov["programs"] = len(xs)
    rep.cov["traces_validated_against_impl"] = len(xs) - len(bads)
    rep.cov["requests"] = done
    rep.cov["samples"] = [x["log"][0] for x in xs[:3]]
    rep.assumptions = ["serde_json decides what an argument deserializes to; it is checked against the specification on the way"]
    return rep.finish()


# ---------------------------------------------------------------- G01, G02
def analyse(xs, ws, shards, bads):
    """the generated code of every program and backend: {(n, b): (dump, analysis)}"""
    ds = dump(ws, shards, bads)
    by = {x["n"]: x for x in xs}
    inp = []
    for d in ds:
        x = by[d["n"]]
        p = x["p"]
        inback = set(p["backs"][d["b"]])
        wit = [{"ns": pre(x["n"], p["nss"][t["ns"] - 1]["name"]), "name": t["name"], "values": x["witness"][i]}
               for i, t in enumerate(p["types"]) if t["ns"] in inback]
        inp.append({"n": d["n"], "b": d["b"], "ts": d["ts"], "prefix": pre(x["n"], ""), "wit": wit})
    res = node("static", inp, "static", k=6)
    an = {(r["n"], r["b"]): r for r in res}
    return {(d["n"], d["b"]): (d, an[(d["n"], d["b"])]) for d in ds}


def docs_of(comments):
    """the text of block comments, as lines"""
    out = []
    for c in comments:
        c = c[2:-2].replace("*\\/", "*/")
        for l in c.split("\n"):
            l = re.sub(r"^\s*\*+ ?", "", l).strip()
            if l:
                out.append(l)
    return out


def api_of(prop, tier):
    rep = Report(prop, tier)
    num = 18 if tier == "quick" else 110
    xs = programs(rep, "none", num, 0)
    ws, shards, bads = build(xs, prop)
    an = analyse(xs, ws, shards, bads)
    failures(rep, xs, bads)
    for x in xs:
        for b in range(len(x["p"]["backs"])):
            if (x["n"], b) not in an:
                continue
            d, r = an[(x["n"], b)]
            (interface if prop == "G01" else wellformed)(rep, x, b, d, r)
    rep.cov["programs"] = len(xs)
    rep.cov["backends"] = len(an)
    rep.cov["references"] = sum(r["refs"] for _, r in an.values())
    if prop == "G02":
        import graph
        graph.check(rep, tier)
    rep.cov["traces_validated_against_impl"] = rep.cov.get("traces_validated_against_impl", 0) + len(xs) - len(bads)
    rep.cov["samples"] = [x["api"][0] for x in xs[:3]]
    rep.assumptions = ["TypeScript 5.9 parses and resolves the generated code; zod 3 evaluates it"]
    return rep.finish()


def interface(rep, x, b, d, r):
    n, p = x["n"], x["p"]

    def bad(what, detail=""):
        rep.violation(f"{what}:{detail}".replace(" ", "") + f"/{n}.{b}", f"backend {b} of program {n}: {what} {detail}",
                      {"rust": rust(x), "ts": d["ts"][STATIC:], "query": d["q"], "nss": d["nss"], "expected": x["api"][b]})
    want = {}
    for q in x["api"][b]:
        if q["inb"] and (q["types"] or q["fns"]):
            want[pre(n, q["ns"])] = q
    if r["syn"]:
        return      # G02
    got = {}
    for e in r["nss"]:
        if e["ns"] in got:
            bad("declares a namespace twice", e["ns"])
        got[e["ns"]] = e
        if e["ns"] not in want and (e["schemas"] or e["types"] or e["fns"] or e["other"]):
            bad("declares a namespace which is not part of the backend", e["ns"])
        if not e["exported"]:
            bad("does not export a namespace", e["ns"])
    if r["stray"]:
        bad("declares something outside the namespaces", r["stray"][0])
    for ns, q in want.items():
        e = got.get(ns, {"schemas": [], "types": [], "fns": [], "other": []})
        names = sorted(t["name"] for t in q["types"])
        for k in ("schemas", "types"):
            if sorted(t["name"] for t in e[k]) != names:
                bad(f"other {k}", f"{ns}: {sorted(t['name'] for t in e[k])} instead of {names}")
        fns = sorted(f["name"] for f in q["fns"])
        if sorted(f["name"] for f in e["fns"]) != fns:
            bad("other functions", f"{ns}: {sorted(f['name'] for f in e['fns'])} instead of {fns}")
        else:
            for f in q["fns"]:
                g = next(g for g in e["fns"] if g["name"] == f["name"])
                if g["ret"] != {"method": "Promise", "stream": "Store"}[f["kind"]]:
                    bad("a function returns something else", f"{ns}.{f['name']}: {g['ret']} for a {f['kind']}")
                if len(g["params"]) != f["args"] or g["optional"]:
                    bad("a function has other parameters", f"{ns}.{f['name']}: {g['params']} for {f['args']} arguments")
        if e["other"]:
            bad("declares something else", f"{ns}: {e['other'][0]}")
        for t in q["types"]:
            lines = [l.strip() for l in t["docs"] if l.strip()]
            for k in ("schemas", "types"):
                for g in e[k]:
                    if g["name"] == t["name"] and docs_of(g["docs"]) != lines:
                        bad(f"the documentation of the {k} is another", f"{ns}.{t['name']}: {docs_of(g['docs'])} instead of {lines}")
    # the registry
    for i, q in enumerate(x["api"][b]):
        ns = pre(n, q["ns"])
        names = sorted([ns, t["name"]] for t in q["types"])
        fns = sorted([ns, f["name"]] for f in q["fns"])
        o = d["nss"][i]
        if o["ns"] != ns:
            bad("NAME is another", f"{o['ns']} instead of {ns}")
        for k, w in (("members", names), ("collect", names), ("rpc", fns)):
            if sorted(o[k]) != w:
                bad(f"the registry query {k} is another", f"{ns}: {sorted(o[k])} instead of {w}")
    for k, m in (("zod", "types"), ("rpc", "fns")):
        w = {pre(n, q["ns"]): sorted(t["name"] for t in q[m]) for q in x["api"][b] if q["inb"] and q[m]}
        g = {ns: sorted(v) for ns, v in d["q"][k].items() if v}
        if w != g:
            bad(f"the backend's registry query {k} is another", f"{g} instead of {w}")
    w = sorted(pre(n, q["ns"]) for q in x["api"][b] if q["inb"])
    if sorted(d["q"]["names"]) != w:
        bad("the names of the backend's namespaces are others", f"{d['q']['names']} instead of {w}")


def wellformed(rep, x, b, d, r, source=rust):
    n = x["n"]

    def bad(what, detail=""):
        key = f"{what}:{detail}".replace(pre(n, ""), "").replace(" ", "")
        rep.violation(key, f"program {n}, backend {b}: {what}: {detail}", {"rust": source(x), "ts": d["ts"][STATIC:], "analysis": r})
    for e in r["syn"][:2]:
        bad("the generated code is not well formed", e)
    if r["syn"]:
        return
    for e in r["dangling"][:3]:
        bad("a reference to nothing", f"{e['from']}: {e['ns']}.{e['name']} ({e['kind']}{', hidden' if e['hidden'] else ''})")
    for c, e in r["sem"][:3]:
        if c not in IGNORED:
            bad("the generated code does not resolve", f"TS{c} {e}")
    for e in r["run"][:3]:
        bad("the generated schemas do not work", e)


IGNORED = {7022, 7024}
SESSIONS = {"W05": "calls", "G03": "e2e"}


# ---------------------------------------------------------------- W05
def called(prop, tier):
    rep = Report(prop, tier)
    num, steps = (14, 90) if tier == "quick" else (70, 250)
    xs = programs(rep, "calls", num, steps)
    ws, shards, bads = build(xs, prop)
    ds = {d["n"]: d for d in dump(ws, shards, bads) if d["b"] == 0}
    failures(rep, xs, bads)
    inp = []
    for x in xs:
        if x["n"] in ds:
            p = x["p"]
            cs = []
            for l in x["log"]:
                f = p["fns"][l["f"] - 1]
                cs.append({"ns": pre(x["n"], p["nss"][f["ns"] - 1]["name"]), "m": f["name"], "args": l["args"]})
            inp.append({"n": x["n"], "ts": ds[x["n"]]["ts"], "calls": cs})
    by = {x["n"]: x for x in xs}
    counts = {"send": 0, "reject": 0, "any": 0}
    for r in node("calls", inp, "calls", k=6):
        x = by[r["n"]]
        p = x["p"]
        if "err" in r:
            rep.violation("load:" + r["err"][:100], f"the client of program {r['n']} can not be loaded: {r['err']}", {"rust": rust(x), "ts": ds[r["n"]]["ts"][STATIC:]})
            continue
        for l, o in zip(x["log"], r["res"]):
            f = p["fns"][l["f"] - 1]
            ns = pre(r["n"], p["nss"][f["ns"] - 1]["name"])
            sig = f"{f['kind']}({','.join(rustgen.ty(a['ty']) for a in f['args'])})".replace(" ", "")
            args = ",".join(map(rustgen.js, l["args"]))
            counts[l["exp"]] += 1

            def bad(what):
                rep.violation(f"{sig}:{args}:{what}".replace(" ", ""), f"{sig} called with ({args}): {what}",
                              {"rust": rust(x), "function": f, "call": l, "observed": o, "ts": ds[r["n"]]["ts"][STATIC:]})
            if o.get("missing"):
                bad("there is no such function")
                continue
            fr = o["frames"]
            if l["exp"] == "reject":
                if fr:
                    bad("sends a request, the arguments do not fit")
                elif not o["refused"]:
                    bad("does not complain, the arguments do not fit")
            elif l["exp"] == "send" and o["refused"]:
                bad("refuses arguments which fit: " + o["what"][:100])
            elif o["refused"] and fr:
                bad("sends a request and fails")
            elif not o["refused"]:
                if len(fr) != 1:
                    bad(f"sends {len(fr)} requests")
                elif set(fr[0]) != {"exec"} or fr[0]["exec"].get("namespace") != ns or fr[0]["exec"].get("method") != f["name"]:
                    bad("sends another request")
                elif not same(fr[0]["exec"].get("args"), [val(a) for a in l["frame"]]):
                    bad("sends other arguments")
                elif o["kind"] != {"method": "promise", "stream": "store"}[f["kind"]]:
                    bad("returns a " + o["kind"])
    rep.cov["programs"] = len(xs)
    rep.cov["calls"] = counts
    rep.cov["traces_validated_against_impl"] = len(inp)
    rep.cov["samples"] = [x["log"][0] for x in xs[:3]]
    rep.assumptions = ["zod 3 as installed evaluates the schemas"]
    return rep.finish()


# ---------------------------------------------------------------- G03
def mentions(t, kinds):
    if isinstance(t, dict):
        return t.get("k") in kinds or any(mentions(v, kinds) for v in t.values())
    return isinstance(t, list) and any(mentions(v, kinds) for v in t)


def unset(v):
    """sets and maps as the JSON they come from"""
    if isinstance(v, dict):
        if set(v) == {"@set"}:
            return [unset(x) for x in v["@set"]]
        if set(v) == {"@map"}:
            return {k: unset(x) for k, x in v["@map"]}
        return {k: unset(x) for k, x in v.items()}
    return [unset(x) for x in v] if isinstance(v, list) else v


def end2end(prop, tier):
    rep = Report(prop, tier)
    num, steps = (12, 90) if tier == "quick" else (60, 250)
    xs = programs(rep, "e2e", num, steps)
    ws, shards, bads = build(xs, prop)
    ds = {d["n"]: d for d in dump(ws, shards, bads) if d["b"] == 0}
    failures(rep, xs, bads)

    def one(i):
        f = os.path.join(ws, f"results{i}.json")
        results(shards[i], f)
        srv = subprocess.Popen(["timeout", "600", exe(i), "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               env=dict(os.environ, RESULTS=f))
        try:
            port = json.loads(srv.stdout.readline())["port"]
            inp = []
            for x in shards[i]:
                if x["n"] not in ds:
                    continue
                p = x["p"]
                log = []
                for l in x["log"]:
                    if "barrier" in l:
                        log.append(l)
                        continue
                    fn = p["fns"][l["f"] - 1]
                    log.append({"c": l["c"], "ns": pre(x["n"], p["nss"][fn["ns"] - 1]["name"]), "m": fn["name"], "kind": fn["kind"], "args": l["args"],
                                "count": len(l["items"])})
                inp.append({"n": x["n"], "ts": ds[x["n"]]["ts"], "log": log})
            res = node("e2e", inp, f"e2e{i}", [str(port)], k=1)
            out, _ = srv.communicate("", timeout=60)
            return res, [json.loads(l) for l in out.splitlines()]
        finally:
            srv.kill()
    by = {x["n"]: x for x in xs}
    done = socks = 0
    for res, log in parallel([lambda i=i: one(i) for i in range(len(shards))], 8):
        for r in res:
            x = by[r["n"]]
            p = x["p"]
            socks += r["sockets"]
            here = [c for c in log if c["p"] == r["n"]]
            issues = [l for l in x["log"] if "barrier" not in l]
            for l, o in zip(issues, r["res"]):
                done += 1
                f = p["fns"][l["f"] - 1]
                sig = f"{f['kind']}({','.join(rustgen.ty(a['ty']) for a in f['args'])})->{rustgen.ty(f['out'])}".replace(" ", "")
                args = ",".join(map(rustgen.js, l["args"]))

                def bad(what, key=None):
                    rep.violation(key or f"{sig}:{args}:{what}".replace(" ", ""), f"{sig} called with ({args}): {what}",
                                  {"rust": rust(x), "function": f, "call": l, "observed": o, "calls": here})
                norm = [val(a) for a in l["norm"]]
                at = next((k for k, c in enumerate(here) if c["f"] == l["f"] - 1 and same(c["args"], norm, ULP)), None)
                if at is None and "-9223372036854775808" in args and o["settled"] in ("err", None) and not o["items"]:
                    bad("", "i64-min")
                    continue
                if at is None:
                    bad("the method is not executed with these arguments")
                    continue
                c = here.pop(at)
                want = [val(v) for v in l["items"]]
                if f["kind"] == "method" and o["settled"] != "ok":
                    bad(f"the promise is {o['settled'] or 'not settled'} {json.dumps(o.get('error'))}")
                elif f["kind"] == "stream" and o["settled"]:
                    bad(f"the call fails: {o.get('error')}")
                elif not same(unset(o["items"]), want, ULP):
                    bad(f"delivers {json.dumps(o['items'])[:200]} instead of {text(want)[:200]}")
                elif not (same(unset(o["items"]), want) and same(c["args"], norm)):
                    bad("", "float-ulp")
                elif mentions(f["out"], {"set", "map"}) and want and unset(o["items"]) == o["items"]:
                    bad("", "set-result")
            for c in here:
                rep.violation(f"extra:{c}", f"a method is executed that was not called, or once more: {c}", {"rust": rust(x), "log": x["log"]})
    rep.cov["programs"] = len(xs)
    rep.cov["calls"] = done
    rep.cov["sockets"] = socks
    rep.cov["traces_validated_against_impl"] = len(xs) - len(bads)
    rep.cov["samples"] = [x["log"][0] for x in xs[:3]]
    rep.assumptions = ["node's WebSocket stands for the browser's; the loopback network delivers"]
    return rep.finish()


def check(prop, tier):
    return {"R10": route, "W05": called, "G01": api_of, "G02": api_of, "G03": end2end}[prop](prop, tier)

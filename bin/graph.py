"""G02: programs of mutually referring types from Graph.tla: generation ends, and what it generates is analysed."""
import json, os
from vlib import *
import api, rustgen

D = os.path.join(SPEC, "api")
IMPLS = ("impl Clone for {t} {{ fn clone(&self) -> Self {{ todo!() }} }} impl PartialEq for {t} {{ fn eq(&self, _: &Self) -> bool {{ true }} }} impl Eq for {t} {{}} "
         "impl PartialOrd for {t} {{ fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> {{ None }} }} "
         "impl Ord for {t} {{ fn cmp(&self, _: &Self) -> std::cmp::Ordering {{ todo!() }} }} "
         "impl std::hash::Hash for {t} {{ fn hash<H: std::hash::Hasher>(&self, _: &mut H) {{}} }} "
         "impl std::fmt::Debug for {t} {{ fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ Ok(()) }} }} "
         "impl Default for {t} {{ fn default() -> Self {{ todo!() }} }}")


def nsname(x, i):
    w = x["p"]["nss"][i]
    return api.pre(x["n"], rustgen.SPECIAL.get(w, w))


def tsname(x, i):
    w = x["names"][i]
    if w.startswith("@") and w not in rustgen.SPECIAL:
        w = w[1:]
        return api.pre(x["n"], rustgen.SPECIAL.get(w, w))
    return rustgen.SPECIAL.get(w, w)


def rust(x):
    p, n = x["p"], x["n"]
    s = f"pub mod p{n} {{ use super::*; use std::{{rc::Rc, cell::RefCell, sync::{{Mutex, Weak}}, marker::PhantomData}};\n"
    for i in range(len(p["nss"])):
        s += f"#[derive(Namespace, Default)] pub struct {nsname(x, i)} {{ pub n: usize }}\n"
    for i, t in enumerate(p["types"]):
        ts = tsname(x, i)
        ren = f'#[serde(rename = {rustgen.lit(ts)})] ' if ts != f"T{i + 1}" else ""
        d = rustgen.decl(f"T{i + 1}", t["d"], zod=f'#[zod(namespace = "{nsname(x, t["ns"] - 1)}")] {ren}', derives="Zod, serde::Deserialize, serde::Serialize")
        if t["d"]["conv"]:
            d = d.split(" impl From<")[0]
            via = rustgen.ty(t["d"]["via"])
            d += f" impl From<{via}> for T{i + 1} {{ fn from(_: {via}) -> Self {{ todo!() }} }}"
        s += d + " " + IMPLS.format(t=f"T{i + 1}") + "\n"
    for i in range(len(p["nss"])):
        s += f"#[rpc::namespace] impl {nsname(x, i)} {{\n"
        for f in p["fns"]:
            if f["ns"] == i + 1:
                out = rustgen.ty(f["out"])
                if f["kind"] == "method":
                    s += f"  pub async fn {f['name']}(&mut self, x: {rustgen.ty(f['arg'])}) -> {out} {{ todo!() }}\n"
                else:
                    s += f"  pub fn {f['name']}(&mut self, x: {rustgen.ty(f['arg'])}) -> BoxStream<'static, {out}> {{ todo!() }}\n"
        s += "}\n"
    for b, q in enumerate(backs(p)):
        s += f"#[derive(rpc::Backend, Default)] pub struct B{b}({', '.join(nsname(x, i - 1) for i in q)});\n"
    nss = ", ".join(f"ns::<{nsname(x, i)}>" for i in range(len(p["nss"])))
    s += f"pub fn prog() -> Prog {{ Prog {{ n: {n}, nss: vec![{nss}], backs: vec![back::<B0>(), back::<B1>()] }} }}\n}}\n"
    return s


def backs(p):
    return [list(range(1, len(p["nss"]) + 1)), sorted(p["back"])]


def programs(rep, tier, base):
    quick = tier == "quick"
    r = tlc(os.path.join(D, "Graph.tla"), cfg_text(constants=dict(Family="pair", MaxTypes=2), invariants=["Model", "Emit"]), workers=4, heap="6g")
    rep.model(r)
    lines = sample(list(dict.fromkeys(r.lines())), 160 if quick else 1500, SEED)
    r.out = ""
    def walk(i):
        r = tlc(os.path.join(D, "Graph.tla"), cfg_text(constants=dict(Family="any", MaxTypes=7), invariants=["Model", "Emit"]), workers=1,
                args=["-simulate", f"num={25 if quick else 200}", "-depth", "60", "-seed", str(SEED * 1000 + i * 91 + 7)])
        ls = list(dict.fromkeys(r.lines()))
        r.out = ""
        return r, ls
    for r, ls in parallel([lambda i=i: walk(i) for i in range(6)], 6):
        rep.model(r)
        lines += ls
    xs = [json.loads(l) for l in dict.fromkeys(lines)]
    for k, x in enumerate(xs):
        x["n"] = base + k
    return xs


def check(rep, tier):
    xs = programs(rep, tier, 100000)
    ws, shards, bads = api.build(xs, "graph", render=rust)
    ds = api.dump(ws, shards, bads)
    by = {x["n"]: x for x in xs}
    for n, e in bads.items():
        x = by[n]
        rep.violation("build:" + e[:80].replace(" ", "_"), f"a program does not compile or generate: {e}", {"rust": rust(x), "error": e, "spec": x})
    inp = [{"n": d["n"], "b": d["b"], "ts": d["ts"], "prefix": api.pre(d["n"], ""), "recursive": True} for d in ds]
    res = {(r["n"], r["b"]): r for r in api.node("static", inp, "graph", k=6)}
    refs = 0
    for d in ds:
        x, r = by[d["n"]], res[(d["n"], d["b"])]
        inb = set(backs(x["p"])[d["b"]])
        refs += r["refs"]
        ns = {i + 1: nsname(x, i) for i in range(len(x["p"]["nss"]))}
        absent = {ns[i] for i in ns if i not in inb}
        hidden = {(ns[a], ns[b]) for a, b in x["hidden"]}
        # the listed findings: what they affect is not judged any further
        if any(a in inb for a, _ in x["clash"]):
            if r["syn"] or r["sem"] or r["run"]:
                rep.violation("fn-type-clash", "", {})
            continue
        dang = []
        for e in r["dangling"]:
            if (e["from"], e["ns"]) in hidden and e["hidden"]:
                rep.violation("ns-hidden", "", {})
            elif e["ns"] in absent:
                pass
            else:
                dang.append(e)
        sem, run = [], r["run"]
        for c, e in r["sem"]:
            if c in (2315, 2456) and any(f"'{w}'" in e for _, w in x["globals"]):
                rep.violation("global-hidden", "", {})
            elif any(f"'{a}'" in e for a in absent) or (absent and hidden):
                pass
            else:
                sem.append((c, e))
        if absent or hidden:
            run = [e for e in run if "refers to" not in e]
        api.wellformed(rep, x, d["b"], d, dict(r, dangling=dang, sem=sem, run=run), source=rust)
        # the references are those that the specification says, and no others
        want = {(ns[a], ns[b], tsname(x, t - 1)) for a, b, t in x["links"] if a in inb}
        got = {tuple(l) for l in r["links"]}
        for l in sorted(want - got)[:2]:
            rep.violation(f"no-reference:{l[1:]}", f"program {d['n']}: the code of {l[0]} does not refer to {l[1]}.{l[2]}", {"rust": rust(x), "ts": d["ts"][api.STATIC:], "spec": x})
        for l in sorted(got - want)[:2]:
            rep.violation(f"reference:{l[1:]}", f"program {d['n']}: the code of {l[0]} refers to {l[1]}.{l[2]}", {"rust": rust(x), "ts": d["ts"][api.STATIC:], "spec": x})
    rep.cov["graphs"] = len(xs)
    rep.cov["graph_references"] = refs
    rep.cov["traces_validated_against_impl"] = rep.cov.get("traces_validated_against_impl", 0) + len(xs) - len(bads)

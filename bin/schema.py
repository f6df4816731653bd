"""S01-S05: declarations generated by TLC from SchemaGen.tla, compiled against /repo; the generated schemas are
evaluated with zod, the types with the TypeScript compiler, and serde on the same values."""
import json, os, random, re, shutil, subprocess
from vlib import *
import rustgen

D = os.path.join(SPEC, "schema")
H = os.path.join(VERIF, "harness", "schema")


def gen(fam, mf=1, mv=1, level=1, sim=None, workers=3):
    c = dict(Fam=fam, MaxFields=mf, MaxVariants=mv, Level=level)
    args = []
    if sim:
        args = ["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(sim[2])]
    r = tlc(os.path.join(D, "SchemaGen.tla"), cfg_text(constants=c, invariants=["Emit"]),
            workers=1 if sim else workers, args=args, timeout=840, heap="5g")
    ls = list(dict.fromkeys(r.lines()))
    r.out = ""
    return r, ls


def probe(rep, cases, depth=2):
    """has TLC evaluate the specification on the declarations"""
    d = scratch("probe")
    try:
        f = os.path.join(d, "cases.ndjson")
        open(f, "w").write("\n".join(json.dumps({"n": c["n"], "d": c["d"]}) for c in cases))
        r = tlc(os.path.join(D, "SchemaProbe.tla"), cfg_text(constants=dict(Depth=depth, Chunks=64), invariants=["Evaluated"]),
                workers=8, env={"CASES": f}, timeout=600, heap="9g")
        rep.model(r)
        got = {}
        for l in r.lines():
            x = json.loads(l)
            got[x["n"]] = x["p"]
        r.out = ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for c in cases:
        if c["n"] not in got:
            raise ToolError("a declaration was not evaluated: " + rustgen.short(c["d"]))
        c["p"] = got[c["n"]]


def serde(d):
    """serde deserializes tuples up to 16 elements"""
    return not (d.get("k") == "tup" and len(d["s"]) > 16)


def build(cases, name, k=8):
    """compiles the declarations (each a dict with d, p, n); returns the workspace and cases that do not compile"""
    ws = os.path.join(BUILD, "schema-" + name)
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(ws)
    shards = [cases[i::k] for i in range(k) if cases[i::k]]
    members = []
    lines = []
    for i, sh in enumerate(shards):
        c = f"sh{i}"
        members.append(c)
        os.makedirs(os.path.join(ws, c, "src"))
        open(os.path.join(ws, c, "Cargo.toml"), "w").write(
            open(os.path.join(H, "Cargo.toml")).read().replace("vschema", "v" + c).replace("[workspace]\n", "").split("[profile")[0])
        src = open(os.path.join(H, "src", "prelude.rs")).read()
        at = {}
        for x in sh:
            n = x["n"]
            if "k" in x["d"]:
                t = rustgen.ty(x["d"])
                code = f"type D{n} = {t};"
            else:
                code = rustgen.decl(f"D{n}", x["d"])
            at[src.count("\n") + 1] = n
            src += code + "\n"
        src += "fn main() { drive(&[\n"
        for x in sh:
            at[src.count("\n") + 1] = x["n"]
            src += f"Entry {{ i: {x['n']}, of: of::<D{x['n']}>, de: {'de::<D%d>' % x['n'] if serde(x['d']) else '|_| false'} }},\n"
        src += "]) }\n"
        open(os.path.join(ws, c, "src", "main.rs"), "w").write(src)
        lines.append(at)
    open(os.path.join(ws, "Cargo.toml"), "w").write(
        f"[workspace]\nresolver = \"2\"\nmembers = {json.dumps(members)}\n[profile.dev]\ndebug = false\nincremental = false\ncodegen-units = 4\n")
    shutil.copy(os.path.join(H, "Cargo.lock"), ws)
    p, target = cargo_build(ws, os.path.join(BUILD, "schema"), extra=["--keep-going", "--message-format", "short"])
    bad = {}
    if p.returncode:
        for m in re.finditer(r"^(?:\S*/)?sh(\d+)/src/main\.rs:(\d+):\d+: error(.*)$", p.stdout, re.M):
            n = lines[int(m.group(1))].get(int(m.group(2)))
            if n is not None:
                bad.setdefault(n, m.group(3).strip(": ")[:300])
        if not bad:
            raise ToolError("generated crate does not build\n" + p.stdout[-4000:])
    return ws, target, shards, bad


def run(cases, name, types=False):
    """returns {n: result} with z, zi, (t, ti,) s per probe"""
    res, todo, bads = {}, cases, {}
    for attempt in range(3):
        ws, target, shards, bad = build(todo, name)
        bads.update(bad)
        if not bad:
            break
        todo = [c for c in todo if c["n"] not in bad]
    else:
        raise ToolError("generated crates do not build: " + json.dumps(bads)[:2000])

    def one(i):
        exe = os.path.join(target, "debug", f"vsh{i}")
        dump, pf, of = (os.path.join(ws, f"{x}{i}.ndjson") for x in ("dump", "probes", "out"))
        p = subprocess.run(["timeout", "300", exe, "dump"], stdout=open(dump, "w"), stderr=subprocess.PIPE, text=True)
        if p.returncode:
            return {"crash": p.stderr[-1500:], "ns": [c["n"] for c in shards[i]]}
        with open(pf, "w") as f:
            for c in shards[i]:
                f.write(json.dumps({"i": c["n"], "p": [b["v"] for b in c["p"]]}) + "\n")
        p = subprocess.run(["timeout", "600", "node", "--stack-size=4000", "--max-old-space-size=3500", os.path.join(H, "judge.cjs"), dump, pf, of] +
                           (["types"] if types else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError("judge.cjs: " + p.stdout[-3000:])
        rs = [json.loads(l) for l in open(of) if l.strip()]
        inp = "".join(f"{r['i']}\t{j}\n" for r in rs for j in r["j"])
        p = subprocess.run(["timeout", "300", exe, "de"], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="surrogatepass")
        if p.returncode:
            raise ToolError("de: " + p.stderr[-2000:])
        bits = p.stdout.split()
        k = 0
        dd = {}
        for l in open(dump):
            x = json.loads(l)
            if "i" in x:
                dd[x["i"]] = x
        for r in rs:
            r["s"] = [int(b) for b in bits[k:k + len(r["j"])]]
            k += len(r["j"])
            r["gen"] = dd[r["i"]]
        return {r["i"]: r for r in rs}
    for i, r in enumerate(parallel([lambda i=i: one(i) for i in range(len(shards))], 8)):
        if "crash" in r:
            for n in r["ns"]:
                bads[n] = "generation failed: " + r["crash"]
        else:
            res.update(r)
    return res, bads


# family -> arguments of gen
FAM = {
    "types": dict(fam="types"),
    "types2": dict(fam="types2", level=2),
    "typesim": dict(fam="typesim", level=4, sim=(12, 6)),
    "struct": dict(fam="struct", mf=2, level=2),
    "struct1": dict(fam="struct", mf=2, level=1),
    "structsim": dict(fam="structsim", mf=4, level=5, sim=(25, 12)),
    "flat": dict(fam="flat", mf=3, level=1),
    "enum1": dict(fam="enum", mf=1, mv=1, level=1),
    "enum": dict(fam="enum", mf=2, mv=1, level=2),
    "enumv": dict(fam="enum", mf=2, mv=2, level=1),
    "enumsim": dict(fam="enumsim", mv=3, level=5, sim=(16, 14)),
}
# property -> (family, how many declarations) for quick and thorough
PLAN = {
    "S01": ([("struct", 1400), ("structsim", 900), ("flat", 350)], [("struct", None), ("structsim", 6000), ("flat", None)]),
    "S02": ([("enum1", None), ("enum", 1000), ("enumsim", 1000)],
            [("enum1", None), ("enum", None), ("enumv", 5000), ("enumsim", 5000)]),
    "S03": ([("types", None), ("types2", 1200), ("typesim", 500)], [("types", None), ("types2", None), ("typesim", 3000)]),
    "S04": ([("types", 350), ("types2", 250), ("typesim", 150), ("struct", 400), ("structsim", 350), ("flat", 250), ("enum1", 200), ("enum", 300), ("enumsim", 350)],
            [("types", None), ("types2", 2500), ("typesim", 1000), ("struct", None), ("structsim", 2500), ("flat", None), ("enum1", None), ("enum", 2500), ("enumsim", 2500)]),
}
BATCH = 2600


def plain(v):
    t = v["t"]
    if t in ("set", "map"):
        return False
    if t == "arr":
        return all(map(plain, v["e"]))
    if t == "obj":
        return all(plain(x) for _, x in v["m"])
    return True


def judge(rep, prop, c, r):
    """compares what the schema, the type and serde said about each value with the specification"""
    d = c["d"]
    name = rustgen.short(d)
    data = {"rust": rustgen.decl("T", d) if "k" not in d else rustgen.ty(d), "generated": r["gen"]}
    if r["err"]:
        rep.violation(name, f"the generated schema of {name} cannot be evaluated: {r['err'][:200]}", data)
        return
    types = "t" in r
    if r["shim"]:
        rep.violation("flatten", f"the schema of {name} extends an object by a schema, which zod does not know", data)
    if r.get("terr") or r.get("merr"):
        rep.violation(name, f"the generated type of {name} does not compile: {(r.get('terr') or r.get('merr'))[:200]}", data)
        if not types:
            return
    known = {}
    for j, b in enumerate(c["p"]):
        v, acc, kf = b["v"], b["acc"], b["kf"]
        isplain = plain(v)
        if serde(d) and isplain and r["s"][j] != acc:
            raise ToolError(f"the specification is wrong about serde: {name} {rustgen.js(v)} acc={acc}")

        def bad(what, key=None):
            rep.violation(key or f"{name}/{rustgen.js(v)}".replace(" ", ""), f"{name}: {what} for {rustgen.js(v)}", dict(data, value=v))
        for zz, tt, which in (("z", "t", "schema"), ("zi", "ti", "inline schema")):
            zv = r[zz][j]
            if zv == 2:
                bad(f"the {which} throws")
            elif prop != "S04":
                if b["rep"] and zv == 0:
                    bad(f"the {which} rejects a value of the representation")
                elif zv == 1 and isplain and not acc:
                    if kf:
                        for k in kf:
                            if k not in known:
                                known[k] = 1
                                bad(f"the {which} accepts what serde rejects", k)
                    else:
                        bad(f"the {which} accepts what serde rejects")
            if types:
                tv = r[tt][j]
                if tv == 2:
                    raise ToolError(f"no verdict of the compiler: {name} {rustgen.js(v)}")
                if b["rep"] and not (zv == 1 and tv == 1):
                    bad(f"the {which} says {zv}, the type {tv} of a value of the representation")
                elif zv == 1 and tv == 0 and not b["extra"]:
                    if b["miss"]:
                        bad("the type requires a member which the schema does not", "opt-member")
                    else:
                        bad(f"the {which} accepts what the type excludes")
                elif tv == 1 and zv == 0 and not b["shape"]:
                    bad(f"the type admits what the {which} rejects")
        rep.cov["evaluations"] = rep.cov.get("evaluations", 0) + (4 if types else 2)


def check(prop, tier):
    if prop == "S05":
        import forms
        return forms.check(prop, tier)
    rep = Report(prop, tier)
    thorough = tier == "thorough"
    plan = PLAN[prop][thorough]

    def g(fam, n, seed):
        a = dict(FAM[fam])
        if "sim" in a:
            num, depth = a["sim"]
            a["sim"] = (num * (8 if thorough else 1), depth, seed)
        r, ls = gen(**a)
        return fam, r, n, ls
    cases, fams = [], {}
    jobs = [lambda f=f, n=n, seed=SEED * 100 + i: g(f, n, seed) for f, n in plan for i in range(4 if "sim" in FAM[f] else 1)]
    found = {}
    for fam, r, n, ls in parallel(jobs, 6):
        rep.model(r)
        found.setdefault(fam, (n, {}))[1].update(dict.fromkeys(ls))
    for fam, (n, ls) in found.items():
        pick = sample(ls, n, SEED)
        fams[fam] = {"declarations": len(ls), "checked": len(pick)}
        cases += [{"d": json.loads(l)} for l in pick]
    del found
    random.Random(SEED).shuffle(cases)
    for n, c in enumerate(cases):
        c["n"] = n
    rep.cov["families"] = fams
    done = 0
    batch = BATCH if prop != "S04" else 1500
    for at in range(0, len(cases), batch):
        if time.time() - rep.t > 560:
            log(f"time is up: {done} of {len(cases)} declarations")
            break
        part = cases[at:at + batch]
        probe(rep, part)
        res, bads = run(part, prop, types=prop == "S04")
        for c in part:
            if c["n"] in bads:
                name = rustgen.short(c["d"])
                rep.violation(name, f"{name}: {bads[c['n']][:300]}", {"rust": rustgen.decl("T", c["d"]) if "k" not in c["d"] else name, "error": bads[c["n"]]})
            else:
                judge(rep, prop, c, res[c["n"]])
            del c["p"]
        done += len(part)
    rep.cov["traces_validated_against_impl"] = done
    rep.cov["declarations"] = done
    rep.cov["samples"] = [rustgen.short(c["d"]) for c in cases[:4]]
    rep.assumptions = ["zod 3 and TypeScript 5.9 as installed decide what a schema and a type accept; serde_json decides what Rust deserializes",
                       "integers are judged on their exact decimal text, not on JavaScript's exponent rendering of those above 1e21"]
    return rep.finish()

"""S05: declarations in the neighbourhood of the supported forms, enumerated with their verdict by TLC from
Forms.tla, are compiled against /repo; the compiler must agree with the verdict."""
import json, os, re, shutil
from vlib import *
import rustgen, schema

D = os.path.join(SPEC, "schema")
PRELUDE = """#![allow(unused, non_camel_case_types, non_snake_case, private_interfaces, dead_code, mixed_script_confusables, uncommon_codepoints)]
pub use std::{borrow::Cow, cell::*, collections::*, marker::PhantomData, net::*, pin::Pin, rc::Rc, sync::*};
pub use zod::{Namespace, Zod, ZodType};
pub use futures::{stream::BoxStream, Stream};
pub struct NoZod;
#[derive(Namespace)] pub struct Ns;
#[derive(Zod, serde::Deserialize, serde::Serialize, Debug)] #[zod(namespace = "Ns")] pub struct Point { x: u8 }
fn dflt<T: Default>() -> T { T::default() }
pub mod nss { use super::*;
#[derive(Namespace)] pub struct N1;
#[zod::rpc::namespace] impl N1 { pub async fn a(&mut self) {} }
#[derive(Namespace)] pub struct N2;
#[zod::rpc::namespace] impl N2 { pub async fn a(&mut self) {} pub fn s(&mut self) -> impl Stream<Item = u8> { futures::stream::empty() } }
#[derive(Namespace)] #[namespace(name = "Third")] pub struct N3;
#[zod::rpc::namespace] impl N3 { }
#[derive(Namespace)] pub struct Bare;
pub mod sub { use super::*;
#[derive(Namespace)] #[namespace(name = "Fourth")] pub struct N1;
#[zod::rpc::namespace] impl N1 { pub async fn a(&mut self) {} pub async fn d(&mut self, x: u8) {} }
#[derive(Namespace)] #[namespace(name = "N1")] pub struct N4;
#[zod::rpc::namespace] impl N4 { }
}
}
fn main() {}
"""
MARK = {"req": "", "default": "#[serde(default)] ", "path": '#[serde(default = "dflt")] ', "skip": "#[serde(skip)] ",
        "skip_de": "#[serde(skip_deserializing)] ", "skip_ser": "#[serde(skip_serializing)] "}
OUT = {"nothing": "", "unit": "-> ()", "u8": "-> u8", "String": "-> String", "impl Stream": "-> impl Stream<Item = u8>",
       "BoxStream": "-> BoxStream<'static, u8>", "Vec<Point>": "-> Vec<Point>", "NoZod": "-> NoZod"}


def rust(f):
    k = f["kind"]
    z = '#[derive(Zod, serde::Serialize)] #[zod(namespace = "Ns")] '
    if k == "tuple":
        c = "#[serde(default)] " if f["cdef"] else ""
        return f"{z}{c}pub struct T({', '.join(MARK[m] + 'u8' for m in f['marks'])});" + (
            " impl Default for T { fn default() -> Self { todo!() } }" if f["cdef"] else "")
    if k == "enum":
        rep = {"ext": "", "int": '#[serde(tag = "t")] ', "adj": '#[serde(tag = "t", content = "c")] ', "unt": "#[serde(untagged)] "}[f["rep"]]
        body = ["A", "B { x: u8 }", "C", "D { y: String, z: bool }"]
        return f"{z}{rep}pub enum T {{ {', '.join((MARK[s] if s else '') + body[i] for i, s in enumerate(f['skips']))} }}"
    if k == "empty":
        ns = {"given": '#[zod(namespace = "Ns")] ', "missing": "", "unknown": '#[zod(namespace = "Nowhere")] '}[f["ns"]]
        a = {"": "", "from": '#[serde(from = "Point")] ', "try_from": '#[serde(try_from = "Point")] ', "from_unit": '#[serde(from = "()")] ',
             "transparent": "#[serde(transparent)] "}[f["attr"]]
        item = {"unit": "pub struct T;", "tuple0": "pub struct T();", "named0": "pub struct T {}", "newtype": "pub struct T(u8);",
                "named1": "pub struct T { x: u8 }", "enum1": "pub enum T { A }"}[f["style"]]
        conv = {"from": " impl From<Point> for T { fn from(_: Point) -> Self { todo!() } }",
                "from_unit": " impl From<()> for T { fn from(_: ()) -> Self { todo!() } }",
                "try_from": " impl TryFrom<Point> for T { type Error = String; fn try_from(_: Point) -> Result<Self, String> { todo!() } }"}.get(f["attr"], "")
        return f"#[derive(Zod, serde::Serialize)] {ns}{a}{item}{conv}"
    if k == "names":
        s = "#[derive(Namespace)] pub struct N1; #[derive(Namespace)] pub struct N2; "
        for t in f["types"]:
            ren = f'#[serde(rename = {rustgen.lit(t["ren"])})] ' if t["ren"] else ""
            item = {"struct": "pub struct %s { x: u8 }", "enum": "pub enum %s { A, B(u8) }", "newtype": "pub struct %s(u8);"}[t["k"]] % t["rust"]
            s += f'#[derive(Zod, serde::Serialize)] #[zod(namespace = "{t["ns"]}")] {ren}{item} '
        return s
    if k == "rpc":
        recv = "" if f["recv"] == "none" else f["recv"]
        gen = "<'a>" if "'a" in recv else ""
        args = ", ".join(([recv] if recv else []) + [f"a{i}: {t}" for i, t in enumerate(f["args"])])
        body = "futures::stream::empty::<u8>()" if f["out"] == "impl Stream" else "todo!()"
        return (f"#[derive(Namespace)] pub struct N; #[zod::rpc::namespace] impl N {{ pub {'async ' if f['async'] else ''}fn {f['name']}{gen}({args}) "
                f"{OUT[f['out']]} {{ {body} }} }}")
    if k == "arg":
        args = ["a: u8", "b: String"]
        args[f["at"]] = f["name"] + args[f["at"]][1:]
        return (f"#[derive(Namespace)] pub struct N; #[zod::rpc::namespace] impl N {{ pub {'' if f['stream'] else 'async '}fn go(&mut self, {', '.join(args)}) "
                + ("-> impl Stream<Item = u8> { futures::stream::empty::<u8>() } }" if f["stream"] else "{} }"))
    if k == "ns":
        attr = f'#[namespace(name = {rustgen.lit(f["name"])})] ' if f["name"] else ""
        s = f"#[derive(Namespace)] {attr}pub struct {f['rust']}; "
        if f["with"] == "fns":
            return s + f"#[zod::rpc::namespace] impl {f['rust']} {{ pub async fn a(&mut self) {{}} }}"
        return s + f'#[derive(Zod, serde::Serialize)] #[zod(namespace = "{f["rust"]}")] pub struct X {{ x: u8 }}'
    if k == "backend":
        fs = [p if p == "u8" else "nss::" + p for p in f["parts"]]
        body = " { " + ", ".join(f"f{i}: {t}" for i, t in enumerate(fs)) + " }" if f["style"] == "named" else "(" + ", ".join(fs) + ");"
        return f"#[derive(zod::rpc::Backend)] pub struct B{body}"
    raise ValueError(k)


def verdicts(codes, k=6):
    """compiles each of the declarations; {index: error}"""
    ws = os.path.join(BUILD, "forms")
    shutil.rmtree(ws, ignore_errors=True)
    todo = list(range(len(codes)))
    bad = {}
    for rnd in range(14):
        shards = [todo[i::k] for i in range(k) if todo[i::k]]
        at = []
        for i, sh in enumerate(shards):
            c = os.path.join(ws, f"sh{i}", "src")
            os.makedirs(c, exist_ok=True)
            open(os.path.join(ws, f"sh{i}", "Cargo.toml"), "w").write(f"""[package]
name = "forms{i}"
version = "0.0.0"
edition = "2021"
[dependencies]
zod = {{ path = "/repo", features = ["rpc"] }}
serde = {{ version = "1", features = ["derive", "rc"] }}
serde_json = "1"
futures = "*"
""")
            src = PRELUDE
            lines = {}
            for n in sh:
                lines[src.count("\n") + 1] = n
                src += f"pub mod m{n} {{ use super::*; {codes[n]} }}\n"
            at.append(lines)
            open(os.path.join(c, "main.rs"), "w").write(src)
        open(os.path.join(ws, "Cargo.toml"), "w").write(
            f'[workspace]\nresolver = "2"\nmembers = {json.dumps([f"sh{i}" for i in range(len(shards))])}\n')
        shutil.copy(os.path.join(VERIF, "harness", "server", "Cargo.lock"), ws)
        p, target = cargo_build(ws, os.path.join(BUILD, "forms-target"), extra=["--keep-going", "--message-format", "json"])
        if p.returncode == 0:
            return bad
        new = {}
        stray = []
        for l in p.stdout.splitlines():
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                continue
            sp = m["message"]["spans"]
            found = None
            mm = re.search(r"/sh(\d+)/", m["manifest_path"])
            def walk(s):
                while s:
                    if mm and s["file_name"].endswith("main.rs") and s["line_start"] in at[int(mm.group(1))]:
                        return at[int(mm.group(1))][s["line_start"]]
                    s = s["expansion"] and s["expansion"]["span"]
            for s in sorted(sp, key=lambda s: not s["is_primary"]):
                n = walk(s)
                if n is not None:
                    found = n
                    break
            if found is not None:
                new.setdefault(found, m["message"]["message"][:300])
            elif not m["message"]["message"].startswith("aborting due"):
                stray.append(m["message"]["rendered"][:500])
        if not new:
            raise ToolError("declarations do not compile and the errors belong to none of them\n" + "\n".join(stray[:5]) + p.stdout[-3000:] * (not stray))
        bad.update(new)
        todo = [n for n in todo if n not in bad]
    raise ToolError("too many rounds of compilation")


def check(prop, tier):
    rep = Report(prop, tier)
    thorough = tier == "thorough"
    r = tlc(os.path.join(D, "Forms.tla"), cfg_text(constants=dict(MaxLen=4 if thorough else 3, Wide=thorough), invariants=["Emit"]), workers=4)
    rep.model(r)
    forms = [json.loads(l) for l in dict.fromkeys(r.lines())]
    forms = [x for x in forms if x["v"] != "any"]
    # the supported side: the declarations of S01 and S02
    for fam, n in [("struct1", 150 if not thorough else None), ("enum1", 200 if not thorough else None), ("enum", 0 if not thorough else 2500)]:
        if n == 0:
            continue
        rr, ls = schema.gen(**schema.FAM[fam])
        rep.model(rr)
        for l in sample(ls, n, SEED):
            forms.append({"f": {"kind": "decl"}, "v": "yes", "code": rustgen.decl("T", json.loads(l))
                          .replace("Point", "super::Point")})
    decls = """#[derive(Zod, serde::Deserialize, Default, Clone)] #[zod(namespace = "Ns")] pub enum Color { #[default] Red, Two(u8) }
#[derive(Zod, serde::Deserialize, Default, Clone)] #[zod(namespace = "Ns")] pub struct Node { one: bool, two: Option<Box<Node>> }
#[derive(Zod, serde::Deserialize, Default, Clone)] #[zod(namespace = "Ns")] pub struct Even { one: u8 }
"""
    codes = []
    for x in forms:
        c = x.get("code") or rust(x["f"])
        if x["f"]["kind"] == "decl":      # each in a namespace of its own, so that the names do not collide
            c = "#[derive(Namespace)] pub struct Ns; " + c
        codes.append(c)
    global PRELUDE
    PRELUDE = PRELUDE.replace("pub struct Point", "#[derive(Default, Clone)] pub struct Point").replace("fn main", decls + "fn main")
    # types of one namespace must have names of their own: give every module its own namespace
    codes = [c if "struct N1;" in c or "#[derive(Namespace)]" in c or "Zod" not in c else "#[derive(Namespace)] pub struct Ns; " + c for c in codes]
    bad = verdicts(codes)
    count = {}
    for i, x in enumerate(forms):
        count[x["f"]["kind"] + " " + x["v"]] = count.get(x["f"]["kind"] + " " + x["v"], 0) + 1
        key = re.sub(r"\s+", "", codes[i])[:300]
        if x["v"] == "yes" and i in bad:
            rep.violation(key, f"a supported declaration is rejected: {codes[i]}: {bad[i]}", {"rust": codes[i], "error": bad[i], "form": x["f"]})
        elif x["v"] == "no" and i not in bad:
            rep.violation(key, f"a declaration which cannot be represented is accepted: {codes[i]}", {"rust": codes[i], "form": x["f"]})
    rep.cov["traces_validated_against_impl"] = len(forms)
    rep.cov["forms"] = count
    rep.cov["samples"] = codes[:: max(1, len(codes) // 5)][:6]
    rep.assumptions = ["the installed rustc decides what compiles"]
    return rep.finish()

"""Rust source for the type terms and declarations of SchemaTypes.tla."""
SPECIAL = {"@uml": "ü", "@nl": "\n", "@quote": '"', "@astral": "😀", "@q": 'a"b', "@bs": "a\\b"}
KEYWORDS = {"type", "fn", "match", "ref", "move", "async", "loop", "impl", "use", "in"}


def lit(s):
    s = SPECIAL.get(s, s)
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def ident(ws, cap=False):
    s = "".join(w["c"] for w in ws) if cap else "_".join(w["l"] for w in ws)
    return "r#" + s if s in KEYWORDS else s


PRIM = {"unit": "()", "SmolStr": "smol_str::SmolStr", "NotNan32": "ordered_float::NotNan<f32>",
        "NotNan64": "ordered_float::NotNan<f64>", "str": "&'static str"}


def ty(t):
    k = t["k"]
    if k == "prim":
        return PRIM.get(t["n"], t["n"])
    if k == "opt":
        return f"Option<{ty(t['a'])}>"
    if k == "vec":
        return f"Vec<{ty(t['a'])}>"
    if k == "arr":
        return f"[{ty(t['a'])}; {t['len']}]"
    if k == "tup":
        return "(" + "".join(ty(x) + "," for x in t["s"]) + ")"
    if k == "res":
        return f"Result<{ty(t['a'])}, {ty(t['b'])}>"
    if k == "wrap":
        return f"Cow<'static, {ty(t['a'])}>" if t["w"] == "Cow" else f"{t['w']}<{ty(t['a'])}>"
    if k == "set":
        return f"{t['w']}<{ty(t['a'])}>"
    if k == "map":
        return f"{t['w']}<{ty(t['a'])}, {ty(t['b'])}>"
    if k == "ref":
        return t["d"]
    raise ValueError(k)


def ren(name, d=""):
    return f"rename(serialize = \"otherwise\", deserialize = {lit(name)})" if d == "de" else f"rename = {lit(name)}"


def attrs(xs):
    return f"#[serde({', '.join(xs)})] " if xs else ""


def field(f, named):
    a = []
    if f["ren"]:
        a.append(ren(f["ren"], f.get("dir", "")))
    if f["skip"]:
        a.append({"skip": "skip", "skip_de": "skip_deserializing", "skip_ser": "skip_serializing"}[f["skip"]])
    if f.get("flat"):
        a.append("flatten")
    if f["dflt"]:
        a.append("default" if f["dflt"] == "default" else 'default = "dflt"')
    return attrs(a) + (ident(f["id"]) + ": " if named else "") + ty(f["ty"])


def fields(style, fs):
    if style == "unit":
        return ""
    if style == "tuple":
        return "(" + ", ".join(field(f, False) for f in fs) + ")"
    return " { " + ", ".join(field(f, True) for f in fs) + " }"


def rename_all(d):
    if not d["all"]:
        return []
    if d.get("alldir") == "de":
        return [f'rename_all(serialize = "SCREAMING-KEBAB-CASE", deserialize = "{d["all"]}")']
    return [f'rename_all = "{d["all"]}"']


def decl(name, d, zod='#[zod(namespace = "Ns")]', docs="", derives="Zod, serde::Deserialize"):
    a = rename_all(d)
    via = ty(d["via"]) if d["conv"] else ""
    if d["conv"]:
        a.append(f'{d["conv"]} = "{via}"')
    extra = ""
    if d["kind"] == "struct":
        if d["transparent"]:
            a.append("transparent")
        if d["cdef"]:
            a.append("default")
            derives += ", Default"
        body = fields(d["style"], d["fields"])
        item = f"pub struct {name}{body}" + (";" if d["style"] != "named" else "")
        make = f"{name} {{ {ident(d['fields'][0]['id'])}: Default::default() }}" if d["style"] == "named" else f"{name}(Default::default())"
    else:
        if d["rep"] == "int":
            a.append(f"tag = {lit(d['tag'])}")
        elif d["rep"] == "adj":
            a += [f"tag = {lit(d['tag'])}", f"content = {lit(d['content'])}"]
        elif d["rep"] == "unt":
            a.append("untagged")
        vs = []
        for v in d["variants"]:
            va = []
            if v["ren"]:
                va.append(ren(v["ren"], v.get("dir", "")))
            va += rename_all(v)
            if v["skip"]:
                va.append({"skip": "skip", "skip_de": "skip_deserializing", "skip_ser": "skip_serializing"}[v["skip"]])
            vs.append(attrs(va) + ident(v["id"], True) + fields(v["style"], v["fields"]))
        item = f"pub enum {name} {{ {', '.join(vs)} }}"
        make = f"{name}::{ident(d['variants'][0]['id'], True)}"
    if d["conv"] == "from":
        extra = f" impl From<{via}> for {name} {{ fn from(_: {via}) -> Self {{ {make} }} }}"
    elif d["conv"] == "try_from":
        extra = f" impl TryFrom<{via}> for {name} {{ type Error = String; fn try_from(_: {via}) -> Result<Self, String> {{ Ok({make}) }} }}"
    return f"{docs}#[derive({derives})] {zod} {attrs(a)}#[allow(dead_code, non_camel_case_types)] {item}{extra}"


def short(t):
    """a compact name of a type or declaration, for keys of findings"""
    if "k" in t:
        return ty(t).replace(" ", "")
    return decl("T", t).split("#[zod(namespace = \"Ns\")] ")[1].replace("#[allow(dead_code, non_camel_case_types)] ", "").replace("pub ", "").replace(" ", "")


def js(v):
    """a compact rendering of a value"""
    t = v["t"]
    if t in ("null",):
        return "null"
    if t == "undef":
        return "undefined"
    if t == "bool":
        return str(v["b"]).lower()
    if t == "num":
        return v["n"]
    if t == "str":
        return '"' + v["s"] + '"'
    if t == "arr":
        return "[" + ",".join(map(js, v["e"])) + "]"
    if t == "obj":
        return "{" + ",".join(k + ":" + js(x) for k, x in v["m"]) + "}"
    if t == "set":
        return "Set(" + ",".join(map(js, v["e"])) + ")"
    return "Map(" + ",".join(js(a) + "=>" + js(b) for a, b in v["p"]) + ")"

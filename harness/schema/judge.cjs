// Evaluates generated schemas (real zod) and TypeScript types (real compiler) on the values that TLC generated.
// usage: node judge.cjs dump.ndjson probes.ndjson out.ndjson [types]
// dump: {name,schema,kind,td} registered members, then {i,schema,inline,td,itd} per declaration
// probes: {i, p:[value...]} with values in the encoding of SchemaTypes.tla
// out: {i, err, shim, z:[0/1..] by schema, zi: by inline schema, t:[0/1] by type, ti: by inline type, j:[json text..]}
const fs = require("fs");
const { createRequire } = require("module");
const vreq = createRequire("/opt/veriftools/node/x.js");
const { z } = vreq("zod/v3");
const [, , dumpF, probesF, outF, mode] = process.argv;
const SPECIAL = { "@uml": "ü", "@nl": "\n", "@quote": "\"", "@astral": "😀", "@lone": "\ud83d", "@combining": "e\u0301", "@q": "a\"b", "@bs": "a\\b" };
const str = (s) => SPECIAL[s] ?? s;
const num = (s) => (s === "NaN" ? NaN : Number(s));
function js(v) {
  switch (v.t) {
    case "null": return null;
    case "undef": return undefined;
    case "bool": return v.b;
    case "num": return num(v.n);
    case "str": return str(v.s);
    case "arr": return v.e.map(js);
    case "obj": return Object.fromEntries(v.m.map(([k, x]) => [str(k), js(x)]));
    case "set": return new Set(v.e.map(js));
    case "map": return new Map(v.p.map(([a, b]) => [js(a), js(b)]));
  }
}
function ty(v) {
  switch (v.t) {
    case "null": return "null";
    case "undef": return "undefined";
    case "bool": return String(v.b);
    case "num": { const n = num(v.n); return Number.isFinite(n) ? String(n) : "number"; }
    case "str": return JSON.stringify(str(v.s));
    case "arr": return "[" + v.e.map(ty).join(", ") + "]";
    case "obj": return "{ " + v.m.map(([k, x]) => JSON.stringify(str(k)) + ": " + ty(x)).join("; ") + " }";
    case "set": return "Set<" + (v.e.map(ty).join(" | ") || "never") + ">";
    case "map": return "Map<" + (v.p.map((x) => ty(x[0])).join(" | ") || "never") + ", " + (v.p.map((x) => ty(x[1])).join(" | ") || "never") + ">";
  }
}
// JSON.stringify, except that large integers are written out: the values, not their JavaScript rendering, are judged
function json(v) {
  if (v === undefined) return undefined;
  if (typeof v === "number" && Number.isInteger(v) && Math.abs(v) > 2 ** 53) return BigInt(v).toString();
  if (Array.isArray(v)) return "[" + v.map((x) => json(x) ?? "null").join(",") + "]";
  if (v && typeof v === "object" && !(v instanceof Set) && !(v instanceof Map))
    return "{" + Object.entries(v).filter(([, x]) => x !== undefined).map(([k, x]) => JSON.stringify(k) + ":" + json(x)).join(",") + "}";
  return JSON.stringify(v);
}
const lines = (f) => fs.readFileSync(f, "utf8").split("\n").filter(Boolean).map((l) => JSON.parse(l));
const dump = lines(dumpF);
const decls = new Map(dump.filter((d) => "i" in d).map((d) => [d.i, d]));
const members = dump.filter((d) => "name" in d);
const probes = lines(probesF);

// z.object({..}).extend(schema), which zod 3 takes for the members of a schema object, so that the result can not parse
// anything: it is read as what it is meant to be, and reported
let shim = false;
const meant = (a, b) => Object.assign(z.intersection(a, b), { extend(c) { return meant(this, c); } });
const extend = z.ZodObject.prototype.extend;
z.ZodObject.prototype.extend = function (x) { return x instanceof z.ZodType ? ((shim = true), meant(this, x)) : extend.call(this, x); };
const Ns = {};
const ev = (s) => new Function("z", "Ns", "return (" + s + "\n)")(z, Ns);
const err = new Map();
for (const m of members) try { Ns[m.name] = ev(m.schema); } catch (e) { err.set(m.name, String(e)); }
const bit = (s, v) => { try { return s.safeParse(v).success ? 1 : 0; } catch (e) { return 2; } };

const out = new Map();
for (const { i, p } of probes) {
  const d = decls.get(i), o = { i, err: null };
  out.set(i, o);
  const vs = p.map(js);
  o.j = vs.map((v) => json(v) ?? "null");
  let s, si;
  shim = false;
  try { s = ev(d.schema); } catch (e) { o.err = "schema: " + e; }
  try { si = ev(d.inline); if (typeof si?.safeParse !== "function") throw new Error("not a schema"); } catch (e) { o.err ??= "inline_schema: " + e; }
  o.shim = shim;
  o.z = vs.map((v) => (s ? bit(s, v) : 2));
  o.zi = vs.map((v) => (si ? bit(si, v) : 2));
}

if (mode === "types") {
  const ts = vreq("typescript");
  let src = "namespace Ns {\n";
  const ident = (s) => /^[A-Za-z_$][\w$]*$/.test(s);
  for (const m of members) if (ident(m.name)) src += m.kind === "interface" ? `export interface ${m.name} ${m.td}\n` : `export type ${m.name} = ${m.td};\n`;
  src += "}\n";
  const at = []; // [line of declaration, i]
  let line = src.split("\n").length;
  const add = (text, i) => { at.push([line, i]); src += text; line += text.split("\n").length - 1; };
  for (const { i, p } of probes) {
    const d = decls.get(i);
    const [, kind, td] = /^(\w+) ([\s\S]*)$/.exec(d.td);
    add(kind === "interface" ? `interface T${i} ${td}\n` : `type T${i} = ${td};\n`, i);
    add(`type I${i} = ${d.itd};\n`, i);
    const cs = p.map(ty);
    add(`type R${i} = [${cs.map((c) => `${c} extends T${i} ? "@yes" : "@no"`).join(", ")}];\ntype Q${i} = [${cs.map((c) => `${c} extends I${i} ? "@yes" : "@no"`).join(", ")}];\n`, i);
  }
  const opts = { strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, lib: ["lib.es2020.d.ts"], types: [] };
  const host = ts.createCompilerHost(opts);
  const get = host.getSourceFile.bind(host);
  const sf = ts.createSourceFile("m.ts", src, ts.ScriptTarget.ES2020, true);
  host.getSourceFile = (f, ...a) => (f === "m.ts" ? sf : get(f, ...a));
  const prog = ts.createProgram(["m.ts"], opts, host);
  const chk = prog.getTypeChecker();
  const diags = [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)];
  const lineOf = (pos) => sf.getLineAndCharacterOfPosition(pos).line + 1;
  for (const dg of diags) {
    const l = lineOf(dg.start ?? 0);
    let i = -1;
    for (const [al, ai] of at) { if (al <= l) i = ai; else break; }
    const msg = ts.flattenDiagnosticMessageText(dg.messageText, " ");
    if (i >= 0) out.get(i).terr ??= msg; else for (const o of out.values()) o.merr ??= msg;
  }
  const name = (st) => st.name.text;
  for (const st of sf.statements) {
    if (!ts.isTypeAliasDeclaration(st) || !/^[RQ]\d+$/.test(name(st))) continue;
    const t = chk.getTypeAtLocation(st.name);
    // (the compiler substitutes the checked type where it recurs in a branch, so the branches must be no values that are probed)
    const bits = chk.getTypeArguments(t).map((x) => ({ "@yes": 1, "@no": 0 })[x.value] ?? 2);
    out.get(Number(name(st).slice(1)))[name(st)[0] === "R" ? "t" : "ti"] = bits;
  }
}
fs.writeFileSync(outF, [...out.values()].map((o) => JSON.stringify(o)).join("\n") + "\n");

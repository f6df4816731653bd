// Analyses, calls and runs generated clients.
// usage: node driver.cjs static|calls|e2e in.ndjson out.ndjson [port]
const fs = require("fs");
const { createRequire } = require("module");
const vreq = createRequire("/opt/veriftools/node/x.js");
const zod = vreq("zod/v3");
const esbuild = vreq("esbuild");
const [, , mode, inF, outF, port] = process.argv;
const items = fs.readFileSync(inF, "utf8").split("\n").filter(Boolean).map((l) => JSON.parse(l));
const out = fs.openSync(outF, "w");
const emit = (x) => fs.writeSync(out, JSON.stringify(x) + "\n");

const SPECIAL = { "@uml": "ü", "@nl": "\n", "@quote": "\"", "@astral": "😀", "@lone": "\ud83d", "@combining": "e\u0301", "@q": "a\"b", "@bs": "a\\b" };
const str = (s) => SPECIAL[s] ?? s;
function js(v) {
  switch (v.t) {
    case "null": return null;
    case "undef": return undefined;
    case "bool": return v.b;
    case "num": return v.n === "NaN" ? NaN : Number(v.n);
    case "str": return str(v.s);
    case "arr": return v.e.map(js);
    case "obj": return Object.fromEntries(v.m.map(([k, x]) => [str(k), js(x)]));
    case "set": return new Set(v.e.map(js));
    case "map": return new Map(v.p.map(([a, b]) => [js(a), js(b)]));
  }
}
const quiet = new Proxy({}, { get: () => () => {} });
const code = new Map();
function load(ts, WebSocket) {
  if (!code.has(ts)) code.set(ts, new Function("require", "module", "exports", "WebSocket", "console",
    esbuild.transformSync(ts, { loader: "ts", format: "cjs", target: "es2020" }).code));
  const module = { exports: {} };
  code.get(ts)((n) => { if (n === "zod") return zod; throw new Error("import " + n); }, module, module.exports, WebSocket, quiet);
  return module.exports;
}
const turn = () => new Promise((r) => setImmediate(r));
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
let unhandled = 0;
process.on("unhandledRejection", () => { unhandled++; });

// everything that a schema refers to is a schema
function unresolved(s, seen) {
  if (!s || typeof s !== "object" || seen.has(s)) return null;
  seen.add(s);
  if (s._def?.getter) {
    let g;
    try { g = s._def.getter(); } catch (e) { return String(e); }
    if (typeof g?.safeParse !== "function") return `${s._def.getter}, which is ${g}`;
    return unresolved(g, seen);
  }
  const parts = s instanceof zod.ZodType ? Object.values(s._def).map((d) => (typeof d === "function" && s instanceof zod.ZodObject ? d() : d)) : s instanceof RegExp ? [] : Object.values(s);
  for (const q of parts) { const r = unresolved(q, seen); if (r) return r; }
  return null;
}

// ------------------------------------------------------------------ static: the declarations and references
function static_() {
  const ts = vreq("typescript");
  const files = new Map(items.map((x, k) => [`f${k}.ts`, ts.createSourceFile(`f${k}.ts`, x.ts, ts.ScriptTarget.ES2020, true)]));
  files.set("zod.d.ts", ts.createSourceFile("zod.d.ts", 'declare module "zod";', ts.ScriptTarget.ES2020, true));
  const opts = { strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ES2020, lib: ["lib.es2020.d.ts", "lib.dom.d.ts"], types: [] };
  const host = ts.createCompilerHost(opts);
  const get = host.getSourceFile.bind(host);
  const exists = host.fileExists.bind(host);
  host.getSourceFile = (f, ...a) => files.get(f) ?? get(f, ...a);
  host.fileExists = (f) => files.has(f) || exists(f);
  const prog = ts.createProgram([...files.keys()], opts, host);
  items.forEach((x, k) => {
    const sf = files.get(`f${k}.ts`), o = { n: x.n, b: x.b };
    const text = (n) => ts.flattenDiagnosticMessageText(n.messageText, " ");
    o.syn = prog.getSyntacticDiagnostics(sf).map(text);
    const mods = sf.statements.filter((s) => ts.isModuleDeclaration(s));
    const start = mods.length ? mods[0].getStart() : x.ts.length;
    o.sem = prog.getSemanticDiagnostics(sf).filter((d) => d.start >= start).map((d) => [d.code, text(d)]);
    // what follows the client is nothing but namespaces
    o.stray = sf.statements.filter((s) => s.pos >= start && !ts.isModuleDeclaration(s)).map((s) => s.getText().slice(0, 80));
    const docs = (s) => {
      const r = [...(ts.getTrailingCommentRanges(x.ts, s.pos) ?? []), ...(ts.getLeadingCommentRanges(x.ts, s.pos) ?? [])].filter((c) => c.kind === ts.SyntaxKind.MultiLineCommentTrivia);
      return r.map((c) => x.ts.slice(c.pos, c.end));
    };
    o.nss = mods.map((m) => {
      const body = m.body && ts.isModuleBlock(m.body) ? m.body.statements : [];
      const e = { ns: m.name.text, exported: !!m.modifiers?.some((q) => q.kind === ts.SyntaxKind.ExportKeyword), schemas: [], types: [], fns: [], other: [] };
      for (const s of body) {
        const exported = s.modifiers?.some((q) => q.kind === ts.SyntaxKind.ExportKeyword);
        if (ts.isEmptyStatement(s)) continue;
        if (!exported) e.other.push(s.getText().slice(0, 80));
        else if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) e.schemas.push({ name: d.name.getText(), docs: docs(s) });
        else if (ts.isTypeAliasDeclaration(s) || ts.isInterfaceDeclaration(s)) e.types.push({ name: s.name.text, docs: docs(s) });
        else if (ts.isFunctionDeclaration(s)) e.fns.push({ name: s.name.text, params: s.parameters.map((q) => q.name.getText()), ret: s.type?.getText().split("<")[0] ?? "", optional: s.parameters.some((q) => q.questionToken || q.dotDotDotToken || q.initializer) });
        else e.other.push(s.getText().slice(0, 80));
      }
      return e;
    });
    // references to members of namespaces
    const declared = { value: new Set(), type: new Set() };
    for (const e of o.nss) {
      for (const d of e.schemas) declared.value.add(e.ns + "." + d.name);
      for (const d of e.types) declared.type.add(e.ns + "." + d.name);
    }
    const mine = new RegExp("^" + x.prefix);
    o.refs = 0;
    o.dangling = [];
    o.links = [];
    const checker = prog.getTypeChecker();
    // a reference from a namespace to a member of one resolves if there is that member, and the name of the
    // namespace means the namespace where it is written
    const ref = (from, at, ns, name, kind) => {
      o.refs++;
      if (kind === "value") o.links.push([from, ns, name]);
      const sym = checker.getSymbolAtLocation(at);
      const hidden = sym && !(sym.flags & ts.SymbolFlags.Namespace);
      if (hidden || !declared[kind].has(ns + "." + name)) o.dangling.push({ from, ns, name, kind, hidden: !!hidden });
    };
    const walk = (from) => (n) => {
      if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && mine.test(n.expression.text)) ref(from, n.expression, n.expression.text, n.name.text, "value");
      else if (ts.isQualifiedName(n) && ts.isIdentifier(n.left) && mine.test(n.left.text)) ref(from, n.left, n.left.text, n.right.text, "type");
      ts.forEachChild(n, walk(from));
    };
    for (const m of mods) ts.forEachChild(m, walk(m.name.text));
    // the schemas work
    o.run = [];
    try {
      const api = load(x.ts, class { constructor() {} });
      for (const e of o.nss) for (const d of e.schemas) {
        const s = api[e.ns]?.[d.name];
        if (typeof s?.safeParse !== "function") { o.run.push(`${e.ns}.${d.name} is no schema`); continue; }
        const lost = unresolved(s, new Set());
        if (lost) { o.run.push(`${e.ns}.${d.name} refers to ${lost}`); continue; }
        if (x.recursive) continue;
        for (const v of [undefined, null, 1, "a", [], {}]) try { s.safeParse(v); } catch (err) { o.run.push(`${e.ns}.${d.name} throws: ${err}`); break; }
      }
      for (const w of x.wit ?? []) for (const v of w.values) {
        let r;
        try { r = api[w.ns]?.[w.name].safeParse(js(v)).success; } catch (err) { r = String(err); }
        if (r !== true) { o.run.push(`${w.ns}.${w.name} says ${r} of ${JSON.stringify(v)}`); break; }
      }
    } catch (err) { o.run.push("the client can not be loaded: " + err); }
    emit(o);
  });
}

// ------------------------------------------------------------------ calls: what generated functions send
async function calls() {
  for (const x of items) {
    let frames = [];
    class WebSocket {
      constructor() { this.readyState = 0; queueMicrotask(() => { this.readyState = 1; this.onopen?.({}); }); }
      send(t) { frames.push(t); }
      close() { this.readyState = 3; }
      addEventListener(k, f) { this["on" + k] = f; }
      removeEventListener() {}
    }
    Object.assign(WebSocket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
    let api;
    try { api = load(x.ts, WebSocket); } catch (e) { emit({ n: x.n, err: String(e) }); continue; }
    const res = [];
    for (const c of x.calls) {
      frames = [];
      const o = { refused: false, what: "" };
      const f = api[c.ns]?.[c.m];
      if (typeof f !== "function") { res.push({ missing: true }); continue; }
      try {
        const r = f(...c.args.map(js));
        if (typeof r?.then === "function") { o.kind = "promise"; r.then(() => {}, (e) => { o.refused = true; o.what = String(e?.message ?? e).slice(0, 200); }); }
        else o.kind = typeof r?.subscribe === "function" ? "store" : typeof r;
      } catch (e) { o.refused = true; o.threw = true; o.what = String(e?.message ?? e).slice(0, 200); }
      await turn(); await turn();
      o.frames = frames.map((t) => { try { return JSON.parse(t); } catch { return { text: t }; } });
      res.push(o);
    }
    emit({ n: x.n, res });
  }
}

// ------------------------------------------------------------------ e2e: clients on a running server
async function e2e() {
  const wire = (v) => v instanceof Set ? { "@set": [...v].map(wire) } : v instanceof Map ? { "@map": [...v].map(([a, b]) => [wire(a), wire(b)]) }
    : Array.isArray(v) ? v.map(wire) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, w]) => [k, wire(w)])) : v === undefined ? { "@undef": 1 } : v;
  const one = async (x) => {
    const Real = globalThis.WebSocket;
    let sockets = 0;
    class WebSocket extends Real { constructor() { super(`ws://127.0.0.1:${port}/p${x.n}`); sockets++; } }
    const api = {};
    const res = [];
    let open = [];
    for (const c of x.log) {
      if (c.barrier) {
        const end = Date.now() + 10000;
        while (open.some((o) => !o.done()) && Date.now() < end) await sleep(2);
        open = [];
        continue;
      }
      const o = { items: [], settled: null };
      res.push(o);
      try {
        api[c.c] ??= load(x.ts, WebSocket);
        const r = api[c.c][c.ns][c.m](...c.args.map(js));
        if (c.kind === "method") {
          o.done = () => o.settled !== null;
          r.then((v) => { o.settled = "ok"; o.items.push(wire(v)); }, (e) => { o.settled = "err"; o.error = wire(e); });
        } else {
          o.done = () => o.items.length >= c.count;
          r.subscribe((v) => o.items.push(wire(v)));
        }
        open.push(o);
      } catch (e) { o.settled = "threw"; o.error = String(e?.message ?? e).slice(0, 300); }
    }
    const end = Date.now() + 10000;
    while (open.some((o) => !o.done()) && Date.now() < end) await sleep(2);
    await sleep(40);
    emit({ n: x.n, sockets, res: res.map(({ items, settled, error }) => ({ items, settled, error })) });
  };
  for (let k = 0; k < items.length; k += 4) await Promise.all(items.slice(k, k + 4).map(one));
}

(async () => {
  if (mode === "static") static_();
  else if (mode === "calls") await calls();
  else await e2e();
  process.exit(0);
})().catch((e) => { console.error(e); process.exit(3); });

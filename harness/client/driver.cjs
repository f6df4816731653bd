// Replays schedules (generated by TLC from WsClient.tla) on the generated TypeScript client with a
// scripted WebSocket and timers; records what the client does to them.
// usage: node driver.cjs client.ts schedules.ndjson traces.ndjson
const fs = require("fs");
const { createRequire } = require("module");
const { isDeepStrictEqual } = require("util");
const vreq = createRequire("/opt/veriftools/node/x.js");
const esbuild = vreq("esbuild");
const zod = vreq("zod/v3");
const [, , src, schedFile, outFile] = process.argv;

const ts = fs.readFileSync(src, "utf8");
const js = esbuild.transformSync(ts, { loader: "ts", format: "cjs", target: "es2020" }).code;
const load = new Function("require", "module", "exports", "WebSocket", "setTimeout", "clearTimeout", "console", "performance", js);

const quietConsole = new Proxy({}, { get: () => () => {} });
const payloads = [
  (x) => x, (x) => ({ x, a: [1, null, { b: "é\u2028\"" }] }), (x) => [x], (x) => "s" + x, () => null, () => false, () => 0, () => "",
  () => [], () => ({}), (x) => ({ id: x, data: 1, method: {} }), (x) => [[x], []],
];
const texts = ["", "plain", "quote\"\\\n", "\u2028\u0000", "😀é", "{\"exec\":1}", "a".repeat(300)];

let unhandled = 0;
process.on("unhandledRejection", () => { unhandled++; });

async function run(s) {
  const ev = [];
  const log = (e) => ev.push(e);
  const socks = [];
  const timers = new Map();
  let nextTimer = 1;
  class WebSocket {
    constructor(url) {
      this.url = url; this.readyState = 0; this.i = socks.length + 1;
      this.onopen = this.onclose = this.onerror = this.onmessage = null;
      this.ls = {};
      socks.push(this);
      log({ e: "new", i: this.i });
    }
    addEventListener(k, f, o) { (this.ls[k] ||= new Map()).set(f, o && o.once); }
    removeEventListener(k, f) { this.ls[k]?.delete(f); }
    dispatch(k, event) {
      event.type = k; event.target = this;
      for (const f of [this["on" + k], ...(this.ls[k]?.keys() ?? [])]) {
        if (this.ls[k]?.get(f)) this.ls[k].delete(f);
        if (f) try { (f.handleEvent ?? f).call(this, event); } catch (e) { /* reported to window.onerror */ }
      }
    }
    send(text) {
      if (this.readyState === 0) { log({ e: "send", i: this.i, t: 0, g: 0 }); throw new Error("InvalidStateError"); }
      let t = 0, g = 0;
      try {
        const m = JSON.parse(text);
        const x = m.exec;
        t = Number(x.args[0]) | 0;
        const c = calls[t - 1];
        if (c) {
          const fresh = calls.every((d) => d.id !== x.id);
          g = Object.keys(m).length === 1 && isDeepStrictEqual(Object.keys(x).sort(), ["args", "id", "method", "namespace"])
            && Number.isSafeInteger(x.id) && x.id >= 0
            && x.method === c.method && x.namespace === c.ns && isDeepStrictEqual(x.args, c.args) ? (fresh ? 1 : 2) : 0;
          if (c.id === undefined) c.id = x.id;
        } else t = 0;
      } catch (e) { t = 0; }
      log({ e: "send", i: this.i, t, g });
    }
    close() {
      log({ e: "close", i: this.i });
      if (this.readyState < 2) this.readyState = 2;
    }
  }
  Object.assign(WebSocket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
  Object.assign(WebSocket.prototype, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
  const setTimeout_ = (f, d, ...a) => { const id = nextTimer++; timers.set(id, { f, a }); log({ e: "tset", d: d ?? 0 }); return id; };
  const clearTimeout_ = (id) => { if (timers.delete(id)) log({ e: "tclr" }); };
  const module = { exports: {} };
  load((n) => { if (n === "zod") return zod; throw new Error("import " + n); }, module, module.exports,
    WebSocket, setTimeout_, clearTimeout_, quietConsole, { now: () => 0 });
  const api = module.exports;

  const calls = [], cbs = [];
  let x = 0, cur = 0; // value of the frame being delivered
  const drain = () => new Promise((r) => setImmediate(r));
  const value = (n) => payloads[(n * 5 + s.seed) % payloads.length](n);
  // which value of this run is it? ties go to the frame being delivered
  const which = (v) => { if (isDeepStrictEqual(v, value(cur))) return cur; for (let n = 1; n <= x; n++) if (isDeepStrictEqual(v, value(n))) return n; return 999; };
  const doCall = (k) => {
    const t = calls.length + 1;
    const ns = (t * 3 + s.seed) % 2 ? "Alpha" : "Beta";
    const args = [t, texts[(t + s.seed) % texts.length]];
    const c = { t, k, ns, method: k, args };
    calls.push(c);
    log({ e: "call", t, k });
    if (k === "req") {
      try {
        api[ns].req(...args).then((v) => log({ e: "settle", t, h: "ok", x: which(v) }),
          (e) => log({ e: "settle", t, h: "err", x: cur }));
      } catch (e) { log({ e: "settle", t, h: "err", x: 999 }); }
    } else {
      try { c.store = api[ns].sub(...args); } catch (e) { log({ e: "settle", t, h: "err", x: 999 }); }
    }
  };
  const user = (op) => {
    const n = Number(op.slice(1));
    if (op[0] === "Q") doCall("req");
    else if (op[0] === "S") doCall("sub");
    else if (op[0] === "A") {
      const b = cbs.length + 1;
      log({ e: "att", b, t: n });
      cbs.push(null);
      cbs[b - 1] = calls[n - 1].store.subscribe((v) => log({ e: "cb", b, x: which(v) }));
    } else if (op[0] === "D") {
      log({ e: "det", b: n });
      cbs[n - 1]();
    } else throw new Error("op " + op);
  };
  for (const group of s.ops.split(" ").filter(Boolean)) {
    for (const op of group.split("+")) {
      const n = Number(op.slice(1));
      const sk = socks[n - 1];
      // an implementation that made other sockets than the model is asked to handle its own
      if ("oylf".includes(op[0]) && !sk) continue;
      switch (op[0]) {
        case "o": if (sk.readyState !== 0) break; sk.readyState = 1; log({ e: "sopen", i: n }); sk.dispatch("open", {}); break;
        case "y": if (sk.readyState !== 1) break; sk.readyState = 2; log({ e: "sdying", i: n }); break;
        case "f": if (sk.readyState === 3 || sk.opened) break; sk.readyState = 3; log({ e: "sfail", i: n }); sk.dispatch("error", {}); sk.dispatch("close", { code: 1006 }); break;
        case "l": if (sk.readyState === 3) break; sk.readyState = 3; log({ e: "sclose", i: n }); sk.dispatch("close", { code: 1000 }); break;
        case "t": {
          const id = timers.keys().next().value;
          if (id === undefined) break;
          const { f, a } = timers.get(id); timers.delete(id);
          log({ e: "fire" });
          f(...a);
          break;
        }
        case "m": {
          const open = socks.filter((k) => k.readyState === 1);
          if (!open.length) break;
          const to = open[open.length - 1];
          const t = Number(op.slice(2));
          const kind = { M: "method", S: "stream", E: "error" }[op[1]];
          x += 1; cur = x;
          let id;
          if (t === 0) id = kind === "error" && x % 2 ? null : 1e6 + x; else id = calls[t - 1]?.id;
          if (id === undefined) break;
          const data = kind === "error" ? { JsonError: "bad " + x } : value(x);
          log({ e: "frame", i: to.i, k: kind, t, x });
          to.dispatch("message", { data: JSON.stringify({ [kind]: { id, data } }) });
          break;
        }
        default: user(op);
      }
    }
    await drain();
    log({ e: "quiet" });
  }
  return ev;
}

(async () => {
  const out = fs.openSync(outFile, "w");
  let buf = [];
  for (const line of fs.readFileSync(schedFile, "utf8").split("\n")) {
    if (!line) continue;
    const s = JSON.parse(line);
    let ev;
    try { ev = await run(s); } catch (e) { console.error(s.ops, e); process.exit(2); }
    buf.push(JSON.stringify({ n: s.n, ev }));
    if (buf.length > 500) { fs.writeSync(out, buf.join("\n") + "\n"); buf = []; }
  }
  if (buf.length) fs.writeSync(out, buf.join("\n") + "\n");
  console.log(JSON.stringify({ unhandled }));
  process.exit(0);
})();

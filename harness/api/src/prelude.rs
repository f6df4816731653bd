// Included by every generated crate: the driver for the programs of Api.tla.
pub use std::{borrow::Cow, collections::*, net::*, sync::Arc};
pub use zod::{Namespace, Zod, ZodType, rpc::{self, Backend}};
pub use futures::{stream::BoxStream, Stream, StreamExt};
use futures::future::BoxFuture;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::{Mutex, OnceLock};
use zod::rpc::{Request, Response, SubscriberMap};

// ---------------------------------------------------------------- handlers
static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());
fn out() -> &'static Value {
    static T: OnceLock<Value> = OnceLock::new();
    T.get_or_init(|| serde_json::from_str(&std::fs::read_to_string(std::env::var("RESULTS").unwrap()).unwrap()).unwrap())
}
pub fn j<T: serde::Serialize>(x: &T) -> Value { serde_json::to_value(x).unwrap_or(json!("?")) }
/// what every method does: note the call, return (from a table) what the specification says
pub fn act<O: serde::de::DeserializeOwned>(prog: usize, f: usize, c: usize, args: Vec<Value>, stream: bool) -> Vec<O> {
    let t = &out()[prog.to_string()][f];
    let items = t["items"].as_array().unwrap();
    let tok = if t["tok"] == json!(true) { args[0].as_u64().filter(|t| *t < 1000).unwrap_or(0) as usize } else { 0 };
    LOG.lock().unwrap().push(json!({"p": prog, "f": f, "c": c, "args": args}));
    let n = if !stream { 1 } else if t["tok"] == json!(true) { tok % 4 } else { items.len() };
    (0..n).map(|k| serde_json::from_value(items[(tok + k) % items.len()].clone()).expect("result")).collect()
}
pub fn one<O>(mut v: Vec<O>) -> O { v.pop().unwrap() }
pub fn many<O: Send + 'static>(v: Vec<O>) -> impl Stream<Item = O> + Send + 'static { futures::stream::iter(v) }

// ---------------------------------------------------------------- programs
pub trait Handle: Send {
    fn handle<'a>(&'a mut self, r: Request, s: futures::channel::mpsc::UnboundedSender<Response>, m: &'a mut SubscriberMap) -> BoxFuture<'a, ()>;
}
impl<B: Backend + Send> Handle for B {
    fn handle<'a>(&'a mut self, r: Request, s: futures::channel::mpsc::UnboundedSender<Response>, m: &'a mut SubscriberMap) -> BoxFuture<'a, ()> {
        Box::pin(self.handle_request(r, s, m))
    }
}
pub struct Back {
    pub code: fn() -> String,
    pub query: fn() -> Value,
    pub make: fn() -> Box<dyn Handle>,
    pub serve: fn() -> zod::rpc::servers::proxy::BackendProxy,
}
pub struct Prog { pub n: usize, pub nss: Vec<fn() -> Value>, pub backs: Vec<Back> }

fn fn_name(decl: &str) -> String {
    let at = decl.find("function ").map(|i| i + 9).unwrap_or(0);
    decl[at..].split('(').next().unwrap().trim().to_string()
}
pub fn ns<N: zod::__private::codegen::RpcNamespace>() -> Value {
    json!({
        "ns": N::NAME,
        "members": <N as Namespace>::members().iter().map(|m| json!([m.namespace(), m.name()])).collect::<Vec<_>>(),
        "rpc": <N as zod::__private::codegen::RpcNamespace>::rpc_members().iter().map(|m| json!([m.ns_name(), fn_name(&m.decl())])).collect::<Vec<_>>(),
        "collect": zod::NamespaceMemberDefinition::collect().get(N::NAME).map(|v| v.iter().map(|m| json!([m.namespace(), m.name()])).collect::<Vec<_>>()).unwrap_or_default(),
    })
}
pub fn query<B: Backend>() -> Value {
    json!({
        "rpc": B::rpc_members().into_iter().map(|(k, v)| (k.to_string(), v.iter().map(|d| fn_name(d)).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>(),
        "zod": B::zod_namespaces().into_iter().map(|(k, v)| (k.to_string(), v.iter().map(|m| m.name()).collect::<Vec<_>>())).collect::<BTreeMap<_, _>>(),
        "names": B::NS_NAMES,
    })
}
pub fn back<B: Backend + Default + Send + 'static>() -> Back {
    Back {
        code: || B::generate::<zod::rpc::clients::WebsocketClient>(),
        query: query::<B>,
        make: || Box::new(B::default()),
        serve: || zod::rpc::servers::proxy::BackendProxy::new(B::default()),
    }
}

pub fn drive(progs: Vec<Prog>) {
    let mode = std::env::args().nth(1).unwrap();
    let o = std::io::stdout();
    let mut o = o.lock();
    match mode.as_str() {
        "dump" => {
            let from: usize = std::env::args().nth(2).unwrap().parse().unwrap();
            for (k, p) in progs.iter().enumerate().skip(from) {
                writeln!(o, "{}", json!({"begin": k})).unwrap();
                o.flush().unwrap();
                for (b, x) in p.backs.iter().enumerate() {
                    writeln!(o, "{}", json!({"n": p.n, "b": b, "ts": (x.code)(), "q": (x.query)(), "nss": p.nss.iter().map(|f| f()).collect::<Vec<_>>()})).unwrap();
                }
            }
        }
        // lines {p, b, text}; all requests of one p and b go to the same backend value
        "route" => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let mut live: HashMap<(usize, usize), (Box<dyn Handle>, SubscriberMap)> = HashMap::new();
            for l in std::io::stdin().lock().lines() {
                let x: Value = serde_json::from_str(&l.unwrap()).unwrap();
                let (p, b) = (x["p"].as_u64().unwrap() as usize, x["b"].as_u64().unwrap() as usize);
                let (h, subs) = live.entry((p, b)).or_insert_with(|| ((progs.iter().find(|q| q.n == p).unwrap().backs[b].make)(), Default::default()));
                let req = serde_json::from_str::<Request>(x["text"].as_str().unwrap());
                let res = match req {
                    Err(e) => json!({"parse": e.to_string()}),
                    Ok(req) => {
                        let (tx, rx) = futures::channel::mpsc::unbounded();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async {
                            h.handle(req, tx, subs).await;
                            let ids: Vec<usize> = subs.keys().copied().collect();
                            for id in ids {
                                if let Some(jh) = subs.remove(&id) { let _ = jh.await; }
                            }
                            tokio::time::timeout(std::time::Duration::from_secs(5), rx.collect::<Vec<Response>>()).await.ok()
                        })));
                        let log = std::mem::take(&mut *LOG.lock().unwrap());
                        match r {
                            Ok(r) => json!({"log": log, "res": r}),
                            Err(_) => json!({"log": log, "panic": true}),
                        }
                    }
                };
                writeln!(o, "{}", res).unwrap();
            }
        }
        // serves every program at /p<n>; on end of input prints what the handlers noted
        "serve" => {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
            let _g = rt.enter();
            let mut app = axum::Router::new();
            for p in &progs {
                app = app.route(&format!("/p{}", p.n), axum::routing::get(zod::rpc::servers::axum::websocket_handler).layer(axum::Extension((p.backs[0].serve)())));
            }
            let server = axum::Server::bind(&"127.0.0.1:0".parse().unwrap()).serve(app.into_make_service());
            writeln!(o, "{}", json!({"port": server.local_addr().port()})).unwrap();
            o.flush().unwrap();
            rt.spawn(server);
            for _ in std::io::stdin().lock().lines() {}
            for l in LOG.lock().unwrap().iter() { writeln!(o, "{}", l).unwrap(); }
            o.flush().unwrap();
            std::process::exit(0);
        }
        _ => panic!("mode"),
    }
}

//! Deterministic execution: one thread, virtual time (time advances only when nothing else can
//! run, so a sleep of the driver returns exactly at quiescence).
use crate::backend::*;
use crate::Schedule;
use futures::{FutureExt, SinkExt, StreamExt};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use zod::rpc::{
    servers::{
        axum::websocket_handler,
        proxy::{BackendProxy, ProxyRx, ProxyTx},
    },
    Backend, Request, Response, SubscriberMap,
};

static NOW: Mutex<(u64, Option<std::time::Instant>)> = Mutex::new((0, None));
pub fn limit() -> Duration {
    let s = std::env::var("V_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    Duration::from_secs(s)
}

pub fn begin(s: &Schedule) {
    world(|w| *w = Default::default());
    lock(&LOG).clear();
    *lock(&NOW) = (s.n, Some(std::time::Instant::now()));
}
pub fn finish(n: u64) {
    let evs = std::mem::take(&mut *lock(&LOG));
    lock(&NOW).1 = None;
    println!("{}", json!({"n": n, "ev": evs}));
}
/// A schedule that makes no end is reported as it stands.
pub fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let (n, since) = *lock(&NOW);
        if since.map_or(false, |s| s.elapsed() > limit()) {
            let mut evs = std::mem::take(&mut *lock(&LOG));
            evs.truncate(400);
            evs.push(json!({"e": "quiet"}));
            println!("{}", json!({"n": n, "ev": evs, "hang": true}));
            std::process::exit(3);
        }
    });
}

type Ws = tokio_tungstenite::WebSocketStream<tokio::io::DuplexStream>;

enum Client {
    Proxy(ProxyTx, ProxyRx),
    Raw(futures::channel::mpsc::UnboundedReceiver<Response>),
    Ws(Box<Ws>),
    Gone,
}

struct RawServer {
    tx: Option<futures::channel::mpsc::UnboundedSender<RawMsg>>,
    maps: Arc<tokio::sync::Mutex<HashMap<u32, SubscriberMap>>>,
    senders: HashMap<u32, futures::channel::mpsc::UnboundedSender<Response>>,
}
type RawMsg = (u32, Result<Request, Response>, futures::channel::mpsc::UnboundedSender<Response>);

/// an embedder without BackendProxy, as in examples/raw
fn raw_server() -> RawServer {
    let (tx, mut rx) = futures::channel::mpsc::unbounded::<RawMsg>();
    let maps: Arc<tokio::sync::Mutex<HashMap<u32, SubscriberMap>>> = Default::default();
    let m = maps.clone();
    tokio::spawn(async move {
        let mut be = backend();
        while let Some((c, req, res)) = rx.next().await {
            match req {
                Ok(req) => {
                    let mut g = m.lock().await;
                    be.handle_request(req, res, g.entry(c).or_default()).await
                }
                Err(e) => {
                    let _ = res.unbounded_send(e);
                }
            }
        }
        m.lock().await.clear();
    });
    RawServer { tx: Some(tx), maps, senders: Default::default() }
}

fn parse(text: &str) -> Result<Request, Response> {
    serde_json::from_str(text)
        .map_err(|err| Response::Error { id: None, data: zod::rpc::Error::from(err) })
}

pub fn ws_connect(app: axum::Router) -> impl std::future::Future<Output = Ws> {
    let (a, b) = tokio::io::duplex(1 << 20);
    tokio::spawn(async move {
        let svc = hyper::service::service_fn(move |req: hyper::Request<hyper::Body>| {
            let mut app = app.clone();
            async move { tower_service::Service::call(&mut app, req).await }
        });
        let _ = hyper::server::conn::Http::new()
            .serve_connection(b, svc)
            .with_upgrades()
            .await;
    });
    async move {
        let (ws, _) = tokio_tungstenite::client_async("ws://localhost/ws", a)
            .await
            .expect("websocket handshake");
        ws
    }
}

pub struct Names {
    ids: Vec<u64>,
}
impl Names {
    pub fn new(ids: Vec<u64>) -> Self {
        Names { ids }
    }
    fn wire(&self, id: u32) -> u64 {
        self.ids
            .get(id as usize - 1)
            .copied()
            .unwrap_or(1_000_000 + id as u64)
    }
    fn abs(&self, wire: &Value) -> u32 {
        match wire.as_u64() {
            None => {
                if wire.is_null() {
                    0
                } else {
                    999
                }
            }
            Some(w) => match self.ids.iter().position(|x| *x == w) {
                Some(i) => i as u32 + 1,
                None if w > 1_000_000 && w < 1_000_900 => (w - 1_000_000) as u32,
                None => 999,
            },
        }
    }
    /// the event for a frame (its JSON text parsed) on connection c
    pub fn recv(&self, c: u32, v: &Value) -> Value {
        let junk = json!({"e":"recv","c":c,"k":"junk","id":0,"t":0,"x":0});
        let o = match v.as_object() {
            Some(o) if o.len() == 1 => o,
            _ => return junk,
        };
        let (k, b) = o.iter().next().unwrap();
        let b = match b.as_object() {
            Some(b) if b.len() == 2 && b.contains_key("id") && b.contains_key("data") => b,
            _ => return junk,
        };
        let id = self.abs(&b["id"]);
        match k.as_str() {
            "method" | "stream" => {
                let (t, x) = match b["data"].as_array().map(|a| a.as_slice()) {
                    Some([t, x]) => (t.as_u64().unwrap_or(0), x.as_u64().unwrap_or(0)),
                    _ => (0, 0),
                };
                json!({"e":"recv","c":c,"k":k,"id":id,"t":t,"x":x})
            }
            "error" => json!({"e":"recv","c":c,"k":"error","id":id,"t":0,"x":0}),
            _ => junk,
        }
    }
}

struct Run {
    names: Names,
    clients: BTreeMap<u32, Client>,
    proxy: Option<BackendProxy>,
    raw: Option<RawServer>,
    app: Option<axum::Router>,
    t: u32,
    seed: u64,
}

impl Run {
    fn len(&self) -> usize {
        lock(&LOG).len()
    }
    async fn drain(&mut self) {
        for (c, cl) in self.clients.iter_mut() {
            match cl {
                Client::Proxy(_, rx) => {
                    while let Some(Some(r)) = rx.next().now_or_never() {
                        let v = serde_json::to_value(&r).unwrap_or(json!("unserializable"));
                        log(self.names.recv(*c, &v));
                    }
                }
                Client::Raw(rx) => {
                    while let Some(Some(r)) = rx.next().now_or_never() {
                        let v = serde_json::to_value(&r).unwrap_or(json!("unserializable"));
                        log(self.names.recv(*c, &v));
                    }
                }
                Client::Ws(ws) => {
                    while let Some(Some(Ok(m))) = ws.next().now_or_never() {
                        use tokio_tungstenite::tungstenite::Message as M;
                        match m {
                            M::Text(s) => {
                                let v = serde_json::from_str(&s).unwrap_or(json!("not json"));
                                log(self.names.recv(*c, &v));
                            }
                            M::Binary(_) => log(self.names.recv(*c, &json!("binary"))),
                            _ => {}
                        }
                    }
                }
                Client::Gone => {}
            }
        }
    }
    async fn settle(&mut self) {
        loop {
            let before = self.len();
            // virtual time passes only when every task is idle
            tokio::time::sleep(Duration::from_secs(3600)).await;
            self.drain().await;
            if self.len() == before {
                break;
            }
        }
    }
    async fn quiet(&mut self) {
        self.settle().await;
        log(json!({"e": "quiet"}));
    }

    async fn connect(&mut self, c: u32) {
        let cl = if let Some(app) = &self.app {
            Client::Ws(Box::new(ws_connect(app.clone()).await))
        } else if let Some(raw) = &mut self.raw {
            let (tx, rx) = futures::channel::mpsc::unbounded();
            raw.senders.insert(c, tx);
            Client::Raw(rx)
        } else if let Some(p) = &self.proxy {
            let (tx, rx) = p.connect().split();
            Client::Proxy(tx, rx)
        } else {
            return;
        };
        self.clients.insert(c, cl);
        log(json!({"e":"connect","c":c}));
    }
    async fn text(&mut self, c: u32, text: String) {
        match self.clients.get_mut(&c) {
            Some(Client::Proxy(tx, _)) => {
                let _ = tx.send(parse(&text));
            }
            Some(Client::Raw(_)) => {
                if let Some(raw) = &self.raw {
                    if let (Some(tx), Some(s)) = (&raw.tx, raw.senders.get(&c)) {
                        let _ = tx.unbounded_send((c, parse(&text), s.clone()));
                    }
                }
            }
            Some(Client::Ws(ws)) => {
                let _ = ws.send(tokio_tungstenite::tungstenite::Message::Text(text)).await;
            }
            _ => {}
        }
    }
    async fn op(&mut self, op: &str) {
        let b = op.as_bytes();
        let num = |s: &str| s.parse::<u32>().expect("number");
        match b[0] {
            b'c' => self.connect(num(&op[1..])).await,
            b's' => {
                let i = op[1..].find(|c: char| c.is_alphabetic()).unwrap() + 1;
                let (c, k, id) = (num(&op[1..i]), op.as_bytes()[i], num(&op[i + 1..]));
                self.t += 1;
                let t = self.t;
                let w = self.names.wire(id);
                let (kind, text) = match k {
                    b'C' => ("call", exec(w, "call", t)),
                    b'G' => ("gcall", exec(w, "gcall", t)),
                    b'B' => ("badcall", exec(w, "badcall", t)),
                    b'O' => ("open", exec(w, "open", t)),
                    b'X' => ("cancel", json!({"cancelStream": {"id": w}}).to_string()),
                    b'b' => ("bad", bad_request(w, t, self.seed)),
                    b'z' => ("garbage", garbage(t, self.seed)),
                    _ => panic!("op {op}"),
                };
                log(json!({"e":"send","c":c,"t":t,"k":kind,"id":id}));
                self.text(c, text).await;
                if self.app.is_some() {
                    // the order of arrival of requests from several sockets is the order of sending
                    for _ in 0..40 {
                        tokio::task::yield_now().await;
                    }
                }
            }
            b'g' => {
                let t = num(&op[1..]);
                log(json!({"e":"gate","t":t}));
                let wk = world(|w| {
                    w.gates.insert(t);
                    w.gate_wakers.remove(&t)
                });
                if let Some(w) = wk {
                    w.wake()
                }
            }
            b'e' => {
                let (t, bad) = (num(&op[1..op.len() - 1]), num(&op[op.len() - 1..]));
                let wk = world(|w| {
                    let s = w.src.entry(t).or_default();
                    s.items.push_back(bad);
                    let i = s.taken + s.items.len() as u32;
                    log(json!({"e":"emit","t":t,"i":i,"b":bad}));
                    s.waker.take()
                });
                if let Some(w) = wk {
                    w.wake()
                }
            }
            b'x' => {
                let t = num(&op[1..]);
                log(json!({"e":"end","t":t}));
                let wk = world(|w| {
                    let s = w.src.entry(t).or_default();
                    s.ended = true;
                    s.waker.take()
                });
                if let Some(w) = wk {
                    w.wake()
                }
            }
            b'd' => {
                let c = num(&op[1..]);
                if self.app.is_some() {
                    self.quiet().await;
                    log(json!({"e":"disc","c":c}));
                    if let Some(Client::Ws(mut ws)) = self.clients.insert(c, Client::Gone) {
                        match (self.seed + c as u64) % 3 {
                            0 => {
                                let _ = SinkExt::close(&mut *ws).await;
                            }
                            1 => {
                                let _ = SinkExt::close(&mut *ws).await;
                                // wait for the server's half of the handshake
                                let _ = tokio::time::timeout(Duration::from_secs(60), async {
                                    while let Some(Ok(_)) = ws.next().await {}
                                })
                                .await;
                            }
                            _ => {}
                        }
                        drop(ws);
                    }
                    self.settle().await;
                } else {
                    log(json!({"e":"disc","c":c}));
                    if let Some(raw) = &mut self.raw {
                        raw.senders.remove(&c);
                        if raw.senders.is_empty() && self.proxy.is_none() {
                            raw.tx = None;
                        }
                    }
                    self.clients.insert(c, Client::Gone);
                }
            }
            b'u' => {
                log(json!({"e":"unproxy"}));
                self.proxy = None;
                self.app = self.app.take().map(|_| axum::Router::new());
                if let Some(raw) = &mut self.raw {
                    if raw.senders.is_empty() {
                        raw.tx = None;
                    }
                }
            }
            b'm' => {
                let c = num(&op[1..]);
                self.settle().await;
                if let Some(raw) = &self.raw {
                    let map = raw.maps.lock().await.remove(&c);
                    log(json!({"e":"dropmap","c":c}));
                    drop(map);
                }
            }
            // websocket frames which are not requests
            b'p' | b'y' | b'q' => {
                let c = num(&op[1..]);
                use tokio_tungstenite::tungstenite::Message as M;
                let m = match b[0] {
                    b'p' => M::Ping(vec![1, 2]),
                    b'q' => M::Pong(vec![3]),
                    _ => M::Binary(exec(1, "call", 77).into_bytes()),
                };
                if let Some(Client::Ws(ws)) = self.clients.get_mut(&c) {
                    let _ = ws.send(m).await;
                }
            }
            b'r' => self.quiet().await,
            _ => panic!("op {op}"),
        }
    }
}

pub fn run(s: &Schedule) {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(async {
        let mut r = Run {
            names: Names::new(s.ids.clone()),
            clients: Default::default(),
            proxy: None,
            raw: None,
            app: None,
            t: 0,
            seed: s.seed,
        };
        match s.mode.as_str() {
            "raw" => r.raw = Some(raw_server()),
            "proxy" => r.proxy = Some(BackendProxy::new(backend())),
            "ws" => {
                r.app = Some(
                    axum::Router::new()
                        .route("/ws", axum::routing::get(websocket_handler))
                        .layer(axum::Extension(BackendProxy::new(backend()))),
                )
            }
            m => panic!("mode {m}"),
        }
        if r.raw.is_some() {
            // stands for the embedder's own handle
            r.proxy = Some(BackendProxy::new(backend()));
        }
        for op in s.ops.split_whitespace() {
            r.op(op).await;
        }
    });
    // what happens while the runtime is torn down is not part of the execution
    let evs = std::mem::take(&mut *lock(&LOG));
    drop(rt);
    *lock(&LOG) = evs;
}

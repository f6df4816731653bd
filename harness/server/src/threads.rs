//! Executions whose interleaving is not controlled: several threads, always ready streams.
//! Sends are logged and handed over under one lock, so the log has the order of arrival.
use crate::backend::*;
use crate::det::Names;
use crate::Schedule;
use futures::StreamExt;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use zod::rpc::servers::proxy::{BackendProxy, ProxyRx, ProxyTx};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

static ORDER: Mutex<u32> = Mutex::new(0);

/// numbers, logs and hands over a request in one step
fn send(names: &[u64], tx: &ProxyTx, c: u32, kind: &str, id: u32, seed: u64, prep: impl FnOnce(u32)) {
    let mut g = lock(&ORDER);
    *g += 1;
    let t = *g;
    prep(t);
    let w = names[id as usize - 1];
    let text = match kind {
        "cancel" => json!({"cancelStream": {"id": w}}).to_string(),
        "bad" => bad_request(w, t, seed),
        "garbage" => garbage(t, seed),
        k => exec(w, k, t),
    };
    log(json!({"e":"send","c":c,"t":t,"k":kind,"id":id}));
    let _ = tx.send(serde_json::from_str(&text).map_err(|err| zod::rpc::Response::Error {
        id: None,
        data: zod::rpc::Error::from(err),
    }));
}

/// records what a connection receives until it leaves
fn receive(c: u32, ids: Vec<u64>, mut rx: ProxyRx, gone: Arc<AtomicBool>, count: Arc<AtomicUsize>) -> tokio::task::JoinHandle<()> {
    let names = Names::new(ids);
    tokio::spawn(async move {
        while let Some(r) = rx.next().await {
            let v = serde_json::to_value(&r).unwrap_or(json!("unserializable"));
            if gone.load(SeqCst) {
                break;
            }
            if v["stream"]["data"][1] == 41 {
                continue; // of an endless source
            }
            log(names.recv(c, &v));
            count.fetch_add(1, SeqCst);
        }
    })
}

async fn until(limit: Duration, mut f: impl FnMut() -> bool) {
    let start = Instant::now();
    while !f() && start.elapsed() < limit {
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
}

fn runtime(workers: usize) -> tokio::runtime::Runtime {
    if workers == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap()
    }
}

pub fn run(s: &Schedule) {
    *lock(&ORDER) = 0;
    let a: Vec<u64> = s.ops.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
    let rt;
    match s.ops.split_whitespace().next() {
        Some("mix") => {
            rt = runtime(4);
            rt.block_on(mix(s, a[0] as u32, a[1]))
        }
        Some("endless") => {
            rt = runtime(2);
            rt.block_on(endless(s))
        }
        Some("starve") => {
            rt = runtime(0);
            rt.block_on(starve(s))
        }
        _ => panic!("ops"),
    }
    let evs = std::mem::take(&mut *lock(&LOG));
    rt.shutdown_background();
    *lock(&LOG) = evs;
}

/// `clients` clients with `n` random requests each; some of them leave on the way
async fn mix(s: &Schedule, clients: u32, n: u64) {
    let proxy = BackendProxy::new(backend());
    let active = Arc::new(AtomicU32::new(0));
    let mut joins = vec![];
    let mut counts = vec![];
    for c in 1..=clients {
        let (tx, rx) = proxy.connect().split();
        log(json!({"e":"connect","c":c}));
        let gone = Arc::new(AtomicBool::new(false));
        let count = Arc::new(AtomicUsize::new(0));
        let ids = s.ids.clone();
        let rxh = receive(c, ids.clone(), rx, gone.clone(), count.clone());
        let mut rng = Rng(s.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (c as u64 + 1).wrapping_mul(0xD1B54A32D192ED03) | 1);
        rng.next();
        rng.next();
        let leaves = c % 3 == 0;
        let active = active.clone();
        let k = ids.len() as u64;
        counts.push((count, leaves));
        joins.push(tokio::spawn(async move {
            // frames this client must get at least
            let mut owed = 0usize;
            let mut streams: Vec<(u32, u32)> = vec![];
            for _ in 0..n {
                let id = rng.below(k) as u32 + 1;
                let seed = rng.next() % 1000;
                match rng.below(12) {
                    0..=2 => {
                        send(&ids, &tx, c, "call", id, seed, |_| ());
                        owed += 1;
                    }
                    3 => {
                        let mut tt = 0;
                        send(&ids, &tx, c, "gcall", id, seed, |t| tt = t);
                        let y = rng.below(20);
                        tokio::spawn(async move {
                            for _ in 0..y {
                                tokio::task::yield_now().await
                            }
                            log(json!({"e":"gate","t":tt}));
                            if let Some(w) = world(|w| {
                                w.gates.insert(tt);
                                w.gate_wakers.remove(&tt)
                            }) {
                                w.wake()
                            }
                        });
                        owed += 1;
                    }
                    4 => {
                        send(&ids, &tx, c, "badcall", id, seed, |_| ());
                        owed += 1;
                    }
                    5..=8 => {
                        let items = rng.below(30) as u32 + 1;
                        active.fetch_add(1, SeqCst);
                        send(&ids, &tx, c, "open", id, seed, |t| {
                            world(|w| w.src.entry(t).or_default().auto = items)
                        });
                        streams.retain(|x| x.0 != id);
                        streams.push((id, items));
                    }
                    9 => {
                        send(&ids, &tx, c, "cancel", id, seed, |_| ());
                        streams.retain(|x| x.0 != id);
                    }
                    10 => {
                        send(&ids, &tx, c, "bad", id, seed, |_| ());
                        owed += 1;
                    }
                    _ => {
                        send(&ids, &tx, c, "garbage", id, seed, |_| ());
                        owed += 1;
                    }
                }
                for _ in 0..rng.below(6) {
                    tokio::task::yield_now().await
                }
            }
            owed += streams.iter().map(|x| x.1 as usize).sum::<usize>();
            if leaves {
                log(json!({"e":"leave","c":c}));
                gone.store(true, SeqCst);
                rxh.abort();
                let _ = rxh.await;
                drop(tx);
                log(json!({"e":"disc","c":c}));
                (owed, None, None)
            } else {
                (owed, Some(tx), Some(rxh))
            }
        }));
    }
    let mut keep = vec![];
    for (i, j) in joins.into_iter().enumerate() {
        match j.await {
            Ok((owed, tx, rxh)) => {
                if let Some(tx) = tx {
                    keep.push((i as u32 + 1, owed, counts[i].0.clone(), tx, rxh));
                }
            }
            Err(_) => {}
        }
    }
    let opens = active.load(SeqCst) as usize;
    let dropped = || lock(&LOG).iter().filter(|v| v["e"] == "sdrop").count();
    until(crate::det::limit() / 3, || {
        keep.iter().all(|k| k.2.load(SeqCst) >= k.1) && dropped() >= opens
    })
    .await;
    tokio::time::sleep(Duration::from_millis(5)).await;
    log(json!({"e":"quiet"}));
}

/// a source that always has another item; unlogged after the first ones
async fn endless(s: &Schedule) {
    let proxy = BackendProxy::new(backend());
    let (tx, rx) = proxy.connect().split();
    log(json!({"e":"connect","c":1}));
    let count = Arc::new(AtomicUsize::new(0));
    let gone = Arc::new(AtomicBool::new(false));
    let _rxh = receive(1, s.ids.clone(), rx, gone, count.clone());
    send(&s.ids, &tx, 1, "open", 1, 0, |t| {
        world(|w| {
            let s = w.src.entry(t).or_default();
            s.endless = true;
            s.pause = Duration::from_micros(100);
        })
    });
    until(Duration::from_secs(5), || count.load(SeqCst) >= 3).await;
    send(&s.ids, &tx, 1, "cancel", 1, 0, |_| ());
    send(&s.ids, &tx, 1, "call", 2, 0, |_| ());
    until(crate::det::limit() / 3, || {
        let g = lock(&LOG);
        g.iter().any(|v| v["e"] == "sdrop") && g.iter().any(|v| v["k"] == "method")
    })
    .await;
    tokio::time::sleep(Duration::from_millis(5)).await;
    log(json!({"e":"quiet"}));
    world(|w| w.src.values_mut().for_each(|s| s.stop = true));
}

/// one thread, one client with an always ready stream, another one with a call
async fn starve(s: &Schedule) {
    let proxy = BackendProxy::new(backend());
    let (tx, rx) = proxy.connect().split();
    let (tx2, rx2) = proxy.connect().split();
    log(json!({"e":"connect","c":1}));
    log(json!({"e":"connect","c":2}));
    let gone = Arc::new(AtomicBool::new(false));
    let n = Arc::new(AtomicUsize::new(0));
    let _a = receive(1, s.ids.clone(), rx, gone.clone(), n.clone());
    let _b = receive(2, s.ids.clone(), rx2, gone.clone(), n.clone());
    send(&s.ids, &tx, 1, "open", 1, 0, |t| world(|w| w.src.entry(t).or_default().endless = true));
    for _ in 0..50 {
        tokio::task::yield_now().await;
    }
    send(&s.ids, &tx2, 2, "call", 1, 0, |_| ());
    send(&s.ids, &tx, 1, "cancel", 1, 0, |_| ());
    for _ in 0..200 {
        tokio::task::yield_now().await;
    }
    // the stream is cancelled, so this is reached with nothing left to do
    for _ in 0..10 {
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    log(json!({"e":"quiet"}));
    world(|w| w.src.values_mut().for_each(|s| s.stop = true));
}

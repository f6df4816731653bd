//! The backend under test: handlers whose progress the schedule controls.
use futures::Stream;
use serde::{ser::Error, Deserialize, Serialize, Serializer};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};
use zod::{rpc, Namespace, Zod};

pub static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());
pub fn log(v: Value) {
    lock(&LOG).push(v);
}
pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// A value that serializes to `[t, x]`, or not at all.
#[derive(Debug, Deserialize, Zod)]
#[zod(namespace = "Ctl")]
pub struct Item {
    pub t: u32,
    pub x: u32,
    pub bad: bool,
}
impl Serialize for Item {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.bad {
            return Err(S::Error::custom("this value has no JSON form"));
        }
        (self.t, self.x).serialize(s)
    }
}

#[derive(Default)]
pub struct Source {
    pub items: VecDeque<u32>,
    pub taken: u32,
    pub ended: bool,
    pub waker: Option<Waker>,
    /// items left of an always ready source
    pub auto: u32,
    /// always has another item; only the first ones are logged
    pub endless: bool,
    pub pause: std::time::Duration,
    pub stop: bool,
}
#[derive(Default)]
pub struct World {
    pub src: HashMap<u32, Source>,
    pub gates: HashSet<u32>,
    pub gate_wakers: HashMap<u32, Waker>,
}
pub static WORLD: Mutex<Option<World>> = Mutex::new(None);
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut g = lock(&WORLD);
    f(g.get_or_insert_with(Default::default))
}

struct Gate(u32);
impl std::future::Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        world(|w| {
            if w.gates.contains(&self.0) {
                Poll::Ready(())
            } else {
                w.gate_wakers.insert(self.0, cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

pub struct Fed(u32);
impl Stream for Fed {
    type Item = Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Item>> {
        let t = self.0;
        let (endless, pause) = world(|w| {
            let s = w.src.entry(t).or_default();
            (s.endless && !s.stop, s.pause)
        });
        if endless {
            if !pause.is_zero() {
                std::thread::sleep(pause);
            }
            let i = world(|w| {
                let s = w.src.entry(t).or_default();
                s.taken += 1;
                s.taken
            });
            if i <= 40 {
                log(json!({"e":"emit","t":t,"i":i,"b":0}));
                log(json!({"e":"yield","t":t,"i":i,"b":0}));
            }
            return Poll::Ready(Some(Item { t, x: i.min(41), bad: false }));
        }
        world(|w| {
            let s = w.src.entry(t).or_default();
            if s.auto > 0 && s.items.is_empty() {
                s.auto -= 1;
                s.items.push_back(0);
                log(json!({"e":"emit","t":t,"i":s.taken + 1,"b":0}));
                if s.auto == 0 {
                    s.ended = true;
                    log(json!({"e":"end","t":t}));
                }
            }
            match s.items.pop_front() {
                Some(b) => {
                    s.taken += 1;
                    log(json!({"e":"yield","t":t,"i":s.taken,"b":b}));
                    Poll::Ready(Some(Item { t, x: s.taken, bad: b == 1 }))
                }
                None if s.ended => Poll::Ready(None),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    }
}
impl Drop for Fed {
    fn drop(&mut self) {
        log(json!({"e":"sdrop","t":self.0}));
    }
}

#[derive(Namespace)]
pub struct Ctl {
    pub n: u32,
}

#[rpc::namespace]
impl Ctl {
    pub async fn call(&mut self, t: u32) -> Item {
        log(json!({"e":"hs","t":t,"n":self.n}));
        self.n += 1;
        log(json!({"e":"he","t":t,"n":self.n}));
        Item { t, x: self.n, bad: false }
    }

    pub async fn gcall(&mut self, t: u32) -> Item {
        log(json!({"e":"hs","t":t,"n":self.n}));
        let seen = self.n;
        Gate(t).await;
        self.n = seen + 1;
        log(json!({"e":"he","t":t,"n":self.n}));
        Item { t, x: self.n, bad: false }
    }

    pub async fn badcall(&mut self, t: u32) -> Item {
        log(json!({"e":"hs","t":t,"n":self.n}));
        self.n += 1;
        log(json!({"e":"he","t":t,"n":self.n}));
        Item { t, x: self.n, bad: true }
    }

    pub fn open(&mut self, t: u32) -> impl Stream<Item = Item> {
        log(json!({"e":"hs","t":t,"n":self.n}));
        Fed(t)
    }
}

#[derive(rpc::Backend)]
pub struct Be(pub Ctl);

pub fn backend() -> Be {
    Be(Ctl { n: 0 })
}

pub fn exec(id: u64, method: &str, t: u32) -> String {
    json!({"exec": {"id": id, "namespace": "Ctl", "method": method, "args": [t]}}).to_string()
}

/// Requests whose envelope and id can be read but which cannot be executed.
pub fn bad_request(id: u64, t: u32, seed: u64) -> String {
    let v = [
        json!({"id": id, "namespace": "Ctl", "method": "nope", "args": [t]}),
        json!({"id": id, "namespace": "Nope", "method": "call", "args": [t]}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": []}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": [t, t]}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": ["x"]}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": [-1]}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": [4294967296u64]}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": [t as f64 + 0.5]}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": [null]}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": {"t": t}}),
        json!({"id": id, "namespace": "Ctl", "method": "call", "args": null}),
        json!({"id": id, "namespace": "Ctl", "method": "call"}),
        json!({"id": id, "namespace": "Ctl", "args": [t]}),
        json!({"id": id, "method": "call", "args": [t]}),
        json!({"id": id}),
        json!({"id": id, "namespace": "Ctl", "method": "open", "args": []}),
        json!({"id": id, "namespace": "Ctl", "method": "open", "args": [t, t]}),
        json!({"id": id, "namespace": "Ctl", "method": "open", "args": ["1"]}),
        json!({"id": id, "namespace": "Ctl", "method": "Call", "args": [t]}),
        json!({"id": id, "namespace": "ctl", "method": "call", "args": [t]}),
        json!({"id": id, "namespace": "", "method": "", "args": [t]}),
        json!({"id": id, "namespace": 1, "method": "call", "args": [t]}),
        json!({"id": id, "namespace": "Ctl", "method": 1, "args": [t]}),
        json!({"id": id, "namespace": "Ctl", "method": null, "args": [t]}),
        json!({"id": id, "namespace": "Ctl", "method": ["call"], "args": [t]}),
    ];
    let i = (seed as usize).wrapping_mul(7).wrapping_add(t as usize * 11) % v.len();
    json!({"exec": v[i]}).to_string()
}

/// Text without a readable envelope or id.
pub fn garbage(t: u32, seed: u64) -> String {
    let ok = json!({"namespace": "Ctl", "method": "call", "args": [t]});
    let with = |id: Value| {
        let mut o = ok.clone();
        o["id"] = id;
        json!({ "exec": o }).to_string()
    };
    let v = [
        String::new(),
        "{".into(),
        "null".into(),
        "[]".into(),
        "17".into(),
        "\"exec\"".into(),
        "{}".into(),
        json!({ "exec": ok }).to_string(),
        with(json!("1")),
        with(json!(-1)),
        with(json!(1.5)),
        with(json!(null)),
        with(json!([1])),
        json!({"cancelStream": {}}).to_string(),
        json!({"cancelStream": {"id": "1"}}).to_string(),
        json!({"unknown": {"id": 1}}).to_string(),
        json!({"Exec": {"id": 1, "namespace": "Ctl", "method": "call", "args": [t]}}).to_string(),
        format!("{} trailing", exec(1, "call", t)),
        format!("{}", &exec(1, "call", t)[1..]),
        json!([exec(1, "call", t)]).to_string(),
        "{\"exec\":{\"id\":1,\"namespace\":\"Ctl\",\"method\":\"call\",\"args\":[1]}".into(),
        "\u{0}\u{1}\u{feff}{}".into(),
        "{'exec':1}".into(),
        with(json!(1e300)),
    ];
    let i = (seed as usize).wrapping_mul(5).wrapping_add(t as usize * 13) % v.len();
    v[i].clone()
}

//! Executes schedules (generated by TLC from RpcServer.tla) on the real server and records what
//! a client, a handler or the embedding program can see, as JSON events for RpcMonitor.tla.
mod backend;
mod det;
mod threads;

use std::io::BufRead;

#[derive(serde::Deserialize, Clone)]
pub struct Schedule {
    pub n: u64,
    /// proxy | raw | ws | threads
    pub mode: String,
    /// wire ids of the abstract ids 1, 2, ..
    #[serde(default)]
    pub ids: Vec<u64>,
    #[serde(default)]
    pub ops: String,
    /// selects among equivalent concrete requests
    #[serde(default)]
    pub seed: u64,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    det::watchdog();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let s: Schedule = serde_json::from_str(&line).expect("schedule");
        det::begin(&s);
        let r = std::panic::catch_unwind(|| match s.mode.as_str() {
            "threads" => threads::run(&s),
            _ => det::run(&s),
        });
        if r.is_err() {
            backend::log(serde_json::json!({"e": "quiet"}));
        }
        det::finish(s.n);
    }
}

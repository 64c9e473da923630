//! Runs cases against the real code: one JSON object per line in, one JSON object per line out.
//! A panic in the code under test is an answer ({"panic": ..}), an endless loop too ({"hang": true}).
mod buf;
mod file;
mod hdr;
mod pull;
mod stream;
mod types;
mod val;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CURRENT: AtomicI64 = AtomicI64::new(-1);
static STARTED: AtomicU64 = AtomicU64::new(0);
static OUT: Mutex<()> = Mutex::new(());

fn emit(v: &Value) {
    let _g = OUT.lock().unwrap();
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", v);
    let _ = o.flush();
}

fn run(case: &Value) -> Value {
    match case["k"].as_str().unwrap() {
        "buf" => buf::run(case),
        "big" => buf::big(case),
        "hdr" => hdr::run(case),
        "stream" => stream::run(case),
        "pull" => pull::run(case),
        "file" => file::run(case),
        k => panic!("unknown case kind {}", k),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("CASE_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let id = CURRENT.load(Ordering::SeqCst);
        let started = STARTED.load(Ordering::SeqCst);
        let now = t0.elapsed().as_millis() as u64;
        if id >= 0 && now > started + limit * 1000 && CURRENT.load(Ordering::SeqCst) == id {
            emit(&json!({"id": id, "hang": limit}));
            std::process::exit(3);
        }
    });
    for line in std::io::stdin().lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        if line.is_empty() { continue }
        let case: Value = serde_json::from_str(&line).expect("case is JSON");
        let id = case["id"].as_i64().unwrap();
        STARTED.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
        CURRENT.store(id, Ordering::SeqCst);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&case)));
        CURRENT.store(-1, Ordering::SeqCst);
        let out = match res {
            Ok(v) => json!({"id": id, "r": v}),
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({"id": id, "panic": msg})
            }
        };
        emit(&out);
    }
}

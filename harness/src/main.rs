//! Dumb executor: reads one JSON case per line, runs it against the crates in /repo and writes one
//! JSON observation per line.  No expected value is known here; floats travel as IEEE bit patterns.
mod util;
mod ad;
mod bayes;
mod dist;
mod meas;
mod misc;
mod native;
mod sym;
mod tagless;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn run(c: &Value) -> Value {
    match c["op"].as_str().unwrap_or("") {
        "dist" => dist::dist(c),
        "iid" => dist::iid(c),
        "uniform" => dist::uniform(c),
        "coef" => dist::coef(c),
        "tree" => meas::tree_case(c),
        "transform" => meas::transform(c),
        "wrt" => meas::wrt_pairs(c),
        "registry" => dist::registry(c),
        "pair" => meas::pair(c),
        "dsess" => meas::dsess(c),
        "decomp" => misc::decomp(c),
        "published" => misc::published(c),
        "conv" => misc::conv(c),
        "vecs" => misc::vecs(c),
        "ad_chain" => ad::chain(c),
        "ad_shape" => ad::shape(c),
        "ad_dens" => ad::dens(c),
        "expr" => sym::expr_case(c),
        "symdens" => sym::symdens(c),
        "builder" => sym::builder(c),
        "macros" => sym::macros(),
        "jit" => native::session(c),
        "egg" => native::egg(c),
        "tagless" => tagless::tagless(c),
        "taglessval" => tagless::values(c),
        "bayesmodel" => bayes::one(c),
        "bayes" => bayes::session(c),
        "cache" => sym::cache(c),
        "cthreads" => sym::cthreads(c),
        o => json!({"error": format!("unknown op {o}")}),
    }
}

/// user and system time of this process, in seconds
fn cpu_seconds() -> f64 {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = stat.rsplit(')').next().unwrap_or("");
    let f: Vec<f64> = rest.split_whitespace().map(|w| w.parse().unwrap_or(0.0)).collect();
    if f.len() > 12 { (f[11] + f[12]) / 100.0 } else { 0.0 }
}

/// one case that computes, or waits, for ever ends the process and is named in the output
fn watch(out: Arc<Mutex<BufWriter<std::fs::File>>>, current: Arc<AtomicI64>, cpu_limit: f64) {
    let (mut seen, mut cpu, mut wall) = (-1, 0.0, Instant::now());
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = current.load(Ordering::SeqCst);
        if now != seen {
            (seen, cpu, wall) = (now, cpu_seconds(), Instant::now());
        } else if now >= 0 && (cpu_seconds() - cpu > cpu_limit || wall.elapsed().as_secs() > 240) {
            let mut out = out.lock().unwrap();
            writeln!(out, "{}", json!({"hang": now})).unwrap();
            out.flush().unwrap();
            std::process::exit(8);
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::File::open(&args[1]).expect("input");
    let out = Arc::new(Mutex::new(BufWriter::new(std::fs::File::create(&args[2]).expect("output"))));
    let all_risky = args.iter().any(|a| a == "announce");
    let cpu_limit = std::env::var("VHARNESS_CPU").ok().and_then(|v| v.parse().ok()).unwrap_or(120.0);
    let current = Arc::new(AtomicI64::new(-1));
    {
        let (out, current) = (out.clone(), current.clone());
        std::thread::spawn(move || watch(out, current, cpu_limit));
    }
    for line in std::io::BufReader::new(input).lines() {
        let line = line.expect("read");
        if line.trim().is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).expect("json");
        let risky = all_risky || c["risky"] == json!(true);
        // a case that must survive a crash of the process announces itself first
        if risky {
            let mut out = out.lock().unwrap();
            writeln!(out, "{}", json!({"begin": c["id"]})).unwrap();
            out.flush().unwrap();
        }
        current.store(c["id"].as_i64().unwrap_or(-1), Ordering::SeqCst);
        let r = util::guard_v(|| run(&c));
        current.store(-1, Ordering::SeqCst);
        let mut out = out.lock().unwrap();
        writeln!(out, "{}", json!({"id": c["id"], "r": &r})).unwrap();
        if risky {
            out.flush().unwrap();
            if r["timeout"] == json!(true) {
                std::process::exit(9);
            }
        }
    }
    out.lock().unwrap().flush().unwrap();
    // a thread left behind by a case must not keep the process alive
    std::process::exit(0);
}

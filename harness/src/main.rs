//! Counterexample search and bounded stand-in: runs the real crates against executable forms of
//! the contracts / independent oracles.
//!   vp-harness run PROP --seed N --secs S --max N --out REPLAY.json [--trace FILE]
//!   vp-harness replay REPLAY.json
mod fixtures;
mod model;
mod p_command;
mod p_errors;
mod p_format;
mod p_iso;
mod p_lexer;
mod p_localiser;
mod p_provider;
mod p_registry;
mod p_script;
#[cfg(feature = "sync")]
mod p_sync;
mod rng;

use rng::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Check = Result<bool, String>;
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut Rng, u64) -> Value,
    pub check: fn(&Value) -> Check,
}

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_lexer::props());
    v.extend(p_registry::props());
    v.extend(p_command::props());
    v.extend(p_iso::props());
    v.extend(p_format::props());
    v.extend(p_localiser::props());
    v.extend(p_provider::props());
    v.extend(p_errors::props());
    v.extend(p_script::props());
    #[cfg(feature = "sync")]
    v.extend(p_sync::props());
    v
}

thread_local! { static WHERE: std::cell::Cell<String> = const { std::cell::Cell::new(String::new()) }; }
/// where it panicked, if it did
fn place(m: &str) -> Option<&str> { if m.starts_with("panic: ") { m.rsplit_once(" at ").map(|x| x.1) } else { None } }
fn guarded(p: &Prop, case: &Value) -> Check {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(case))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m} at {}", WHERE.with(|w| w.take())))
        }
    }
}

// generic structural shrinking of a failing case
fn shrink(p: &Prop, case: Value, msg: String) -> (Value, String) {
    let deadline = Instant::now() + Duration::from_secs(5);
    let (mut best, mut bm) = (case, msg);
    loop {
        let mut improved = false;
        let mut next = None;
        candidates(&best, &mut |cand| {
            if Instant::now() > deadline { return true; }
            if let Err(m) = guarded(p, &cand) {
                if !m.starts_with("bad case") && place(&m) == place(&bm) { next = Some((cand, m)); improved = true; return true; }
            }
            false
        });
        if let Some((c, m)) = next { best = c; bm = m; }
        if Instant::now() > deadline { return (best, bm); }
        if !improved { return (best, bm); }
    }
}
/// smaller cases one after the other, until `f` says so
fn candidates(v: &Value, f: &mut dyn FnMut(Value) -> bool) -> bool {
    match v {
        Value::String(s) => {
            let c: Vec<char> = s.chars().collect();
            let n = c.len();
            if n > 3 && (f(Value::String(c[..n / 2].iter().collect())) || f(Value::String(c[n / 2..].iter().collect()))) { return true; }
            // without a part, a character in the end
            let part = n.div_ceil(64).max(1);
            for i in (0..n).step_by(part) {
                let d: String = c[..i].iter().chain(&c[(i + part).min(n)..]).collect();
                if f(Value::String(d)) { return true; }
            }
        }
        Value::Array(a) => {
            let n = a.len();
            if n > 8 && (f(Value::Array(a[..n / 2].to_vec())) || f(Value::Array(a[n / 2..].to_vec()))) { return true; }
            let part = n.div_ceil(64).max(1);
            for i in (0..n).step_by(part) {
                let d: Vec<Value> = a[..i].iter().chain(&a[(i + part).min(n)..]).cloned().collect();
                if f(Value::Array(d)) { return true; }
            }
            for i in 0..n {
                if candidates(&a[i], &mut |c| { let mut b = a.clone(); b[i] = c; f(Value::Array(b)) }) { return true; }
            }
        }
        Value::Object(o) => {
            for k in o.keys() {
                if candidates(&o[k], &mut |c| { let mut b = o.clone(); b.insert(k.clone(), c); f(Value::Object(b)) }) { return true; }
            }
        }
        _ => {}
    }
    false
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| WHERE.with(|w| w.set(i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()))));
    let all: &'static Vec<Prop> = Box::leak(Box::new(props()));
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let p = all.iter().find(|p| p.id == id).unwrap();
            // what depends on the threads is tried again and again
            let t0 = Instant::now();
            let mut res = guarded(p, &v["case"]);
            while res.is_ok() && v["case"]["threads"].is_array() && t0.elapsed() < Duration::from_secs(20) { res = guarded(p, &v["case"]); }
            match res {
                Ok(_) => println!("replay: property {id} holds on this case"),
                Err(m) => {
                    println!("replay: property {id} fails: {m}");
                    fixtures::cleanup();
                    std::process::exit(1);
                }
            }
            fixtures::cleanup();
        }
        Some("list") => {
            for p in all { println!("{}", p.id); }
        }
        Some("run") => {
            let p = all.iter().find(|p| p.id == a[2]).unwrap_or_else(|| { eprintln!("no such property"); std::process::exit(2) });
            let seed: u64 = arg(&a, "--seed").unwrap().parse().unwrap();
            let secs: f64 = arg(&a, "--secs").unwrap().parse().unwrap();
            let max: u64 = arg(&a, "--max").map(|x| x.parse().unwrap()).unwrap_or(u64::MAX);
            let out = arg(&a, "--out").unwrap();
            let trace = arg(&a, "--trace");
            let threads: u64 = if trace.is_some() { 1 } else { arg(&a, "--threads").map(|x| x.parse().unwrap()).unwrap_or(if p.id.starts_with('Y') { 2 } else { 6 }) };
            let t0 = Instant::now();
            let stop = Arc::new(AtomicBool::new(false));
            let fail: Arc<Mutex<Option<(Value, String)>>> = Arc::new(Mutex::new(None));
            let evals = Arc::new(AtomicU64::new(0));
            let nontriv = Arc::new(Mutex::new(HashSet::<u64>::new()));
            let samples = Arc::new(Mutex::new(Vec::<Value>::new()));
            let mut cur: Vec<Arc<Mutex<(Option<Instant>, Value)>>> = vec![];
            let mut hs = vec![];
            for t in 0..threads {
                let c = Arc::new(Mutex::new((None, Value::Null)));
                cur.push(c.clone());
                let (stop, fail, evals, nontriv, samples, trace) = (stop.clone(), fail.clone(), evals.clone(), nontriv.clone(), samples.clone(), trace.clone());
                hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                    let mut i = t; // case number: threads interleave over the enumerated prefix
                    while !stop.load(Ordering::Relaxed) && i < max && t0.elapsed().as_secs_f64() < secs {
                        let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03));
                        let case = (p.gen)(&mut r, i);
                        if let Some(f) = &trace { let _ = std::fs::write(f, serde_json::to_string(&json!({"property": p.id, "case": case})).unwrap()); }
                        { let mut g = c.lock().unwrap(); *g = (Some(Instant::now()), case.clone()); }
                        let res = guarded(p, &case);
                        { c.lock().unwrap().0 = None; }
                        evals.fetch_add(1, Ordering::Relaxed);
                        match res {
                            Ok(nt) => if nt {
                                use std::hash::{Hash, Hasher};
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                case.to_string().hash(&mut h);
                                let mut g = nontriv.lock().unwrap();
                                if g.len() < 5_000_000 { g.insert(h.finish()); }
                                drop(g);
                                let mut s = samples.lock().unwrap();
                                if s.len() < 3 || (i % 997 == 0 && s.len() < 6) { s.push(case); }
                            },
                            Err(m) => {
                                let mut f = fail.lock().unwrap();
                                if f.is_none() { *f = Some((case, m)); }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        i += threads;
                    }
                }).unwrap());
            }
            // watchdog
            let hung: Option<Value> = loop {
                if hs.iter().all(|h| h.is_finished()) { break None; }
                std::thread::sleep(Duration::from_millis(30));
                let mut h = None;
                for c in &cur {
                    let g = c.lock().unwrap();
                    if let Some(s) = g.0 { if s.elapsed() > Duration::from_secs(30) { h = Some(g.1.clone()); } }
                }
                if h.is_some() { break h; }
            };
            let mut result = json!({"property": p.id, "seed": seed, "rule": p.rule});
            let mut code = 0;
            let mut violation = None;
            if let Some(case) = hung {
                violation = Some((case, "no result after 30 s (does not terminate)".to_string()));
            } else if let Some((case, m)) = fail.lock().unwrap().take() {
                violation = Some(shrink(p, case, m));
            }
            if let Some((case, m)) = violation {
                let rep = json!({"property": p.id, "case": case, "message": m,
                    "replay_command": format!("{} replay {out}", std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default())});
                std::fs::write(&out, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
                result["violation"] = rep;
                code = 1;
            }
            result["evaluations"] = json!(evals.load(Ordering::Relaxed));
            result["distinct_nontrivial"] = json!(nontriv.lock().unwrap().len());
            result["samples"] = json!(*samples.lock().unwrap());
            result["wall_s"] = json!(t0.elapsed().as_secs_f64());
            println!("{}", serde_json::to_string(&result).unwrap());
            fixtures::cleanup();
            std::process::exit(code);
        }
        _ => { eprintln!("usage"); std::process::exit(2) }
    }
}

//! Conformance driver: replays cases generated from the TLA+ specification into the real
//! library and reports every difference between what the specification says and what the
//! code does.  usage: driver MODE CASES.jsonl [--one INDEX] [--trace]
mod alloc;
mod block;
mod digm;
mod cli;
mod elfm;
mod hist;
mod keys;
mod modobj;
mod own;
mod proj;
mod readers;
mod sigs;
mod tamper;
mod verif;
mod zipm;

use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// One difference. `kind` says which aspect is affected.
pub struct Issue {
    pub kind: &'static str,
    pub what: String,
}
#[derive(Default)]
pub struct Report {
    pub issues: Vec<Issue>,
    /// counters: how often something was exercised
    pub hits: Vec<String>,
    pub out: Option<Value>,
}
impl Report {
    pub fn bad(&mut self, kind: &'static str, what: impl Into<String>) {
        self.issues.push(Issue { kind, what: what.into() });
    }
    pub fn hit(&mut self, h: impl Into<String>) {
        self.hits.push(h.into());
    }
    pub fn check(&mut self, ok: bool, kind: &'static str, what: impl FnOnce() -> String) {
        if !ok {
            self.bad(kind, what());
        }
    }
}

/// Runs code under test; a panic becomes an `Err`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = PANIC.with(|p| p.borrow().clone());
        format!("PANIC {m}")
    })
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 600 { format!("{}…", s.chars().take(600).collect::<String>()) } else { s }
}

type Handler = fn(&Value, &mut Report);

fn handler(mode: &str) -> Option<Handler> {
    Some(match mode {
        "parse" => block::parse,
        "build" => block::build,
        "pad" => block::pad,
        "limit" => block::limit,
        "zip" => zipm::zip,
        "parsemod" => zipm::parsemod,
        "digest" => digm::digest,
        "hist" => hist::hist,
        "alg" => sigs::alg,
        "algdata" => sigs::algdata,
        "ids" => sigs::ids,
        "signer" => sigs::signer,
        "size" => sigs::size,
        "object" => modobj::object,
        "elf" => elfm::elf,
        "elfbytes" => elfm::elfbytes,
        "reader" => readers::reader,
        "tamper" => tamper::tamper,
        "keys" => keys::keys,
        "cli" => cli::cli,
        #[cfg(feature = "verify")]
        "chain" => verif::chain,
        #[cfg(feature = "verify")]
        "verify" => cli::verify,
        #[cfg(feature = "verify")]
        "attack" => verif::attack,
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (Some(mode), Some(path)) = (args.get(1), args.get(2)) else { usage() };
    let Some(h) = handler(mode) else { usage() };
    let one: Option<usize> = args.iter().position(|a| a == "--one").and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok());
    let trace = args.iter().any(|a| a == "--trace");
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("{path}: {e}"); std::process::exit(2) });
    let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
    let n = lines.len();
    let next = AtomicUsize::new(one.unwrap_or(0));
    let stop = one.map_or(n, |o| o + 1);
    let threads = if trace || one.is_some() { 1 } else { std::thread::available_parallelism().map_or(4, |x| x.get()) };
    let out = Mutex::new(std::io::BufWriter::new(std::io::stdout()));
    let hits = Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    let bad = AtomicUsize::new(0);
    let t0 = Instant::now();
    let running: Vec<(AtomicUsize, AtomicU64)> = (0..threads).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect();
    let finished = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for slot in &running {
            let (next, out, hits, bad, lines, finished) = (&next, &out, &hits, &bad, &lines, &finished);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut local = std::collections::BTreeMap::<String, u64>::new();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= stop { break; }
                    slot.1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                    slot.0.store(i, Ordering::Relaxed);
                    if trace { eprintln!("CASE {i}"); }
                    let v: Value = match serde_json::from_str(lines[i]) {
                        Ok(v) => v,
                        Err(e) => { eprintln!("case {i}: {e}"); std::process::exit(2) }
                    };
                    let mut r = Report::default();
                    if let Err(e) = guarded(|| h(&v, &mut r)) {
                        r.bad("panic", e);
                    }
                    for x in r.hits { *local.entry(x).or_default() += 1; }
                    if let Some(o) = r.out {
                        let _ = writeln!(out.lock().unwrap(), "{}", json!({"i": i, "out": o}));
                    }
                    if !r.issues.is_empty() {
                        bad.fetch_add(1, Ordering::Relaxed);
                        let is: Vec<Value> = r.issues.iter().map(|x| json!({"kind": x.kind, "what": x.what})).collect();
                        let _ = writeln!(out.lock().unwrap(), "{}", json!({"i": i, "issues": is}));
                    }
                    slot.0.store(usize::MAX, Ordering::Relaxed);
                }
                let mut g = hits.lock().unwrap();
                for (k, v) in local { *g.entry(k).or_default() += v; }
                finished.fetch_add(1, Ordering::Relaxed);
            }).unwrap();
        }
        // watchdog: code under test that does not come back
        let (running, finished, out) = (&running, &finished, &out);
        s.spawn(move || while finished.load(Ordering::Relaxed) < threads {
            std::thread::sleep(Duration::from_millis(20));
            for slot in running {
                let i = slot.0.load(Ordering::Relaxed);
                if i != usize::MAX && (t0.elapsed().as_millis() as u64).saturating_sub(slot.1.load(Ordering::Relaxed)) > 120_000 {
                    let mut o = out.lock().unwrap();
                    let _ = writeln!(o, "{}", json!({"i": i, "issues": [{"kind": "hang", "what": "no result after 120 s"}]}));
                    let _ = o.flush();
                    std::process::exit(4);
                }
            }
        });
    });
    let mut o = out.lock().unwrap();
    let _ = writeln!(o, "{}", json!({"done": stop.min(n) - one.unwrap_or(0), "bad": bad.load(Ordering::Relaxed), "hits": *hits.lock().unwrap()}));
    let _ = o.flush();
}

fn usage() -> ! {
    eprintln!("usage: driver MODE CASES.jsonl [--one INDEX] [--trace]");
    std::process::exit(2)
}

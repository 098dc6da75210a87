//! Command line: runs the cases of one property in several processes, shrinks a failure, writes the evidence.

use crate::case::Case;
use crate::props;
use crate::tape::{shrink, Tape};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 32;
    }
    h
}

fn id_hash(id: &str) -> u64 {
    id.bytes().fold(7u64, |a, b| a.wrapping_mul(257).wrapping_add(b as u64))
}

/// CPU seconds used by this process
fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let v: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| v.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub enum Ran {
    Done(Case),
    Broken(String),
}

pub fn one(p: &props::Prop, tape: Tape, verbose: bool) -> Ran {
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    let mut case = Case::new(tape, p.id);
    case.verbose = verbose;
    let f = p.run;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut case)));
    match r {
        Ok(()) => Ran::Done(case),
        // the history had already gone wrong
        Err(_) if case.failed() => Ran::Done(case),
        Err(e) => {
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let at = LAST_PANIC.with(|x| x.borrow().clone());
            Ran::Broken(format!("{s} at {at}"))
        }
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|x| *x.borrow_mut() = at);
    }));
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, name: &str) -> Option<String> {
        let i = self.0.iter().position(|a| a == name)?;
        self.0.get(i + 1).cloned()
    }
    fn num(&self, name: &str, default: u64) -> u64 {
        self.get(name).and_then(|s| s.parse().ok()).unwrap_or(default)
    }
}

pub fn main() -> i32 {
    let args = Args(std::env::args().skip(1).collect());
    let Some(cmd) = args.0.first().cloned() else {
        eprintln!("usage: dbc-verif run|shard|replay <property> ...");
        return 2;
    };
    let all = props::all();
    if cmd == "list" {
        for p in &all {
            println!("{}", p.id);
        }
        return 0;
    }
    let id = args.0.get(1).cloned().unwrap_or_default();
    let Some(p) = all.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    match cmd.as_str() {
        "shard" => shard(p, &args),
        "replay" => replay(p, &args),
        "run" => parent(p, &args),
        _ => 2,
    }
}

fn devnull_stdout() {
    // the program under test prints its log; nobody reads it
    use std::os::fd::AsRawFd;
    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            dup2(f.as_raw_fd(), 1);
        }
        std::mem::forget(f);
    }
}

fn choices_json(v: &[u64]) -> Value {
    Value::Array(v.iter().map(|x| json!(x.to_string())).collect())
}

fn shard(p: &props::Prop, args: &Args) -> i32 {
    let out = args.get("--out").expect("--out");
    let seed = args.num("--seed", 1);
    let n = args.num("--cases", 100);
    let k = args.num("--shard", 0);
    let of = args.num("--of", 1);
    let cap = Duration::from_secs(args.num("--cap", 60));
    let hang = args.num("--hang", 150) as f64;
    quiet();
    crate::world::install();
    devnull_stdout();
    let t0 = Instant::now();
    // a case that does not end
    let current: std::sync::Arc<std::sync::Mutex<(u64, u64)>> = Default::default();
    {
        let current = current.clone();
        let out = out.clone();
        std::thread::spawn(move || {
            let mut seen = 0;
            let mut since = 0.0;
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let now = PROGRESS.load(Ordering::SeqCst);
                let cpu = cpu_seconds();
                if now != seen {
                    seen = now;
                    since = cpu;
                } else if cpu - since > hang {
                    let (i, s) = *current.lock().unwrap();
                    let v = json!({"hang": true, "index": i, "case_seed": s.to_string()});
                    let _ = std::fs::write(&out, v.to_string());
                    std::process::exit(0);
                }
            }
        });
    }
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let (mut ran, mut checks, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut digests: Vec<u64> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure: Option<Value> = None;
    let mut capped = false;
    let mut i = k;
    while i < n {
        if t0.elapsed() > cap {
            capped = true;
            break;
        }
        let cs = hash64(&[seed, id_hash(p.id), i]);
        *current.lock().unwrap() = (i, cs);
        let c = match one(p, Tape::random(cs), false) {
            Ran::Broken(e) => {
                if broken.len() < 3 {
                    broken.push(format!("case {i}: {e}"));
                }
                i += of;
                ran += 1;
                continue;
            }
            Ran::Done(c) => c,
        };
        ran += 1;
        checks += c.checks;
        for (h, m) in &c.hits {
            *hits.entry(h.clone()).or_insert(0) += m;
        }
        for f in &c.foreign {
            if foreign.len() < 20 {
                *foreign.entry(f.chars().take(300).collect()).or_insert(0) += 1;
            }
        }
        if c.checks > 0 && (p.keys.is_empty() || p.keys.iter().any(|k| c.hits.contains_key(*k))) {
            nontrivial += 1;
            digests.push(hash64(&c.t.choices[..c.t.used().min(c.t.choices.len())]));
            if samples.len() < 2 && k < 3 {
                samples.push(json!({"case": i, "checks": c.checks, "hits": c.hits, "log": c.log.iter().take(40).map(|s| s.chars().take(900).collect::<String>()).collect::<Vec<_>>()}));
            }
        }
        if let Some(msg) = &c.fail {
            let used = c.t.used().min(c.t.choices.len());
            let budget = Duration::from_secs(args.num("--shrink", 20));
            let small = shrink(c.t.choices[..used].to_vec(), budget, |v| match one(p, Tape::replay(v.to_vec()), false) {
                Ran::Done(c) => c.failed(),
                Ran::Broken(_) => false,
            });
            let (msg2, log) = match one(p, Tape::replay(small.clone()), true) {
                Ran::Done(c) => (c.fail.clone().unwrap_or_default(), c.log),
                Ran::Broken(e) => (e, vec![]),
            };
            failure = Some(json!({"index": i, "message": msg2, "first_message": msg, "choices": choices_json(&small), "original": choices_json(&c.t.choices[..used]), "log": log}));
            break;
        }
        i += of;
    }
    let v = json!({
        "ran": ran, "checks": checks, "nontrivial": nontrivial, "hits": hits, "samples": samples, "broken": broken,
        "foreign": foreign, "failure": failure, "capped": capped, "seconds": t0.elapsed().as_secs_f64(),
        "digests": digests.iter().map(|d| format!("{d:x}")).collect::<Vec<_>>().join(" "),
    });
    std::fs::write(&out, v.to_string()).expect("write shard result");
    0
}

fn replay(p: &props::Prop, args: &Args) -> i32 {
    quiet();
    crate::world::install();
    if std::env::var("BT").is_ok() {
        std::panic::set_hook(Box::new(|i| eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture())));
    }
    if let Some(i) = args.get("--case") {
        let cs = hash64(&[args.num("--seed", 1), id_hash(p.id), i.parse().unwrap()]);
        return show(one(p, Tape::random(cs), true));
    }
    let file = args.get("--file").expect("--file");
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&file).expect("read replay")).expect("parse replay");
    let tape = match v.get("choices").and_then(|x| x.as_array()) {
        Some(a) => Tape::replay(a.iter().filter_map(|x| x.as_str()?.parse().ok()).collect()),
        None => Tape::random(v["case_seed"].as_str().and_then(|s| s.parse().ok()).expect("case seed")),
    };
    show(one(p, tape, true))
}

fn show(r: Ran) -> i32 {
    match r {
        Ran::Broken(e) => {
            eprintln!("harness error: {e}");
            2
        }
        Ran::Done(c) => {
            for l in &c.log {
                eprintln!("{l}");
            }
            match c.fail {
                None => {
                    eprintln!("no violation: {} checks, hits {:?}", c.checks, c.hits);
                    0
                }
                Some(m) => {
                    eprintln!("violation: {m}");
                    1
                }
            }
        }
    }
}

fn parent(p: &props::Prop, args: &Args) -> i32 {
    let t0 = Instant::now();
    let seed = args.num("--seed", 1);
    let tier = args.get("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let n = args.num("--cases", if thorough { p.thorough } else { p.quick });
    let shards = args.num("--shards", 8).max(1);
    let cap = args.num("--cap", if thorough { 3000 } else { 240 });
    let evidence = args.get("--evidence").expect("--evidence");
    let replay_path = args.get("--replay-out").expect("--replay-out");
    let known = args.get("--known");
    let dir = args.get("--tmp").expect("--tmp");
    let _ = std::fs::create_dir_all(&dir);
    let exe = std::env::current_exe().expect("own path");
    let mut kids = vec![];
    for k in 0..shards {
        let out = format!("{dir}/{}-{}.json", p.id, k);
        let _ = std::fs::remove_file(&out);
        let kid = std::process::Command::new(&exe)
            .args(["shard", p.id, "--out", &out])
            .args(["--seed", &seed.to_string(), "--cases", &n.to_string()])
            .args(["--shard", &k.to_string(), "--of", &shards.to_string()])
            .args(["--cap", &cap.to_string(), "--shrink", if thorough { "60" } else { "20" }])
            .stdin(std::process::Stdio::null())
            .spawn()
            .expect("start shard");
        kids.push((k, out, kid));
    }
    let mut results: Vec<Value> = vec![];
    let mut crashed = vec![];
    for (k, out, mut kid) in kids {
        let status = kid.wait().expect("wait");
        match std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
            Some(v) if status.success() => results.push(v),
            _ => crashed.push(format!("shard {k}: {status}")),
        }
        let _ = std::fs::remove_file(&out);
    }
    let sum = |f: &str| results.iter().map(|v| v[f].as_u64().unwrap_or(0)).sum::<u64>();
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<String> = HashSet::new();
    let mut samples = vec![];
    let mut broken = vec![];
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut failures: Vec<&Value> = vec![];
    let mut capped = false;
    for v in &results {
        if let Some(m) = v["hits"].as_object() {
            for (k, x) in m {
                *hits.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
        }
        if let Some(m) = v["foreign"].as_object() {
            for (k, x) in m {
                *foreign.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
        }
        for d in v["digests"].as_str().unwrap_or("").split_whitespace() {
            distinct.insert(d.to_string());
        }
        if samples.len() < 4 {
            samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        }
        for b in v["broken"].as_array().cloned().unwrap_or_default() {
            broken.push(b);
        }
        capped |= v["capped"].as_bool().unwrap_or(false);
        if !v["failure"].is_null() {
            failures.push(&v["failure"]);
        }
        if v["hang"].as_bool().unwrap_or(false) {
            failures.push(v);
        }
    }
    samples.truncate(4);
    let _ = known;
    let mut code = 0;
    // the smallest counterexample
    failures.sort_by_key(|f| (f["choices"].as_array().map(|a| a.len()).unwrap_or(usize::MAX), f["index"].as_u64().unwrap_or(0)));
    let violation = failures.first().map(|f| (*f).clone());
    if let Some(f) = &violation {
        let mut f = f.clone();
        f["property"] = json!(p.id);
        f["seed"] = json!(seed);
        if f["hang"].as_bool().unwrap_or(false) {
            f["message"] = json!("the program did not finish an instruction within the CPU-time limit");
        }
        let _ = std::fs::write(&replay_path, serde_json::to_string_pretty(&f).unwrap());
        eprintln!("{}: {}", p.id, f["message"].as_str().unwrap_or(""));
        for l in f["log"].as_array().cloned().unwrap_or_default() {
            eprintln!("   {}", l.as_str().unwrap_or(""));
        }
        println!("VIOLATION property={} replay={}", p.id, replay_path);
        code = 1;
    } else if !crashed.is_empty() || !broken.is_empty() {
        code = 2;
    } else if sum("nontrivial") == 0 {
        eprintln!("harness error: no case met the situations of {}", p.id);
        code = 2;
    }
    for b in &broken {
        eprintln!("harness error: {b}");
    }
    for c in &crashed {
        eprintln!("harness error: {c}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let e = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum("ran"),
            "oracle_checks": sum("checks"),
            "nontrivial": sum("nontrivial"),
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "situations": hits,
            "cases_planned": n,
            "stopped_by_time_limit": capped,
            "samples": samples,
        },
        "violation": violation.map(|f| f["message"].clone()),
        "wall_s": wall,
    });
    let _ = std::fs::write(&evidence, serde_json::to_string_pretty(&e).unwrap());
    if args.num("--verbose", 0) > 0 {
        for (k, n) in &foreign {
            eprintln!("other property: {n} {k}");
        }
        for (k, n) in &hits {
            eprintln!("   {n:8} {k}");
        }
    }
    eprintln!(
        "{}: {} cases, {} non-trivial ({} distinct), {} checks, {:.1} s{}",
        p.id,
        sum("ran"),
        sum("nontrivial"),
        distinct.len(),
        sum("checks"),
        wall,
        if capped { ", stopped by the time limit" } else { "" }
    );
    let _ = std::io::stdout().flush();
    code
}

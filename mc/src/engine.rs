//! Driver: enumerates work units over worker processes, isolates crashes and hangs, writes evidence and replays.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn getrlimit(res: i32, lim: *mut [u64; 2]) -> i32;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn name(self) -> &'static str { match self { Tier::Quick => "quick", Tier::Thorough => "thorough" } }
    pub fn thorough(self) -> bool { self == Tier::Thorough }
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
}

#[derive(Debug, Clone)]
pub struct Viol { pub key: String, pub input: Value, pub detail: String }
pub type Res = Result<(), Viol>;

pub struct CheckDef {
    pub id: &'static str,
    /// what is enumerated, in words
    pub rule: &'static str,
    pub bounds: fn(Tier) -> Value,
    pub assumptions: &'static [&'static str],
    pub units: fn(Tier) -> usize,
    pub run: fn(&mut Ctx, usize) -> Res,
    /// seconds without progress in one case before it counts as hanging
    pub stall_s: u64,
    /// at most this many workers
    pub workers: usize,
}

pub struct Ctx {
    pub tier: Tier,
    pub unit: usize,
    pub scratch: PathBuf,
    case: u64,
    stop_at: Option<u64>,
    shared: *mut u64,
    slot: usize,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    counters: BTreeMap<String, u64>,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    sample_classes: BTreeSet<String>,
    known: Vec<(String, String)>,
    known_hit: BTreeSet<usize>,
}

/// Returned when a replay has reached the case it was asked for.
const STOP_KEY: &str = "\u{0}replay-done";

impl Ctx {
    /// Marks the start of one enumerated case (for crash attribution and replay).
    #[inline]
    pub fn begin(&mut self) -> Res {
        if let Some(s) = self.stop_at {
            if self.case > s { return Err(Viol { key: STOP_KEY.into(), input: Value::Null, detail: String::new() }); }
        }
        unsafe { std::ptr::write_volatile(self.shared.add(8 + self.slot * 4 + 1), self.case); }
        self.case += 1;
        Ok(())
    }
    pub fn case_no(&self) -> u64 { self.case }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) { *v += n } else { self.counters.insert(k.to_string(), n); }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max_{k}");
        let e = self.counters.entry(k).or_insert(0);
        if *e < n { *e = n }
    }
    pub fn outcome(&mut self, k: &str) {
        if let Some(v) = self.outcomes.get_mut(k) { *v += 1 } else { self.outcomes.insert(k.to_string(), 1); }
    }
    pub fn sample(&mut self, class: &str, v: impl FnOnce() -> Value) {
        if self.samples.len() < 12 && !self.sample_classes.contains(class) {
            self.sample_classes.insert(class.to_string());
            self.samples.push(json!({"class": class, "case": v()}));
        }
    }
    /// Report a violation: Ok if it is a listed known finding, Err otherwise.
    pub fn fail(&mut self, key: impl Into<String>, input: Value, detail: impl Into<String>) -> Res {
        let key = key.into();
        for (i, (k, _)) in self.known.iter().enumerate() {
            if *k == key { self.known_hit.insert(i); return Ok(()); }
        }
        Err(Viol { key, input, detail: detail.into() })
    }
}

fn verif_dir() -> PathBuf { std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }
pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }

fn load_known(id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.jsonl")) {
        for l in s.lines() {
            if let Ok(v) = serde_json::from_str::<Value>(l) {
                if v["status"] == "known" && v["property"] == id {
                    out.push((v["key"].as_str().unwrap_or("").to_string(), v["what"].as_str().unwrap_or("").to_string()));
                }
            }
        }
    }
    out
}

fn map_shared(path: &Path) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("shm open");
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p as *mut u64
}

fn run_unit(def: &'static CheckDef, cx: &mut Ctx, unit: usize) -> Res {
    cx.unit = unit;
    cx.case = 0;
    unsafe {
        std::ptr::write_volatile(cx.shared.add(8 + cx.slot * 4 + 1), 0);
        std::ptr::write_volatile(cx.shared.add(8 + cx.slot * 4), unit as u64 + 1);
    }
    struct SendPtr<T>(*mut T);
    unsafe impl<T> Send for SendPtr<T> {}
    let p = SendPtr(cx as *mut Ctx);
    // a fresh thread per unit: its hash keys depend only on the unit and VERIF_SEED
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let p = p;
        crate::interpose::seed_thread((seed() ^ 0x5DEECE66D).wrapping_mul(0x9E3779B97F4A7C15) ^ (unit as u64).wrapping_mul(0xD1342543DE82EF95));
        let cx = unsafe { &mut *p.0 };
        (def.run)(cx, unit)
    }).expect("spawn");
    match h.join() {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            eprintln!("engine error: harness panicked in unit {} case {}: {}", unit, cx.case, m);
            std::process::exit(70);
        }
    }
}

fn new_ctx(def: &CheckDef, tier: Tier, scratch: &Path, shared: *mut u64, slot: usize) -> Ctx {
    Ctx { tier, unit: 0, scratch: scratch.to_path_buf(), case: 0, stop_at: None, shared, slot, states: 0, transitions: 0, traces: 0,
        counters: BTreeMap::new(), outcomes: BTreeMap::new(), samples: vec![], sample_classes: BTreeSet::new(),
        known: load_known(def.id), known_hit: BTreeSet::new() }
}

/// Lifts the soft memory limit again (for helper processes, between fork and exec).
pub fn unlimit_memory() { unsafe { let mut l = [0u64; 2]; if getrlimit(9, &mut l) == 0 { l[0] = l[1]; setrlimit(9, &l); } } }
fn limit_memory() { unsafe { let mut l = [0u64; 2]; getrlimit(9, &mut l); l[0] = (5u64 << 29).min(l[1]); setrlimit(9, &l); let c = [0u64, 0]; setrlimit(4, &c); } }

fn worker(def: &'static CheckDef, tier: Tier, slot: usize, scratch: &Path) -> ! {
    limit_memory();
    let shared = map_shared(&scratch.join("shm"));
    let n = (def.units)(tier);
    let mut cx = new_ctx(def, tier, scratch, shared, slot);
    let next = unsafe { &*(shared as *const std::sync::atomic::AtomicU64) };
    let mut viol: Option<(usize, u64, Viol)> = None;
    loop {
        let u = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize;
        if u >= n { break; }
        if let Err(v) = run_unit(def, &mut cx, u) { viol = Some((u, cx.case - 1, v)); break; }
    }
    let out = json!({
        "states": cx.states, "transitions": cx.transitions, "traces": cx.traces, "counters": cx.counters,
        "outcomes": cx.outcomes, "samples": cx.samples, "known_hit": cx.known_hit.iter().collect::<Vec<_>>(),
        "viol": viol.as_ref().map(|(u, c, v)| json!({"unit": u, "case": c, "key": v.key, "input": v.input, "detail": v.detail})),
    });
    let tmp = scratch.join(format!("res_{slot}.tmp"));
    std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).unwrap();
    std::fs::rename(&tmp, scratch.join(format!("res_{slot}.json"))).unwrap();
    std::process::exit(0);
}

fn one(def: &'static CheckDef, tier: Tier, unit: usize, case: u64, scratch: &Path) -> ! {
    limit_memory();
    let shared = map_shared(&scratch.join("shm"));
    let mut cx = new_ctx(def, tier, scratch, shared, 0);
    cx.stop_at = Some(case);
    match run_unit(def, &mut cx, unit) {
        Err(v) if v.key != STOP_KEY => {
            println!("REPRODUCED property={} unit={} case={} key={}\ninput: {}\ndetail: {}", def.id, unit, cx.case - 1, v.key, v.input, v.detail);
            std::process::exit(1)
        }
        _ => { println!("not reproduced: property={} unit={} case={}", def.id, unit, case); std::process::exit(0) }
    }
}

fn make_scratch(id: &str) -> PathBuf {
    let base = std::env::temp_dir().join(format!("syntaxis-mc-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("scratch");
    std::fs::write(base.join("shm"), vec![0u8; 4096]).unwrap();
    base
}

/// Runs one case in its own process; Some(status) or None if it hung.
fn run_one_isolated(def: &CheckDef, tier: Tier, unit: usize, case: u64, scratch: &Path) -> Option<std::process::ExitStatus> {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["--one", &unit.to_string(), &case.to_string(), "--tier", tier.name(), "--scratch"]).arg(scratch)
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
    // replaying a unit may have to redo its earlier cases as well
    let t = Instant::now();
    let shared = map_shared(&scratch.join("shm"));
    let mut last = (u64::MAX, Instant::now());
    loop {
        if let Some(st) = ch.try_wait().unwrap() { return Some(st); }
        let c = unsafe { std::ptr::read_volatile(shared.add(8 + 1)) };
        if c != last.0 { last = (c, Instant::now()); }
        if last.1.elapsed() > Duration::from_secs(def.stall_s) || t.elapsed() > Duration::from_secs(400) {
            let _ = ch.kill(); let _ = ch.wait(); return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn main(def: &'static CheckDef) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).map(|i| i + 1);
    let tier = match get("--tier").map(|i| args[i].as_str()) { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
    if let Some(i) = get("--worker") {
        worker(def, tier, args[i].parse().unwrap(), Path::new(&args[get("--scratch").unwrap()]));
    }
    if let Some(i) = get("--one") {
        one(def, tier, args[i].parse().unwrap(), args[i + 1].parse().unwrap(), Path::new(&args[get("--scratch").unwrap()]));
    }
    if let Some(i) = get("--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[i]).expect("replay file")).expect("replay json");
        let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        if let Some(s) = v["seed"].as_u64() { std::env::set_var("VERIF_SEED", s.to_string()); }
        let scratch = make_scratch(def.id);
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["--one", &v["unit"].to_string(), &v["case"].to_string(), "--tier", tier.name(), "--scratch"]).arg(&scratch)
            .status().unwrap();
        let _ = std::fs::remove_dir_all(&scratch);
        std::process::exit(match st.code() { Some(c) => c, None => { println!("REPRODUCED crash: {st}"); 1 } });
    }
    let t0 = Instant::now();
    let scratch = make_scratch(def.id);
    let r = explore(def, tier, &scratch, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(r);
}

fn explore(def: &'static CheckDef, tier: Tier, scratch: &Path, t0: Instant) -> i32 {
    let n_units = (def.units)(tier);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let nw = cores.min(def.workers).min(n_units.max(1)).min(64);
    let shared = map_shared(&scratch.join("shm"));
    let mut kids: Vec<Option<Child>> = (0..nw).map(|i| Some(Command::new(std::env::current_exe().unwrap())
        .args(["--worker", &i.to_string(), "--tier", tier.name(), "--scratch"]).arg(scratch)
        .stdout(Stdio::null()).spawn().expect("spawn worker"))).collect();
    let mut results: Vec<Value> = vec![];
    let mut last: Vec<((u64, u64), Instant)> = vec![((u64::MAX, 0), Instant::now()); nw];
    let mut violation: Option<Value> = None;
    let mut suspect: Option<(usize, u64, String)> = None;
    'outer: while kids.iter().any(|k| k.is_some()) {
        for i in 0..nw {
            let Some(k) = kids[i].as_mut() else { continue };
            if let Some(st) = k.try_wait().unwrap() {
                kids[i] = None;
                if st.code() == Some(0) {
                    let v: Value = serde_json::from_slice(&std::fs::read(scratch.join(format!("res_{i}.json"))).expect("worker result")).unwrap();
                    if !v["viol"].is_null() { violation = Some(v["viol"].clone()); results.push(v); break 'outer; }
                    results.push(v);
                } else if st.code() == Some(70) {
                    eprintln!("{}: harness error in worker {i}", def.id);
                    kill_all(&mut kids);
                    return 2;
                } else {
                    let u = unsafe { std::ptr::read_volatile(shared.add(8 + i * 4)) };
                    let c = unsafe { std::ptr::read_volatile(shared.add(8 + i * 4 + 1)) };
                    suspect = Some(((u as usize).wrapping_sub(1), c, format!("the process died: {st}")));
                    break 'outer;
                }
            } else {
                let u = unsafe { std::ptr::read_volatile(shared.add(8 + i * 4)) };
                let c = unsafe { std::ptr::read_volatile(shared.add(8 + i * 4 + 1)) };
                if last[i].0 != (u, c) { last[i] = ((u, c), Instant::now()); }
                if last[i].1.elapsed() > Duration::from_secs(def.stall_s) && u > 0 {
                    suspect = Some((u as usize - 1, c, format!("no result after {} s", def.stall_s)));
                    break 'outer;
                }
            }
        }
        std::thread::sleep(Duration::from_millis(4));
    }
    kill_all(&mut kids);
    let mut engine_error = None;
    if let Some((u, c, why)) = suspect {
        // A crash or hang is only a verdict if the same case does it again on its own.
        match run_one_isolated(def, tier, u, c, scratch) {
            Some(st) if st.code() == Some(0) => engine_error = Some(format!("worker failed ({why}) at unit {u} case {c} but the case passes alone")),
            Some(st) if st.code() == Some(70) || st.code() == Some(2) => engine_error = Some(format!("worker failed ({why}) at unit {u} case {c}; harness error")),
            Some(st) => violation = Some(json!({"unit": u, "case": c, "key": "crash", "input": null, "detail": format!("code under test does not survive this case: {why}; alone: {st}")})),
            None => violation = Some(json!({"unit": u, "case": c, "key": "hang", "input": null, "detail": format!("code under test does not terminate on this case: {why}, and again when run alone")})),
        }
    }
    // aggregate
    let mut states = 0; let mut trans = 0; let mut traces = 0;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![]; let mut seen = BTreeSet::new();
    let mut known_hit = BTreeSet::new();
    for r in &results {
        states += r["states"].as_u64().unwrap(); trans += r["transitions"].as_u64().unwrap(); traces += r["traces"].as_u64().unwrap();
        for (k, v) in r["counters"].as_object().unwrap() {
            let v = v.as_u64().unwrap(); let e = counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") { *e = (*e).max(v) } else { *e += v }
        }
        for (k, v) in r["outcomes"].as_object().unwrap() { *outcomes.entry(k.clone()).or_insert(0) += v.as_u64().unwrap(); }
        for s in r["samples"].as_array().unwrap() {
            if samples.len() < 12 && seen.insert(s["class"].as_str().unwrap().to_string()) { samples.push(s.clone()); }
        }
        for k in r["known_hit"].as_array().unwrap() { known_hit.insert(k.as_u64().unwrap() as usize); }
    }
    let complete = violation.is_none() && engine_error.is_none();
    let ev = json!({
        "property": def.id, "tier": tier.name(), "seed": seed(), "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": traces,
            "samples": samples, "rule": def.rule, "bounds": (def.bounds)(tier), "work_units": n_units,
            "counters": counters, "distinct_outcomes": outcomes, "exhaustive": complete,
        },
        "assumptions": def.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", def.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    let known = load_known(def.id);
    if let Some(e) = engine_error { eprintln!("{}: engine error: {e}", def.id); return 2; }
    if let Some(v) = violation {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", def.id));
        let rep = json!({"property": def.id, "tier": tier.name(), "seed": seed(), "unit": v["unit"], "case": v["case"], "key": v["key"],
            "input": v["input"], "detail": v["detail"], "how": format!("bash /verif/check.sh {} replay {}", def.id, path.display())});
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap() + "\n").expect("replay");
        println!("{}: {}", def.id, v["detail"].as_str().unwrap_or(""));
        println!("input: {}", v["input"]);
        println!("VIOLATION property={} replay={}", def.id, path.display());
        return 1;
    }
    for (i, (_, what)) in known.iter().enumerate() {
        if known_hit.contains(&i) { println!("KNOWN-FINDING: property={} {}", def.id, what); }
    }
    println!("OK property={} tier={} states={} transitions={} traces={} wall={:.1}s", def.id, tier.name(), states, trans, traces, t0.elapsed().as_secs_f64());
    0
}

fn kill_all(kids: &mut Vec<Option<Child>>) {
    for k in kids.iter_mut() { if let Some(c) = k.as_mut() { let _ = c.kill(); let _ = c.wait(); } *k = None; }
}

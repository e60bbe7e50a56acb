//! Seeded batch runner: executes many simulated runs, aggregates what was covered, minimises and
//! replays failures, writes the evidence file and decides the exit status.

use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Map, Value};

use crate::rng::{mix64, Rng};

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable class of the failure, used for minimisation and for known findings
    pub sig: String,
    pub detail: String,
    pub trace: Vec<String>,
}

impl Violation {
    pub fn new(sig: impl Into<String>, detail: impl Into<String>) -> Violation {
        Violation { sig: sig.into(), detail: detail.into(), trace: vec![] }
    }
    pub fn with_trace(mut self, t: Vec<String>) -> Violation {
        self.trace = t;
        self
    }
}

/// What one run covered; merged over all runs.
#[derive(Default, Clone)]
pub struct Cov {
    pub counts: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub sim_ns: u64,
    pub steps: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
    /// digest of everything observable in the run, for the determinism self-check
    pub digest: u64,
}

impl Cov {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn fault(&mut self, k: &str) {
        self.add(&format!("fault:{k}"), 1);
    }
    pub fn note(&mut self, h: u64) {
        self.digest = mix64(self.digest ^ h);
    }
    pub fn note_bytes(&mut self, b: &[u8]) {
        self.note(crate::rng::hash_bytes(b));
    }
    fn merge(&mut self, o: Cov) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.states.extend(o.states);
        self.nontrivial.extend(o.nontrivial);
        self.sim_ns += o.sim_ns;
        self.steps += o.steps;
        self.digest ^= o.digest; // commutative: independent of worker count
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

pub trait Sim: Sync {
    /// draws one run: everything the run does is contained in the returned case
    fn gen(&self, rng: &mut Rng, index: u64) -> Value;
    /// executes it: a pure function of the case and the code under test
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation>;
    /// simpler candidates, most aggressive first
    fn shrink(&self, case: &Value) -> Vec<Value>;
    /// a directed list of cases always run before the random ones (directed regressions)
    fn directed(&self) -> Vec<Value> {
        vec![]
    }
}

pub struct Meta {
    pub property: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub states_measure: &'static str,
    pub real: Vec<&'static str>,
    pub stub: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub max_workers: usize,
    /// every worker is a process with one thread: runs fork
    pub forked: bool,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

#[derive(Clone)]
pub struct Known {
    pub sig: String,
    pub text: String,
}

pub fn known_findings(property: &str) -> Vec<Known> {
    let p = verif_dir().join("KNOWN_FINDINGS.txt");
    let text = std::fs::read_to_string(p).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        // finding: property=<id> sig=<sig> <text>
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let mut it = r.splitn(3, ' ');
        let id = it.next().unwrap_or("");
        let sig = it.next().and_then(|s| s.strip_prefix("sig=")).unwrap_or("");
        if id == property && !sig.is_empty() {
            v.push(Known { sig: sig.to_string(), text: it.next().unwrap_or("").to_string() });
        }
    }
    v
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{msg} @ {loc}");
            }
        });
        if std::env::var_os("DST_PANICS").is_some() || loc.contains("dst/src") || loc.starts_with("src/") {
            eprintln!("harness panic: {msg} @ {loc}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.try_with(|l| l.borrow().clone()).unwrap_or_default()
}

/// runs f, turning a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

// ---------------------------------------------------------------- worker processes

impl Cov {
    fn to_json(&self) -> Value {
        json!({"counts": self.counts, "states": self.states, "sim_ns": self.sim_ns, "steps": self.steps,
               "nontrivial": self.nontrivial, "samples": self.samples, "digest": self.digest})
    }
    fn from_json(v: &Value) -> Cov {
        let set = |k: &str| v[k].as_array().into_iter().flatten().filter_map(Value::as_u64).collect();
        Cov {
            counts: v["counts"].as_object().into_iter().flatten().map(|(k, n)| (k.clone(), n.as_u64().unwrap_or(0))).collect(),
            states: set("states"),
            sim_ns: v["sim_ns"].as_u64().unwrap_or(0),
            steps: v["steps"].as_u64().unwrap_or(0),
            nontrivial: set("nontrivial"),
            samples: v["samples"].as_array().cloned().unwrap_or_default(),
            digest: v["digest"].as_u64().unwrap_or(0),
        }
    }
}

/// a process with one thread, forked before any other thread exists, that executes cases
struct WorkerProc {
    sock: std::os::unix::net::UnixStream,
}

fn send(s: &mut std::os::unix::net::UnixStream, v: &Value) -> std::io::Result<()> {
    use std::io::Write;
    let b = v.to_string().into_bytes();
    s.write_all(&(b.len() as u64).to_le_bytes())?;
    s.write_all(&b)
}

fn receive(s: &mut std::os::unix::net::UnixStream) -> Option<Value> {
    use std::io::Read;
    let mut n = [0u8; 8];
    s.read_exact(&mut n).ok()?;
    let mut b = vec![0u8; u64::from_le_bytes(n) as usize];
    s.read_exact(&mut b).ok()?;
    serde_json::from_slice(&b).ok()
}

impl WorkerProc {
    fn start(sim: &dyn Sim) -> WorkerProc {
        let (mine, mut theirs) = std::os::unix::net::UnixStream::pair().expect("socketpair");
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            drop(mine);
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            while let Some(case) = receive(&mut theirs) {
                let mut cov = Cov::default();
                let r = exec(sim, &case, &mut cov);
                let mut v = json!({ "cov": cov.to_json() });
                if let Err(e) = r {
                    v["violation"] = json!([e.sig, e.detail, e.trace]);
                }
                if send(&mut theirs, &v).is_err() {
                    break;
                }
            }
            unsafe { libc::_exit(0) };
        }
        WorkerProc { sock: mine }
    }
    fn exec(&mut self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let answer = send(&mut self.sock, case).ok().and_then(|()| receive(&mut self.sock));
        let Some(v) = answer else {
            eprintln!("harness error: a worker process ended; case: {case}");
            std::process::exit(3);
        };
        *cov = Cov::from_json(&v["cov"]);
        match v["violation"].as_array() {
            None => Ok(()),
            Some(a) => Err(Violation {
                sig: a[0].as_str().unwrap_or("").into(),
                detail: a[1].as_str().unwrap_or("").into(),
                trace: a[2].as_array().into_iter().flatten().filter_map(Value::as_str).map(String::from).collect(),
            }),
        }
    }
}

fn exec(sim: &dyn Sim, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
    match catch_unwind(AssertUnwindSafe(|| sim.run(case, cov))) {
        Ok(r) => r,
        Err(_) => {
            eprintln!("harness error: simulator panicked: {}", last_panic());
            eprintln!("case: {case}");
            std::process::exit(3);
        }
    }
}

fn shorten(v: &Value, max: usize) -> Value {
    match v {
        Value::String(s) if s.len() > max => {
            let mut n = max;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            Value::String(format!("{}…(+{} bytes)", &s[..n], s.len() - n))
        }
        Value::Array(a) => {
            let mut o: Vec<Value> = a.iter().take(12).map(|x| shorten(x, max)).collect();
            if a.len() > 12 {
                o.push(json!(format!("…(+{} items)", a.len() - 12)));
            }
            Value::Array(o)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), shorten(v, max))).collect()),
        _ => v.clone(),
    }
}

fn replay_path(property: &str, seed: u64, index: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{property}-{seed}-{index}.json"))
}

fn write_replay(meta: &Meta, seed: u64, index: &str, v: &Violation, case: &Value, orig: &Value) -> PathBuf {
    let p = replay_path(meta.property, seed, index);
    let doc = json!({
        "property": meta.property, "seed": seed, "run": index,
        "violation": v.sig, "detail": v.detail, "trace": v.trace,
        "case": case, "original_case_bytes": orig.to_string().len(), "minimised_case_bytes": case.to_string().len(),
        "replay_with": format!("/verif/check.sh {} replay <this file>", meta.property),
    });
    std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
    p
}

struct Watch {
    started: Vec<Mutex<Option<(Instant, String, Value)>>>,
}

fn case_of(sim: &dyn Sim, directed: &[Value], seed: u64, i: u64) -> Value {
    let nd = directed.len() as u64;
    if i < nd {
        directed[i as usize].clone()
    } else {
        let mut r = Rng::new(mix64(seed) ^ mix64((i - nd).wrapping_mul(0x1234_5678_9ABC_DEF1)));
        sim.gen(&mut r, i - nd)
    }
}

/// the run every worker is in, readable by the supervisor after the process died
struct CurFile {
    p: *mut AtomicU64,
}
unsafe impl Sync for CurFile {}
unsafe impl Send for CurFile {}
impl CurFile {
    fn open(path: &Path) -> CurFile {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("cur file");
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        CurFile { p: p.cast() }
    }
    fn set(&self, w: usize, v: u64) {
        if w < 500 {
            unsafe { (*self.p.add(w)).store(v, Ordering::SeqCst) }
        }
    }
}

fn scratch(name: &str) -> PathBuf {
    let d = verif_dir().join("target/run");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{}", std::process::id(), name))
}

fn self_cmd(extra: &[&str]) -> std::process::Command {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    let mut skip = false;
    for a in std::env::args().skip(1) {
        if skip || a == "--replay" {
            skip = !skip;
            continue;
        }
        c.arg(a);
    }
    c.args(extra).env("DST_CHILD", "1");
    c
}

/// the signal that ends a process executing this case
fn dies(tmp: &Path, case: &Value) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    std::fs::write(tmp, json!({ "case": case }).to_string()).expect("candidate");
    let st = self_cmd(&["--replay", tmp.to_str().unwrap()])
        .env_remove("DST_REDUCE")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .expect("spawn");
    st.signal()
}

/// the stack a run has in a batch
fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

/// `{"generate": [seed, run]}` stands for the case of that run
fn resolve(sim: &dyn Sim, case: &Value) -> Value {
    match case.get("generate").and_then(Value::as_array) {
        Some(g) => case_of(sim, &sim.directed(), g[0].as_u64().unwrap(), g[1].as_u64().unwrap()),
        None => case.clone(),
    }
}

/// replaces the case of a replay file that takes the process down by a smaller one, step by step
fn reduce(meta: &Meta, sim: &dyn Sim, p: &Path) -> ! {
    let doc: Value = serde_json::from_str(&std::fs::read_to_string(p).expect("replay")).expect("replay");
    let v = Violation::new("process-died", doc["detail"].as_str().unwrap_or(""));
    let run = doc["run"].as_str().unwrap_or("").to_string();
    let tmp = scratch("reduce.json");
    let orig = resolve(sim, &doc["case"]);
    let t = Instant::now();
    if dies(&tmp, &orig).is_some() {
        write_replay(meta, seed(), &run, &v, &orig, &orig);
        let mut best = orig.clone();
        'outer: loop {
            for c in sim.shrink(&best) {
                if t.elapsed() > Duration::from_secs(60) {
                    break 'outer;
                }
                if dies(&tmp, &c).is_some() {
                    best = c;
                    write_replay(meta, seed(), &run, &v, &best, &orig);
                    continue 'outer;
                }
            }
            break;
        }
    }
    let _ = std::fs::remove_file(&tmp);
    std::process::exit(0);
}

/// runs the batch in a child process, so that code under test that takes the whole process down
/// (stack overflow, abort, double panic) is reported as a violation and not as a harness error
fn supervise(meta: &Meta, sim: &dyn Sim) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let cur = scratch("cur");
    std::fs::write(&cur, vec![0u8; 4096]).expect("cur file");
    let st = self_cmd(&[]).env("DST_CUR", &cur).status().expect("spawn");
    let slots = std::fs::read(&cur).unwrap_or_default();
    let _ = std::fs::remove_file(&cur);
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let signal = st.signal().unwrap_or(0);
    let mut ids: Vec<u64> = slots.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v > 0).map(|v| v - 1).collect();
    ids.sort_unstable();
    if ids.is_empty() {
        // it died before the first run
        ids.push(0);
    }
    println!("the process running the code died by signal {signal}; candidate runs {ids:?}");
    let tmp = scratch("cand.json");
    for i in ids {
        // building the case may itself run code under test
        let lazy = json!({ "generate": [seed(), i] });
        let Some(sg) = dies(&tmp, &lazy) else { continue };
        let v = Violation::new("process-died", format!("run {i}: the code under test took the whole process down (signal {sg})"));
        let p = write_replay(meta, seed(), &i.to_string(), &v, &lazy, &lazy);
        // a process of its own writes the case out and makes it smaller: it may die of it as well
        let _ = self_cmd(&[])
            .env("DST_REDUCE", &p)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        let _ = std::fs::remove_file(&tmp);
        println!("VIOLATION property={} replay={}", meta.property, p.display());
        std::process::exit(1);
    }
    let _ = std::fs::remove_file(&tmp);
    eprintln!("harness error: the simulator died by signal {signal} and no single run reproduces it");
    std::process::exit(3);
}

fn hangs_again(p: &Path, hang: Duration) -> bool {
    let Ok(mut c) = self_cmd(&["--replay", p.to_str().unwrap()]).stdout(std::process::Stdio::null()).spawn() else { return true };
    let end = Instant::now() + hang;
    while Instant::now() < end {
        if !matches!(c.try_wait(), Ok(None)) {
            return false;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let _ = c.kill();
    let _ = c.wait();
    true
}

fn replay_supervised(meta: &Meta, p: &Path) -> ! {
    let st = self_cmd(&["--replay", p.to_str().unwrap()]).status().expect("spawn");
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    println!("reproduced sig=process-died");
    println!("VIOLATION property={} replay={}", meta.property, p.display());
    std::process::exit(1);
}

/// entry point used by every simulator binary
pub fn main(meta: Meta, sim: &dyn Sim) -> ! {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let child = std::env::var_os("DST_CHILD").is_some();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        if child {
            replay(&meta, sim, Path::new(&args[i + 1]));
        }
        replay_supervised(&meta, Path::new(&args[i + 1]));
    }
    if !child {
        supervise(&meta, sim);
    }
    if let Some(p) = std::env::var_os("DST_REDUCE") {
        reduce(&meta, sim, Path::new(&p));
    }
    let cur = std::env::var_os("DST_CUR").map(|p| CurFile::open(Path::new(&p)));
    let t0 = Instant::now();
    let seed = seed();
    let tier = tier();
    let known = known_findings(meta.property);
    let mut runs = if tier == "thorough" { meta.thorough_runs } else { meta.quick_runs };
    if let Ok(r) = std::env::var("DST_RUNS") {
        runs = r.parse().unwrap();
    }
    let budget = Duration::from_secs(
        std::env::var("DST_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 2400 } else { 420 }),
    );
    let workers = std::env::var("DST_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .min(meta.max_workers)
        .max(1);
    let directed = on_big_stack(|| sim.directed());
    let nd = directed.len() as u64;
    println!("property={} tier={} seed={} runs={}+{} workers={}", meta.property, tier, seed, nd, runs, workers);

    let procs: Vec<Mutex<Option<WorkerProc>>> = (0..workers).map(|_| Mutex::new(meta.forked.then(|| WorkerProc::start(sim)))).collect();
    let total = nd + runs;
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let all = Mutex::new(Cov::default());
    let fails: Mutex<BTreeMap<u64, (Violation, Value)>> = Mutex::new(BTreeMap::new());
    let seen_known: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    let stop_at = AtomicU64::new(u64::MAX);
    let active = AtomicUsize::new(workers);
    let watch = Watch { started: (0..workers).map(|_| Mutex::new(None)).collect() };
    let hang = Duration::from_secs(if meta.forked { 400 } else { 90 });

    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, done, all, fails, stop_at, active, watch, directed, known, seen_known, cur, procs) =
                (&next, &done, &all, &fails, &stop_at, &active, &watch, &directed, &known, &seen_known, &cur, &procs);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .name(format!("worker{w}"))
                .spawn_scoped(s, move || {
                    let mut acc = Cov::default();
                    let mut proc = procs[w].lock().unwrap().take();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || i > stop_at.load(Ordering::SeqCst) || t0.elapsed() > budget {
                            break;
                        }
                        if let Some(c) = cur {
                            c.set(w, i + 1);
                        }
                        *watch.started[w].lock().unwrap() = Some((Instant::now(), i.to_string(), json!({ "generate": [seed, i] })));
                        let case = case_of(sim, directed, seed, i);
                        *watch.started[w].lock().unwrap() = Some((Instant::now(), i.to_string(), case.clone()));
                        let mut cov = Cov::default();
                        let r = match proc.as_mut() {
                            Some(p) => p.exec(&case, &mut cov),
                            None => exec(sim, &case, &mut cov),
                        };
                        *watch.started[w].lock().unwrap() = None;
                        if let Some(c) = cur {
                            c.set(w, 0);
                        }
                        cov.note(i);
                        if acc.samples.len() >= 2 {
                            cov.samples.clear();
                        }
                        done.fetch_add(1, Ordering::SeqCst);
                        if let Err(v) = r {
                            if known.iter().any(|k| k.sig == v.sig) {
                                cov.hit("known-finding runs");
                                seen_known.lock().unwrap().insert(v.sig);
                            } else {
                                let mut f = fails.lock().unwrap();
                                f.insert(i, (v, case));
                                // the lowest failing index decides, whatever the worker count
                                let lo = *f.keys().next().unwrap();
                                stop_at.store(lo, Ordering::SeqCst);
                            }
                        }
                        acc.merge(cov);
                    }
                    all.lock().unwrap().merge(acc);
                    active.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog: a run that never comes back is a liveness violation
        let meta = &meta;
        let (active, watch) = (&active, &watch);
        s.spawn(move || {
            while active.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for w in &watch.started {
                    let g = w.lock().unwrap();
                    if let Some((t, i, case)) = g.as_ref() {
                        if t.elapsed() > hang {
                            // a run is a function of its case: a real hang hangs again
                            let v = Violation::new("hang", format!("run {i} made no progress for {hang:?}"));
                            let p = write_replay(meta, seed, i, &v, case, case);
                            if !hangs_again(&p, hang) {
                                eprintln!("harness error: run {i} stalled for {hang:?}, but finishes when replayed");
                                std::process::exit(3);
                            }
                            println!("VIOLATION property={} replay={}", meta.property, p.display());
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    });

    let cov = all.into_inner().unwrap();
    let fails = fails.into_inner().unwrap();
    let seen_known = seen_known.into_inner().unwrap();
    let ndone = done.load(Ordering::SeqCst);
    if ndone < total && fails.is_empty() {
        println!("note: wall-clock budget reached after {ndone} of {total} runs");
    }
    let wall = t0.elapsed().as_secs_f64();

    let mut violations = vec![];
    if let Some((i, (v, case))) = fails.iter().next() {
        let (mv, mc, tries) = minimise(sim, v, case, Duration::from_secs(60));
        let p = write_replay(&meta, seed, &i.to_string(), &mv, &mc, case);
        // replay in a fresh process: it has to fail the same way
        let again = std::process::Command::new(std::env::current_exe().unwrap())
            .args(std::env::args().skip(1))
            .args(["--replay", p.to_str().unwrap()])
            .envs(std::env::vars())
            .output();
        let same = again.map(|o| String::from_utf8_lossy(&o.stdout).contains(&format!("reproduced sig={}", mv.sig))).unwrap_or(false);
        println!("violation in run {i}: {} ({} shrink steps, replayed in a fresh process: {})", mv.sig, tries, same);
        println!("  {}", mv.detail.replace('\n', "\n  "));
        println!("VIOLATION property={} replay={}", meta.property, p.display());
        violations.push(json!({"sig": mv.sig, "detail": mv.detail, "run": i, "replay": p.display().to_string(), "replayed_in_fresh_process": same}));
    }
    for k in &known {
        if seen_known.contains(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", meta.property, k.text);
        } else {
            println!("KNOWN-FINDING: property={} {} (listed; its directed run did not fail this time)", meta.property, k.text);
        }
    }

    let mut faults = Map::new();
    let mut probes = Map::new();
    for (k, v) in &cov.counts {
        if let Some(f) = k.strip_prefix("fault:") {
            faults.insert(f.to_string(), json!(v));
        } else {
            probes.insert(k.clone(), json!(v));
        }
    }
    let per_hour = |n: u64| (n as f64 / wall.max(0.001) * 3600.0).round();
    let ev = json!({
        "property": meta.property, "tier": tier, "seed": seed, "level": meta.level,
        "coverage": {
            "evaluations": ndone,
            "distinct_nontrivial": cov.nontrivial.len(),
            "rule": meta.rule,
            "samples": cov.samples.iter().map(|s| shorten(s, 300)).collect::<Vec<_>>(),
            "runs_planned": total, "directed_runs": nd,
            "simulated_runs_per_hour": per_hour(ndone), "seeds_per_hour": per_hour(ndone),
            "simulated_time_s": cov.sim_ns as f64 / 1e9, "simulated_steps": cov.steps,
            "faults_injected": faults,
            "distinct_states": cov.states.len(), "distinct_states_measure": meta.states_measure,
            "probes": probes,
            "run_digest": format!("{:016x}", cov.digest),
            "components_real": meta.real, "components_stub": meta.stub,
            "workers": workers, "violations_found": violations,
        },
        "assumptions": meta.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations.len(),
    });
    let ed = std::env::var_os("DST_EVIDENCE_DIR").map(PathBuf::from).unwrap_or_else(|| verif_dir().join("evidence"));
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", meta.property)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "runs={} distinct={} states={} faults={} digest={:016x} wall={:.1}s",
        ndone,
        cov.nontrivial.len(),
        cov.states.len(),
        ev["coverage"]["faults_injected"].as_object().unwrap().values().filter_map(Value::as_u64).sum::<u64>(),
        cov.digest,
        wall
    );
    if std::env::var("DST_VERBOSE").is_ok() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
    }
    std::process::exit(i32::from(!fails.is_empty()));
}

fn minimise(sim: &dyn Sim, v: &Violation, case: &Value, limit: Duration) -> (Violation, Value, u64) {
    let t = Instant::now();
    let (mut bv, mut bc) = (v.clone(), case.clone());
    let mut tries = 0;
    'outer: loop {
        for c in sim.shrink(&bc) {
            if t.elapsed() > limit {
                break 'outer;
            }
            tries += 1;
            let mut cov = Cov::default();
            if let Err(nv) = exec(sim, &c, &mut cov) {
                if nv.sig == bv.sig {
                    bv = nv;
                    bc = c;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (bv, bc, tries)
}

fn replay(meta: &Meta, sim: &dyn Sim, p: &Path) -> ! {
    let text = std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {e}", p.display());
        std::process::exit(3)
    });
    let doc: Value = serde_json::from_str(&text).unwrap_or_else(|e| {
        eprintln!("bad replay file: {e}");
        std::process::exit(3)
    });
    let mut cov = Cov::default();
    match on_big_stack(|| exec(sim, &resolve(sim, &doc["case"]), &mut cov)) {
        Ok(()) => {
            println!("replay did not fail: property {} holds on this run", meta.property);
            std::process::exit(0)
        }
        Err(v) => {
            println!("reproduced sig={}", v.sig);
            println!("{}", v.detail);
            for l in &v.trace {
                println!("  {l}");
            }
            println!("VIOLATION property={} replay={}", meta.property, p.display());
            std::process::exit(1)
        }
    }
}

/// candidates that drop elements of an array field: halves first, then single elements
pub fn shrink_array(case: &Value, key: &str) -> Vec<Value> {
    let mut out = vec![];
    let Some(a) = case[key].as_array() else { return out };
    let n = a.len();
    if n == 0 {
        return out;
    }
    let mut put = |v: Vec<Value>| {
        let mut c = case.clone();
        c[key] = Value::Array(v);
        out.push(c);
    };
    put(vec![]);
    let mut chunk = n / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < n {
            let mut v = a[..i].to_vec();
            v.extend_from_slice(&a[(i + chunk).min(n)..]);
            put(v);
            i += chunk;
        }
        chunk /= 2;
        if n > 64 && chunk < n / 64 {
            break;
        }
    }
    out
}

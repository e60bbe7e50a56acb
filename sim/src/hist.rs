//! G01-G03: histories of conversions in one process. Every run executes in a forked child of a
//! process that has never run any code of the repository, so that "fresh" means fresh.

use std::{
    cell::{Cell, RefCell},
    collections::HashMap,
    io::Read,
    os::fd::FromRawFd,
    sync::{Mutex, OnceLock},
    time::{Duration, Instant},
};

use serde_json::{json, Value};
use wsdl_parser::parser::definitions::Definitions;
use xsd_parser::{
    generator::{
        alias::{AliasGenerator, DefaultAliasGen},
        base::{BaseGenerator, DefaultBaseGenerator},
        builder::GeneratorBuilder,
        enum_case::{DefaultEnumCaseGen, EnumCaseGenerator},
        import::{DefaultImportGen, ImportGenerator},
        r#enum::{DefaultEnumGen, EnumGenerator},
        r#struct::{DefaultStructGen, StructGenerator},
        struct_field::{DefaultStructFieldGen, StructFieldGenerator},
        tuple_struct::{DefaultTupleStructGen, TupleStructGenerator},
        Generator,
    },
    parser::{parse, schema::parse_schema, types::*},
};

use crate::{
    cli::{bank, content},
    rng::{hash_bytes, mix64, Rng},
    runner::{guard, Cov, Sim, Violation},
    simos, textgen,
};

// ---------------------------------------------------------------- forked execution

pub enum Child {
    Said(Value),
    Died(String),
    Hung,
}

/// Runs f in a forked child; its answer comes back through a pipe. Call it from a process with one
/// thread. Runs do not depend on time, so one that hangs hangs again: a stalled machine does not.
pub fn in_fork(f: impl Fn() -> Value) -> Child {
    in_fork_with(60, 3, f)
}

/// with limits on the processor time (seconds) and the memory (GB) of the child
fn in_fork_with(cpu: u64, gb: u64, f: impl Fn() -> Value) -> Child {
    match fork_once(Duration::from_secs(60.max(2 * cpu)), cpu, gb, &f) {
        Child::Hung => fork_once(Duration::from_secs(120), cpu, gb, &f),
        Child::Died(s) if s == OUT_OF_TIME => Child::Hung,
        c => c,
    }
}

const OUT_OF_TIME: &str = "ran out of processor time";

fn fork_once(timeout: Duration, cpu: u64, gb: u64, f: &dyn Fn() -> Value) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(null, 0);
            libc::dup2(null, 1);
            if std::env::var_os("DST_CHILD_STDERR").is_none() {
                libc::dup2(null, 2);
            }
            let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            ANSWER = fds[1];
            let v = f();
            say(&v);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut file = std::fs::File::from_raw_fd(fds[0]);
        let mut out = Vec::new();
        let end = Instant::now() + timeout;
        let mut hung = false;
        loop {
            let left = end.saturating_duration_since(Instant::now());
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let k = libc::poll(&mut p, 1, left.as_millis().min(60_000) as i32);
            if k == 0 && left.is_zero() {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if k > 0 {
                let mut buf = [0u8; 65536];
                match file.read(&mut buf) {
                    Ok(0) => break,
                    Ok(n) => out.extend_from_slice(&buf[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => break,
                }
            }
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if hung {
            return Child::Hung;
        }
        match serde_json::from_slice(&out) {
            Ok(v) => Child::Said(v),
            Err(_) if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGXCPU => Child::Died(OUT_OF_TIME.into()),
            Err(_) if libc::WIFSIGNALED(st) => Child::Died(format!("killed by signal {}", libc::WTERMSIG(st))),
            Err(_) => Child::Died(format!("exited with status {}", libc::WEXITSTATUS(st))),
        }
    }
}

static mut ANSWER: i32 = -1;
fn say(v: &Value) {
    let b = v.to_string().into_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(ANSWER, b[o..].as_ptr().cast(), b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}

/// runs f on a new thread with a large stack (fresh thread-locals, seeded hash keys)
pub(crate) fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

// ---------------------------------------------------------------- conversions and reference

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Code(String),
    Err,
    Panic,
}
impl Out {
    fn of(r: Result<Option<String>, String>) -> Out {
        match r {
            Ok(Some(s)) => Out::Code(s),
            Ok(None) => Out::Err,
            Err(_) => Out::Panic,
        }
    }
    fn show(&self) -> String {
        match self {
            Out::Code(s) => format!("{} bytes of code", s.len()),
            Out::Err => "an error".into(),
            Out::Panic => "a panic".into(),
        }
    }
    pub(crate) fn diff(&self, got: &Out) -> String {
        if let (Out::Code(a), Out::Code(b)) = (self, got) {
            let mut n = 0;
            for (x, y) in a.lines().zip(b.lines()) {
                n += 1;
                if x != y {
                    return format!("line {n}: expected {x:?}, got {y:?}");
                }
            }
            return format!("expected {} lines, got {}", a.lines().count(), b.lines().count());
        }
        format!("expected {}, got {}", self.show(), got.show())
    }
}

fn is_wsdl(c: &Value) -> bool {
    c["kind"] == "wsdl"
}

fn default_gen() -> Generator<'static> {
    GeneratorBuilder::default().build()
}

/// what a fresh process answers: every schema with a generator of its own
fn fresh(wsdl: bool, text: &'static str) -> Out {
    Out::of(guard(|| if wsdl { wsdl_code(text, None) } else { parse(text).ok().map(|rs| default_gen().generate_rs_file(&rs)) }))
}

fn wsdl_code(text: &'static str, shared: Option<&Generator<'static>>) -> Option<String> {
    let doc: &'static roxmltree::Document<'static> = Box::leak(Box::new(roxmltree::Document::parse(text).ok()?));
    let root: &'static roxmltree::Node<'static, 'static> = Box::leak(Box::new(doc.root_element()));
    let d = Definitions::new(root);
    Some(wsdl_code_of(&d, shared))
}

fn wsdl_code_of(d: &Definitions<'static>, shared: Option<&Generator<'static>>) -> String {
    // everything a Definitions refers to is leaked, only its own borrow is shorter
    let d: &'static Definitions<'static> = unsafe { std::mem::transmute(d) };
    let mut out = String::new();
    for t in d.types() {
        for s in t.schemas() {
            let s: &'static roxmltree::Node<'static, 'static> = Box::leak(Box::new(s));
            let rs = parse_schema(s);
            out.push_str(&match shared {
                Some(g) => g.generate_rs_file(&rs),
                None => default_gen().generate_rs_file(&rs),
            });
        }
    }
    out.push_str(&wsdl_parser::generator::generate(d));
    out
}

/// None: the document kills or hangs a fresh process, histories do not use it
pub fn reference(c: &Value) -> Option<Out> {
    type Cache = Mutex<HashMap<(bool, u64, usize), Option<Out>>>;
    static CACHE: OnceLock<Cache> = OnceLock::new();
    let text = String::from_utf8(content(c)).ok()?;
    let key = (is_wsdl(c), hash_bytes(text.as_bytes()), text.len());
    let m = CACHE.get_or_init(Default::default);
    if let Some(r) = m.lock().unwrap().get(&key) {
        return r.clone();
    }
    let w = is_wsdl(c);
    let r = match in_fork(|| {
        simos::seed_random(1);
        let text: &'static str = Box::leak(text.clone().into_boxed_str());
        match on_thread(|| fresh(w, text)) {
            Out::Code(s) => json!({ "code": s }),
            Out::Err => json!({"err": 1}),
            Out::Panic => json!({"panic": 1}),
        }
    }) {
        Child::Said(v) => Some(match v["code"].as_str() {
            Some(s) => Out::Code(s.to_string()),
            None if v["err"] == 1 => Out::Err,
            None => Out::Panic,
        }),
        _ => None,
    };
    let mut g = m.lock().unwrap();
    if g.len() > 4000 {
        g.clear();
    }
    g.insert(key, r.clone());
    r
}

// ---------------------------------------------------------------- generators with hooks

thread_local! {
    /// calls until the hook fires, <= 0: off
    static TICK: Cell<i64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static NEST: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
    static NESTED: RefCell<Option<(usize, Out)>> = const { RefCell::new(None) };
    static TEXTS: RefCell<Vec<(bool, &'static str)>> = const { RefCell::new(Vec::new()) };
    static GENS: Cell<*const Vec<Generator<'static>>> = const { Cell::new(std::ptr::null()) };
}

fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
    let n = TICK.with(Cell::get);
    if n <= 0 {
        return;
    }
    TICK.with(|t| t.set(n - 1));
    if n > 1 {
        return;
    }
    FIRED.with(|f| f.set(true));
    match NEST.with(Cell::get) {
        None => panic!("injected failure of a user-supplied generator"),
        Some((g, d)) => {
            let (wsdl, text) = TEXTS.with(|t| t.borrow()[d]);
            let gens = GENS.with(Cell::get);
            let out = unsafe { convert(wsdl, text, &(&*gens)[g]) };
            NESTED.with(|n| *n.borrow_mut() = Some((d, out)));
        }
    }
}

fn convert(wsdl: bool, text: &'static str, g: &Generator<'static>) -> Out {
    Out::of(guard(|| if wsdl { wsdl_code(text, Some(g)) } else { parse(text).ok().map(|rs| g.generate_rs_file(&rs)) }))
}

struct Hook;
macro_rules! hook {
    ($tr:ident, $d:ident, $e:ty) => {
        impl $tr for Hook {
            fn generate(&self, e: &$e, g: &Generator) -> String {
                tick();
                let s = $d.generate(e, g);
                tick();
                s
            }
        }
    };
}
hook!(AliasGenerator, DefaultAliasGen, Alias);
hook!(EnumCaseGenerator, DefaultEnumCaseGen, EnumCase);
hook!(ImportGenerator, DefaultImportGen, Import);
hook!(StructFieldGenerator, DefaultStructFieldGen, StructField);
hook!(TupleStructGenerator, DefaultTupleStructGen, TupleStruct);
hook!(StructGenerator, DefaultStructGen, Struct);
hook!(EnumGenerator, DefaultEnumGen, Enum);
impl BaseGenerator for Hook {
    fn format_comment(&self, c: Option<&str>, indent: usize) -> String {
        tick();
        DefaultBaseGenerator.format_comment(c, indent)
    }
    fn mod_name(&self, n: &str) -> String {
        tick();
        DefaultBaseGenerator.mod_name(n)
    }
}

fn hooked_gen() -> Generator<'static> {
    GeneratorBuilder::default()
        .with_alias_gen(Box::new(Hook))
        .with_enum_case_gen(Box::new(Hook))
        .with_import_gen(Box::new(Hook))
        .with_struct_field_gen(Box::new(Hook))
        .with_tuple_struct_gen(Box::new(Hook))
        .with_struct_gen(Box::new(Hook))
        .with_enum_gen(Box::new(Hook))
        .with_base_gen(Box::new(Hook))
        .build()
}

fn make_gen(kind: u64) -> Generator<'static> {
    if kind == 0 {
        default_gen()
    } else {
        hooked_gen()
    }
}

// ---------------------------------------------------------------- documents

fn gen_doc(r: &mut Rng, small: bool) -> Value {
    let wsdl = r.chance(1, 4);
    let tool = if wsdl { "wsdl" } else { "xsd" };
    let max = if small { 8_000 } else { 40_000 };
    let mut c = match r.below(20) {
        0..=2 => {
            let b: Vec<_> = bank(tool).iter().filter(|x| x.1 < max).collect();
            json!({ "bank": r.pick(&b).0 })
        }
        3 if !small && r.chance(1, 12) => json!({ "bank": r.pick(bank(tool)).0 }),
        4..=5 => json!({ "s": if wsdl { textgen::wsdl(r) } else { textgen::xsd(r) } }),
        _ => json!({ "s": if wsdl { textgen::rich_wsdl(r) } else { textgen::rich_xsd(r) } }),
    };
    if r.chance(1, 5) {
        c = json!({ "s": damage(r, &String::from_utf8(content(&c)).unwrap_or_default()) });
    }
    c["kind"] = json!(tool);
    c
}

/// mostly well-formed texts that a conversion fails on somewhere in the middle
fn damage(r: &mut Rng, t: &str) -> String {
    let attrs: Vec<usize> = t.match_indices("=\"").map(|x| x.0).collect();
    match r.below(5) {
        0 => {
            let n = r.idx(t.len().max(1));
            let n = (0..=n).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
            t[..n].to_string()
        }
        1 | 2 if !attrs.is_empty() => {
            // drop one attribute
            let p = *r.pick(&attrs);
            let a = t[..p].rfind(' ').unwrap_or(p);
            let e = t[p + 2..].find('"').map_or(t.len(), |x| p + 3 + x);
            format!("{}{}", &t[..a], &t[e.min(t.len())..])
        }
        3 if !attrs.is_empty() => {
            // garble one attribute value
            let p = *r.pick(&attrs) + 2;
            let e = t[p..].find('"').map_or(t.len(), |x| p + x);
            format!("{}{}{}", &t[..p], r.pick(&["", ":", "::", "-", "9", "xs:", "unbounded", "é", " "]), &t[e..])
        }
        _ => {
            // swap tag kinds
            let names = ["sequence", "choice", "extension", "restriction", "simpleType", "complexType", "element", "list", "union", "enumeration"];
            let (a, b) = (*r.pick(&names), *r.pick(&names));
            t.replace(a, b)
        }
    }
}

pub(crate) fn gen_docs(r: &mut Rng, n: usize, small: bool) -> Vec<Value> {
    let mut v = vec![];
    while v.len() < n {
        let c = gen_doc(r, small);
        if v.is_empty() && r.chance(3, 4) && !matches!(reference(&c), Some(Out::Code(_))) {
            continue;
        }
        v.push(c);
    }
    v
}

// ---------------------------------------------------------------- histories on one thread

enum Slot {
    Xsd(RsFile<'static>),
    Wsdl(Definitions<'static>),
}

struct Report {
    bad: Option<(String, String, Vec<String>)>,
    counts: Vec<(&'static str, u64)>,
    digest: u64,
}

fn history(case: &Value, texts: &[(bool, &'static str)], refs: &[Out]) -> Report {
    let mut rep = Report { bad: None, counts: vec![], digest: 0 };
    let mut trace: Vec<String> = vec![];
    let kinds: Vec<u64> = case["gens"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
    let mut gens: Vec<Generator<'static>> = kinds.iter().map(|k| make_gen(*k)).collect();
    let mut slots: Vec<(usize, Slot)> = vec![];
    TEXTS.with(|t| *t.borrow_mut() = texts.to_vec());
    let ng = gens.len().max(1);
    let nd = texts.len().max(1);
    macro_rules! count {
        ($k:expr) => {
            match rep.counts.iter_mut().find(|c| c.0 == $k) {
                Some(c) => c.1 += 1,
                None => rep.counts.push(($k, 1)),
            }
        };
    }
    macro_rules! judge {
        ($what:expr, $d:expr, $got:expr) => {{
            let (d, got): (usize, Out) = ($d, $got);
            trace.push(format!("{} -> {}", $what, got.show()));
            rep.digest = mix64(rep.digest ^ hash_bytes(format!("{got:?}").as_bytes()));
            match &got {
                Out::Code(_) => count!("conversions that returned code"),
                Out::Err => count!("conversions that returned an error"),
                Out::Panic => count!("fault:conversion panicked"),
            }
            if got != refs[d] {
                rep.bad = Some((
                    format!("{}:{}", $what.split(' ').next().unwrap_or(""), if texts[d].0 { "wsdl" } else { "xsd" }),
                    format!("{}: a fresh process gives another result for document {d}: {}", $what, refs[d].diff(&got)),
                    trace.clone(),
                ));
                return rep;
            }
        }};
    }
    let none = vec![];
    for (k, op) in case["ops"].as_array().unwrap_or(&none).iter().enumerate() {
        let name = op[0].as_str().unwrap_or("");
        let a = |i: usize| op[i].as_u64().unwrap_or(0) as usize;
        match name {
            // convert a document with generator g
            "convert" => {
                let (g, d) = (a(1) % ng, a(2) % nd);
                judge!(format!("convert #{k} doc {d} on generator {g}"), d, convert(texts[d].0, texts[d].1, &gens[g]));
            }
            // replace a generator
            "renew" => {
                let g = a(1) % ng;
                gens[g] = make_gen(kinds[g]);
                trace.push(format!("renew generator {g}"));
            }
            // parse and keep
            "parse" => {
                let d = a(1) % nd;
                let (wsdl, text) = texts[d];
                let p = guard(|| -> Option<Slot> {
                    if wsdl {
                        let doc: &'static roxmltree::Document<'static> = Box::leak(Box::new(roxmltree::Document::parse(text).ok()?));
                        let root: &'static roxmltree::Node<'static, 'static> = Box::leak(Box::new(doc.root_element()));
                        Some(Slot::Wsdl(Definitions::new(root)))
                    } else {
                        parse(text).ok().map(Slot::Xsd)
                    }
                });
                trace.push(format!("parse doc {d}: {}", matches!(p, Ok(Some(_)))));
                if let Ok(Some(s)) = p {
                    count!("schemas parsed and kept");
                    slots.push((d, s));
                } else {
                    count!("fault:conversion panicked");
                }
            }
            // generate from something parsed earlier
            "generate" if !slots.is_empty() => {
                let (g, s) = (a(1) % ng, a(2) % slots.len());
                let (d, slot) = &slots[s];
                let out = Out::of(guard(|| {
                    Some(match slot {
                        Slot::Xsd(rs) => gens[g].generate_rs_file(rs),
                        Slot::Wsdl(w) => wsdl_code_of(w, Some(&gens[g])),
                    })
                }));
                count!("generations from a kept schema");
                judge!(format!("generate #{k} from parsed doc {d} (slot {s}) on generator {g}"), *d, out);
            }
            // the parts of a schema make up the whole, whoever asked before
            "entities" if !slots.is_empty() => {
                let (g, s) = (a(1) % ng, a(2) % slots.len());
                let (d, slot) = &slots[s];
                if let Slot::Xsd(rs) = slot {
                    let out = Out::of(guard(|| {
                        let whole = gens[g].generate_rs_file(rs);
                        let parts: String = rs.types.iter().map(|e| gens[g].generate(e)).collect();
                        let mut back: Vec<String> = rs.types.iter().rev().map(|e| gens[g].generate(e)).collect();
                        back.reverse();
                        Some(if parts != whole { parts } else { back.concat() })
                    }));
                    judge!(format!("entities #{k} of parsed doc {d} (slot {s}) on generator {g}"), *d, out);
                }
            }
            // a user-supplied generator fails in the middle, or converts something else in the middle
            "fail" | "nest" if kinds.contains(&1) => {
                let hs: Vec<usize> = (0..ng).filter(|g| kinds[*g] == 1).collect();
                let g = hs[a(1) % hs.len()];
                let from_slot = a(4) % 2 == 0 && !slots.is_empty();
                let s = if from_slot { a(2) % slots.len() } else { 0 };
                let d = if from_slot { slots[s].0 } else { a(2) % nd };
                let inner = (a(5) % ng, a(6) % nd);
                if name == "nest" && inner.0 == g {
                    // a generator cannot work on two schemas at the same time
                    continue;
                }
                TICK.with(|t| t.set(a(3) as i64 + 1));
                FIRED.with(|f| f.set(false));
                NEST.with(|n| n.set((name == "nest").then_some(inner)));
                GENS.with(|p| p.set(&raw const gens));
                let out = if from_slot {
                    Out::of(guard(|| {
                        Some(match &slots[s].1 {
                            Slot::Xsd(rs) => gens[g].generate_rs_file(rs),
                            Slot::Wsdl(w) => wsdl_code_of(w, Some(&gens[g])),
                        })
                    }))
                } else {
                    convert(texts[d].0, texts[d].1, &gens[g])
                };
                TICK.with(|t| t.set(0));
                if let Some((d, out)) = NESTED.with(|n| n.borrow_mut().take()) {
                    count!("conversions nested in another one");
                    judge!(format!("nested #{k} doc {d} on generator {}", inner.0), d, out);
                }
                if name == "fail" && FIRED.with(Cell::get) {
                    count!("fault:user-supplied generator failed in the middle");
                    trace.push(format!("fail #{k} doc {d} on generator {g} after {} calls", a(3)));
                } else {
                    judge!(format!("{name} #{k} doc {d} on generator {g}"), d, out);
                }
            }
            _ => {}
        }
    }
    // whatever happened, everything still works as new
    for g in 0..gens.len() {
        for d in 0..texts.len() {
            judge!(format!("finally doc {d} on generator {g}"), d, convert(texts[d].0, texts[d].1, &gens[g]));
        }
    }
    for (s, (d, slot)) in slots.iter().enumerate() {
        let g = s % ng;
        let out = Out::of(guard(|| {
            Some(match slot {
                Slot::Xsd(rs) => gens[g].generate_rs_file(rs),
                Slot::Wsdl(w) => wsdl_code_of(w, Some(&gens[g])),
            })
        }));
        judge!(format!("finally from slot {s} (doc {d}) on generator {g}"), *d, out);
    }
    rep
}

fn report_json(r: Report) -> Value {
    json!({
        "bad": r.bad.map(|(s, d, t)| json!([s, d, t])),
        "counts": r.counts.into_iter().map(|(k, n)| json!([k, n])).collect::<Vec<_>>(),
        "digest": r.digest,
        "random": simos::RANDOM_CALLS.load(std::sync::atomic::Ordering::SeqCst),
    })
}

/// documents of a case with their references; None when a reference is unusable
pub(crate) fn prepare(case: &Value) -> Option<(Vec<(bool, &'static str)>, Vec<Out>)> {
    let docs = case["docs"].as_array()?;
    let mut texts = vec![];
    let mut refs = vec![];
    for c in docs {
        refs.push(reference(c)?);
        let t = String::from_utf8(content(c)).ok()?;
        texts.push((is_wsdl(c), t));
    }
    // leaked in the child only: the caller forks next
    Some((texts.into_iter().map(|(w, t)| (w, unsafe { std::mem::transmute::<&str, &'static str>(Box::leak(t.into_boxed_str())) })).collect(), refs))
}

pub(crate) fn free(texts: Vec<(bool, &'static str)>) {
    for (_, t) in texts {
        unsafe { drop(Box::from_raw(std::ptr::from_ref(t).cast_mut())) };
    }
}

pub(crate) fn conclude(case: &Value, cov: &mut Cov, c: Child, property: &str) -> Result<(), Violation> {
    let v = match c {
        Child::Said(v) => v,
        Child::Died(s) => return Err(Violation::new("died", format!("the process {s} during a history of conversions that each succeed or fail cleanly in a fresh process"))),
        Child::Hung => return Err(Violation::new("hung", "a history of conversions that each finish in a fresh process did not finish within 60 s")),
    };
    for c in v["counts"].as_array().into_iter().flatten() {
        cov.add(c[0].as_str().unwrap_or(""), c[1].as_u64().unwrap_or(0));
    }
    cov.note(v["digest"].as_u64().unwrap_or(0));
    if let Some(b) = v["bad"].as_array() {
        let t = b[2].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        return Err(Violation::new(b[0].as_str().unwrap_or(""), b[1].as_str().unwrap_or("")).with_trace(t));
    }
    let h = hash_bytes(case.to_string().as_bytes());
    cov.nontrivial.insert(h);
    if cov.samples.is_empty() && case.to_string().len() < 6000 {
        cov.samples.push(json!({"case": case, "property": property}));
    }
    Ok(())
}

fn gen_history(r: &mut Rng, kept: bool) -> Value {
    let nd = 1 + r.idx(4);
    let docs = gen_docs(r, nd, false);
    let ng = 1 + r.idx(3);
    let mut gens: Vec<u64> = (0..ng).map(|_| u64::from(r.chance(1, 2))).collect();
    if kept && r.chance(1, 2) {
        gens[0] = 1;
    }
    let mut ops = vec![];
    let n = 2 + r.size(18);
    if kept {
        for d in 0..nd {
            if d == 0 || r.chance(2, 3) {
                ops.push(json!(["parse", d]));
            }
        }
    }
    for _ in 0..n {
        let (g, d) = (r.idx(ng), r.idx(nd));
        let calls = if r.chance(1, 2) { r.below(12) } else { r.below(300) };
        ops.push(match r.below(if kept { 12 } else { 7 }) {
            0..=3 => json!(["convert", g, d]),
            4 => json!(["fail", g, d, calls, u64::from(!kept)]),
            5 => json!(["nest", g, d, calls, u64::from(!kept), r.idx(ng), r.idx(nd)]),
            6 => {
                if kept {
                    json!(["parse", d])
                } else if r.chance(1, 3) {
                    json!(["renew", g])
                } else {
                    json!(["convert", g, d])
                }
            }
            7 => json!(["entities", g, r.below(64)]),
            _ => json!(["generate", g, r.below(64)]),
        });
    }
    json!({"docs": docs, "gens": gens, "ops": ops, "hash": r.next() >> 12})
}

pub(crate) fn shrink_list(c: &Value, key: &str, min: usize) -> Vec<Value> {
    let mut out = vec![];
    let Some(a) = c[key].as_array() else { return out };
    let n = a.len();
    let mut k = n;
    while k >= 1 {
        let mut i = 0;
        while i < n {
            if n - (k.min(n - i)) >= min {
                let mut b = a.clone();
                b.drain(i..(i + k).min(n));
                let mut x = c.clone();
                x[key] = Value::Array(b);
                out.push(x);
            }
            i += k;
        }
        k /= 2;
    }
    out
}

pub(crate) fn shrink_docs(c: &Value) -> Vec<Value> {
    let mut out = vec![];
    let docs = c["docs"].as_array().cloned().unwrap_or_default();
    for (i, d) in docs.iter().enumerate() {
        let Ok(text) = String::from_utf8(content(d)) else { continue };
        // a document becomes text of its own, then loses lines, then elements
        let parts: Vec<&str> = if text.lines().count() > 6 { text.split_inclusive('\n').collect() } else { text.split_inclusive('>').collect() };
        let n = parts.len();
        let mut k = n / 2;
        while k >= 1 && n < 4000 {
            let mut p = 0;
            while p < n {
                let t: String = parts[..p].iter().chain(parts[(p + k).min(n)..].iter()).copied().collect();
                if matches!(std::panic::catch_unwind(|| roxmltree::Document::parse(&t).is_ok()), Ok(true)) {
                    let mut x = c.clone();
                    x["docs"][i] = json!({"s": t, "kind": d["kind"]});
                    out.push(x);
                }
                p += k;
                if out.len() > 400 {
                    return out;
                }
            }
            k /= 2;
        }
    }
    out
}

fn shrink_history(c: &Value) -> Vec<Value> {
    let mut v = shrink_list(c, "ops", 0);
    v.extend(shrink_list(c, "docs", 1));
    v.extend(shrink_list(c, "gens", 1));
    v.extend(shrink_docs(c));
    v
}

fn run_history(case: &Value, cov: &mut Cov, property: &str) -> Result<(), Violation> {
    let Some((texts, refs)) = prepare(case) else {
        cov.hit("histories skipped: a document kills a fresh process");
        return Ok(());
    };
    for o in &refs {
        cov.hit(match o {
            Out::Code(_) => "documents a fresh process converts",
            _ => "documents a fresh process rejects",
        });
    }
    let c = in_fork(|| {
        simos::seed_random(case["hash"].as_u64().unwrap_or(0));
        on_thread(|| report_json(history(case, &texts, &refs)))
    });
    free(texts);
    cov.steps += case["ops"].as_array().map_or(0, Vec::len) as u64;
    cov.states.insert(hash_bytes(format!("{}{}", case["ops"], case["gens"]).as_bytes()));
    conclude(case, cov, c, property)
}

pub struct G01;
impl Sim for G01 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        gen_history(r, false)
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        run_history(case, cov, "G01")
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        shrink_history(c)
    }
    fn directed(&self) -> Vec<Value> {
        bank_histories(false)
    }
}

pub struct G02;
impl Sim for G02 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        gen_history(r, true)
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        run_history(case, cov, "G02")
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        shrink_history(c)
    }
    fn directed(&self) -> Vec<Value> {
        bank_histories(true)
    }
}

/// every document of the bank once
fn bank_histories(kept: bool) -> Vec<Value> {
    let mut v = vec![];
    for tool in ["xsd", "wsdl"] {
        let b = bank(tool);
        for (k, (n, size)) in b.iter().enumerate() {
            let other = &b[(k + 1) % b.len()].0;
            let mut ops = vec![];
            if kept {
                ops.push(json!(["parse", 0]));
                ops.push(json!(["generate", 0, 0]));
                ops.push(json!(["generate", 0, 0]));
                if *size < 40_000 {
                    ops.push(json!(["fail", 1, 0, 7, 0]));
                    ops.push(json!(["entities", 0, 0]));
                }
            } else {
                ops.push(json!(["convert", 0, 0]));
                ops.push(json!(["fail", 1, 0, 9, 1]));
            }
            let mut docs = vec![json!({"bank": n, "kind": tool})];
            if *size < 60_000 {
                docs.push(json!({"bank": other, "kind": tool}));
                ops.push(json!(["convert", 0, 1]));
            }
            v.push(json!({"docs": docs, "gens": [0, 1], "ops": ops, "hash": k}));
        }
    }
    v
}

// ---------------------------------------------------------------- threads

pub struct G03;

const MAX_STEPS: u64 = 40_000_000;

impl Sim for G03 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let nd = 1 + r.idx(4);
        let docs = gen_docs(r, nd, true);
        let nt = 2 + r.idx(3);
        let threads: Vec<Value> = (0..nt)
            .map(|_| {
                let n = 1 + r.idx(3);
                Value::Array((0..n).map(|_| json!(r.idx(nd))).collect())
            })
            .collect();
        // how often the scheduler switches: between every few and every few ten thousand steps
        let style = r.below(4);
        let len = match style {
            0 => 1 + r.size(12),
            _ => 40 + r.idx(1500),
        };
        let plan: Vec<Value> = (0..len)
            .map(|_| {
                let gap = match style {
                    0 => 1 + r.below(20_000),
                    1 => 1 + r.below(4),
                    2 => 1 + r.below(60),
                    _ => {
                        let b = 1 + r.below(12);
                        1 + r.below(1 << b)
                    }
                };
                json!([gap, r.below(8)])
            })
            .collect();
        json!({"docs": docs, "threads": threads, "plan": plan, "gens": u64::from(r.chance(1, 2)), "hash": r.next() >> 12})
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let Some((texts, refs)) = prepare(case) else {
            cov.hit("histories skipped: a document kills a fresh process");
            return Ok(());
        };
        let nd = texts.len();
        let threads: Vec<Vec<usize>> = case["threads"]
            .as_array()
            .map(|a| a.iter().take(simos::MAXT).map(|t| t.as_array().map(|t| t.iter().map(|d| d.as_u64().unwrap_or(0) as usize % nd.max(1)).collect()).unwrap_or_default()).collect())
            .unwrap_or_default();
        if threads.is_empty() {
            return Ok(());
        }
        let plan: Vec<(u32, u32)> = case["plan"].as_array().map(|a| a.iter().map(|p| (p[0].as_u64().unwrap_or(1) as u32, p[1].as_u64().unwrap_or(0) as u32)).collect()).unwrap_or_default();
        let shared_kind = case["gens"].as_u64().unwrap_or(0);
        let c = in_fork(|| {
            simos::seed_random(case["hash"].as_u64().unwrap_or(0));
            unsafe { simos::GIVE_UP = Some(gave_up) };
            static RESULTS: Mutex<Vec<(usize, usize, usize, Out)>> = Mutex::new(Vec::new());
            RESULTS.lock().unwrap().reserve(64);
            let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
                .iter()
                .enumerate()
                .map(|(t, list)| {
                    let list = list.clone();
                    let texts = texts.clone();
                    Box::new(move || {
                        let g = make_gen(shared_kind);
                        for (k, d) in list.into_iter().enumerate() {
                            let out = if k % 2 == 0 { convert(texts[d].0, texts[d].1, &g) } else { fresh(texts[d].0, texts[d].1) };
                            RESULTS.lock().unwrap().push((t, k, d, out));
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let s = simos::run_threads(bodies, plan.clone(), MAX_STEPS);
            let mut rep = Report { bad: None, counts: vec![], digest: s.history };
            let res = RESULTS.lock().unwrap();
            let mut trace = vec![format!("{} scheduling steps, {} thread switches, {} blocking waits", s.steps, s.switches, s.blocked)];
            for (t, k, d, out) in res.iter() {
                trace.push(format!("thread {t} conversion {k} of doc {d} -> {}", out.show()));
                rep.digest = mix64(rep.digest ^ hash_bytes(format!("{t} {k} {out:?}").as_bytes()));
                if *out != refs[*d] && rep.bad.is_none() {
                    rep.bad = Some((
                        format!("thread:{}", if texts[*d].0 { "wsdl" } else { "xsd" }),
                        format!("thread {t}, conversion {k}: a fresh process gives another result for document {d}: {}", refs[*d].diff(out)),
                        vec![],
                    ));
                }
            }
            if let Some(b) = rep.bad.as_mut() {
                b.2 = trace;
            }
            rep.counts = vec![
                ("conversions on threads", res.len() as u64),
                ("fault:thread preempted", s.switches),
                ("blocking waits", s.blocked),
                ("fault:conversion panicked", res.iter().filter(|r| r.3 == Out::Panic).count() as u64),
            ];
            let mut v = report_json(rep);
            v["steps"] = json!(s.steps);
            v["history"] = json!(s.history);
            v["now"] = json!(s.now);
            v
        });
        free(texts);
        if let Child::Said(v) = &c {
            cov.steps += v["steps"].as_u64().unwrap_or(0);
            cov.sim_ns += v["now"].as_u64().unwrap_or(0);
            cov.states.insert(v["history"].as_u64().unwrap_or(0));
        }
        conclude(case, cov, c, "G03")
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        let mut v = shrink_list(c, "threads", 1);
        v.extend(shrink_list(c, "plan", 0));
        v.extend(shrink_list(c, "docs", 1));
        for t in 0..c["threads"].as_array().map_or(0, Vec::len) {
            if c["threads"][t].as_array().is_some_and(|a| a.len() > 1) {
                for k in 0..c["threads"][t].as_array().map_or(0, Vec::len) {
                    let mut x = c.clone();
                    x["threads"][t].as_array_mut().unwrap().remove(k);
                    v.push(x);
                }
            }
        }
        v.extend(shrink_docs(c));
        v
    }
}

// ---------------------------------------------------------------- liveness of single conversions

/// references and declarations pointed at each other in ways nobody intended
fn rewire(r: &mut Rng, t: &str) -> Option<String> {
    let d = roxmltree::Document::parse(t).ok()?;
    let refs = ["base", "type", "ref", "itemType", "memberTypes", "message", "element"];
    let els: Vec<_> = d.descendants().filter(|n| n.is_element()).collect();
    let names: Vec<&str> = els.iter().filter_map(|n| n.attribute("name")).collect();
    match r.below(3) {
        // a reference leads elsewhere, most often back to where it stands or to what contains it
        0 | 1 => {
            let mut at = vec![];
            for n in &els {
                at.extend(n.attributes().filter(|a| refs.contains(&a.name())).map(|a| (*n, a)));
            }
            if at.is_empty() || names.is_empty() {
                return None;
            }
            let (n, a) = r.pick(&at);
            let above: Vec<&str> = n.ancestors().filter_map(|n| n.attribute("name")).collect();
            let to = if !above.is_empty() && r.chance(2, 3) { *r.pick(&above) } else { *r.pick(&names) };
            let prefix = a.value().split_once(':').map_or(String::new(), |p| format!("{}:", p.0));
            // from the attribute's name: = and a quoted value
            let rest = &t[a.position()..];
            let start = a.position() + rest.find(['"', '\''])? + 1;
            let end = start + t[start..].find(t[..start].chars().next_back()?)?;
            Some(format!("{}{prefix}{to}{}", &t[..start], &t[end..]))
        }
        // an element comes again inside another, perhaps inside itself
        _ => {
            let (a, b) = (*r.pick(&els), *r.pick(&els));
            let copy = &t[a.range()];
            let at = b.first_child()?.range().start;
            if copy.len() > 4000 || t.len() > 60_000 || a.parent_element().is_none() {
                return None;
            }
            Some(format!("{}{copy}{}", &t[..at], &t[at..]))
        }
    }
}

/// an annotation with text of any shape somewhere
fn redocument(r: &mut Rng, t: &str) -> Option<String> {
    let d = roxmltree::Document::parse(t).ok()?;
    let els: Vec<_> = d.descendants().filter(|n| n.is_element() && n.has_children() && n.parent_element().is_some()).collect();
    if els.is_empty() {
        return None;
    }
    let n = r.pick(&els);
    let p = t[n.range()].get(1..)?.split(|c: char| !c.is_alphanumeric() && c != ':').next()?.split_once(':').map_or(String::new(), |p| format!("{}:", p.0));
    let at = n.first_child()?.range().start;
    let text: Vec<String> = (0..1 + r.idx(40)).map(|_| if r.chance(1, 3) { textgen::long_word(r) } else { "word".repeat(1 + r.idx(6)) }).collect();
    let text = text.join(r.pick(&[" ", " ", "\n", "  "]));
    Some(format!("{}<{p}annotation><{p}documentation>{text}</{p}documentation></{p}annotation>{}", &t[..at], &t[at..]))
}

pub struct G04;
impl G04 {
    /// far above what any conversion takes, and still polynomial
    fn bound(len: u64) -> u64 {
        200_000 + 2_000 * len
    }
}
impl Sim for G04 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let mut c = gen_doc(r, true);
        let mut t = String::from_utf8(content(&c)).unwrap_or_default();
        let mut ops = vec![];
        for _ in 0..r.idx(8) {
            if r.chance(1, 6) {
                t = damage(r, &t);
                ops.push("damage");
            } else if r.chance(1, 5) {
                if let Some(x) = redocument(r, &t) {
                    t = x;
                    ops.push("documented");
                }
            } else if let Some(x) = rewire(r, &t) {
                t = x;
                ops.push("rewired");
            }
        }
        c = json!({"s": t, "kind": c["kind"]});
        json!({"docs": [c], "ops": ops, "hash": r.next() >> 12})
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let d = &case["docs"][0];
        let Ok(text) = String::from_utf8(content(d)) else { return Ok(()) };
        for o in case["ops"].as_array().into_iter().flatten() {
            cov.fault(match o.as_str() {
                Some("damage") => "document damaged",
                Some("documented") => "annotation of any shape added",
                _ => "references rewired or declarations nested",
            });
        }
        let wsdl = is_wsdl(d);
        let len = text.len() as u64;
        let text: &'static str = Box::leak(text.into_boxed_str());
        let c = in_fork_with(8, 1, || {
            simos::seed_random(case["hash"].as_u64().unwrap_or(0));
            unsafe { simos::GIVE_UP = Some(gave_up) };
            static RESULT: Mutex<Option<Out>> = Mutex::new(None);
            let body = Box::new(move || {
                let o = fresh(wsdl, text);
                *RESULT.lock().unwrap() = Some(o);
            });
            let s = simos::run_threads(vec![body], vec![], G04::bound(len));
            let out = RESULT.lock().unwrap().take();
            let kind = match &out {
                Some(Out::Code(_)) => "conversions that gave code",
                Some(_) => "documents rejected",
                None => "no answer",
            };
            let mut rep = Report { bad: None, counts: vec![(kind, 1)], digest: hash_bytes(format!("{out:?}").as_bytes()) };
            if out.is_none() {
                rep.bad = Some(("no-answer".into(), "the conversion ended without an answer".into(), vec![]));
            }
            let mut v = report_json(rep);
            v["steps"] = json!(s.steps);
            v
        });
        unsafe { drop(Box::from_raw(std::ptr::from_ref(text).cast_mut())) };
        let mut worst = 0;
        if let Child::Said(v) = &c {
            let n = v["steps"].as_u64().unwrap_or(0);
            worst = n * 100 / G04::bound(len);
            cov.steps += n;
            cov.states.insert(mix64(n ^ v["digest"].as_u64().unwrap_or(0)));
        }
        if worst >= 25 {
            cov.hit("conversions beyond a quarter of the step bound");
        }
        match c {
            Child::Died(s) => Err(Violation::new("died", format!("the process {s} while converting one document"))),
            Child::Hung => Err(Violation::new("hung", "a conversion did not finish within 8 s of processor time")),
            c => conclude(case, cov, c, "G04"),
        }
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        shrink_docs(c)
    }
    fn directed(&self) -> Vec<Value> {
        let mut v = vec![];
        for tool in ["xsd", "wsdl"] {
            for b in bank(tool) {
                v.push(json!({"docs": [{"bank": b.0, "kind": tool}], "ops": [], "hash": 1}));
            }
        }
        v
    }
}

fn gave_up(why: u32) {
    let (sig, text) = if why == 1 {
        ("deadlock", "every thread waits for another one")
    } else {
        ("no-progress", "the work did not finish within the step bound")
    };
    say(&json!({"bad": [sig, text, []], "counts": [], "digest": 0}));
}

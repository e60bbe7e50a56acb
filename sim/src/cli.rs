//! Simulated operation of the real xsd-parser / wsdl-parser processes: every system call they make
//! goes through shim/iosim.c, whose plan is decided here.

use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    ffi::OsString,
    io::{Read, Write},
    os::unix::{
        ffi::{OsStrExt, OsStringExt},
        io::FromRawFd,
        process::{CommandExt, ExitStatusExt},
    },
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{Mutex, OnceLock},
};

use serde_json::{json, Value};

use crate::{
    rng::{hash_bytes, mix64, Rng},
    runner::{guard, shrink_array, verif_dir, Cov, Sim, Violation},
    textgen,
};

// ------------------------------------------------------------------------------------ contents

pub fn bank(tool: &str) -> &'static Vec<(String, usize)> {
    static X: OnceLock<Vec<(String, usize)>> = OnceLock::new();
    static W: OnceLock<Vec<(String, usize)>> = OnceLock::new();
    let cell = if tool == "xsd" { &X } else { &W };
    cell.get_or_init(|| {
        let mut v: Vec<(String, usize)> = std::fs::read_dir(verif_dir().join("bank").join(tool))
            .expect("bank")
            .map(|e| {
                let e = e.unwrap();
                (format!("{tool}/{}", e.file_name().to_string_lossy()), e.metadata().unwrap().len() as usize)
            })
            .collect();
        v.sort();
        v
    })
}

/// content reference: {"bank":name} | {"s":text} | {"hex":bytes}, optionally "cut":n, "flip":[[pos,xor],..], "ins":[[pos,hex]]
pub fn content(c: &Value) -> Vec<u8> {
    static CACHE: OnceLock<Mutex<HashMap<String, Vec<u8>>>> = OnceLock::new();
    let mut b = if let Some(n) = c["bank"].as_str() {
        let m = CACHE.get_or_init(Default::default);
        let mut g = m.lock().unwrap();
        g.entry(n.to_string()).or_insert_with(|| std::fs::read(verif_dir().join("bank").join(n)).expect("bank file")).clone()
    } else if let Some(s) = c["s"].as_str() {
        s.as_bytes().to_vec()
    } else {
        let h = c["hex"].as_str().unwrap_or("");
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    if let Some(f) = c["flip"].as_array() {
        for p in f {
            let i = p[0].as_u64().unwrap() as usize;
            if i < b.len() {
                b[i] ^= p[1].as_u64().unwrap() as u8;
            }
        }
    }
    if let Some(n) = c["cut"].as_u64() {
        b.truncate(n as usize);
    }
    if let Some(n) = c["pad"].as_u64() {
        b.extend(std::iter::repeat(b' ').take(n as usize));
    }
    b
}

/// Reference result: the code the library produces for this input, None when it rejects it.
pub fn reference(tool: &str, input: &[u8]) -> Option<Vec<u8>> {
    static CACHE: OnceLock<Mutex<HashMap<(bool, u64, usize), Option<Vec<u8>>>>> = OnceLock::new();
    let m = CACHE.get_or_init(Default::default);
    let key = (tool == "xsd", hash_bytes(input), input.len());
    if let Some(r) = m.lock().unwrap().get(&key) {
        return r.clone();
    }
    let r = compute_reference(tool, input);
    m.lock().unwrap().insert(key, r.clone());
    r
}

fn compute_reference(tool: &str, input: &[u8]) -> Option<Vec<u8>> {
    let text = std::str::from_utf8(input).ok()?;
    if tool == "xsd" {
        guard(|| {
            let rs = xsd_parser::parser::parse(text).ok()?;
            Some(xsd_parser::generator::builder::GeneratorBuilder::default().build().generate_rs_file(&rs).into_bytes())
        })
        .ok()
        .flatten()
    } else {
        guard(|| {
            let doc = roxmltree::Document::parse(text).ok()?;
            let d = wsdl_parser::parser::definitions::Definitions::new(&doc.root_element());
            let mut out = String::new();
            for t in d.types() {
                for s in t.schemas() {
                    let gen = xsd_parser::generator::builder::GeneratorBuilder::default().build();
                    out.push_str(&gen.generate_rs_file(&xsd_parser::parser::schema::parse_schema(&s)));
                }
            }
            out.push_str(&wsdl_parser::generator::generate(&d));
            Some(out.into_bytes())
        })
        .ok()
        .flatten()
    }
}

pub fn gen_content(r: &mut Rng, tool: &str) -> Value {
    match r.below(40) {
        0 => {
            let b = bank(tool);
            json!({ "bank": r.pick(b).0 })
        }
        1..=12 => {
            let b: Vec<_> = bank(tool).iter().filter(|x| x.1 < 24_000).collect();
            json!({ "bank": r.pick(&b).0 })
        }
        13..=28 => json!({ "s": if tool == "xsd" { textgen::rich_xsd(r) } else { textgen::rich_wsdl(r) } }),
        _ => json!({ "s": if tool == "xsd" { textgen::xsd(r) } else { textgen::wsdl(r) } }),
    }
}

/// content a tool should convert; falls back to a tiny one
pub fn gen_valid(r: &mut Rng, tool: &str) -> Value {
    for _ in 0..4 {
        let c = gen_content(r, tool);
        if reference(tool, &content(&c)).is_some() {
            return c;
        }
    }
    if tool == "xsd" {
        json!({"bank": "xsd/t_choice_input.xsd"})
    } else {
        json!({"bank": "wsdl/t_port_type.wsdl.xml"})
    }
}

/// content with damage, very likely rejected
pub fn gen_damaged(r: &mut Rng, tool: &str) -> Value {
    let mut c = gen_valid(r, tool);
    let n = content(&c).len().max(1);
    match r.below(8) {
        0 => json!({"s": ""}),
        1 => json!({"s": *r.pick(&["not xml", "<a>", "<a></b>", "<?xml version=\"1.0\"?>", "<a/><b/>", "&", "<a", "\u{feff}"])}),
        2 | 3 => {
            c["cut"] = json!(r.idx(n));
            c
        }
        4 => {
            // invalid UTF-8 at some position
            c["flip"] = json!([[r.idx(n), 0x80 | r.below(64)]]);
            c
        }
        5 => {
            // cut inside the last tag
            c["cut"] = json!(n - 1 - r.idx(n.min(12)));
            c
        }
        _ => {
            let k = 1 + r.idx(4);
            c["flip"] = Value::Array((0..k).map(|_| json!([r.idx(n), 1 + r.below(255)])).collect());
            c
        }
    }
}

// ------------------------------------------------------------------------------------ world

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
}
pub type Tree = BTreeMap<PathBuf, Node>;

pub fn snapshot(root: &Path) -> Tree {
    let mut t = Tree::new();
    fn walk(root: &Path, p: &Path, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd {
            let e = e.unwrap();
            let q = e.path();
            let rel = q.strip_prefix(root).unwrap().to_path_buf();
            let ft = e.file_type().unwrap();
            if ft.is_symlink() {
                t.insert(rel, Node::Link(std::fs::read_link(&q).unwrap()));
            } else if ft.is_dir() {
                t.insert(rel, Node::Dir);
                walk(root, &q, t);
            } else {
                t.insert(rel, Node::File(std::fs::read(&q).unwrap()));
            }
        }
    }
    walk(root, root, &mut t);
    t
}

pub fn hash_tree(t: &Tree) -> u64 {
    let mut h = 1u64;
    for (p, n) in t {
        h = mix64(h ^ hash_bytes(p.as_os_str().as_bytes()));
        h = mix64(
            h ^ match n {
                Node::Dir => 2,
                Node::File(b) => hash_bytes(b),
                Node::Link(l) => hash_bytes(l.as_os_str().as_bytes()) ^ 3,
            },
        );
    }
    h
}

fn base_dir() -> &'static PathBuf {
    static B: OnceLock<PathBuf> = OnceLock::new();
    B.get_or_init(|| {
        let cand = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm" } else { "/tmp" };
        let p = PathBuf::from(format!("{cand}/dst-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() {
            return p;
        }
        let p = PathBuf::from(format!("/tmp/dst-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch");
        p
    })
}

pub fn cleanup() {
    if let Some(b) = Some(base_dir()) {
        let _ = std::fs::remove_dir_all(b);
    }
}

/// one worker's private directory; the process under test sees <dir>/root as its world
pub struct World {
    pub dir: PathBuf,
    pub root: PathBuf,
}

thread_local! {
    static SLOT: std::cell::RefCell<Option<usize>> = const { std::cell::RefCell::new(None) };
}
static NEXT_SLOT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl World {
    pub fn new() -> World {
        let n = SLOT.with(|s| {
            *s.borrow_mut().get_or_insert_with(|| NEXT_SLOT.fetch_add(1, std::sync::atomic::Ordering::SeqCst))
        });
        let dir = base_dir().join(format!("w{n}"));
        let root = dir.join("root");
        let w = World { dir, root };
        w.reset();
        w
    }
    pub fn reset(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(&self.root).expect("scratch root");
    }
    pub fn put(&self, rel: &Path, c: &[u8]) {
        let p = self.root.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, c).unwrap();
    }
}

pub fn pathv(v: &Value) -> PathBuf {
    if let Some(s) = v.as_str() {
        return PathBuf::from(s);
    }
    // non UTF-8 path as array of bytes
    let b: Vec<u8> = v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default();
    PathBuf::from(OsString::from_vec(b))
}

/// build the scenario's initial world
pub fn populate(w: &World, case: &Value) {
    for d in case["dirs"].as_array().into_iter().flatten() {
        std::fs::create_dir_all(w.root.join(pathv(d))).unwrap();
    }
    for key in ["files", "pre"] {
        for f in case[key].as_array().into_iter().flatten() {
            w.put(&pathv(&f["p"]), &content(&f["c"]));
        }
    }
    for l in case["links"].as_array().into_iter().flatten() {
        let p = w.root.join(pathv(&l["p"]));
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        let _ = std::os::unix::fs::symlink(pathv(&l["to"]), p);
    }
}

// ------------------------------------------------------------------------------------ processes

#[derive(Clone, Debug)]
pub struct Op {
    pub cls: String,
    pub nth: i64,
    pub what: String,
    pub act: Option<(String, i64)>,
}

pub struct Done {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub ops: Vec<Op>,
    pub escape: Option<String>,
    pub crashed: bool,
    pub enospc: bool,
}

impl Done {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn trace(&self) -> Vec<String> {
        self.ops
            .iter()
            .map(|o| match &o.act {
                Some((k, a)) => format!("{} {} {} <== {} {}", o.cls, o.nth, o.what, k, a),
                None => format!("{} {} {}", o.cls, o.nth, o.what),
            })
            .collect()
    }
    pub fn count(&self, cls: &str) -> i64 {
        self.ops.iter().filter(|o| o.cls == cls).count() as i64
    }
    pub fn allocs(&self) -> i64 {
        self.ops.iter().filter(|o| o.cls == "END").map(|o| o.nth).next().unwrap_or(0)
    }
    /// did any injected action of a kind other than short transfers / EINTR fire
    pub fn hard_fired(&self) -> bool {
        self.enospc
            || self.crashed
            || self.ops.iter().any(|o| match &o.act {
                Some((k, a)) => !(k == "short" || (k == "err" && *a == i64::from(libc::EINTR))),
                None => false,
            })
    }
    pub fn describe(&self) -> String {
        format!(
            "exit={:?} signal={:?} stdout={}B stderr={:?}",
            self.code,
            self.signal,
            self.stdout.len(),
            String::from_utf8_lossy(&self.stderr[..self.stderr.len().min(300)])
        )
    }
}

fn errname(e: i64) -> String {
    match e as i32 {
        libc::EINTR => "EINTR".into(),
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EACCES => "EACCES".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::EROFS => "EROFS".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EFBIG => "EFBIG".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EMLINK => "EMLINK".into(),
        libc::ELOOP => "ELOOP".into(),
        libc::EPERM => "EPERM".into(),
        libc::EISDIR => "EISDIR".into(),
        n => format!("E{n}"),
    }
}

fn parse_log(text: &str) -> (Vec<Op>, Option<String>, bool, bool) {
    let (mut ops, mut escape, mut crashed, mut enospc) = (vec![], None, false, false);
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("OP ") {
            let f: Vec<&str> = r.split(' ').collect();
            if f.len() < 4 {
                continue;
            }
            let act = f.iter().position(|x| *x == "!").map(|i| (f[i + 1].to_string(), f[i + 2].parse().unwrap_or(0)));
            ops.push(Op { cls: f[0].into(), nth: f[1].parse().unwrap_or(0), what: f[2].into(), act });
        } else if l.starts_with("ESCAPE") {
            escape = Some(l.to_string());
        } else if l.starts_with("CRASH") {
            crashed = true;
        } else if l == "ENOSPC" {
            enospc = true;
        } else if let Some(n) = l.strip_prefix("END alloc=") {
            ops.push(Op { cls: "END".into(), nth: n.parse().unwrap_or(0), what: String::new(), act: None });
        } else if let Some(n) = l.strip_prefix("ENT ") {
            ops.push(Op { cls: "ent".into(), nth: 0, what: n.to_string(), act: None });
        }
    }
    (ops, escape, crashed, enospc)
}

pub struct Proc {
    pub tool: String,
    pub args: Vec<OsString>,
    pub cwd: PathBuf,
    pub plan: Vec<Value>,
    pub seed: u64,
    pub shuffle: u64,
    pub quota: Option<i64>,
    pub env: Vec<(String, String)>,
    pub tag: String,
}

pub fn bin(tool: &str) -> PathBuf {
    let d = std::env::var_os("DST_CLI_DIR").map(PathBuf::from).unwrap_or_else(|| verif_dir().join("target/cli/debug"));
    d.join(if tool == "xsd" { "xsd-parser" } else { "wsdl-parser" })
}

fn shim() -> PathBuf {
    std::env::var_os("DST_SHIM").map(PathBuf::from).unwrap_or_else(|| verif_dir().join("target/iosim.so"))
}

fn command(w: &World, p: &Proc, ctl: Option<(i32, i32)>) -> Command {
    let plan = w.dir.join(format!("plan{}", p.tag));
    let log = w.dir.join(format!("log{}", p.tag));
    let _ = std::fs::remove_file(&log);
    let mut s = format!("root {}\nseed {}\nshuffle {}\n", w.root.display(), p.seed, p.shuffle);
    if let Some(q) = p.quota {
        s.push_str(&format!("quota {q}\n"));
    }
    if ctl.is_some() {
        s.push_str("ctl 910 911\n");
    }
    for a in &p.plan {
        s.push_str(&format!(
            "act {} {} {} {}\n",
            a[0].as_str().unwrap(),
            a[1].as_i64().unwrap(),
            a[2].as_str().unwrap(),
            a[3].as_i64().unwrap()
        ));
    }
    std::fs::write(&plan, s).unwrap();
    let mut c = Command::new(bin(&p.tool));
    c.args(&p.args)
        .current_dir(&p.cwd)
        .env_clear()
        .env("LD_PRELOAD", shim())
        .env("IOSIM_PLAN", &plan)
        .env("IOSIM_LOG", &log)
        .env("PATH", "/usr/bin:/bin")
        .stdin(Stdio::null());
    for (k, v) in &p.env {
        c.env(k, v);
    }
    unsafe {
        c.pre_exec(move || {
            libc::personality(0x0040000); // ADDR_NO_RANDOMIZE: best effort
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            if let Some((r, wr)) = ctl {
                libc::dup2(r, 910);
                libc::dup2(wr, 911);
                libc::close(r);
                libc::close(wr);
            }
            Ok(())
        });
    }
    c
}

fn collect(w: &World, p: &Proc, status: std::process::ExitStatus, stdout: Vec<u8>, stderr: Vec<u8>) -> Done {
    let text = std::fs::read(w.dir.join(format!("log{}", p.tag))).unwrap_or_default();
    let (ops, escape, crashed, enospc) = parse_log(&String::from_utf8_lossy(&text));
    Done { code: status.code(), signal: status.signal(), stdout, stderr, ops, escape, crashed, enospc }
}

pub fn run_proc(w: &World, p: &Proc) -> Done {
    let mut c = command(w, p, None);
    c.stdout(Stdio::piped()).stderr(Stdio::piped());
    let o = c.output().unwrap_or_else(|e| {
        eprintln!("harness error: cannot start {}: {e}", bin(&p.tool).display());
        std::process::exit(3)
    });
    let d = collect(w, p, o.status, o.stdout, o.stderr);
    if d.code == Some(99) || d.code == Some(127) {
        eprintln!("harness error: shim did not start: {}", d.describe());
        std::process::exit(3);
    }
    d
}

static SPAWN: Mutex<()> = Mutex::new(());

/// Runs several processes, one system call at a time; `sched` chooses who moves.
/// Entries: n = index into the list of live processes (mod len); -1-n = kill that process.
pub fn run_concurrent(w: &World, procs: &[Proc], sched: &[i64]) -> (Vec<Done>, Vec<usize>) {
    struct Live {
        child: std::process::Child,
        req: std::fs::File,
        grant: std::fs::File,
        waiting: bool,
        dead: bool,
    }
    let mut live: Vec<Live> = vec![];
    for p in procs {
        // pipes are created close-on-exec; the lock keeps other workers' forks from holding them
        let _g = SPAWN.lock().unwrap();
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        unsafe {
            assert_eq!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC), 0);
            assert_eq!(libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC), 0);
        }
        // a: child -> driver requests, b: driver -> child grants
        let mut c = command(w, p, Some((b[0], a[1])));
        let err = std::fs::File::create(w.dir.join(format!("err{}", p.tag))).unwrap();
        c.stdout(Stdio::null()).stderr(err);
        let child = c.spawn().unwrap_or_else(|e| {
            eprintln!("harness error: spawn: {e}");
            std::process::exit(3)
        });
        unsafe {
            libc::close(b[0]);
            libc::close(a[1]);
            live.push(Live {
                child,
                req: std::fs::File::from_raw_fd(a[0]),
                grant: std::fs::File::from_raw_fd(b[1]),
                waiting: false,
                dead: false,
            });
        }
    }
    let mut order = vec![];
    let mut k = 0;
    let wait_req = |l: &mut Live| {
        let mut c = [0u8; 1];
        match l.req.read(&mut c) {
            Ok(1) => l.waiting = true,
            _ => l.dead = true,
        }
    };
    for l in live.iter_mut() {
        wait_req(l);
    }
    loop {
        let ready: Vec<usize> = (0..live.len()).filter(|i| !live[*i].dead).collect();
        if ready.is_empty() {
            break;
        }
        let s = sched.get(k).copied().unwrap_or(0);
        k += 1;
        let (i, kill) = if s >= 0 { (ready[s as usize % ready.len()], false) } else { (ready[(-1 - s) as usize % ready.len()], true) };
        order.push(i);
        let _ = live[i].grant.write_all(if kill { b"K" } else { b"G" });
        live[i].waiting = false;
        wait_req(&mut live[i]);
        if k > 200_000 {
            for l in live.iter_mut() {
                let _ = l.child.kill();
            }
            break;
        }
    }
    let mut out = vec![];
    for (l, p) in live.into_iter().zip(procs) {
        let Live { mut child, req, grant, .. } = l;
        drop(req);
        drop(grant);
        let st = child.wait().unwrap();
        let err = std::fs::read(w.dir.join(format!("err{}", p.tag))).unwrap_or_default();
        out.push(collect(w, p, st, vec![], err));
    }
    (out, order)
}

// ------------------------------------------------------------------------------------ model

/// destination file name for an input file name: extension replaced by .rs
pub fn dest_name(name: &[u8]) -> Vec<u8> {
    let stem = match name.iter().rposition(|c| *c == b'.') {
        Some(0) | None => name,
        Some(i) => &name[..i],
    };
    let mut v = stem.to_vec();
    v.extend_from_slice(b".rs");
    v
}

pub struct Expect {
    /// destination path relative to root -> (input bytes, reference output)
    pub files: BTreeMap<PathBuf, (Vec<u8>, Option<Vec<u8>>)>,
    pub dirs: BTreeSet<PathBuf>,
    pub stdout: Option<Option<Vec<u8>>>,
}

fn follow(root: &Path, rel: &Path) -> Option<Node> {
    let m = std::fs::metadata(root.join(rel)).ok()?;
    Some(if m.is_dir() { Node::Dir } else { Node::File(std::fs::read(root.join(rel)).ok()?) })
}

/// what an undisturbed run has to produce, from the world as it is now
pub fn expect(w: &World, case: &Value) -> Expect {
    let tool = case["tool"].as_str().unwrap();
    let mut e = Expect { files: BTreeMap::new(), dirs: BTreeSet::new(), stdout: None };
    let input = pathv(&case["in"]);
    match case["mode"].as_str().unwrap() {
        "dir" => {
            let out = pathv(&case["out"]);
            let mut acc = PathBuf::new();
            for c in out.components() {
                acc.push(c);
                e.dirs.insert(acc.clone());
            }
            fn walk(w: &World, tool: &str, inp: &Path, out: &Path, e: &mut Expect, depth: usize) {
                e.dirs.insert(out.to_path_buf());
                if depth > 12 {
                    return;
                }
                for ent in std::fs::read_dir(w.root.join(inp)).unwrap() {
                    let name = ent.unwrap().file_name();
                    match follow(&w.root, &inp.join(&name)) {
                        Some(Node::Dir) => walk(w, tool, &inp.join(&name), &out.join(&name), e, depth + 1),
                        Some(Node::File(b)) => {
                            let d = out.join(OsString::from_vec(dest_name(name.as_bytes())));
                            let r = reference(tool, &b);
                            e.files.insert(d, (b, r));
                        }
                        _ => {}
                    }
                }
            }
            walk(w, tool, &input, &out, &mut e, 0);
        }
        "file" => {
            if let Some(Node::File(b)) = follow(&w.root, &input) {
                let r = reference(tool, &b);
                e.files.insert(pathv(&case["out"]), (b, r));
            }
        }
        _ => {
            if let Some(Node::File(b)) = follow(&w.root, &input) {
                e.stdout = Some(reference(tool, &b).map(|mut v| {
                    v.push(b'\n');
                    v
                }));
            }
        }
    }
    e
}

pub fn make_proc(w: &World, case: &Value, plan: &[Value], tag: &str) -> Proc {
    let mut args: Vec<OsString> = vec![];
    if !case["noargs"].as_bool().unwrap_or(false) {
        let style = case["style"].as_u64().unwrap_or(0);
        let form = |p: &Path| -> OsString {
            match style & 3 {
                1 => w.root.join(p).into_os_string(),
                2 => PathBuf::from(".").join(p).into_os_string(),
                _ => p.as_os_str().to_os_string(),
            }
        };
        args.push(if style & 4 != 0 { "--input" } else { "-i" }.into());
        let mut a = form(&pathv(&case["in"]));
        if style & 8 != 0 && case["mode"] == "dir" {
            a.push("/");
        }
        args.push(a);
        if !case["out"].is_null() {
            let mut a = form(&pathv(&case["out"]));
            if style & 8 != 0 && case["mode"] == "dir" {
                a.push("/");
            }
            if style & 16 != 0 {
                let mut x = OsString::from("--output=");
                x.push(a);
                args.push(x);
            } else {
                args.push("-o".into());
                args.push(a);
            }
        }
    }
    let env: Vec<(String, String)> = case["env"]
        .as_object()
        .into_iter()
        .flatten()
        .map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string()))
        .collect();
    Proc {
        tool: case["tool"].as_str().unwrap().into(),
        args,
        cwd: w.root.clone(),
        plan: plan.to_vec(),
        seed: case["seed"].as_u64().unwrap_or(1),
        shuffle: case["shuffle"].as_u64().unwrap_or(0),
        quota: case["quota"].as_i64(),
        env,
        tag: tag.into(),
    }
}

pub fn show_tree_diff(want: &Tree, got: &Tree) -> String {
    let mut s = String::new();
    for (p, n) in want {
        match got.get(p) {
            None => s.push_str(&format!("missing {}\n", p.display())),
            Some(g) if g != n => s.push_str(&format!("differs {}: {}\n", p.display(), show_node_diff(n, g))),
            _ => {}
        }
    }
    for p in got.keys() {
        if !want.contains_key(p) {
            s.push_str(&format!("unexpected {}\n", p.display()));
        }
    }
    s
}

pub fn show_node_diff(want: &Node, got: &Node) -> String {
    match (want, got) {
        (Node::File(a), Node::File(b)) => show_bytes_diff(a, b),
        _ => format!("{:?} expected, {:?} found", kind(want), kind(got)),
    }
}
fn kind(n: &Node) -> &'static str {
    match n {
        Node::Dir => "dir",
        Node::File(_) => "file",
        Node::Link(_) => "link",
    }
}
pub fn show_bytes_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let ctx = |v: &[u8]| String::from_utf8_lossy(&v[i.min(v.len())..(i + 40).min(v.len())]).into_owned();
    format!("expected {} bytes, found {}; first difference at {}: {:?} vs {:?}", a.len(), b.len(), i, ctx(a), ctx(b))
}

/// expected tree after success: the initial tree plus directories and outputs
pub fn final_tree(before: &Tree, e: &Expect) -> Tree {
    let mut t = before.clone();
    for d in &e.dirs {
        t.entry(d.clone()).or_insert(Node::Dir);
    }
    for (p, (_, r)) in &e.files {
        if let Some(r) = r {
            t.insert(p.clone(), Node::File(r.clone()));
        }
    }
    t
}

pub fn record(cov: &mut Cov, d: &Done) {
    let mut h = 7u64;
    for o in &d.ops {
        if o.cls == "END" || o.cls == "ent" {
            continue;
        }
        cov.steps += 1;
        h = mix64(h ^ hash_bytes(o.cls.as_bytes()) ^ hash_bytes(o.what.as_bytes()).rotate_left(7));
        if let Some((k, a)) = &o.act {
            h = mix64(h ^ hash_bytes(k.as_bytes()) ^ *a as u64);
            match k.as_str() {
                "short" => cov.fault(&format!("short {}", o.cls)),
                "err" => cov.fault(&format!("{} on {}", errname(*a), o.cls)),
                "errall" => cov.fault(&format!("persistent {} on {}", errname(*a), o.cls)),
                k => cov.fault(&format!("{k} at {}", o.cls)),
            }
        }
    }
    if d.enospc {
        cov.fault("disk full (byte quota)");
    }
    cov.states.insert(h);
    cov.note(h);
    cov.note(d.code.unwrap_or(-1) as u64 ^ ((d.signal.unwrap_or(0) as u64) << 32));
    cov.note_bytes(&d.stdout);
    // stderr is deliberately not part of the digest: it holds thread ids
}

// ------------------------------------------------------------------------------------ generation

const FILE_NAMES: &[&str] = &[
    "a.xsd", "b.xsd", "types.v2.xsd", "no_ext", "sp ace.xsd", "ünï.xsd", ".hidden.xsd", ".xsd", "UPPER.XSD", "x.rs", "tar.gz.xml",
    "-dash.xsd", "trailing.", "日本.wsdl", "service.wsdl.xml", "..dots.xsd", "q'uote\".xml", "mod.rs", "lib.xsd", "Z.xsd", "a b.c d.xsd",
    "event.wsdl", "core.XML", "deep.xsd", "%41.xsd", "new\nline.xsd",
];
const DIR_NAMES: &[&str] = &["in", "sub", "a", "v1.0", "sp ace", "ü", ".git", "ver10", "schema", "x.rs", "-d", "empty", "日本"];

pub fn gen_env(r: &mut Rng) -> Value {
    let mut m = serde_json::Map::new();
    if r.chance(1, 2) {
        m.insert("LANG".into(), json!(*r.pick(&["C", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE@euro"])));
    }
    if r.chance(1, 3) {
        m.insert("TZ".into(), json!(*r.pick(&["UTC", "Asia/Kathmandu", "America/New_York", ":bad"])));
    }
    if r.chance(1, 4) {
        m.insert("RUST_BACKTRACE".into(), json!(*r.pick(&["0", "1", "full"])));
    }
    if r.chance(1, 5) {
        m.insert("HOME".into(), json!("/nonexistent"));
    }
    if r.chance(1, 6) {
        m.insert("TMPDIR".into(), json!("/nonexistent/tmp"));
    }
    if r.chance(1, 8) {
        m.insert("SOURCE_DATE_EPOCH".into(), json!("1"));
    }
    if r.chance(1, 8) {
        m.insert("COLUMNS".into(), json!("20"));
    }
    Value::Object(m)
}

fn stale(r: &mut Rng) -> Value {
    // earlier content of a destination: often longer than the new output
    match r.below(4) {
        0 => json!({"s": ""}),
        1 => json!({"s": "// old\n"}),
        2 => json!({"s": "// old line of generated code that must disappear\n".repeat(1 + r.idx(2000))}),
        _ => json!({"hex": "ff00fe".repeat(1 + r.idx(9000))}),
    }
}

pub fn gen_base(r: &mut Rng, mode: &str) -> Value {
    let tool = if r.chance(3, 5) { "xsd" } else { "wsdl" };
    json!({
        "tool": tool, "mode": mode, "seed": r.next() >> 1, "shuffle": r.next() >> 1, "style": r.below(32), "env": gen_env(r),
        "files": [], "pre": [], "dirs": [], "links": [], "plan": [],
    })
}

/// fills in inputs for file/stdout mode
pub fn gen_single(r: &mut Rng, mode: &str, damaged: bool) -> Value {
    let mut c = gen_base(r, mode);
    let tool = c["tool"].as_str().unwrap().to_string();
    let name = format!("{}{}", if r.chance(1, 3) { "d/" } else { "" }, r.pick(FILE_NAMES));
    let body = if damaged { gen_damaged(r, &tool) } else { gen_valid(r, &tool) };
    c["in"] = json!(name);
    c["files"] = json!([{"p": name, "c": body}]);
    if name.starts_with('-') {
        c["style"] = json!(1);
    }
    if mode == "file" {
        let out = *r.pick(&["o.rs", "out/gen.rs", "out/deep/x", "sp ace.rs", "d/o.rs", "ünï.rs"]);
        c["out"] = json!(out);
        if out.contains('/') {
            c["dirs"] = json!([Path::new(out).parent().unwrap().to_str().unwrap()]);
        }
        if r.chance(2, 3) {
            c["pre"] = json!([{"p": out, "c": stale(r)}]);
        }
    }
    c
}

/// a directory tree; `bad`: number of damaged inputs placed among valid ones
pub fn gen_dir(r: &mut Rng, bad: usize, max_files: usize) -> Value {
    let mut c = gen_base(r, "dir");
    let tool = c["tool"].as_str().unwrap().to_string();
    let (inp, out) = if r.chance(1, 8) {
        c["noargs"] = json!(true);
        if tool == "xsd" {
            ("input/xsd".to_string(), "output/rs".to_string())
        } else {
            ("input/wsdl".to_string(), "output/wsdl-rs".to_string())
        }
    } else {
        (
            (*r.pick(&["in", "schemas", "a/b", "sp ace/in"])).to_string(),
            (*r.pick(&["out", "gen/rs", "o/p/q/r", "ünï out"])).to_string(),
        )
    };
    c["in"] = json!(inp);
    c["out"] = json!(out);
    let mut dirs: Vec<String> = vec![inp.clone()];
    for _ in 0..r.size(8) {
        let parent = r.pick(&dirs).clone();
        if parent.matches('/').count() > 6 {
            continue;
        }
        let d = format!("{parent}/{}", r.pick(DIR_NAMES));
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    }
    // destinations have to be distinct (also from directories)
    let mut taken: BTreeSet<String> = dirs.clone().into_iter().collect();
    let mut files = vec![];
    let n = 1 + r.idx(max_files.max(1));
    for _ in 0..n {
        let d = r.pick(&dirs).clone();
        let name = if r.chance(1, 5) { format!("f{}.xsd", r.below(100)) } else { (*r.pick(FILE_NAMES)).to_string() };
        let src = format!("{d}/{name}");
        let dst = format!("{d}/{}", String::from_utf8(dest_name(name.as_bytes())).unwrap());
        if taken.contains(&dst) || files.iter().any(|f: &Value| f["p"] == json!(src)) || dirs.contains(&src) {
            continue;
        }
        taken.insert(dst);
        files.push(json!({"p": src, "c": gen_valid(r, &tool)}));
    }
    for _ in 0..bad {
        if files.is_empty() {
            break;
        }
        let i = r.idx(files.len());
        files[i]["c"] = gen_damaged(r, &tool);
    }
    // symbolic links to files and directories outside the input directory
    let mut links = vec![];
    if r.chance(1, 6) {
        let d = r.pick(&dirs).clone();
        let dst = format!("{d}/linked.rs");
        if taken.insert(dst) {
            files.push(json!({"p": "elsewhere/real.xsd", "c": gen_valid(r, &tool)}));
            let up = "../".repeat(d.matches('/').count() + 1);
            links.push(json!({"p": format!("{d}/linked.xsd"), "to": format!("{up}elsewhere/real.xsd")}));
        }
    }
    if r.chance(1, 10) {
        let d = r.pick(&dirs).clone();
        let p = format!("{d}/linkdir");
        if !dirs.contains(&p) {
            files.push(json!({"p": "elsewhere2/in_dir.xsd", "c": gen_valid(r, &tool)}));
            let up = "../".repeat(d.matches('/').count() + 1);
            links.push(json!({"p": p, "to": format!("{up}elsewhere2")}));
        }
    }
    // what is already there in the output tree
    let mut pre = vec![];
    if r.chance(1, 2) {
        for f in &files {
            if r.chance(1, 2) {
                let p = f["p"].as_str().unwrap();
                if let Some(rel) = p.strip_prefix(&format!("{inp}/")) {
                    let rel = Path::new(rel);
                    let name = dest_name(rel.file_name().unwrap().as_bytes());
                    let q = Path::new(&out).join(rel.parent().unwrap()).join(OsString::from_vec(name));
                    pre.push(json!({"p": q.to_str().unwrap(), "c": stale(r)}));
                }
            }
        }
        if r.chance(1, 2) {
            pre.push(json!({"p": format!("{out}/unrelated.txt"), "c": {"s": "keep me"}}));
            pre.push(json!({"p": format!("{out}/zzz/other.rs"), "c": {"s": "keep me too"}}));
        }
    } else if r.chance(1, 3) {
        dirs.push(out.clone());
    }
    if r.chance(1, 4) {
        pre.push(json!({"p": "bystander/file.rs", "c": {"s": "not yours"}}));
    }
    c["files"] = json!(files);
    c["links"] = json!(links);
    c["dirs"] = json!(dirs);
    c["pre"] = json!(pre);
    c
}

/// short transfers and interruptions, at a density drawn per run
pub fn gen_benign(r: &mut Rng, plan: &mut Vec<Value>) {
    let dens = *r.pick(&[0u64, 1, 3, 8, 10]);
    if dens == 0 {
        return;
    }
    let small = r.chance(1, 3);
    let lim = *r.pick(&[6i64, 30, 200]);
    for cls in ["read", "write", "out", "open"] {
        if !r.chance(3, 4) {
            continue;
        }
        for nth in 0..lim {
            if !r.chance(dens, 10) {
                continue;
            }
            if cls == "open" || r.chance(1, 4) {
                plan.push(json!([cls, nth, "err", libc::EINTR]));
            } else {
                let n = if small {
                    1 + r.below(7)
                } else {
                    match r.below(4) {
                        0 => 1 + r.below(3),
                        1 => 1 + r.below(64),
                        2 => 1 + r.below(4096),
                        _ => 1 + r.below(40_000),
                    }
                };
                plan.push(json!([cls, nth, "short", n]));
            }
        }
    }
}

const ERR_OPEN: &[i32] = &[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::EROFS, libc::ENOSPC, libc::ENOENT, libc::ELOOP, libc::EPERM];
const ERR_READ: &[i32] = &[libc::EIO, libc::EAGAIN, libc::ESTALE, libc::EISDIR, libc::ENOMEM];
const ERR_WRITE: &[i32] = &[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EPIPE, libc::EAGAIN];
const ERR_MKDIR: &[i32] = &[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMLINK, libc::EIO, libc::ENOENT];
const ERR_DIR: &[i32] = &[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM];
const ERR_READDIR: &[i32] = &[libc::EIO, libc::ENOENT];
const ERR_STAT: &[i32] = &[libc::EACCES, libc::EIO, libc::ENOENT];
const ERR_OUT: &[i32] = &[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN];

pub fn errs(cls: &str) -> &'static [i32] {
    match cls {
        "open" => ERR_OPEN,
        "read" => ERR_READ,
        "write" => ERR_WRITE,
        "mkdir" => ERR_MKDIR,
        "opendir" => ERR_DIR,
        "readdir" => ERR_READDIR,
        "stat" => ERR_STAT,
        "out" => ERR_OUT,
        _ => &[libc::EIO],
    }
}

/// run the scenario with its benign plan only, to learn which operations exist
pub fn profile(case: &Value) -> Done {
    let w = World::new();
    populate(&w, case);
    let plan: Vec<Value> = case["plan"].as_array().unwrap().clone();
    run_proc(&w, &make_proc(&w, case, &plan, "p"))
}

fn classes(d: &Done, want: &[&'static str]) -> Vec<(&'static str, i64)> {
    want.iter().filter_map(|c| { let n = d.count(c); if n > 0 { Some((*c, n)) } else { None } }).collect()
}

/// one hard fault at an operation the run really performs
pub fn gen_hard(r: &mut Rng, d: &Done, allowed: &[&'static str], plan: &mut Vec<Value>) {
    let cl = classes(d, allowed);
    if cl.is_empty() {
        return;
    }
    let (cls, n) = *r.pick(&cl);
    let nth = r.range(0, n - 1);
    plan.retain(|a| !(a[0] == json!(cls) && a[1] == json!(nth)));
    let kind = if r.chance(1, 3) { "errall" } else { "err" };
    plan.push(json!([cls, nth, kind, *r.pick(errs(cls))]));
}

pub fn gen_crash(r: &mut Rng, d: &Done, plan: &mut Vec<Value>) {
    let cl = classes(d, &["open", "read", "write", "mkdir", "opendir", "readdir", "stat", "close", "out", "rename", "unlink", "sync"]);
    if cl.is_empty() {
        return;
    }
    if r.chance(1, 6) && d.allocs() > 0 {
        plan.push(json!(["alloc", r.range(0, d.allocs() - 1), if r.chance(1, 2) { "err" } else { "crash" }, libc::ENOMEM]));
        return;
    }
    // bias towards the operations that change the world
    let (cls, n) = if r.chance(1, 2) {
        let m: Vec<_> = cl.iter().filter(|c| ["open", "write", "mkdir", "rename"].contains(&c.0)).copied().collect();
        if m.is_empty() { *r.pick(&cl) } else { *r.pick(&m) }
    } else {
        *r.pick(&cl)
    };
    let nth = r.range(0, n - 1);
    plan.retain(|a| !(a[0] == json!(cls) && a[1] == json!(nth)));
    match r.below(4) {
        0 => plan.push(json!([cls, nth, "crash", 0])),
        1 => plan.push(json!([cls, nth, "crashafter", 0])),
        _ if cls == "write" => {
            let bits = r.below(18);
            plan.push(json!([cls, nth, "crashmid", r.below(1 << bits)]))
        }
        2 => plan.push(json!([cls, nth, "crash", 0])),
        _ => plan.push(json!([cls, nth, "err", *r.pick(errs(cls))])),
    }
}

// ------------------------------------------------------------------------------------ oracles

fn violation(sig: &str, detail: String, d: &[&Done]) -> Violation {
    let mut t = vec![];
    for (i, x) in d.iter().enumerate() {
        t.push(format!("-- process {i}: {}", x.describe()));
        t.extend(x.trace().into_iter().filter(|l| !l.starts_with("ent")).take(400));
    }
    Violation::new(sig, detail).with_trace(t)
}

/// nothing but the declared outputs may differ from before
fn stray(before: &Tree, after: &Tree, e: &Expect) -> Option<String> {
    for (p, n) in before {
        if e.files.contains_key(p) {
            continue;
        }
        match after.get(p) {
            None => return Some(format!("{} was removed", p.display())),
            Some(a) if a != n => return Some(format!("{} was changed: {}", p.display(), show_node_diff(n, a))),
            _ => {}
        }
    }
    for p in after.keys() {
        if !before.contains_key(p) && !e.files.contains_key(p) && !e.dirs.contains(p) {
            return Some(format!("{} was created", p.display()));
        }
    }
    None
}

/// the part every property relies on: exit 0 means everything is there
fn success_is_complete(e: &Expect, after: &Tree, d: &Done, case: &Value) -> Result<(), Violation> {
    if !d.ok() {
        return Ok(());
    }
    if let Some(s) = &e.stdout {
        match s {
            None => return Err(violation("success-on-rejected-input", format!("exit 0 although the input is not convertible; {}", d.describe()), &[d])),
            Some(s) if *s != d.stdout => {
                return Err(violation("success-but-stdout-wrong", format!("exit 0 but standard output is not the generated code: {}", show_bytes_diff(s, &d.stdout)), &[d]))
            }
            _ => {}
        }
    } else if !d.stdout.is_empty() && case["mode"] != "stdout" {
        // informational output is allowed in file and directory mode
    }
    for (p, (_, r)) in &e.files {
        let Some(r) = r else {
            return Err(violation("success-on-rejected-input", format!("exit 0 although the input of {} is not convertible", p.display()), &[d]));
        };
        match after.get(p) {
            Some(Node::File(b)) if b == r => {}
            Some(Node::File(b)) => return Err(violation("success-but-incomplete", format!("exit 0 but {} is wrong: {}", p.display(), show_bytes_diff(r, b)), &[d])),
            _ => return Err(violation("success-but-missing", format!("exit 0 but {} does not exist", p.display()), &[d])),
        }
    }
    for p in &e.dirs {
        if after.get(p).is_none() {
            return Err(violation("success-but-dir-missing", format!("exit 0 but directory {} does not exist", p.display()), &[d]));
        }
    }
    Ok(())
}

fn common(before: &Tree, after: &Tree, e: &Expect, d: &Done, case: &Value) -> Result<(), Violation> {
    if let Some(x) = &d.escape {
        return Err(violation("write-outside", format!("the run tried to change something outside its directories: {x}"), &[d]));
    }
    if let Some(s) = stray(before, after, e) {
        return Err(violation("stray-change", s, &[d]));
    }
    success_is_complete(e, after, d, case)
}

fn nontrivial(cov: &mut Cov, case: &Value, extra: u64) {
    let mut h = hash_bytes(case.to_string().as_bytes());
    h = mix64(h ^ extra);
    cov.nontrivial.insert(h);
}

fn is_valid_world(e: &Expect) -> bool {
    e.files.values().all(|(_, r)| r.is_some()) && e.stdout.as_ref().map(|s| s.is_some()).unwrap_or(true)
}

fn shrink_cli(case: &Value) -> Vec<Value> {
    let mut out = vec![];
    for k in ["plan", "plans", "sched", "pre", "links", "files", "dirs"] {
        for mut c in shrink_array(case, k) {
            if k == "files" || k == "dirs" {
                // keep the scenario meaningful: the named input must survive
                if case["mode"] != "dir" && k == "files" && c["files"].as_array().unwrap().is_empty() {
                    continue;
                }
                if case["mode"] == "dir" && k == "dirs" {
                    let mut d = c["dirs"].as_array().unwrap().clone();
                    if !d.contains(&case["in"]) {
                        d.insert(0, case["in"].clone());
                        if d.len() >= case["dirs"].as_array().unwrap().len() {
                            continue;
                        }
                    }
                    c["dirs"] = Value::Array(d);
                }
            }
            out.push(c);
        }
    }
    for (k, v) in [("env", json!({})), ("quota", Value::Null), ("shuffle", json!(0)), ("style", json!(0)), ("seed", json!(1))] {
        if case[k] != v && !case[k].is_null() {
            let mut c = case.clone();
            c[k] = v;
            out.push(c);
        }
    }
    // smaller inputs
    if let Some(f) = case["files"].as_array() {
        let tool = case["tool"].as_str().unwrap_or("xsd");
        let tiny = if tool == "xsd" { json!({"bank": "xsd/t_choice_input.xsd"}) } else { json!({"bank": "wsdl/t_port_type.wsdl.xml"}) };
        for i in 0..f.len() {
            if f[i]["c"] != tiny && content(&f[i]["c"]).len() > 1500 {
                let mut c = case.clone();
                c["files"][i]["c"] = tiny.clone();
                out.push(c);
            }
        }
    }
    out
}

fn plan_of(case: &Value) -> Vec<Value> {
    case["plan"].as_array().cloned().unwrap_or_default()
}

// ------------------------------------------------------------------------------------ C01

pub struct C01;
impl Sim for C01 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let mut c = match r.below(10) {
            0..=4 => gen_single(r, "file", false),
            5..=7 => gen_single(r, "stdout", false),
            _ => gen_dir(r, 0, 4),
        };
        let mut p = vec![];
        gen_benign(r, &mut p);
        c["plan"] = json!(p);
        c
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let w = World::new();
        populate(&w, case);
        let before = snapshot(&w.root);
        let e = expect(&w, case);
        let d = run_proc(&w, &make_proc(&w, case, &plan_of(case), "0"));
        let after = snapshot(&w.root);
        record(cov, &d);
        cov.note(hash_tree(&after));
        cov.hit(&format!("mode {}", case["mode"].as_str().unwrap()));
        cov.hit(&format!("tool {}", case["tool"].as_str().unwrap()));
        if d.ops.iter().any(|o| o.act.is_some()) {
            nontrivial(cov, case, 0);
        }
        if cov.samples.is_empty() && d.ops.iter().any(|o| o.act.is_some()) {
            cov.samples.push(json!({"case": case, "events": d.trace()}));
        }
        common(&before, &after, &e, &d, case)?;
        if is_valid_world(&e) && !d.hard_fired() && !d.ok() {
            return Err(violation("valid-input-failed", format!("a valid input failed although no fault occurred: {}", d.describe()), &[&d]));
        }
        Ok(())
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_cli(case)
    }
}

// ------------------------------------------------------------------------------------ C02

pub struct C02;
impl Sim for C02 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let mut c = match r.below(10) {
            0..=2 => gen_single(r, "file", false),
            3..=5 => gen_single(r, "stdout", false),
            _ => gen_dir(r, 0, 5),
        };
        let mut p = vec![];
        if r.chance(1, 2) {
            gen_benign(r, &mut p);
        }
        c["plan"] = json!(p);
        let d = profile(&c);
        match r.below(12) {
            0 => {
                // disk that fills up somewhere inside the output
                let w = World::new();
                populate(&w, &c);
                let total: usize = expect(&w, &c).files.values().map(|f| f.1.as_ref().map(Vec::len).unwrap_or(0)).sum();
                c["quota"] = json!(r.below(total.max(1) as u64));
            }
            1 => p.push(json!(["alloc", r.range(0, (d.allocs() - 1).max(0)), if r.chance(1, 3) { "errall" } else { "err" }, libc::ENOMEM])),
            2 if c["mode"] == "file" => {
                // the destination directory does not exist
                c["dirs"] = json!([]);
                c["pre"] = json!([]);
                c["out"] = json!("missing/dir/o.rs");
            }
            _ => {
                for _ in 0..1 + r.idx(2) {
                    gen_hard(r, &d, &["open", "read", "write", "mkdir", "opendir", "readdir", "stat", "out"], &mut p);
                }
            }
        }
        c["plan"] = json!(p);
        c
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let w = World::new();
        populate(&w, case);
        let before = snapshot(&w.root);
        let e = expect(&w, case);
        let d = run_proc(&w, &make_proc(&w, case, &plan_of(case), "0"));
        let after = snapshot(&w.root);
        record(cov, &d);
        cov.note(hash_tree(&after));
        if d.hard_fired() {
            nontrivial(cov, case, 0);
            cov.hit(if d.ok() { "fault survived" } else { "fault reported" });
            if d.signal.is_some() {
                cov.hit("died by abort after failed allocation");
            }
        }
        if cov.samples.is_empty() && d.hard_fired() {
            cov.samples.push(json!({"case": case, "events": d.trace(), "result": d.describe()}));
        }
        common(&before, &after, &e, &d, case)?;
        if !d.ok() && !d.crashed && d.stderr.is_empty() {
            return Err(violation("silent-failure", format!("failed without any message: {}", d.describe()), &[&d]));
        }
        Ok(())
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_cli(case)
    }
}

// ------------------------------------------------------------------------------------ C03

pub struct C03;
impl Sim for C03 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let damage = r.chance(2, 3);
        let bad = if damage { 1 + r.idx(2) } else { 0 };
        let mut c = if r.chance(1, 2) { gen_single(r, "file", damage) } else { gen_dir(r, bad, 5) };
        let mut p = vec![];
        if r.chance(1, 3) {
            gen_benign(r, &mut p);
        }
        c["plan"] = json!(p);
        if !damage || r.chance(1, 4) {
            let d = profile(&c);
            // input side faults only
            let reads: Vec<&Op> = d
                .ops
                .iter()
                .filter(|o| (o.cls == "open" && o.what.starts_with("r:")) || (o.cls == "read" && o.what.starts_with("r:")))
                .collect();
            if !reads.is_empty() {
                let o = r.pick(&reads);
                p.retain(|a| !(a[0] == json!(o.cls) && a[1] == json!(o.nth)));
                p.push(json!([o.cls, o.nth, "err", *r.pick(errs(&o.cls))]));
            }
        }
        // nearly always have earlier output to protect
        if c["mode"] == "file" && r.chance(3, 4) {
            c["pre"] = json!([{"p": c["out"], "c": stale(r)}]);
        }
        c["plan"] = json!(p);
        c
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let w = World::new();
        populate(&w, case);
        let before = snapshot(&w.root);
        let e = expect(&w, case);
        let d = run_proc(&w, &make_proc(&w, case, &plan_of(case), "0"));
        let after = snapshot(&w.root);
        record(cov, &d);
        cov.note(hash_tree(&after));
        common(&before, &after, &e, &d, case)?;
        // inputs whose reading was disturbed
        let inp = pathv(&case["in"]);
        let mut hurt: BTreeSet<String> = BTreeSet::new();
        for o in &d.ops {
            if let Some((k, a)) = &o.act {
                if k != "short" && *a != i64::from(libc::EINTR) && o.what.starts_with("r:") {
                    hurt.insert(o.what[2..].to_string());
                }
            }
        }
        let mut refused = 0;
        for (p, (_, r)) in &e.files {
            // encoded the way the shim logs names
            let src_hit = hurt.iter().any(|h| {
                let enc = |x: &Path| -> Vec<u8> {
                    x.as_os_str().as_bytes().iter().map(|c| if *c <= b' ' || *c == b'!' { b'_' } else { *c }).collect()
                };
                if case["mode"] == "file" {
                    h.as_bytes() == enc(&inp).as_slice() || true
                } else {
                    let out = pathv(&case["out"]);
                    let rel = Path::new(h.as_str());
                    let Ok(rel) = rel.strip_prefix(std::str::from_utf8(&enc(&inp)).unwrap()) else { return false };
                    let name = dest_name(rel.file_name().map(|x| x.as_bytes()).unwrap_or(b""));
                    let q = out.join(rel.parent().unwrap_or(Path::new(""))).join(OsString::from_vec(name));
                    enc(&q) == enc(p)
                }
            });
            if r.is_none() || (src_hit && !d.ok()) {
                refused += 1;
                if before.get(p) != after.get(p) {
                    return Err(violation(
                        "failed-input-touched-output",
                        format!(
                            "the input of {} is {} but its destination changed: {}",
                            p.display(),
                            if r.is_none() { "not convertible" } else { "unreadable" },
                            match (before.get(p), after.get(p)) {
                                (Some(a), Some(b)) => show_node_diff(a, b),
                                (None, Some(_)) => "it was created".into(),
                                _ => "it was removed".into(),
                            }
                        ),
                        &[&d],
                    ));
                }
            }
        }
        if refused > 0 {
            nontrivial(cov, case, 1);
            cov.hit("runs with a refused input");
            if d.ok() {
                return Err(violation("refused-input-but-success", "exit 0 although an input was refused".into(), &[&d]));
            }
            if d.stderr.is_empty() && !d.crashed {
                return Err(violation("silent-failure", d.describe(), &[&d]));
            }
            if cov.samples.is_empty() {
                cov.samples.push(json!({"case": case, "result": d.describe()}));
            }
        } else if is_valid_world(&e) && !d.hard_fired() && !d.ok() {
            return Err(violation("valid-input-failed", d.describe(), &[&d]));
        }
        Ok(())
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_cli(case)
    }
}

// ------------------------------------------------------------------------------------ C04

pub struct C04;
impl Sim for C04 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let mut c = if r.chance(1, 3) { gen_single(r, "file", false) } else { gen_dir(r, 0, 5) };
        let mut base = vec![];
        if r.chance(1, 2) {
            gen_benign(r, &mut base);
        }
        c["plan"] = json!(base);
        let d = profile(&c);
        let rounds = 1 + r.idx(3);
        let mut plans = vec![];
        for _ in 0..rounds {
            let mut p = base.clone();
            gen_crash(r, &d, &mut p);
            plans.push(json!(p));
        }
        c["plan"] = json!([]);
        c["plans"] = json!(plans);
        c
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let w = World::new();
        populate(&w, case);
        let start = snapshot(&w.root);
        let e = expect(&w, case);
        let want = final_tree(&start, &e);
        let mut done: Vec<Done> = vec![];
        let mut before = start.clone();
        let mut disturbed = false;
        for (k, plan) in case["plans"].as_array().into_iter().flatten().enumerate() {
            let plan = plan.as_array().cloned().unwrap_or_default();
            let mut p = make_proc(&w, case, &plan, &k.to_string());
            p.shuffle = p.shuffle.wrapping_add(k as u64 * 7919) >> 1; // another order on every attempt
            let d = run_proc(&w, &p);
            let after = snapshot(&w.root);
            record(cov, &d);
            disturbed |= d.hard_fired();
            if let Some(x) = &d.escape {
                return Err(violation("write-outside", x.clone(), &[&d]));
            }
            let mut partial = vec![];
            for (p, (_, r)) in &e.files {
                let full = r.clone().unwrap_or_default();
                match (before.get(p), after.get(p)) {
                    (a, b) if a == b => {}
                    (_, Some(Node::File(b))) if *b == full => {}
                    (_, Some(Node::File(b))) if full.starts_with(b) => partial.push(p.clone()),
                    (_, Some(Node::File(b))) => {
                        return Err(violation(
                            "crash-left-garbage",
                            format!("after a crash {} is neither old, new nor a prefix of the new output: {}", p.display(), show_bytes_diff(&full, b)),
                            &[&d],
                        ))
                    }
                    (_, None) => return Err(violation("crash-lost-output", format!("{} disappeared", p.display()), &[&d])),
                    _ => return Err(violation("crash-left-garbage", format!("{} is not a file", p.display()), &[&d])),
                }
            }
            if !partial.is_empty() {
                cov.hit("crash left a partial output");
            }
            if partial.len() > 1 {
                return Err(violation("crash-left-several-partial", format!("{partial:?} are all incomplete"), &[&d]));
            }
            // everything that is not output stays as it was
            for (p, n) in &before {
                if !e.files.contains_key(p) && after.get(p) != Some(n) {
                    return Err(violation("crash-changed-input", format!("{} changed", p.display()), &[&d]));
                }
            }
            success_is_complete(&e, &after, &d, case)?;
            if d.crashed {
                cov.hit("crashed attempts");
            } else if !d.ok() {
                cov.hit("failed attempts");
            }
            before = after;
            done.push(d);
        }
        // the undisturbed repetition
        let mut p = make_proc(&w, case, &[], "f");
        p.quota = None;
        let d = run_proc(&w, &p);
        let after = snapshot(&w.root);
        record(cov, &d);
        cov.note(hash_tree(&after));
        if disturbed {
            nontrivial(cov, case, 0);
        }
        if cov.samples.is_empty() && disturbed {
            cov.samples.push(json!({"case": case, "attempts": done.iter().map(Done::describe).collect::<Vec<_>>(), "final": d.describe()}));
        }
        let mut all: Vec<&Done> = done.iter().collect();
        all.push(&d);
        if let Some(x) = &d.escape {
            return Err(violation("write-outside", x.clone(), &all));
        }
        if is_valid_world(&e) {
            if !d.ok() {
                return Err(violation("rerun-failed", format!("the repetition after a crash failed: {}", d.describe()), &all));
            }
            if after != want {
                return Err(violation("rerun-diverged", format!("after the repetition the tree is not the undisturbed one:\n{}", show_tree_diff(&want, &after)), &all));
            }
        }
        Ok(())
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out = shrink_cli(case);
        if let Some(ps) = case["plans"].as_array() {
            for (i, p) in ps.iter().enumerate() {
                for j in 0..p.as_array().unwrap().len() {
                    let mut c = case.clone();
                    c["plans"][i].as_array_mut().unwrap().remove(j);
                    out.push(c);
                    if j > 40 {
                        break;
                    }
                }
            }
        }
        out
    }
}

// ------------------------------------------------------------------------------------ C05

pub struct C05;
impl Sim for C05 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let mut c = gen_dir(r, 0, 14);
        let mut p = vec![];
        if r.chance(1, 5) {
            gen_benign(r, &mut p);
        }
        // some names that are not UTF-8
        if r.chance(1, 10) && !c["noargs"].as_bool().unwrap_or(false) {
            let inp = c["in"].as_str().unwrap().to_string();
            let tool = c["tool"].as_str().unwrap().to_string();
            let mut b = inp.into_bytes();
            b.extend_from_slice(b"/n\xff\xfe.xsd");
            let f = json!({"p": b, "c": gen_valid(r, &tool)});
            c["files"].as_array_mut().unwrap().push(f);
        }
        c["plan"] = json!(p);
        c["shuffle2"] = json!(r.next() >> 1);
        c
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let mut prev: Option<Tree> = None;
        let mut keep = vec![];
        for k in 0..2 {
            let w = World::new();
            populate(&w, case);
            let before = snapshot(&w.root);
            let e = expect(&w, case);
            let mut p = make_proc(&w, case, &plan_of(case), &k.to_string());
            if k == 1 {
                p.shuffle = case["shuffle2"].as_u64().unwrap_or(5);
            }
            let d = run_proc(&w, &p);
            let after = snapshot(&w.root);
            record(cov, &d);
            let order: Vec<&str> = d.ops.iter().filter(|o| o.cls == "ent").map(|o| o.what.as_str()).collect();
            cov.states.insert(hash_bytes(order.join("\n").as_bytes()));
            if order.windows(2).any(|x| x[0] > x[1]) {
                cov.fault("directory listing out of order");
            }
            cov.note(hash_tree(&after));
            common(&before, &after, &e, &d, case)?;
            if is_valid_world(&e) && !d.ok() {
                return Err(violation("valid-tree-failed", format!("a tree of valid inputs failed: {}", d.describe()), &[&d]));
            }
            let want = final_tree(&before, &e);
            if d.ok() && after != want {
                return Err(violation("tree-not-mirrored", show_tree_diff(&want, &after), &[&d]));
            }
            cov.add("files converted", e.files.len() as u64);
            cov.add("directories mirrored", e.dirs.len() as u64);
            if e.files.len() > 1 {
                nontrivial(cov, case, 0);
            }
            if cov.samples.is_empty() {
                cov.samples.push(json!({"case": case, "listing_order": order.len(), "outputs": e.files.keys().map(|p| p.display().to_string()).collect::<Vec<_>>()}));
            }
            keep.push(d);
            if let Some(p) = &prev {
                if *p != after {
                    return Err(violation("order-dependent", show_tree_diff(p, &after), &[&keep[0], &keep[1]]));
                }
            }
            prev = Some(after);
        }
        Ok(())
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        shrink_cli(case)
    }
}

// ------------------------------------------------------------------------------------ C06

pub struct C06;
impl Sim for C06 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let mut c = match r.below(10) {
            0..=4 => gen_single(r, "file", false),
            5..=7 => gen_single(r, "stdout", false),
            _ => gen_dir(r, 0, 4),
        };
        let vars: Vec<Value> = (0..3 + r.idx(3))
            .map(|_| {
                let mut p = vec![];
                if r.chance(1, 2) {
                    gen_benign(r, &mut p);
                }
                json!({"seed": r.next() >> 1, "shuffle": r.next() >> 1, "env": gen_env(r), "plan": p, "style": c["style"]})
            })
            .collect();
        c["variants"] = json!(vars);
        c
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let mut first: Option<(Tree, Vec<u8>, Option<i32>)> = None;
        let mut procs = vec![];
        for (k, v) in case["variants"].as_array().into_iter().flatten().enumerate() {
            let w = World::new();
            let mut c = case.clone();
            for f in ["seed", "shuffle", "env", "style"] {
                c[f] = v[f].clone();
            }
            populate(&w, &c);
            let plan = v["plan"].as_array().cloned().unwrap_or_default();
            let d = run_proc(&w, &make_proc(&w, &c, &plan, &k.to_string()));
            let after = snapshot(&w.root);
            record(cov, &d);
            cov.note(hash_tree(&after));
            cov.fault("hash seed, clock, pid and environment change");
            if d.count("getrandom") > 0 {
                cov.hit("processes that drew a hash seed");
            }
            if d.count("clock") > 0 {
                cov.hit("processes that read the clock");
            }
            let me = (after, d.stdout.clone(), d.code);
            procs.push(d);
            match &first {
                None => first = Some(me),
                Some(f) => {
                    if f.0 != me.0 {
                        return Err(violation("output-differs", format!("run 0 and run {k} of the same command left different files:\n{}", show_tree_diff(&f.0, &me.0)), &[&procs[0], &procs[k]]));
                    }
                    if f.1 != me.1 {
                        return Err(violation("stdout-differs", format!("run 0 and run {k}: {}", show_bytes_diff(&f.1, &me.1)), &[&procs[0], &procs[k]]));
                    }
                    if f.2 != me.2 {
                        return Err(violation("status-differs", format!("run 0 exit {:?}, run {k} exit {:?}", f.2, me.2), &[&procs[0], &procs[k]]));
                    }
                }
            }
        }
        nontrivial(cov, &json!([case["files"], case["mode"], case["tool"]]), 0);
        if cov.samples.is_empty() {
            cov.samples.push(case.clone());
        }
        Ok(())
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out: Vec<Value> =
            shrink_array(case, "variants").into_iter().filter(|c| c["variants"].as_array().unwrap().len() >= 2).collect();
        for i in 0..case["variants"].as_array().map(Vec::len).unwrap_or(0) {
            for (k, v) in [("plan", json!([])), ("env", json!({})), ("shuffle", json!(0))] {
                if case["variants"][i][k] != v {
                    let mut c = case.clone();
                    c["variants"][i][k] = v;
                    out.push(c);
                }
            }
        }
        out.extend(shrink_cli(case));
        out
    }
    fn directed(&self) -> Vec<Value> {
        // shipped WSDL files with several port types, many hash seeds
        ["wsdl/event.wsdl.xml", "wsdl/advancedsecurity.wsdl.xml", "wsdl/analytics.wsdl.xml", "xsd/onvif.xsd", "wsdl/media.wsdl.xml", "wsdl/devicemgmt.wsdl.xml"]
            .iter()
            .map(|b| {
                let tool = &b[..b.find('/').unwrap()];
                let vars: Vec<Value> = (0..12).map(|s| json!({"seed": s * 977 + 3, "shuffle": 0, "env": {}, "plan": [], "style": 0})).collect();
                json!({"tool": tool, "mode": "file", "in": "i.xml", "out": "o.rs", "files": [{"p": "i.xml", "c": {"bank": b}}], "pre": [], "dirs": [], "links": [], "variants": vars})
            })
            .collect()
    }
}

// ------------------------------------------------------------------------------------ C07

pub struct C07;
impl Sim for C07 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let n = 2 + r.idx(3);
        let out = (*r.pick(&["out", "gen/rs", "o/p/q/r"])).to_string();
        let same = r.chance(1, 3);
        let mut procs = vec![];
        let (mut files, mut dirs, mut pre) = (vec![], vec![], vec![]);
        let tool0 = if r.chance(3, 5) { "xsd" } else { "wsdl" };
        let small = |r: &mut Rng, tool: &str| {
            for _ in 0..8 {
                let c = gen_valid(r, tool);
                if content(&c).len() < 12_000 {
                    return c;
                }
            }
            if tool == "xsd" { json!({"bank": "xsd/t_choice_input.xsd"}) } else { json!({"bank": "wsdl/t_port_type.wsdl.xml"}) }
        };
        for k in 0..n {
            let tool = if same { tool0 } else { *r.pick(&["xsd", "wsdl"]) };
            let mut p = vec![];
            if r.chance(1, 3) {
                gen_benign(r, &mut p);
                p.truncate(40);
            }
            if same {
                procs.push(json!({"tool": tool, "mode": "dir", "in": "in", "out": out, "style": r.below(4), "seed": r.next() >> 1, "shuffle": r.next() >> 1, "plan": p, "env": {}}));
                continue;
            }
            // distinct inputs, distinct destinations, shared output directories
            let inp = format!("in{k}");
            let sub = ["", "/s", "/s/t", "/u"];
            dirs.push(json!(inp));
            if r.chance(1, 4) && !dirs.is_empty() {
                let f = format!("{inp}/single{k}.xsd");
                files.push(json!({"p": f, "c": small(r, tool)}));
                dirs.push(json!(out));
                procs.push(json!({"tool": tool, "mode": "file", "in": f, "out": format!("{out}/single{k}.rs"), "style": r.below(4), "seed": r.next() >> 1, "shuffle": 1, "plan": p, "env": {}}));
            } else {
                for j in 0..1 + r.idx(3) {
                    files.push(json!({"p": format!("{inp}{}/f{k}x{j}.xsd", r.pick(&sub)), "c": small(r, tool)}));
                }
                procs.push(json!({"tool": tool, "mode": "dir", "in": inp, "out": out, "style": r.below(4), "seed": r.next() >> 1, "shuffle": r.next() >> 1, "plan": p, "env": {}}));
            }
        }
        if same {
            for j in 0..1 + r.idx(3) {
                files.push(json!({"p": format!("in{}/f{j}.xsd", r.pick(&["", "/s", "/s/t"])), "c": small(r, tool0)}));
            }
            dirs.push(json!("in"));
        }
        if r.chance(1, 4) {
            pre.push(json!({"p": format!("{out}/keep.txt"), "c": {"s": "keep"}}));
        }
        // schedule: bursts of random length; sometimes one process is killed
        let mut sched: Vec<i64> = vec![];
        let burst = 1 + r.below(8);
        let kill = r.chance(1, 5);
        while sched.len() < 400 {
            let who = r.below(12) as i64;
            for _ in 0..1 + r.below(burst) {
                sched.push(who);
            }
        }
        if kill {
            let at = r.idx(60);
            sched[at] = -1 - sched[at];
        }
        json!({"tool": tool0, "mode": "multi", "procs": procs, "files": files, "dirs": dirs, "pre": pre, "links": [], "sched": sched, "same": same})
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let w = World::new();
        populate(&w, case);
        let before = snapshot(&w.root);
        let mut merged = Expect { files: BTreeMap::new(), dirs: BTreeSet::new(), stdout: None };
        let pcs: Vec<Value> = case["procs"].as_array().cloned().unwrap_or_default();
        let mut valid = true;
        let mut each = vec![];
        for p in &pcs {
            if std::fs::metadata(w.root.join(pathv(&p["in"]))).is_err() {
                return Ok(()); // shrunk away
            }
            let e = expect(&w, p);
            valid &= is_valid_world(&e);
            merged.files.extend(e.files.clone());
            merged.dirs.extend(e.dirs.clone());
            each.push(e);
        }
        if !valid {
            return Ok(());
        }
        let procs: Vec<Proc> = pcs.iter().enumerate().map(|(k, p)| make_proc(&w, p, &plan_of(p), &k.to_string())).collect();
        let sched: Vec<i64> = case["sched"].as_array().into_iter().flatten().map(|x| x.as_i64().unwrap()).collect();
        let (done, order) = run_concurrent(&w, &procs, &sched);
        let after = snapshot(&w.root);
        let mut h = 3u64;
        for o in &order {
            h = mix64(h ^ *o as u64);
        }
        let switches = order.windows(2).filter(|x| x[0] != x[1]).count();
        cov.add("context switches", switches as u64);
        for d in &done {
            record(cov, d);
            h = mix64(h ^ d.ops.len() as u64);
        }
        cov.states.insert(h);
        cov.note(h);
        cov.note(hash_tree(&after));
        if switches > 1 {
            nontrivial(cov, case, h);
        }
        if cov.samples.is_empty() {
            cov.samples.push(json!({"procs": case["procs"], "schedule": order.iter().map(|x| x.to_string()).collect::<String>()}));
        }
        let refs: Vec<&Done> = done.iter().collect();
        let killed: Vec<bool> = done.iter().map(|d| d.crashed).collect();
        if killed.iter().any(|k| *k) {
            cov.fault("process killed while others run");
        }
        for (k, d) in done.iter().enumerate() {
            if let Some(x) = &d.escape {
                return Err(violation("write-outside", x.clone(), &refs));
            }
            if !d.crashed && !d.ok() {
                return Err(violation("concurrent-run-failed", format!("process {k} failed although nothing but other runs disturbed it: {}", d.describe()), &refs));
            }
        }
        if let Some(s) = stray(&before, &after, &merged) {
            return Err(violation("stray-change", s, &refs));
        }
        for (k, e) in each.iter().enumerate() {
            if killed[k] {
                continue;
            }
            for (p, (_, r)) in &e.files {
                let full = r.as_ref().unwrap();
                // a killed twin may leave its own truncation behind
                let twin = case["same"].as_bool().unwrap_or(false) && killed.iter().any(|k| *k);
                match after.get(p) {
                    Some(Node::File(b)) if b == full => {}
                    Some(Node::File(b)) if twin && full.len() >= b.len() => {}
                    Some(Node::File(b)) => return Err(violation("concurrent-output-wrong", format!("process {k} succeeded but {} is wrong: {}", p.display(), show_bytes_diff(full, b)), &refs)),
                    _ => return Err(violation("concurrent-output-missing", format!("process {k} succeeded but {} is missing", p.display()), &refs)),
                }
            }
            for p in &e.dirs {
                if after.get(p).is_none() {
                    return Err(violation("concurrent-output-missing", format!("directory {} is missing", p.display()), &refs));
                }
            }
        }
        Ok(())
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out: Vec<Value> =
            shrink_array(case, "procs").into_iter().filter(|c| !c["procs"].as_array().unwrap().is_empty()).collect();
        for i in 0..case["procs"].as_array().map(Vec::len).unwrap_or(0) {
            if case["procs"][i]["plan"] != json!([]) {
                let mut c = case.clone();
                c["procs"][i]["plan"] = json!([]);
                out.push(c);
            }
        }
        // shorter schedules: cut the tail, flatten switches
        let s = case["sched"].as_array().cloned().unwrap_or_default();
        let mut cut = s.len() / 2;
        while cut > 0 {
            let mut c = case.clone();
            c["sched"] = json!(s[..s.len() - cut]);
            out.push(c);
            cut /= 2;
        }
        for i in 1..s.len().min(150) {
            if s[i] != s[i - 1] {
                let mut c = case.clone();
                c["sched"][i] = s[i - 1].clone();
                out.push(c);
            }
        }
        for k in ["files", "pre"] {
            out.extend(shrink_array(case, k));
        }
        out
    }
}

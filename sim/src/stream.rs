//! S01-S04: endpoints exchanging documents over a simulated byte stream. The sender writes into a
//! simulated writer, the receiver reads from a simulated reader; the simulator decides every
//! transfer size, interruption, stall, error, cut and damaged byte.

use std::{
    cell::RefCell,
    io::{self, ErrorKind, Read, Write},
    rc::Rc,
};

use serde_json::{json, Map, Value};

use crate::{
    rng::{hash_bytes, Rng},
    runner::{guard, shrink_array, Cov, Sim, Violation},
    xtypes::{types, Field, Ty, Val, UNKNOWN},
};

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::WriteZero,
];

/// what one endpoint experienced
#[derive(Default, Debug)]
pub struct Log {
    pub calls: u64,
    pub short: u64,
    pub eintr: u64,
    pub stalls: u64,
    pub errors: u64,
    pub zero: u64,
    pub eof: u64,
    pub sim_ns: u64,
    pub after_end: u64,
    pub sig: u64,
}
impl Log {
    pub fn cover(&self, cov: &mut Cov, side: &str) {
        for (k, n) in [("short transfer", self.short), ("interrupted call", self.eintr), ("stall", self.stalls), ("error", self.errors), ("zero-length write", self.zero), ("early end of stream", self.eof)] {
            if n > 0 {
                cov.add(&format!("fault:{k} on {side}"), n);
            }
        }
        cov.steps += self.calls;
        cov.sim_ns += self.sim_ns;
        cov.states.insert(self.sig);
        cov.note(self.sig);
        cov.note(self.calls);
    }
    fn mix(&mut self, v: u64) {
        self.sig = crate::rng::mix64(self.sig ^ v.wrapping_mul(0x9E37_79B9));
    }
}

/// transfer schedule: cycled list; n > 0 = at most n bytes, 0 = interrupted, -1 = stall (latency)
#[derive(Clone)]
struct Sched {
    v: Vec<i64>,
    i: usize,
}
impl Sched {
    fn of(v: &Value) -> Sched {
        let v: Vec<i64> = v.as_array().map(|a| a.iter().filter_map(Value::as_i64).collect()).unwrap_or_default();
        Sched { v, i: 0 }
    }
    fn next(&mut self) -> i64 {
        if !self.v.iter().any(|x| *x > 0) {
            return i64::MAX;
        }
        let x = self.v[self.i % self.v.len()];
        self.i += 1;
        x
    }
}

/// position, kind (0 = end of stream / zero-length write, k = KINDS[k-1]), transient
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub pos: usize,
    kind: usize,
    transient: bool,
}
impl Fault {
    /// the error kinds' names, for reports
    pub fn what(&self) -> String {
        if self.kind == 0 {
            "ended".to_string()
        } else {
            format!("failed ({:?}{})", KINDS[(self.kind - 1) % KINDS.len()], if self.transient { ", once" } else { "" })
        }
    }
    pub fn of(v: &Value) -> Fault {
        Fault { pos: v[0].as_u64().unwrap_or(0) as usize, kind: v[1].as_u64().unwrap_or(0) as usize, transient: v[2].as_bool().unwrap_or(false) }
    }
}

pub struct SimReader {
    data: Vec<u8>,
    pos: usize,
    sched: Sched,
    fault: Option<Fault>,
    log: Rc<RefCell<Log>>,
}
impl SimReader {
    pub fn new(bytes: &[u8], sched: &Value, fault: Option<Fault>) -> (SimReader, Rc<RefCell<Log>>) {
        let log = Rc::new(RefCell::new(Log::default()));
        (SimReader { data: bytes.to_vec(), pos: 0, sched: Sched::of(sched), fault, log: log.clone() }, log)
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        l.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut avail = self.data.len() - self.pos;
        if let Some(f) = self.fault {
            if self.pos >= f.pos {
                if f.kind == 0 {
                    l.eof += 1;
                    l.after_end += 1;
                    assert!(l.after_end < 5000, "livelock: the receiver keeps reading after the end of the stream");
                    return Ok(0);
                }
                l.errors += 1;
                l.after_end += 1;
                assert!(l.after_end < 5000, "livelock: the receiver keeps retrying a failing stream");
                if f.transient {
                    self.fault = None;
                }
                return Err(io::Error::new(KINDS[(f.kind - 1) % KINDS.len()], "injected"));
            }
            avail = avail.min(f.pos - self.pos);
        }
        if avail == 0 {
            l.after_end += 1;
            assert!(l.after_end < 5000, "livelock: the receiver keeps reading after the end of the stream");
            return Ok(0);
        }
        loop {
            match self.sched.next() {
                0 => {
                    l.eintr += 1;
                    l.mix(1);
                    return Err(io::Error::new(ErrorKind::Interrupted, "injected"));
                }
                x if x < 0 => {
                    l.stalls += 1;
                    l.sim_ns += 1_000_000 * (-x as u64);
                }
                x => {
                    let want = avail.min(buf.len());
                    let n = want.min(x.min(1 << 40) as usize);
                    if n < want {
                        l.short += 1;
                    }
                    l.sim_ns += 1_000;
                    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                    self.pos += n;
                    let h = (n as u64) << 8 | u64::from(buf[n - 1]);
                    l.mix(h);
                    return Ok(n);
                }
            }
        }
    }
}

pub struct SimWriter {
    out: Rc<RefCell<Vec<u8>>>,
    sched: Sched,
    fault: Option<Fault>,
    log: Rc<RefCell<Log>>,
}
impl SimWriter {
    pub fn new(sched: &Value, fault: Option<Fault>) -> (SimWriter, Rc<RefCell<Vec<u8>>>, Rc<RefCell<Log>>) {
        let log = Rc::new(RefCell::new(Log::default()));
        let out = Rc::new(RefCell::new(vec![]));
        (SimWriter { out: out.clone(), sched: Sched::of(sched), fault, log: log.clone() }, out, log)
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        l.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut out = self.out.borrow_mut();
        let mut room = usize::MAX;
        if let Some(f) = self.fault {
            if out.len() >= f.pos {
                l.after_end += 1;
                assert!(l.after_end < 5000, "livelock: the sender keeps retrying a failing stream");
                if f.transient {
                    self.fault = None;
                }
                if f.kind == 0 {
                    l.zero += 1;
                    return Ok(0);
                }
                l.errors += 1;
                return Err(io::Error::new(KINDS[(f.kind - 1) % KINDS.len()], "injected"));
            }
            room = f.pos - out.len();
        }
        loop {
            match self.sched.next() {
                0 => {
                    l.eintr += 1;
                    l.mix(1);
                    return Err(io::Error::new(ErrorKind::Interrupted, "injected"));
                }
                x if x < 0 => {
                    l.stalls += 1;
                    l.sim_ns += 1_000_000 * (-x as u64);
                }
                x => {
                    let n = buf.len().min(room).min(x.min(1 << 40) as usize);
                    if n < buf.len() {
                        l.short += 1;
                    }
                    l.sim_ns += 1_000;
                    out.extend_from_slice(&buf[..n]);
                    let h = (n as u64) << 8 | u64::from(buf[n - 1]);
                    l.mix(h);
                    return Ok(n);
                }
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn gen_sched(r: &mut Rng) -> Value {
    let mut v: Vec<i64> = vec![];
    match r.below(6) {
        0 => {}
        1 => v.push(1),
        2 => {
            v.push(1 + r.below(7) as i64);
            v.push(0);
        }
        _ => {
            for _ in 0..1 + r.idx(12) {
                v.push(match r.below(6) {
                    0 => 0,
                    1 => -(1 + r.below(5000) as i64),
                    2 => 1,
                    3 => 1 + r.below(8) as i64,
                    4 => 1 + r.below(64) as i64,
                    _ => 1 << r.below(14),
                });
            }
        }
    }
    json!(v)
}

// ---------------------------------------------------------------- rendering by a foreign sender

fn esc_char(c: char, attr: Option<char>, out: &mut String) {
    match c {
        '&' => out.push_str("&amp;"),
        '<' => out.push_str("&lt;"),
        '>' => out.push_str("&gt;"),
        '"' if attr == Some('"') => out.push_str("&quot;"),
        '\'' if attr == Some('\'') => out.push_str("&apos;"),
        c => out.push(c),
    }
}

fn render_text(t: &str, f: &Field, r: &mut Rng, plain: bool, out: &mut String) {
    let cs: Vec<char> = t.chars().collect();
    let style = if plain { 0 } else { r.below(8) };
    if !plain && f.collapses && r.chance(1, 6) {
        out.push_str(r.pick(&[" ", "\n", "\t", "\n   ", "\r\n"]));
    }
    match style {
        4 if !t.is_empty() => {
            // numeric character references
            for c in &cs {
                match r.below(4) {
                    0 => out.push_str(&format!("&#{};", *c as u32)),
                    1 => out.push_str(&format!("&#x{:x};", *c as u32)),
                    _ => esc_char(*c, None, out),
                }
            }
        }
        5 if !t.is_empty() && !t.contains("]]>") => {
            out.push_str("<![CDATA[");
            out.push_str(t);
            out.push_str("]]>");
        }
        6 if cs.len() > 1 => {
            // a comment inside the text
            let k = 1 + r.idx(cs.len() - 1);
            for c in &cs[..k] {
                esc_char(*c, None, out);
            }
            out.push_str("<!-- c -->");
            for c in &cs[k..] {
                esc_char(*c, None, out);
            }
        }
        7 if cs.len() > 1 && !t.contains("]]>") => {
            let k = 1 + r.idx(cs.len() - 1);
            for c in &cs[..k] {
                esc_char(*c, None, out);
            }
            out.push_str("<![CDATA[");
            out.extend(&cs[k..]);
            out.push_str("]]>");
        }
        _ => {
            for c in &cs {
                esc_char(*c, None, out);
            }
        }
    }
    if !plain && f.collapses && r.chance(1, 6) {
        out.push_str(r.pick(&[" ", "\n", "\t", "  \n"]));
    }
}

struct Render<'a> {
    r: &'a mut Rng,
    plain: bool,
    pretty: bool,
    prefix: String,
    out: String,
}
impl Render<'_> {
    fn nl(&mut self, d: usize) {
        if self.pretty {
            self.out.push('\n');
            self.out.push_str(&"  ".repeat(d));
        }
        if !self.plain && self.r.chance(1, 20) {
            self.out.push_str(self.r.pick(&["<!-- note -->", "<?pi data?>", "<!---->"]));
        }
    }
    fn fields(&mut self, fs: &[Field], doc: &Value, name: &str, root: bool, d: usize) {
        let tag = format!("{}{}", self.prefix, name);
        self.out.push('<');
        self.out.push_str(&tag);
        if root {
            if self.prefix.is_empty() {
                self.out.push_str(" xmlns=\"http://example.com\"");
            } else {
                self.out.push_str(&format!(" xmlns:{}=\"http://example.com\"", self.prefix.trim_end_matches(':')));
            }
        }
        let mut attrs: Vec<&Field> = fs.iter().filter(|f| f.attr).collect();
        if !self.plain && self.r.chance(1, 3) {
            self.r.shuffle(&mut attrs);
        }
        for f in attrs {
            for t in texts(doc, f.name) {
                let q = if !self.plain && self.r.chance(1, 3) { '\'' } else { '"' };
                self.out.push_str(&format!(" {}={q}", f.name));
                for c in t.chars() {
                    if !self.plain && self.r.chance(1, 30) {
                        self.out.push_str(&format!("&#{};", c as u32));
                    } else {
                        esc_char(c, Some(q), &mut self.out);
                    }
                }
                self.out.push(q);
            }
        }
        self.out.push('>');
        for f in fs.iter().filter(|f| !f.attr) {
            if let Some(inner) = f.inner {
                for sub in doc[f.name].as_array().cloned().unwrap_or_default() {
                    self.nl(d + 1);
                    self.fields(&inner(), &sub, f.name, false, d + 1);
                }
                continue;
            }
            for t in texts(doc, f.name) {
                if f.name == "." {
                    render_text(&t, f, self.r, self.plain, &mut self.out);
                    continue;
                }
                self.nl(d + 1);
                let tag = format!("{}{}", self.prefix, f.name);
                if t.is_empty() && !self.plain && self.r.chance(1, 2) {
                    self.out.push_str(&format!("<{tag}/>"));
                    continue;
                }
                self.out.push_str(&format!("<{tag}>"));
                render_text(&t, f, self.r, self.plain, &mut self.out);
                self.out.push_str(&format!("</{tag}>"));
            }
        }
        if name != "Root" {
            self.nl(d);
        }
        self.out.push_str(&format!("</{tag}>"));
    }
}

fn texts(doc: &Value, name: &str) -> Vec<String> {
    doc[name].as_array().map(|a| a.iter().filter_map(|t| t.as_str().map(str::to_string)).collect()).unwrap_or_default()
}

/// the document as a foreign implementation would write it; style 0 is the plainest form
pub(crate) fn render(ty: &Ty, doc: &Value, style: u64) -> Vec<u8> {
    let mut r = Rng::new(style);
    let plain = style == 0;
    let prefix = if plain { "tns:".to_string() } else { (*r.pick(&["tns:", "tns:", "", "ns1:", "x-y:"])).to_string() };
    let pretty = !plain && r.chance(1, 2);
    let mut out = String::new();
    if !plain {
        if r.chance(1, 8) {
            out.push('\u{feff}');
        }
        if r.chance(1, 2) {
            out.push_str(r.pick(&["<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>"]));
        }
        if r.chance(1, 10) {
            out.push_str("<!-- before -->");
        }
    }
    let mut x = Render { r: &mut r, plain, pretty, prefix, out };
    x.fields(&(ty.fields)(), doc, ty.root, true, 0);
    let mut out = x.out;
    if !plain && r.chance(1, 4) {
        out.push('\n');
    }
    out.into_bytes()
}

/// reads a sent document with an independent XML parser: field name -> keys of the texts found
fn keys_sent(ty: &Ty, bytes: &[u8]) -> Result<Value, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("the document is not UTF-8: {e}"))?;
    let d = roxmltree::Document::parse(text).map_err(|e| format!("the document is not well-formed: {e}"))?;
    keys_node(&(ty.fields)(), d.root_element())
}
fn keys_node(fs: &[Field], n: roxmltree::Node) -> Result<Value, String> {
    let mut m = Map::new();
    let key = |f: &Field, t: &str| -> Result<Value, String> {
        let t2 = if f.collapses { t.trim_matches([' ', '\t', '\n', '\r']) } else { t };
        (f.key)(t2).map(Value::String).ok_or_else(|| format!("{:?} is not a valid lexical form for field {}", t, f.name))
    };
    if fs.len() == 1 && fs[0].name == "." {
        let t: String = n.children().filter(|c| c.is_text()).filter_map(|c| c.text()).collect();
        if n.children().any(|c| c.is_element()) {
            return Err("unexpected child element".into());
        }
        m.insert(".".into(), json!([key(&fs[0], &t)?]));
        return Ok(Value::Object(m));
    }
    for f in fs {
        m.insert(f.name.into(), json!([]));
    }
    for a in n.attributes() {
        let f = fs.iter().find(|f| f.attr && f.name == a.name()).ok_or_else(|| format!("unexpected attribute {}", a.name()))?;
        m[f.name].as_array_mut().unwrap().push(key(f, a.value())?);
    }
    for c in n.children().filter(|c| c.is_element()) {
        let f = fs.iter().find(|f| !f.attr && f.name == c.tag_name().name()).ok_or_else(|| format!("unexpected element {}", c.tag_name().name()))?;
        if c.tag_name().namespace() != Some("http://example.com") {
            return Err(format!("element {} is in namespace {:?}", f.name, c.tag_name().namespace()));
        }
        let v = match f.inner {
            Some(i) => keys_node(&i(), c)?,
            None => {
                let t: String = c.children().filter(|c| c.is_text()).filter_map(|c| c.text()).collect();
                key(f, &t)?
            }
        };
        m[f.name].as_array_mut().unwrap().push(v);
    }
    Ok(Value::Object(m))
}

// ---------------------------------------------------------------- the simulated exchange

pub(crate) struct Sent {
    pub(crate) result: Result<Result<(), String>, String>, // outer Err = panic
    pub(crate) bytes: Vec<u8>,
    pub(crate) log: Log,
}

pub(crate) fn send(v: &dyn Val, sched: &Value, fault: Option<Fault>, indent: bool) -> Sent {
    let (mut w, out, log) = SimWriter::new(sched, fault);
    let result = guard(|| v.ser(&mut w, indent));
    drop(w);
    Sent { result, bytes: out.take(), log: log.take() }
}

pub(crate) struct Got {
    pub(crate) result: Result<Result<Box<dyn Val>, String>, String>,
    pub(crate) log: Log,
}

pub(crate) fn receive(ty: &Ty, bytes: &[u8], sched: &Value, fault: Option<Fault>) -> Got {
    let (mut rd, log) = SimReader::new(bytes, sched, fault);
    let result = guard(|| (ty.de)(&mut rd));
    drop(rd);
    Got { result, log: log.take() }
}

thread_local! {
    static TYPES: Vec<Ty> = types();
}
pub(crate) fn with_ty<R>(name: &str, f: impl FnOnce(&Ty) -> R) -> Option<R> {
    TYPES.with(|t| t.iter().find(|t| t.name == name).map(f))
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}…(+{} bytes)", &s[..n], s.len() - n)
    } else {
        s.into_owned()
    }
}

fn diff(a: &Value, b: &Value) -> String {
    let mut o = vec![];
    if let (Some(a), Some(b)) = (a.as_object(), b.as_object()) {
        for (k, v) in a {
            if b.get(k) != Some(v) {
                o.push(format!("{k}: {} != {}", v, b.get(k).unwrap_or(&Value::Null)));
            }
        }
    }
    o.join("; ")
}

fn pick_doc(r: &mut Rng, i: u64) -> (String, Value) {
    TYPES.with(|ts| {
        let n = ts.len();
        // every type in turn, documents more often
        let t = if r.chance(1, 4) { &ts[n - 1 - r.idx(3)] } else { &ts[(i as usize) % n] };
        let mut doc = (t.gen)(r);
        no_cdata_end(&mut doc);
        (t.name.to_string(), doc)
    })
}

/// xml-rs writes ]]> unescaped: known finding of S01 with a case of its own
pub(crate) fn no_cdata_end(v: &mut Value) {
    match v {
        Value::String(s) => {
            while s.contains("]]>") {
                *s = s.replace("]]>", "]]");
            }
        }
        Value::Array(a) => a.iter_mut().for_each(no_cdata_end),
        Value::Object(m) => m.values_mut().for_each(no_cdata_end),
        _ => {}
    }
}

pub(crate) fn shrink_doc(c: &Value) -> Vec<Value> {
    let mut out = vec![];
    let name = c["ty"].as_str().unwrap_or("").to_string();
    with_ty(&name, |ty| {
        fn rec(fs: &[Field], d: &Value, put: &mut dyn FnMut(Value)) {
            for f in fs {
                let Some(a) = d[f.name].as_array() else { continue };
                let keep = usize::from(f.card == 1);
                if a.len() > keep {
                    let mut x = d.clone();
                    x[f.name] = json!(a[..keep]);
                    put(x);
                    if a.len() > keep + 1 {
                        for i in 0..a.len() {
                            let mut b = a.clone();
                            b.remove(i);
                            let mut x = d.clone();
                            x[f.name] = json!(b);
                            put(x);
                        }
                    }
                }
                for (i, t) in a.iter().enumerate() {
                    if let Some(inner) = f.inner {
                        rec(&inner(), t, &mut |v| {
                            let mut x = d.clone();
                            x[f.name][i] = v;
                            put(x);
                        });
                    } else if let Some(t) = t.as_str() {
                        let mut cand = vec![f.min.to_string()];
                        let cs: Vec<char> = t.chars().collect();
                        for k in [cs.len() / 2, cs.len() / 4, 1] {
                            if k > 0 && k < cs.len() {
                                let mut s = 0;
                                while s < cs.len() {
                                    cand.push(cs[..s].iter().chain(&cs[(s + k).min(cs.len())..]).collect());
                                    s += k;
                                }
                            }
                        }
                        for n in cand {
                            if n.len() < t.len() {
                                let mut x = d.clone();
                                x[f.name][i] = json!(n);
                                put(x);
                            }
                        }
                    }
                }
            }
        }
        rec(&(ty.fields)(), &c["doc"], &mut |v| {
            let mut x = c.clone();
            x["doc"] = v;
            out.push(x);
        });
    });
    for k in ["style", "indent"] {
        if c[k] != json!(0) && !c[k].is_null() && c[k] != json!(false) {
            let mut x = c.clone();
            x[k] = if k == "style" { json!(0) } else { json!(false) };
            out.insert(0, x);
        }
    }
    for k in ["w", "r"] {
        if c[k].as_array().is_some_and(|a| !a.is_empty()) {
            let mut x = c.clone();
            x[k] = json!([]);
            out.insert(0, x);
            out.extend(shrink_array(c, k));
        }
    }
    out
}

pub fn viol(sig: String, detail: String, trace: Vec<String>) -> Violation {
    Violation::new(sig, detail).with_trace(trace)
}

pub fn distinct(cov: &mut Cov, case: &Value) {
    cov.nontrivial.insert(hash_bytes(case.to_string().as_bytes()));
}

/// the text of a single simple-typed document, to tell known findings apart
pub(crate) fn first_text(case: &Value) -> String {
    case["doc"]["."][0].as_str().unwrap_or("").to_string()
}

// ---------------------------------------------------------------- S01

pub struct S01;
impl Sim for S01 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        let (ty, doc) = pick_doc(r, i);
        let foreign = r.chance(1, 2);
        let mut c = json!({"ty": ty, "doc": doc, "mode": if foreign { "foreign" } else { "value" }, "style": r.next() >> 16, "indent": r.chance(1, 5), "w": gen_sched(r), "r": gen_sched(r)});
        // white space around a text belongs to it: yaserde's reader drops it, other readers do not
        if !foreign && r.chance(1, 4) && with_ty(&ty, |t| pad(t, &mut c["doc"], r)) == Some(true) {
            c["mode"] = json!("padded");
            c["indent"] = json!(false);
        }
        c
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let name = case["ty"].as_str().unwrap_or("");
        with_ty(name, |ty| s01(ty, case, cov)).unwrap_or(Ok(()))
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        shrink_doc(c)
    }
    fn directed(&self) -> Vec<Value> {
        let mut v = vec![];
        TYPES.with(|ts| {
            for (n, ty) in ts.iter().enumerate() {
                for k in 0..12 {
                    let mut r = Rng::new(7_000 + n as u64 * 31 + k);
                    v.push(json!({"ty": ty.name, "doc": (ty.gen)(&mut r), "mode": if k % 2 == 0 { "foreign" } else { "value" }, "style": k, "indent": false, "w": [1], "r": [1, 0]}));
                }
            }
        });
        // known findings: valid forms the types do not accept or do not write
        for (t, x) in [("Time", "24:00:00"), ("DateTime", "2000-01-01T24:00:00Z"), ("TBool", "1"), ("TBool", "0"), ("TF64", "INF"), ("TF64", "-INF"), ("TF64", "NaN"), ("TU8", "-0"), ("TStr", "]]>")] {
            v.push(json!({"ty": t, "doc": {".": [x]}, "mode": "finding", "style": 0, "w": [], "r": []}));
        }
        v
    }
}

fn pad(ty: &Ty, doc: &mut Value, r: &mut Rng) -> bool {
    let mut done = false;
    for f in (ty.fields)().iter().filter(|f| !f.collapses) {
        for t in doc[f.name].as_array_mut().into_iter().flatten() {
            let Some(s) = t.as_str() else { continue };
            let ws = |r: &mut Rng| *r.pick(if f.attr { &["", " ", "  "][..] } else { &["", " ", "  ", "\n", "\t ", " \n "][..] });
            let padded = format!("{}{s}{}", ws(r), ws(r));
            if padded != s && (f.key)(&padded).is_some() && (f.key)(&padded) != (f.key)(s) {
                *t = json!(padded);
                done = true;
            }
        }
    }
    done
}
fn s01(ty: &Ty, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
    let doc = &case["doc"];
    if case["mode"] == "finding" {
        return finding(ty, case, cov);
    }
    let Some(want) = (ty.make)(doc) else { return Ok(()) };
    let Some(keys) = want.keys() else { return Ok(()) };
    let indent = case["indent"].as_bool().unwrap_or(false);
    let mut trace = vec![];
    let foreign = case["mode"] == "foreign";
    let value: Box<dyn Val> = if foreign {
        let bytes = render(ty, doc, case["style"].as_u64().unwrap_or(0));
        trace.push(format!("foreign sender: {}", show(&bytes)));
        let g = receive(ty, &bytes, &case["r"], None);
        g.log.cover(cov, "read");
        match g.result {
            Err(p) => return Err(viol(format!("panic:{}", ty.name), format!("receiving a valid document panicked: {p}"), trace)),
            Ok(Err(e)) => return Err(viol(format!("refused:{}", ty.name), format!("a valid document was refused: {e}"), trace)),
            Ok(Ok(v)) => {
                let k = v.keys().unwrap_or(Value::Null);
                if k != keys || !v.same(&*want) {
                    return Err(viol(format!("wrong-value:{}", ty.name), format!("received another value than was sent: {} (sent != received)", diff(&keys, &k)), trace));
                }
                v
            }
        }
    } else {
        want
    };
    let s = send(&*value, &case["w"], None, indent);
    s.log.cover(cov, "write");
    trace.push(format!("sent: {}", show(&s.bytes)));
    match &s.result {
        Err(p) => return Err(viol(format!("send-panic:{}", ty.name), format!("sending a value panicked: {p}"), trace)),
        Ok(Err(e)) => return Err(viol(format!("send-failed:{}", ty.name), format!("sending a value over a working stream failed: {e}"), trace)),
        Ok(Ok(())) => {}
    }
    match keys_sent(ty, &s.bytes) {
        Err(e) => return Err(viol(format!("sent-invalid:{}", ty.name), format!("what was sent is not a valid form of the value: {e}"), trace)),
        Ok(k) => {
            if k != keys {
                return Err(viol(format!("sent-wrong:{}", ty.name), format!("what was sent denotes another value: {} (value != sent)", diff(&keys, &k)), trace));
            }
        }
    }
    if case["mode"] == "padded" {
        cov.hit("values with white space around their texts sent");
        return Ok(());
    }
    let g = receive(ty, &s.bytes, &case["r"], None);
    g.log.cover(cov, "read");
    match g.result {
        Err(p) => return Err(viol(format!("panic:{}", ty.name), format!("receiving a sent value panicked: {p}"), trace)),
        Ok(Err(e)) => return Err(viol(format!("refused:{}", ty.name), format!("a sent value was refused: {e}"), trace)),
        Ok(Ok(v)) => {
            let k = v.keys().unwrap_or(Value::Null);
            if k != keys || !v.same(&*value) {
                return Err(viol(format!("wrong-value:{}", ty.name), format!("received another value than was sent: {} (sent != received)", diff(&keys, &k)), trace));
            }
        }
    }
    cov.note_bytes(&s.bytes);
    cov.hit(if foreign { "documents from a foreign sender" } else { "values sent" });
    if s.log.short + s.log.eintr + g.log.short + g.log.eintr > 0 {
        distinct(cov, case);
    }
    if cov.samples.is_empty() && s.bytes.len() < 2000 {
        cov.samples.push(json!({"case": case, "sent": show(&s.bytes), "reads": g.log.calls, "writes": s.log.calls}));
    }
    Ok(())
}

/// listed findings: one fixed text each
fn finding(ty: &Ty, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
    let t = first_text(case);
    let bytes = render(ty, &case["doc"], 0);
    let g = receive(ty, &bytes, &case["r"], None);
    g.log.cover(cov, "read");
    let trace = vec![format!("foreign sender: {}", show(&bytes))];
    match g.result {
        Ok(Ok(v)) => {
            let s = send(&*v, &json!([]), None, false);
            let d = String::from_utf8_lossy(&s.bytes).into_owned();
            let ok = match t.as_str() {
                "1" => d.contains(">true<") || d.contains(">1<"),
                "-0" => d.contains(">0<") || d.contains(">-0<"),
                "0" => d.contains(">false<") || d.contains(">0<"),
                "]]>" => keys_sent(ty, &s.bytes).is_ok(),
                "INF" | "-INF" | "NaN" => d.contains(&format!(">{t}<")),
                "24:00:00" => d.contains(">00:00:00<") || d.contains(">24:00:00<"),
                _ => d.contains(">2000-01-02T00:00:00") || d.contains(">2000-01-01T24:00:00"),
            };
            if ok {
                return Ok(());
            }
            Err(viol(format!("form:{}:{t}", ty.name), format!("{t:?} was received but sent back as {d}"), trace))
        }
        Ok(Err(e)) => Err(viol(format!("form:{}:{t}", ty.name), format!("the valid form {t:?} was refused: {e}"), trace)),
        Err(p) => Err(viol(format!("form:{}:{t}", ty.name), format!("the valid form {t:?} panicked: {p}"), trace)),
    }
}

// ---------------------------------------------------------------- S02

pub fn interesting(r: &mut Rng, b: &[u8]) -> usize {
    if r.chance(1, 2) {
        let marks: Vec<usize> = (0..b.len()).filter(|i| b"<>/\"&;]".contains(&b[*i])).collect();
        if !marks.is_empty() {
            let p = *r.pick(&marks) as i64 + r.range(-1, 2);
            return p.clamp(0, b.len() as i64) as usize;
        }
    }
    r.idx(b.len() + 1)
}

pub fn gen_faults(r: &mut Rng, b: &[u8]) -> Value {
    let mut v = vec![];
    if b.len() <= 160 {
        let k0 = if r.chance(1, 2) { 0 } else { 1 + r.below(KINDS.len() as u64) };
        for p in 0..b.len() {
            let k = if r.chance(3, 4) { k0 } else { r.below(KINDS.len() as u64 + 1) };
            v.push(json!([p, k, k != 0 && r.chance(1, 3)]));
        }
    } else {
        for _ in 0..40 {
            let k = if r.chance(1, 2) { 0 } else { 1 + r.below(KINDS.len() as u64) };
            v.push(json!([interesting(r, b), k, k != 0 && r.chance(1, 3)]));
        }
    }
    json!(v)
}

/// the bytes a case sends when nothing fails
fn clean_bytes(ty: &Ty, case: &Value) -> Option<Vec<u8>> {
    if case["mode"] == "foreign" {
        Some(render(ty, &case["doc"], case["style"].as_u64().unwrap_or(0)))
    } else {
        let v = (ty.make)(&case["doc"])?;
        let s = send(&*v, &json!([]), None, case["indent"].as_bool().unwrap_or(false));
        match s.result {
            Ok(Ok(())) => Some(s.bytes),
            _ => None,
        }
    }
}

fn gen_with_faults(r: &mut Rng, i: u64, modes: &[&str]) -> Value {
    let (ty, doc) = pick_doc(r, i);
    let mut c = json!({"ty": ty, "doc": doc, "mode": r.pick(modes), "style": if r.chance(1, 3) { 0 } else { r.next() >> 16 }, "indent": r.chance(1, 5), "w": gen_sched(r), "r": gen_sched(r)});
    let b = with_ty(c["ty"].as_str().unwrap(), |t| clean_bytes(t, &c)).flatten().unwrap_or_default();
    c["faults"] = gen_faults(r, &b);
    c
}

fn shrink_faults(c: &Value) -> Vec<Value> {
    let mut v = shrink_array(c, "faults");
    if c["faults"].as_array().is_some_and(|a| a.len() <= 1) {
        for mut x in shrink_doc(c) {
            // positions move with the document: offer every position of the smaller one
            let n = with_ty(x["ty"].as_str().unwrap_or(""), |t| clean_bytes(t, &x)).flatten().map_or(0, |b| b.len());
            let f = c["faults"][0].clone();
            if n < 600 {
                x["faults"] = Value::Array((0..n).map(|p| json!([p, f[1], f[2]])).collect());
                v.push(x);
            }
        }
    }
    v
}

pub struct S02;
impl Sim for S02 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        gen_with_faults(r, i, &["foreign", "value"])
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        with_ty(case["ty"].as_str().unwrap_or(""), |ty| {
            let Some(want) = (ty.make)(&case["doc"]) else { return Ok(()) };
            let (Some(keys), Some(bytes)) = (want.keys(), clean_bytes(ty, case)) else { return Ok(()) };
            match receive(ty, &bytes, &json!([]), None).result {
                Ok(Ok(v)) if v.same(&*want) => {}
                _ => {
                    // S01 decides these
                    cov.hit("fault-free exchange already fails (not judged here)");
                    return Ok(());
                }
            }
            for f in case["faults"].as_array().into_iter().flatten() {
                let f = Fault::of(f);
                if f.pos >= bytes.len() {
                    continue;
                }
                let g = receive(ty, &bytes, &case["r"], Some(f));
                g.log.cover(cov, "read");
                let what = if f.kind == 0 { "ended".to_string() } else { format!("failed ({:?}{})", KINDS[(f.kind - 1) % KINDS.len()], if f.transient { ", once" } else { "" }) };
                let trace = vec![format!("document: {}", show(&bytes)), format!("the stream {what} after {} of {} bytes: {:?}", f.pos, bytes.len(), show(&bytes[..f.pos]))];
                match g.result {
                    Err(p) => return Err(viol(format!("panic:{}", ty.name), format!("receiving an incomplete document panicked: {p}"), trace)),
                    Ok(Err(_)) => cov.hit("incomplete documents refused"),
                    Ok(Ok(v)) => {
                        let k = v.keys().unwrap_or(Value::Null);
                        if k != keys || !v.same(&*want) {
                            return Err(viol(
                                format!("wrong-value:{}", ty.name),
                                format!("the stream {what} before the document was complete, and the receiver returned Ok with another value: {} (sent != received)", diff(&keys, &k)),
                                trace,
                            ));
                        }
                        cov.hit("complete value before the cut");
                    }
                }
            }
            distinct(cov, case);
            if cov.samples.is_empty() && bytes.len() < 600 {
                cov.samples.push(json!({"case": case, "document": show(&bytes)}));
            }
            Ok(())
        })
        .unwrap_or(Ok(()))
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        shrink_faults(c)
    }
    fn directed(&self) -> Vec<Value> {
        // every type, every cut position of a plain document, each way the stream can end
        let mut v = vec![];
        TYPES.with(|ts| {
            for (n, ty) in ts.iter().enumerate() {
                for k in [0usize, 1, 3] {
                    let mut r = Rng::new(9_000 + n as u64 * 31 + k as u64);
                    let doc = (ty.gen)(&mut r);
                    let b = render(ty, &doc, 0);
                    let f: Vec<Value> = (0..b.len().min(400)).map(|p| json!([p, k, k == 3])).collect();
                    v.push(json!({"ty": ty.name, "doc": doc, "mode": "foreign", "style": 0, "indent": false, "w": [], "r": [3], "faults": f}));
                }
            }
        });
        v
    }
}

// ---------------------------------------------------------------- S03

pub struct S03;
impl Sim for S03 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        gen_with_faults(r, i, &["value"])
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        with_ty(case["ty"].as_str().unwrap_or(""), |ty| {
            let Some(v) = (ty.make)(&case["doc"]) else { return Ok(()) };
            let indent = case["indent"].as_bool().unwrap_or(false);
            let clean = send(&*v, &json!([]), None, indent);
            if !matches!(clean.result, Ok(Ok(()))) {
                return Err(viol(format!("send-failed:{}", ty.name), format!("sending a value into a working writer failed: {:?}", clean.result), vec![]));
            }
            let full = clean.bytes;
            for f in case["faults"].as_array().into_iter().flatten() {
                let f = Fault::of(f);
                let s = send(&*v, &case["w"], Some(f), indent);
                s.log.cover(cov, "write");
                let struck = s.log.errors + s.log.zero > 0;
                let what = if f.kind == 0 { "took no more bytes".to_string() } else { format!("failed ({:?}{})", KINDS[(f.kind - 1) % KINDS.len()], if f.transient { ", once" } else { "" }) };
                let trace = vec![format!("complete document: {}", show(&full)), format!("the writer {what} after {} of {} bytes", f.pos, full.len()), format!("delivered: {}", show(&s.bytes))];
                if !full.starts_with(&s.bytes) {
                    return Err(viol(format!("not-a-prefix:{}", ty.name), "the bytes the writer received are not a prefix of the document".into(), trace));
                }
                match &s.result {
                    Err(p) => return Err(viol(format!("panic:{}", ty.name), format!("sending into a failing writer panicked: {p}"), trace)),
                    Ok(Ok(())) => {
                        if struck || s.bytes != full {
                            return Err(viol(
                                format!("failure-not-reported:{}", ty.name),
                                format!("the writer {what}, {} of {} bytes were delivered, and serialisation returned Ok", s.bytes.len(), full.len()),
                                trace,
                            ));
                        }
                    }
                    Ok(Err(_)) => {
                        if !struck {
                            return Err(viol(format!("spurious-failure:{}", ty.name), "serialisation failed although no write failed".into(), trace));
                        }
                        cov.hit("failures reported");
                    }
                }
            }
            distinct(cov, case);
            if cov.samples.is_empty() && full.len() < 600 {
                cov.samples.push(json!({"case": case, "document": show(&full)}));
            }
            Ok(())
        })
        .unwrap_or(Ok(()))
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        shrink_faults(c)
    }
    fn directed(&self) -> Vec<Value> {
        let mut v = vec![];
        TYPES.with(|ts| {
            for (n, ty) in ts.iter().enumerate() {
                for k in [0usize, 1, 3] {
                    let mut r = Rng::new(9_500 + n as u64 * 31 + k as u64);
                    let doc = (ty.gen)(&mut r);
                    let f: Vec<Value> = (0..400).map(|p| json!([p, k, k == 3])).collect();
                    v.push(json!({"ty": ty.name, "doc": doc, "mode": "value", "style": 0, "indent": k == 1, "w": [], "r": [], "faults": f}));
                }
            }
        });
        v
    }
}

// ---------------------------------------------------------------- S04

fn hostile_text(r: &mut Rng, f: &Field) -> String {
    let alpha: Vec<char> = f.alphabet.chars().collect();
    let alpha = if alpha.is_empty() { vec!['1'] } else { alpha };
    match r.below(7) {
        // soup of characters that occur in valid forms
        0 => {
            let n = r.size(24);
            (0..n).map(|_| *r.pick(&alpha)).collect()
        }
        // a valid form with a few characters changed
        1 | 2 => {
            let mut cs: Vec<char> = f.min.chars().collect();
            for _ in 0..1 + r.idx(3) {
                let p = r.idx(cs.len() + 1);
                let c = *r.pick(&alpha);
                match r.below(3) {
                    0 if p < cs.len() => cs[p] = c,
                    1 if p < cs.len() => {
                        cs.remove(p);
                    }
                    _ => cs.insert(p.min(cs.len()), c),
                }
            }
            cs.into_iter().collect()
        }
        // very long numbers
        3 => {
            let d: String = (0..1 + r.idx(400)).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
            let mut s = f.min.to_string();
            let pos: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            s.insert_str(*r.pick(&pos), &d);
            s
        }
        // multi-byte characters at every offset
        4 => {
            let mut cs: Vec<char> = f.min.chars().collect();
            if cs.is_empty() {
                cs.push('1');
            }
            for _ in 0..1 + r.idx(2) {
                let p = r.idx(cs.len());
                cs[p] = *r.pick(&['é', '日', '😀', '٣', '\u{301}', '\u{200b}', '½', 'Ⅷ', '\u{a0}']);
                if r.chance(1, 2) && cs.len() > 2 {
                    cs.remove(r.idx(cs.len()));
                }
            }
            cs.into_iter().collect()
        }
        5 => (*r.pick(&["", " ", "-", "+", "Z", "P", "PT", "-P", "T", ".", "---", "--", "+:", "-:", "é", "0", "00", "-0", "+0", "1e9", "1E-9", "1e999999999", "1e-999999999", "inf", "-inf", "NaN", "nan", "0x10", "1_000", "٣", "true false", "--é", "---é", "é+00:00", "+é", "-é", "P1é"])).to_string(),
        _ => {
            let n = r.size(12);
            (0..n)
                .map(|_| loop {
                    let c = match r.below(4) {
                        0 => r.below(0x80) as u32,
                        1 => r.below(0x800) as u32,
                        2 => r.below(0x10000) as u32,
                        _ => r.below(0x110000) as u32,
                    };
                    if let Some(c) = char::from_u32(c) {
                        if c >= ' ' && !('\u{7f}'..='\u{9f}').contains(&c) && c != '\u{fffe}' && c != '\u{ffff}' {
                            break c;
                        }
                    }
                })
                .collect()
        }
    }
}

pub(crate) fn splice_hostile(r: &mut Rng, fs: &[Field], doc: &mut Value, lex: &Value) {
    let _ = lex;
    let filled: Vec<&Field> = fs.iter().filter(|f| doc[f.name].as_array().is_some_and(|a| !a.is_empty())).collect();
    if filled.is_empty() {
        return;
    }
    let f = **r.pick(&filled);
    let n = doc[f.name].as_array().unwrap().len();
    let i = r.idx(n);
    if let Some(inner) = f.inner {
        let fs = inner();
        splice_hostile(r, &fs, &mut doc[f.name][i], lex);
    } else {
        // mutate the valid text that is there as well as the minimal one
        let cur = doc[f.name][i].as_str().unwrap_or("").to_string();
        let t = if r.chance(1, 3) {
            let leaked = Field { min: "", ..f };
            let mut cs: Vec<char> = cur.chars().collect();
            let extra = hostile_text(r, &leaked);
            let p = r.idx(cs.len() + 1);
            let q = p + r.idx(cs.len() - p + 1).min(3);
            cs.splice(p..q, extra.chars().take(4));
            cs.into_iter().collect()
        } else {
            hostile_text(r, &f)
        };
        doc[f.name][i] = json!(t);
    }
}

fn apply_edits(b: &mut Vec<u8>, edits: &Value) {
    for e in edits.as_array().into_iter().flatten() {
        let (op, p, x) = (e[0].as_str().unwrap_or(""), e[1].as_u64().unwrap_or(0) as usize, e[2].as_u64().unwrap_or(0));
        if b.is_empty() {
            return;
        }
        let p = p % b.len();
        match op {
            "flip" => b[p] ^= 1 << (x % 8),
            "set" => b[p] = x as u8,
            "del" => {
                let q = (p + 1 + (x as usize % 16)).min(b.len());
                b.drain(p..q);
            }
            "dup" => {
                let q = (p + 1 + (x as usize % 64)).min(b.len());
                let part = b[p..q].to_vec();
                b.splice(q..q, part);
            }
            "ins" => b.insert(p, x as u8),
            _ => {}
        }
    }
}

pub struct S04;
impl Sim for S04 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        let (ty, mut doc) = pick_doc(r, i);
        let mut edits = vec![];
        let kind = r.below(3);
        if kind != 0 {
            for _ in 0..1 + r.idx(2) {
                with_ty(&ty, |t| splice_hostile(r, &(t.fields)(), &mut doc, &Value::Null));
            }
        }
        let style = if r.chance(1, 2) { 0 } else { r.next() >> 16 };
        if kind != 1 {
            let n = with_ty(&ty, |t| render(t, &doc, style).len()).unwrap_or(1);
            for _ in 0..1 + r.idx(4) {
                let op = *r.pick(&["flip", "flip", "set", "del", "dup", "ins"]);
                let x = match op {
                    "set" | "ins" => u64::from(*r.pick(b"<>&/'\"0159-+:.TZPEe \xc3\xa9\xff\x00xs!?=")),
                    _ => r.below(256),
                };
                edits.push(json!([op, r.idx(n), x]));
            }
        }
        json!({"ty": ty, "doc": doc, "mode": "foreign", "style": style, "edits": edits, "r": gen_sched(r)})
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        with_ty(case["ty"].as_str().unwrap_or(""), |ty| {
            let mut bytes = render(ty, &case["doc"], case["style"].as_u64().unwrap_or(0));
            apply_edits(&mut bytes, &case["edits"]);
            let mut trace = vec![format!("received: {}", show(&bytes))];
            let ne = case["edits"].as_array().map_or(0, Vec::len) as u64;
            if ne > 0 {
                cov.add("fault:damaged byte range in transit", ne);
            } else {
                cov.fault("hostile content from the sender");
            }
            let g = receive(ty, &bytes, &case["r"], None);
            g.log.cover(cov, "read");
            let v = match g.result {
                Err(p) => return Err(viol(format!("panic:{}:{}", ty.name, site(&p)), format!("damaged content made the receiver panic: {p}"), trace)),
                Ok(Err(_)) => {
                    cov.hit("damaged documents refused");
                    distinct(cov, case);
                    return Ok(());
                }
                Ok(Ok(v)) => v,
            };
            distinct(cov, case);
            let Some(keys) = v.keys() else {
                return Err(viol(format!("impossible-value:{}", ty.name), format!("damaged content was accepted as a value outside the type's value space: {v:?}"), trace));
            };
            if keys.to_string().contains(UNKNOWN) {
                cov.hit("union marked as unrecognised");
                return Ok(());
            }
            if keys.to_string().contains("]]>") {
                // xml-rs writes it unescaped: known finding of S01
                cov.hit("value with ]]> not sent on");
                return Ok(());
            }
            cov.hit("damaged documents with a usable value");
            let s = send(&*v, &json!([]), None, false);
            trace.push(format!("value: {v:?}"));
            trace.push(format!("sent on: {}", show(&s.bytes)));
            match &s.result {
                Err(p) => return Err(viol(format!("send-panic:{}", ty.name), format!("sending the received value on panicked: {p}"), trace)),
                Ok(Err(e)) => return Err(viol(format!("send-failed:{}", ty.name), format!("sending the received value on failed: {e}"), trace)),
                Ok(Ok(())) => {}
            }
            let g = receive(ty, &s.bytes, &case["r"], None);
            match g.result {
                // a NaN never equals itself
                Ok(Ok(w)) if (w.same(&*v) || format!("{v:?}").contains("NaN")) && w.keys().as_ref() == Some(&keys) => {}
                Ok(Ok(w)) => {
                    return Err(viol(
                        format!("changed-on-the-way:{}", ty.name),
                        format!("the received value changed when sent on: {}", diff(&keys, &w.keys().unwrap_or(Value::Null))),
                        trace,
                    ))
                }
                Ok(Err(e)) => return Err(viol(format!("refused-on-the-way:{}", ty.name), format!("the received value was refused when sent on: {e}"), trace)),
                Err(p) => return Err(viol(format!("panic:{}:{}", ty.name, site(&p)), format!("the received value panicked when sent on: {p}"), trace)),
            }
            cov.note_bytes(&s.bytes);
            if cov.samples.is_empty() && bytes.len() < 600 {
                cov.samples.push(json!({"case": case, "received": show(&bytes), "sent_on": show(&s.bytes)}));
            }
            Ok(())
        })
        .unwrap_or(Ok(()))
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        let mut v = shrink_array(c, "edits");
        v.extend(shrink_doc(c));
        v
    }
    fn directed(&self) -> Vec<Value> {
        let mut v = vec![];
        TYPES.with(|ts| {
            for (n, ty) in ts.iter().enumerate() {
                let fs = (ty.fields)();
                if fs.len() != 1 {
                    continue;
                }
                for k in 0..60 {
                    let mut r = Rng::new(11_000 + n as u64 * 977 + k);
                    let mut doc = (ty.gen)(&mut r);
                    splice_hostile(&mut r, &fs, &mut doc, &Value::Null);
                    v.push(json!({"ty": ty.name, "doc": doc, "mode": "foreign", "style": 0, "edits": [], "r": []}));
                }
            }
        });
        v
    }
}

// ---------------------------------------------------------------- S05

/// the non-zero numbers of a text
fn numbers(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in t.chars().chain([' ']) {
        if c.is_ascii_digit() || (c == '.' && !cur.contains('.')) {
            cur.push(c);
            continue;
        }
        if cur.chars().any(|c| c.is_ascii_digit()) {
            let n = match cur.contains('.') {
                // up to nanoseconds
                true => cur[..cur.len().min(cur.find('.').unwrap() + 10)].trim_end_matches('0').trim_end_matches('.').to_string(),
                false => cur.clone(),
            };
            v.push(n.trim_start_matches('0').to_string());
        }
        cur.clear();
    }
    v.retain(|n| !n.is_empty() && n != ".");
    v
}
/// what of a text the text it was sent on as no longer contains
fn lost(t: &str, on: &str) -> Option<String> {
    if t == on {
        return None;
    }
    let (a, b) = (numbers(t), numbers(on));
    if a != b {
        return Some(format!("the numbers {a:?} became {b:?}"));
    }
    // minus zero is zero
    let neg = |t: &str| {
        t.strip_prefix('-').is_some_and(|t| {
            let rest = t.trim_start_matches(|c: char| c.is_ascii_digit());
            rest.starts_with('.') || rest.len() == t.len() || t[..t.len() - rest.len()].contains(|c| c != '0')
        })
    };
    if !a.is_empty() && neg(t) != neg(on) {
        return Some("the sign".into());
    }
    let odd = t.chars().find(|c| !c.is_ascii_digit() && !c.is_whitespace() && !"+-:. \t\r\n".contains(*c) && !"ZTPYMDHSzt".contains(*c) && !on.contains(*c));
    odd.map(|c| format!("{c:?}"))
}

/// single values: the receiver takes exactly the lexical space of the type, wherever the text came from
pub struct S05;
fn longest(t: &str) -> usize {
    t.split(|c: char| !c.is_ascii_digit()).map(str::len).max().unwrap_or(0)
}
fn trim(t: &str) -> &str {
    t.trim_matches([' ', '\t', '\n', '\r'])
}
pub(crate) fn simple_types() -> Vec<&'static str> {
    TYPES.with(|ts| ts.iter().filter(|t| matches!((t.fields)().as_slice(), [f] if f.name == ".")).map(|t| t.name).collect())
}
impl Sim for S05 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        let names = simple_types();
        let name = names[i as usize % names.len()];
        let mut doc = Value::Null;
        with_ty(name, |t| {
            doc = (t.gen)(r);
            if r.chance(7, 8) {
                splice_hostile(r, &(t.fields)(), &mut doc, &Value::Null);
            }
        });
        no_cdata_end(&mut doc);
        json!({"ty": name, "doc": doc, "mode": "foreign", "style": if r.chance(1, 2) { 0 } else { r.next() >> 16 }, "r": gen_sched(r)})
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        with_ty(case["ty"].as_str().unwrap_or(""), |ty| {
            let text = first_text(case);
            let f = &(ty.fields)()[0];
            let bytes = render(ty, &case["doc"], case["style"].as_u64().unwrap_or(0));
            // empty content is not delivered to the type by yaserde
            let Ok(t) = std::str::from_utf8(&bytes) else { return Ok(()) };
            let Ok(d) = roxmltree::Document::parse(t.trim_start_matches('\u{feff}')) else { return Ok(()) };
            let sent: String = d.root_element().children().filter(|c| c.is_text()).filter_map(|c| c.text()).collect();
            if trim(&sent).is_empty() || d.root_element().children().any(|c| c.is_element()) {
                return Ok(());
            }
            let mut want = (f.key)(trim(&sent));
            let g = receive(ty, &bytes, &case["r"], None);
            if let (true, Ok(Ok(v))) = (ty.name.starts_with('U'), &g.result) {
                // a lenient member may come before the one the text is a valid form of
                if want.is_some() && v.keys().is_some_and(|k| Some(&k["."][0]) != want.clone().map(Value::from).as_ref()) {
                    want = None;
                }
            }
            g.log.cover(cov, "read");
            let trace = vec![format!("received: {}", show(&bytes))];
            distinct(cov, case);
            match (g.result, want) {
                (Err(p), _) => Err(viol(format!("panic:{}", ty.name), format!("{text:?} made the receiver panic: {p}"), trace)),
                (Ok(Err(_)), None) => {
                    cov.hit("texts outside the lexical space refused");
                    Ok(())
                }
                (Ok(Err(_)), Some(_)) if longest(&sent) > 4 => {
                    cov.hit("valid texts with longer numbers refused (not judged)");
                    Ok(())
                }
                (Ok(Err(e)), Some(_)) => Err(viol(format!("refused:{}", ty.name), format!("{text:?} is a valid form and was refused: {e}"), trace)),
                (Ok(Ok(v)), None) => {
                    // lenient readers may take sloppy forms, but no part of the text may get lost
                    let on = send(&*v, &json!([]), None, false);
                    let on = std::str::from_utf8(&on.bytes).ok().and_then(|t| {
                        let d = roxmltree::Document::parse(t).ok()?;
                        Some(d.root_element().text().unwrap_or("").to_string())
                    });
                    if on.as_ref().is_some_and(|on| on.contains(UNKNOWN) || v.keys().is_some_and(|k| k.to_string().contains(UNKNOWN))) {
                        cov.hit("union marked as unrecognised");
                        return Ok(());
                    }
                    let on = on.unwrap_or_default();
                    let lost = if ty.name.contains("F64") || ty.name.contains("F32") {
                        // floating-point numbers are written in other ways
                        let n = |t: &str| t.split_ascii_whitespace().count();
                        (n(&sent) != n(&on)).then(|| "an item".to_string())
                    } else {
                        lost(trim(&sent), &on)
                    };
                    if let Some(lost) = lost {
                        return Err(viol(format!("lost:{}", ty.name), format!("{text:?} is not a valid form, was taken for {v:?}, and {lost} of it got lost"), trace));
                    }
                    cov.hit("sloppy forms taken without loss");
                    Ok(())
                }
                (Ok(Ok(v)), Some(k)) => {
                    cov.hit("valid texts accepted");
                    let got = v.keys().unwrap_or(Value::Null);
                    if got["."][0] != json!(k) {
                        return Err(viol(format!("wrong-value:{}", ty.name), format!("{text:?} denotes {k} and was taken for {got}"), trace));
                    }
                    Ok(())
                }
            }
        })
        .unwrap_or(Ok(()))
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        shrink_doc(c)
    }
}

/// file of the panic, without line: identifies a call site for known findings
fn site(p: &str) -> String {
    let loc = p.rsplit(" @ ").next().unwrap_or("");
    let loc = loc.split(':').next().unwrap_or("");
    loc.rsplit('/').next().unwrap_or("").to_string()
}

//! E01-E03: endpoints generated from drawn schemas, exchanging documents over the simulated stream.

use std::{
    cell::RefCell,
    collections::HashMap,
    path::PathBuf,
    rc::Rc,
    sync::{Mutex, OnceLock},
};

use e2e_glue::{Checker, Endpoint, Peer, Table};
use serde_json::{json, Value};

use crate::{
    e2e::{convert, esc, schema, Complex, Schema, Simple, Sref},
    rng::Rng,
    runner::{guard, seed, shrink_array, Cov, Meta, Sim, Violation},
    stream::{distinct, gen_faults, gen_sched, interesting, show, viol, Fault, Log, SimReader, SimWriter},
};

static TABLE: OnceLock<Table> = OnceLock::new();
pub fn table() -> &'static Table {
    TABLE.get().expect("table")
}
/// what could not be generated or compiled: schema index and reason
static BROKEN: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);

pub fn broken() -> Vec<(u64, String)> {
    BROKEN.lock().unwrap().clone()
}

thread_local! {
    static SCHEMAS: RefCell<HashMap<(u64, u64), Rc<Schema>>> = RefCell::default();
}
fn schema_of(seed: u64, idx: u64) -> Rc<Schema> {
    SCHEMAS.with(|m| m.borrow_mut().entry((seed, idx)).or_insert_with(|| Rc::new(schema(seed, idx))).clone())
}
fn case_schema(c: &Value) -> Rc<Schema> {
    schema_of(c["seed"].as_u64().unwrap_or(1), c["schema"].as_u64().unwrap_or(0))
}
fn endpoint(c: &Value) -> Option<&'static Endpoint> {
    let s = c["schema"].as_u64()?;
    if let Some(i) = c["simple"].as_u64() {
        return table().values.iter().find(|e| e.schema == s && e.global == i as usize);
    }
    let g = c["global"].as_u64()? as usize;
    table().endpoints.iter().find(|e| e.schema == s && e.global == g)
}

struct Got {
    result: Result<Result<Box<dyn Peer>, String>, String>,
    log: Log,
}
fn receive(e: &Endpoint, bytes: &[u8], sched: &Value, fault: Option<Fault>) -> Got {
    let (mut rd, log) = SimReader::new(bytes, sched, fault);
    let result = guard(|| (e.de)(&mut rd));
    drop(rd);
    Got { result, log: log.take() }
}
struct Sent {
    result: Result<Result<(), String>, String>,
    bytes: Vec<u8>,
    log: Log,
}
fn send(v: &dyn Peer, sched: &Value, indent: bool) -> Sent {
    let (mut w, out, log) = SimWriter::new(sched, None);
    let result = guard(|| v.ser(&mut w, indent));
    drop(w);
    Sent { result, bytes: out.take(), log: log.take() }
}

/// reads what a generated endpoint sent, with an independent XML parser and the schema model
pub fn meaning(s: &Schema, c: &Complex, root: &str, bytes: &[u8]) -> Result<Value, String> {
    let t = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    let t = t.strip_prefix('\u{feff}').unwrap_or(t);
    let d = roxmltree::Document::parse(t).map_err(|e| format!("not well-formed: {e}"))?;
    let n = d.root_element();
    if n.tag_name().name() != root {
        return Err(format!("the root element is {} instead of {root}", n.tag_name().name()));
    }
    s.namespace(&n)?;
    let doc = s.read(c, n)?;
    s.canon(c, &doc)
}

/// first place where two meanings differ
pub fn differs(a: &Value, b: &Value, at: &str) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                let (p, q) = (x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null));
                if p != q {
                    return differs(p, q, &format!("{at}/{k}"));
                }
            }
            String::new()
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return differs(p, q, &format!("{at}[{i}]"));
                }
            }
            String::new()
        }
        _ => format!("{at}: {a} != {b}"),
    }
}

fn draw(r: &mut Rng, i: u64) -> Option<Value> {
    let t = table();
    if t.endpoints.is_empty() {
        return None;
    }
    let e = &t.endpoints[i as usize % t.endpoints.len()];
    let s = schema_of(seed(), e.schema);
    let doc = s.doc(s.global(e.global), r, 0);
    Some(json!({"seed": seed(), "schema": e.schema, "global": e.global, "doc": doc, "style": if r.chance(1, 4) { 0 } else { r.next() >> 16 }}))
}

fn clean(c: &Value) -> Vec<u8> {
    let s = case_schema(c);
    if let Some(i) = c["simple"].as_u64() {
        let name = s.simples.get(i as usize).map_or("", |t| &t.name);
        return format!("<{name}>{}</{name}>", esc(c["text"].as_str().unwrap_or(""))).into_bytes();
    }
    let g = c["global"].as_u64().unwrap_or(0) as usize;
    s.render(s.global(g), &s.globals[g].name, &c["doc"], c["style"].as_u64().unwrap_or(0))
}

fn shrink_doc(c: &Value) -> Vec<Value> {
    if c["simple"].is_u64() {
        return vec![];
    }
    let s = case_schema(c);
    let g = c["global"].as_u64().unwrap_or(0) as usize;
    let mut out = vec![];
    for k in ["style", "hops", "indent"] {
        if c[k].as_u64().is_some_and(|x| x > 0) {
            let mut x = c.clone();
            x[k] = 0.into();
            out.push(x);
        }
    }
    for k in ["r", "w"] {
        if c[k].as_array().is_some_and(|a| !a.is_empty()) {
            let mut x = c.clone();
            x[k] = json!([]);
            out.push(x);
        }
    }
    for d in s.shrink(s.global(g), &c["doc"]) {
        let mut x = c.clone();
        x["doc"] = d;
        out.push(x);
    }
    out
}

fn context(s: &Schema, bytes: &[u8]) -> Vec<String> {
    vec![format!("schema: {}", s.xsd_text()), format!("document: {}", show(bytes))]
}

// ---------------------------------------------------------------- E01

pub struct E01;
impl Sim for E01 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        let Some(mut c) = draw(r, i) else { return json!({}) };
        c["r"] = gen_sched(r);
        c["w"] = gen_sched(r);
        c["hops"] = r.below(3).into();
        c["indent"] = r.below(8).into();
        c
    }
    fn run(&self, c: &Value, cov: &mut Cov) -> Result<(), Violation> {
        if c["clone"].is_boolean() {
            let s = case_schema(c);
            let shims = guard(|| convert(&s.xsd_text())).map(|code| s.shims(&code)).unwrap_or_default();
            if shims.is_empty() {
                return Ok(());
            }
            return Err(viol("compile:union-without-clone".into(), "the enum generated for a union cannot be cloned, while every struct that holds one derives Clone: such a schema does not compile (the harness adds the missing impl to go on)".into(), vec![format!("schema: {}", s.xsd_text())]));
        }
        if let Some(why) = c["broken"].as_str() {
            // generation and compilation were attempted before the run; is it still broken?
            let idx = c["schema"].as_u64().unwrap_or(0);
            if !BROKEN.lock().unwrap().iter().any(|b| b.0 == idx) {
                return Ok(());
            }
            let s = case_schema(c);
            let kind = why.split(' ').next().unwrap_or("");
            return Err(viol(format!("{kind}:{}:{idx}", c["seed"]), format!("a schema within the supported part of XSD cannot be used: {why}"), vec![format!("schema: {}", s.xsd_text())]));
        }
        let Some(e) = endpoint(c) else { return Ok(()) };
        let s = case_schema(c);
        let ty = s.global(e.global);
        let root = &s.globals[e.global].name;
        let bytes = clean(c);
        let want = s.canon(ty, &c["doc"]).unwrap_or_else(|e| panic!("the harness drew an invalid document: {e}"));
        assert_eq!(meaning(&s, ty, root, &bytes).as_ref(), Ok(&want), "the harness drew or rendered an invalid document");
        let mut trace = context(&s, &bytes);
        let g = receive(e, &bytes, &c["r"], None);
        g.log.cover(cov, "read");
        let first = match g.result {
            Err(p) => return Err(viol("panic".into(), format!("receiving a valid document panicked: {p}"), trace)),
            Ok(Err(e)) => return Err(viol("refused".into(), format!("a valid document was refused: {e}"), trace)),
            Ok(Ok(v)) => v,
        };
        trace.push(format!("received: {}", first.show().chars().take(1500).collect::<String>()));
        let mut now = first;
        let mut before: Option<Vec<u8>> = None;
        for hop in 0..=c["hops"].as_u64().unwrap_or(0) {
            let t = send(&*now, &c["w"], c["indent"] == 1);
            t.log.cover(cov, "write");
            trace.push(format!("sent by hop {hop}: {}", show(&t.bytes)));
            match &t.result {
                Err(p) => return Err(viol("send-panic".into(), format!("sending on a received document panicked: {p}"), trace)),
                Ok(Err(e)) => return Err(viol("send-failed".into(), format!("sending on a received document failed: {e}"), trace)),
                Ok(Ok(())) => {}
            }
            match meaning(&s, ty, root, &t.bytes) {
                Err(e) => return Err(viol("sent-invalid".into(), format!("what is sent on is not a document of the schema: {e}"), trace)),
                Ok(k) if k != want => return Err(viol("changed".into(), format!("the document that comes out differs from the one that went in at {} (in != out)", differs(&want, &k, "")), trace)),
                Ok(_) => {}
            }
            if before.as_ref().is_some_and(|b| *b != t.bytes) {
                return Err(viol("unstable".into(), "two hops of the same document send different bytes".into(), trace));
            }
            let g = receive(e, &t.bytes, &c["r"], None);
            g.log.cover(cov, "read");
            match g.result {
                Err(p) => return Err(viol("panic-own".into(), format!("receiving what the peer sent panicked: {p}"), trace)),
                Ok(Err(e)) => return Err(viol("refused-own".into(), format!("what a generated endpoint sent is refused by the other: {e}"), trace)),
                Ok(Ok(v)) => {
                    if !v.same(&*now) {
                        return Err(viol("changed-own".into(), format!("the value received differs from the value sent: {}", v.show().chars().take(1500).collect::<String>()), trace));
                    }
                    now = v;
                }
            }
            cov.note_bytes(&t.bytes);
            before = Some(t.bytes);
        }
        cov.hit("documents relayed");
        distinct(cov, c);
        if cov.samples.is_empty() && bytes.len() < 900 {
            cov.samples.push(json!({"case": c, "document": show(&bytes), "sent on": before.map(|b| show(&b))}));
        }
        Ok(())
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        if c["broken"].is_string() || c["doc"].is_null() {
            return vec![];
        }
        shrink_doc(c)
    }
    fn directed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = BROKEN.lock().unwrap().iter().map(|(i, w)| json!({"seed": seed(), "schema": i, "broken": w})).collect();
        if let Some(e) = table().endpoints.iter().find(|e| schema_of(seed(), e.schema).simples.iter().any(|s| matches!(s.def, Simple::Union(_)))) {
            v.push(json!({"seed": seed(), "schema": e.schema, "clone": true}));
        }
        for (n, e) in table().endpoints.iter().enumerate() {
            for k in 0..3u64 {
                let s = schema_of(seed(), e.schema);
                let doc = s.doc(s.global(e.global), &mut Rng::new(n as u64 * 7 + k), 0);
                v.push(json!({"seed": seed(), "schema": e.schema, "global": e.global, "doc": doc, "style": 0, "r": [], "w": [], "hops": 1, "indent": (k)}));
            }
        }
        v
    }
}

// ---------------------------------------------------------------- E02

pub struct E02;
impl Sim for E02 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        let t = table();
        let c = if !t.values.is_empty() && r.chance(1, 4) {
            let e = r.pick(&t.values);
            let s = schema_of(seed(), e.schema);
            Some(json!({"seed": seed(), "schema": e.schema, "simple": e.global, "text": s.lex(&Sref::T(e.global), r, false)}))
        } else {
            draw(r, i)
        };
        let Some(mut c) = c else { return json!({}) };
        c["r"] = gen_sched(r);
        c["faults"] = gen_faults(r, &clean(&c));
        c
    }
    fn run(&self, c: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let Some(e) = endpoint(c) else { return Ok(()) };
        let s = case_schema(c);
        let bytes = clean(c);
        let Ok(Ok(want)) = receive(e, &bytes, &json!([]), None).result else {
            // E01 decides these
            cov.hit("fault-free exchange already fails (not judged here)");
            return Ok(());
        };
        for f in c["faults"].as_array().into_iter().flatten() {
            let f = Fault::of(f);
            if f.pos >= bytes.len() {
                continue;
            }
            let g = receive(e, &bytes, &c["r"], Some(f));
            g.log.cover(cov, "read");
            let trace = || {
                let mut t = context(&s, &bytes);
                t.push(format!("the stream {} after {} of {} bytes: {:?}", f.what(), f.pos, bytes.len(), show(&bytes[..f.pos])));
                t
            };
            match g.result {
                Err(p) => return Err(viol("panic".into(), format!("receiving an incomplete document panicked: {p}"), trace())),
                Ok(Err(_)) => cov.hit("incomplete documents refused"),
                Ok(Ok(v)) => {
                    if !v.same(&*want) {
                        return Err(viol("wrong-value".into(), format!("the stream {} before the document was complete, and the receiver returned Ok with another value: {} instead of {}", f.what(), v.show(), want.show()), trace()));
                    }
                    cov.hit("complete value before the cut");
                }
            }
        }
        distinct(cov, c);
        if cov.samples.is_empty() && bytes.len() < 600 {
            cov.samples.push(json!({"case": c, "document": show(&bytes)}));
        }
        Ok(())
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        let mut v = shrink_array(c, "faults");
        if c["faults"].as_array().is_some_and(|a| a.len() <= 1) {
            for mut x in shrink_doc(c) {
                let n = clean(&x).len();
                let f = c["faults"][0].clone();
                if n < 2000 {
                    x["faults"] = Value::Array((0..n).map(|p| json!([p, f[1], f[2]])).collect());
                    v.push(x);
                }
            }
        }
        v
    }
    fn directed(&self) -> Vec<Value> {
        let mut v = vec![];
        for (n, e) in table().endpoints.iter().enumerate() {
            let s = schema_of(seed(), e.schema);
            let r = &mut Rng::new(n as u64 * 7);
            let doc = s.doc(s.global(e.global), r, 0);
            let mut c = json!({"seed": seed(), "schema": e.schema, "global": e.global, "doc": doc, "style": 0, "r": []});
            let b = clean(&c);
            let f: Vec<Value> = (0..60usize).map(|k| { let kind = [0, 1, 3][k % 3]; json!([interesting(r, &b), kind, k % 3 == 2]) }).collect();
            c["faults"] = json!(f);
            v.push(c);
        }
        v
    }
}

// ---------------------------------------------------------------- E03

fn checked<'a>(c: &Value, s: &'a Schema) -> Option<(&'static Checker, &'a Sref, &'a Vec<(&'static str, String)>, &'a str)> {
    let (x, i) = (c["schema"].as_u64()?, c["simple"].as_u64()? as usize);
    let k = table().checkers.iter().find(|k| k.schema == x && k.simple == i)?;
    match &s.simples.get(i)?.def {
        Simple::Restr { base, facets } => Some((k, base, facets, &s.simples[i].name)),
        _ => None,
    }
}

pub struct E03;
impl Sim for E03 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        let t = table();
        if t.checkers.is_empty() {
            return json!({});
        }
        let k = &t.checkers[i as usize % t.checkers.len()];
        let s = schema_of(seed(), k.schema);
        let Simple::Restr { base, facets } = &s.simples[k.simple].def else { return json!({}) };
        let v: Vec<String> = (0..1 + r.idx(8)).map(|_| s.near(base, facets, r)).collect();
        json!({"seed": seed(), "schema": k.schema, "simple": k.simple, "texts": v, "r": gen_sched(r)})
    }
    fn run(&self, c: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let s = case_schema(c);
        let Some((k, base, facets, name)) = checked(c, &s) else { return Ok(()) };
        for t in c["texts"].as_array().into_iter().flatten().filter_map(Value::as_str) {
            let Some(want) = s.facets_hold(base, facets, t) else { continue };
            let bytes = format!("<{name}>{t}</{name}>").into_bytes();
            let (mut rd, log) = SimReader::new(&bytes, &c["r"], None);
            let got = guard(|| (k.check)(&mut rd));
            drop(rd);
            log.take().cover(cov, "read");
            let trace = vec![format!("schema: {}", s.xsd_text()), format!("type {name}, facets {facets:?}, value {t}")];
            match got {
                Err(p) => return Err(viol("panic".into(), format!("receiving or validating {t:?} panicked: {p}"), trace)),
                Ok(Err(e)) => return Err(viol("refused".into(), format!("{t:?}, valid for the base type, is refused by the reader: {e}"), trace)),
                Ok(Ok(v)) => {
                    if v.is_ok() != want {
                        return Err(viol(if want { "rejected" } else { "accepted" }.into(), format!("{t:?} {} the facets {facets:?} and validate() says {v:?}", if want { "satisfies" } else { "violates" }), trace));
                    }
                    cov.hit(if want { "values accepted" } else { "values rejected" });
                }
            }
            cov.note_bytes(&bytes);
        }
        distinct(cov, c);
        Ok(())
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        let mut v = shrink_array(c, "texts");
        if c["r"].as_array().is_some_and(|a| !a.is_empty()) {
            let mut x = c.clone();
            x["r"] = json!([]);
            v.push(x);
        }
        v
    }
}

// ---------------------------------------------------------------- entry

/// what the driver found: the lists of DIR/failed and DIR/broken
fn load_broken() {
    let dir = PathBuf::from(std::env::var_os("E2E_DIR").unwrap_or_default());
    let mut b = BROKEN.lock().unwrap();
    for f in ["failed", "broken"] {
        for l in std::fs::read_to_string(dir.join(f)).unwrap_or_default().lines() {
            if let Some((i, why)) = l.split_once(' ') {
                if let Ok(i) = i.parse() {
                    b.push((i, why.to_string()));
                }
            }
        }
    }
}

pub fn main(t: Table) -> ! {
    let id = std::env::args().nth(1).unwrap_or_default();
    load_broken();
    let _ = TABLE.set(t);
    let (p, sim, rule, quick, thorough): (&'static str, &dyn Sim, &'static str, u64, u64) = match id.as_str() {
        "E01" => ("E01", &E01, "a run sends one document of one drawn schema through a chain of one to three generated endpoints; distinct = distinct (schema, document, rendering, schedules)", 200_000, 20_000_000),
        "E02" => ("E02", &E02, "a run cuts or fails the stream of one document of a drawn schema at up to 160 positions; distinct = distinct (schema, document, rendering, schedule, fault list)", 30_000, 3_000_000),
        "E03" => ("E03", &E03, "a run delivers values around the facets of one restricted type to its generated reader and validator; distinct = distinct (schema, type, values, schedule)", 200_000, 20_000_000),
        "W01" => ("W01", &crate::calls::W01, "a run makes one to six concurrent calls of the generated client of one drawn service, with their fates and the order of events; distinct = distinct (service, calls, documents, fates, plan, schedules)", 60_000, 8_000_000),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    };
    crate::runner::main(
        Meta {
            property: p,
            level: "exploration",
            rule,
            states_measure: "distinct byte-exact transfer histories (sizes, interruptions and boundary bytes of every read or write)",
            real: vec!["xsd-parser (parser and generator) and rustc: every endpoint is generated from a schema and compiled", "xsd-types, xsd-macro-utils", "yaserde, yaserde_derive, xml-rs, chrono, bigdecimal, num-bigint"],
            stub: vec!["readers, writers and transport (simulated)", "foreign peer (renders documents from the schema model)", "clock (stalls advance simulated time)"],
            assumptions: vec![
                "the supported part of XSD listed in DESIGN.md (limits of yaserde 0.7 and the known findings excluded)",
                "order between differently named children is not judged (yaserde writes a derived type's own elements before those of its base)",
            ],
            quick_runs: quick,
            thorough_runs: thorough,
            max_workers: 16,
            forked: false,
        },
        sim,
    )
}

//! W01: clients generated from drawn services call a simulated server over a simulated network.

use std::{
    cell::RefCell,
    collections::HashMap,
    future::Future,
    io::Read,
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

use e2e_glue::{
    transport::{Error, Handle},
    Operation, Outcome,
};
use serde_json::{json, Value};

use crate::{
    e2e::{service_schema, Complex, Schema},
    e2erun::{broken, differs, meaning, table},
    rng::Rng,
    runner::{guard, seed, shrink_array, Cov, Sim, Violation},
    stream::{distinct, gen_sched, show, viol, Fault, Log, SimReader},
    wsdl::{service, Service},
};

thread_local! {
    static SERVICES: RefCell<HashMap<(u64, u64), Rc<(Schema, Service)>>> = RefCell::default();
}
fn service_of(seed: u64, idx: u64) -> Rc<(Schema, Service)> {
    SERVICES.with(|m| {
        m.borrow_mut()
            .entry((seed, idx))
            .or_insert_with(|| {
                let s = service_schema(seed, idx);
                let w = service(&s);
                Rc::new((s, w))
            })
            .clone()
    })
}

/// one reply on its way to one call
#[derive(Default)]
struct Slot {
    reply: Option<Result<Box<dyn Read>, Error>>,
    waker: Option<Waker>,
}
struct Waiting(Rc<RefCell<Slot>>);
impl Future for Waiting {
    type Output = Result<Box<dyn Read>, Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.borrow_mut();
        match s.reply.take() {
            Some(r) => Poll::Ready(r),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// requests handed to the network: call, bytes, where the reply goes
type Sent = Vec<(usize, Vec<u8>, Rc<RefCell<Slot>>)>;

struct Call<'a> {
    op: &'static Operation,
    case: &'a Value,
    fate: &'a str,
    fut: Option<Outcome>,
    flag: Arc<Flag>,
    sent: usize,
    /// a whole reply reached the client in time
    answered: bool,
    timed_out: bool,
    outcome: Option<Result<Vec<u8>, String>>,
    slot: Option<Rc<RefCell<Slot>>>,
    log: Option<Rc<RefCell<Log>>>,
}
enum Packet {
    Request(usize, Vec<u8>),
    Reply(usize),
}
#[derive(Debug)]
enum Event {
    Poll(usize),
    Deliver(usize),
    Timeout(usize),
    Cancel(usize),
}

const FATES: &[&str] = &["request lost", "reply lost", "server error", "reply cut", "reply fails", "request duplicated", "reply duplicated", "caller gives up"];

pub struct W01;
impl W01 {
    fn side<'a>(s: &'a Schema, w: &Service, op: usize, input: bool) -> (&'a Complex, &'a str) {
        let o = w.ops()[op];
        let g = w.messages[if input { o.input } else { o.output }].global;
        (s.global(g), &s.globals[g].name)
    }
    fn draw_call(r: &mut Rng, o: &Operation) -> Value {
        let sw = service_of(seed(), o.schema);
        let (s, w) = &*sw;
        let (q, _) = Self::side(s, w, o.op, true);
        let (p, _) = Self::side(s, w, o.op, false);
        let fate = if r.chance(1, 2) { "" } else { *r.pick(FATES) };
        json!({"op": o.op, "doc": s.doc(q, r, 0), "reply": s.doc(p, r, 0), "style": r.next() >> 16, "fate": fate, "x": r.below(100_000), "r": gen_sched(r)})
    }
}
impl Sim for W01 {
    fn gen(&self, r: &mut Rng, i: u64) -> Value {
        let t = &table().operations;
        if t.is_empty() {
            return json!({});
        }
        let o = &t[i as usize % t.len()];
        let of: Vec<&Operation> = t.iter().filter(|x| x.schema == o.schema).collect();
        let mut calls = vec![Self::draw_call(r, o)];
        for _ in 0..r.idx(6) {
            let o = *r.pick(&of);
            calls.push(Self::draw_call(r, o));
        }
        let plan: Vec<u64> = (0..r.idx(40)).map(|_| r.below(1000)).collect();
        json!({"seed": seed(), "schema": o.schema, "calls": calls, "plan": plan})
    }
    fn run(&self, c: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let idx = c["schema"].as_u64().unwrap_or(0);
        let sw = service_of(c["seed"].as_u64().unwrap_or(1), idx);
        let (s, w) = &*sw;
        if let Some(why) = c["broken"].as_str() {
            if !broken().iter().any(|b| b.0 == idx) {
                return Ok(());
            }
            let kind = why.split(' ').next().unwrap_or("");
            return Err(viol(format!("{kind}:{}:{idx}", c["seed"]), format!("the client of a service within the supported part of WSDL cannot be used: {why}"), vec![format!("service: {}", w.text(s))]));
        }
        let mut trace = vec![format!("service: {}", w.text(s))];
        let net: Rc<RefCell<Sent>> = Rc::default();
        let mut calls: Vec<Call> = vec![];
        for (i, k) in c["calls"].as_array().into_iter().flatten().enumerate() {
            let Some(op) = table().operations.iter().find(|o| o.schema == idx && k["op"] == json!(o.op)) else { return Ok(()) };
            let (ty, root) = Self::side(s, w, op.op, true);
            let bytes = s.render(ty, root, &k["doc"], k["style"].as_u64().unwrap_or(0));
            let n = net.clone();
            let handle = Handle(Rc::new(move |b| {
                let slot: Rc<RefCell<Slot>> = Rc::default();
                n.borrow_mut().push((i, b, slot.clone()));
                Box::pin(Waiting(slot))
            }));
            trace.push(format!("call {i}: {}({})", w.ops()[op.op].rust, show(&bytes)));
            let fate = k["fate"].as_str().unwrap_or("");
            if !fate.is_empty() {
                cov.fault(fate);
            }
            calls.push(Call {
                op,
                case: k,
                fate,
                fut: Some((op.call)(handle, bytes)),
                flag: Arc::new(Flag(AtomicBool::new(true))),
                sent: 0,
                answered: false,
                timed_out: false,
                outcome: None,
                slot: None,
                log: None,
            });
        }
        let name = |i: usize, calls: &Vec<Call>| format!("call {i} of {}", w.ops()[calls[i].op.op].name);
        let mut packets: Vec<Packet> = vec![];
        let plan: Vec<u64> = c["plan"].as_array().into_iter().flatten().filter_map(Value::as_u64).collect();
        let mut history = 0u64;
        let mut steps = 0usize;
        loop {
            let mut ev: Vec<Event> = vec![];
            ev.extend((0..calls.len()).filter(|i| calls[*i].fut.is_some() && calls[*i].flag.0.load(Ordering::SeqCst)).map(Event::Poll));
            ev.extend((0..packets.len()).map(Event::Deliver));
            let planned = steps < plan.len();
            if planned || ev.is_empty() {
                ev.extend((0..calls.len()).filter(|i| calls[*i].fut.is_some() && calls[*i].slot.is_some()).map(Event::Timeout));
            }
            if planned {
                ev.extend((0..calls.len()).filter(|i| calls[*i].fut.is_some() && calls[*i].fate == "caller gives up").map(Event::Cancel));
            }
            if ev.is_empty() {
                break;
            }
            let at = if planned { plan[steps] as usize % ev.len() } else { 0 };
            let e = ev.swap_remove(at);
            steps += 1;
            history = crate::rng::mix64(history ^ crate::rng::hash_bytes(format!("{e:?}").as_bytes()));
            trace.push(format!("step {steps}: {e:?}"));
            if steps > 10_000 {
                return Err(viol("no-progress".into(), "the calls do not come to an end".into(), trace));
            }
            match e {
                Event::Poll(i) => {
                    calls[i].flag.0.store(false, Ordering::SeqCst);
                    let waker = Waker::from(calls[i].flag.clone());
                    let mut fut = calls[i].fut.take().unwrap();
                    match guard(|| fut.as_mut().poll(&mut Context::from_waker(&waker))) {
                        Err(p) => return Err(viol("panic".into(), format!("{} panicked: {p}", name(i, &calls)), trace)),
                        Ok(Poll::Pending) => calls[i].fut = Some(fut),
                        Ok(Poll::Ready(o)) => {
                            trace.push(format!("  outcome: {}", match &o { Ok(b) => show(b), Err(e) => format!("error {e}") }));
                            calls[i].outcome = Some(o);
                        }
                    }
                    for (call, bytes, slot) in net.borrow_mut().drain(..) {
                        trace.push(format!("  sent: {}", show(&bytes)));
                        if call != i {
                            return Err(viol("wrong-transport".into(), format!("{} sent over the transport of call {call}", name(i, &calls)), trace));
                        }
                        calls[i].sent += 1;
                        if calls[i].sent > 1 {
                            return Err(viol("sent-twice".into(), format!("{} sent its request again", name(i, &calls)), trace));
                        }
                        calls[i].slot = Some(slot);
                        cov.note_bytes(&bytes);
                        match calls[i].fate {
                            "request lost" => {}
                            f => {
                                packets.push(Packet::Request(i, bytes.clone()));
                                if f == "request duplicated" {
                                    packets.push(Packet::Request(i, bytes));
                                }
                            }
                        }
                    }
                    if calls[i].fut.is_some() && calls[i].slot.is_none() {
                        return Err(viol("no-request".into(), format!("{} waits without having sent a request", name(i, &calls)), trace));
                    }
                }
                Event::Deliver(p) => match packets.remove(p) {
                    Packet::Request(i, bytes) => {
                        // the server: knows the service, not the generated code
                        let (ty, root) = Self::side(s, w, calls[i].op.op, true);
                        let want = s.canon(ty, &calls[i].case["doc"]).unwrap_or_else(|e| panic!("the harness drew an invalid document: {e}"));
                        match meaning(s, ty, root, &bytes) {
                            Err(e) => return Err(viol("request-invalid".into(), format!("{} sent something that is not its input: {e}", name(i, &calls)), trace)),
                            Ok(k) if k != want => return Err(viol("request-changed".into(), format!("{} sent another request than it was asked to, at {} (asked != sent)", name(i, &calls), differs(&want, &k, "")), trace)),
                            Ok(_) => cov.hit("requests served"),
                        }
                        match calls[i].fate {
                            "reply lost" => {}
                            f => {
                                packets.push(Packet::Reply(i));
                                if f == "reply duplicated" {
                                    packets.push(Packet::Reply(i));
                                }
                            }
                        }
                    }
                    Packet::Reply(i) => {
                        let (ty, root) = Self::side(s, w, calls[i].op.op, false);
                        let k = calls[i].case;
                        let bytes = s.render(ty, root, &k["reply"], k["style"].as_u64().unwrap_or(0) >> 1);
                        let Some(slot) = calls[i].slot.clone() else { continue };
                        if calls[i].fut.is_none() || calls[i].timed_out || slot.borrow().reply.is_some() || calls[i].answered {
                            cov.hit("late or repeated replies ignored");
                            continue;
                        }
                        trace.push(format!("  reply to call {i}: {}", show(&bytes)));
                        let at = k["x"].as_u64().unwrap_or(0) as usize % bytes.len();
                        let fault = match calls[i].fate {
                            "reply cut" => Some(json!([at, 0, false])),
                            "reply fails" => Some(json!([at, 1 + at % 3, false])),
                            _ => None,
                        };
                        let reply = if calls[i].fate == "server error" {
                            Err(Error::Network("500".into()))
                        } else {
                            let (rd, log) = SimReader::new(&bytes, &k["r"], fault.map(|f| Fault::of(&f)));
                            calls[i].log = Some(log);
                            Ok(Box::new(rd) as Box<dyn Read>)
                        };
                        calls[i].answered = true;
                        let mut sl = slot.borrow_mut();
                        sl.reply = Some(reply);
                        if let Some(w) = sl.waker.take() {
                            w.wake();
                        }
                    }
                },
                Event::Timeout(i) => {
                    let slot = calls[i].slot.clone().unwrap();
                    let mut sl = slot.borrow_mut();
                    if sl.reply.is_none() && !calls[i].answered {
                        cov.fault("time limit reached");
                        cov.add("sim_time_us", 30_000_000);
                        calls[i].timed_out = true;
                        sl.reply = Some(Err(Error::Network("timed out".into())));
                        if let Some(w) = sl.waker.take() {
                            w.wake();
                        }
                    } else if !planned {
                        return Err(viol("stuck".into(), format!("{} has its answer and does not go on", name(i, &calls)), trace));
                    }
                }
                Event::Cancel(i) => {
                    let f = calls[i].fut.take();
                    if let Err(p) = guard(|| drop(f)) {
                        return Err(viol("panic".into(), format!("giving up {} panicked: {p}", name(i, &calls)), trace));
                    }
                    cov.hit("calls given up");
                }
            }
        }
        for (i, k) in calls.iter().enumerate() {
            if let Some(l) = &k.log {
                l.borrow().cover(cov, "read");
            }
            let who = name(i, &calls);
            let disturbed = k.timed_out || !matches!(k.fate, "" | "request duplicated" | "reply duplicated" | "caller gives up");
            match &k.outcome {
                None if k.fate == "caller gives up" => {}
                None => return Err(viol("unfinished".into(), format!("{who} never finished"), trace)),
                Some(Err(e)) if !disturbed => return Err(viol("failed".into(), format!("{who} was not disturbed and failed: {e}"), trace)),
                Some(Err(_)) => cov.hit("failures reported to the caller"),
                Some(Ok(b)) => {
                    if k.sent == 0 || !k.answered || k.timed_out || k.fate == "server error" {
                        return Err(viol("made-up".into(), format!("{who} returned a response it did not receive"), trace));
                    }
                    let (ty, root) = Self::side(s, w, k.op.op, false);
                    let want = s.canon(ty, &k.case["reply"]).unwrap_or_else(|e| panic!("the harness drew an invalid document: {e}"));
                    match meaning(s, ty, root, b) {
                        Err(e) => return Err(viol("response-invalid".into(), format!("{who} returned something that is not its output: {e}"), trace)),
                        Ok(g) if g != want => return Err(viol("response-changed".into(), format!("{who} returned another response than it was sent, at {} (sent != returned)", differs(&want, &g, "")), trace)),
                        Ok(_) => cov.hit("responses returned"),
                    }
                }
            }
        }
        cov.note(history);
        distinct(cov, c);
        if cov.samples.is_empty() && calls.len() < 3 {
            cov.samples.push(json!({"case": c, "trace": trace[1..].iter().take(20).collect::<Vec<_>>()}));
        }
        Ok(())
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        if c["broken"].is_string() {
            return vec![];
        }
        let mut v = shrink_array(c, "calls");
        v.extend(shrink_array(c, "plan"));
        let sw = service_of(c["seed"].as_u64().unwrap_or(1), c["schema"].as_u64().unwrap_or(0));
        let (s, w) = &*sw;
        for (i, k) in c["calls"].as_array().into_iter().flatten().enumerate() {
            for (f, x) in [("fate", json!("")), ("r", json!([])), ("style", json!(0))] {
                if k[f] != x {
                    let mut y = c.clone();
                    y["calls"][i][f] = x;
                    v.push(y);
                }
            }
            for (f, input) in [("doc", true), ("reply", false)] {
                let (ty, _) = Self::side(s, w, k["op"].as_u64().unwrap_or(0) as usize, input);
                for d in s.shrink(ty, &k[f]) {
                    let mut y = c.clone();
                    y["calls"][i][f] = d;
                    v.push(y);
                }
            }
        }
        v
    }
    fn directed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = broken().iter().map(|(i, w)| json!({"seed": seed(), "schema": i, "broken": w})).collect();
        for (n, o) in table().operations.iter().enumerate() {
            let mut k = Self::draw_call(&mut Rng::new(n as u64 * 13), o);
            k["fate"] = json!("");
            v.push(json!({"seed": seed(), "schema": o.schema, "calls": [k], "plan": []}));
        }
        v
    }
}

//! S06: what applications put into the types and take out of them is what travels.

use bigdecimal::BigDecimal;
use chrono::{DateTime as CDateTime, Datelike, FixedOffset, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use num_bigint::{BigInt, BigUint, ToBigInt, ToBigUint};
use serde_json::{json, Value};
use xsd_types::types as xt;

use crate::{
    rng::Rng,
    runner::{guard, shrink_array, Cov, Sim, Violation},
    stream::*,
    xtypes::{decimal_key, tz_key, tz_off, Alone, Val, Xt},
};

const TYPES: &[&str] = &[
    "Decimal", "Integer", "PositiveInteger", "NonNegativeInteger", "NegativeInteger", "NonPositiveInteger", "Date", "Time", "DateTime", "DateTimeStamp", "GDay", "GMonth",
    "GMonthDay", "GYear", "GYearMonth", "Duration",
];

type Put = Result<Box<dyn Val>, String>;

fn alone<T: Xt + yaserde::YaSerialize + 'static>(v: T) -> Put {
    Ok(Box::new(Alone(v)))
}
fn n(a: &Value, i: usize) -> i64 {
    a[i].as_i64().unwrap_or(0)
}
fn s(a: &Value, i: usize) -> &str {
    a[i].as_str().unwrap_or("0")
}
fn i(a: &Value, k: usize) -> i32 {
    n(a, k).clamp(i32::MIN as i64, i32::MAX as i64) as i32
}
fn big(a: &Value) -> BigInt {
    s(a, 0).parse().unwrap_or_default()
}
fn ubig(a: &Value) -> BigUint {
    big(a).magnitude().clone()
}
fn date(a: &Value) -> Option<NaiveDate> {
    NaiveDate::from_ymd_opt(i(a, 0), n(a, 1) as u32, n(a, 2) as u32)
}
fn time(a: &Value, k: usize) -> Option<NaiveTime> {
    NaiveTime::from_hms_nano_opt(n(a, k) as u32, n(a, k + 1) as u32, n(a, k + 2) as u32, n(a, k + 3) as u32)
}
fn moment(a: &Value, tz: Option<i32>) -> Option<CDateTime<FixedOffset>> {
    NaiveDateTime::new(date(a)?, time(a, 3)?).and_local_timezone(tz_off(Some(tz.unwrap_or(0)))?).single()
}
fn secs(a: &Value) -> f64 {
    s(a, 6).parse().unwrap_or(0.0)
}
fn un(a: &Value, k: usize) -> u64 {
    a[k].as_u64().unwrap_or(0)
}

/// what the application does to make a value; None: it has nothing to call the constructor with
fn put(ty: &str, a: &Value, tz: Option<i32>) -> Option<Put> {
    let z = tz_off(tz);
    Some(match ty {
        "Decimal" => alone(xt::Decimal::from_bigdecimal(BigDecimal::new(big(a), n(a, 1)))),
        "Integer" => alone(xt::Integer::from_bigint(big(a))),
        "NegativeInteger" => alone(xt::NegativeInteger::from_bigint(big(a))),
        "NonPositiveInteger" => alone(xt::NonPositiveInteger::from_bigint(big(a))),
        "PositiveInteger" => alone(xt::PositiveInteger::from_biguint(ubig(a))),
        "NonNegativeInteger" => alone(xt::NonNegativeInteger::from_biguint(ubig(a))),
        "Date" => {
            let mut v = xt::Date::from_chrono_naive_date(date(a)?);
            v.timezone = z;
            alone(v)
        }
        "Time" => {
            let mut v = xt::Time::from_chrono_naive_time(time(a, 0)?);
            v.timezone = z;
            alone(v)
        }
        "DateTime" => alone(xt::DateTime::from_chrono_datetime(moment(a, tz)?)),
        "DateTimeStamp" => alone(xt::DateTimeStamp::from_chrono_datetime(moment(a, tz)?)),
        "GDay" => xt::GDay::new(i(a, 0), z).and_then(alone),
        "GMonth" => xt::GMonth::new(i(a, 0), z).and_then(alone),
        "GMonthDay" => xt::GMonthDay::new(i(a, 0), i(a, 1), z).and_then(alone),
        "GYear" => xt::GYear::new(i(a, 0), z).and_then(alone),
        "GYearMonth" => xt::GYearMonth::new(i(a, 0), i(a, 1), z).and_then(alone),
        "Duration" => alone(xt::Duration { is_negative: n(a, 0) != 0, years: un(a, 1), months: un(a, 2), days: un(a, 3), hours: un(a, 4), minutes: un(a, 5), seconds: secs(a) }),
        _ => return None,
    })
}

/// reference: the value those arguments denote; None when there is no such value
fn want(ty: &str, a: &Value, tz: Option<i32>) -> Option<String> {
    // offsets beyond 14 hours are out of XSD's range and taken by the dateTime types
    let z = if ty.starts_with("DateTime") { String::new() } else { tz_key(&tz_off(tz))? };
    let d = |a: &Value| format!("{}-{}-{}", n(a, 0), n(a, 1), n(a, 2));
    let t = |a: &Value, k: usize| format!("{}:{}:{}.{}", n(a, k), n(a, k + 1), n(a, k + 2), n(a, k + 3));
    let m = |x: i64| (1..=12).contains(&x).then_some(x);
    Some(match ty {
        "Decimal" => decimal_key(&big(a), n(a, 1)),
        "PositiveInteger" | "NonNegativeInteger" => s(a, 0).trim_start_matches('-').to_string(),
        _ if ty.ends_with("Integer") => s(a, 0).to_string(),
        "Date" => format!("{} {z}", d(a)),
        "Time" => format!("{} {z}", t(a, 0)),
        "DateTime" | "DateTimeStamp" => format!("{} {} {:+}", d(a), t(a, 3), tz.unwrap_or(0) * 60),
        "GDay" => (1..=31).contains(&i(a, 0)).then(|| format!("{} {z}", n(a, 0)))?,
        "GMonth" => format!("{} {z}", m(n(a, 0))?),
        "GMonthDay" => {
            let last = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m(n(a, 0))? as usize - 1];
            (1..=last).contains(&n(a, 1)).then(|| format!("{}-{} {z}", n(a, 0), n(a, 1)))?
        }
        "GYear" => (n(a, 0) != 0).then(|| format!("{} {z}", n(a, 0)))?,
        "GYearMonth" => (n(a, 0) != 0).then_some(()).and(m(n(a, 1))).map(|m| format!("{}-{m} {z}", n(a, 0)))?,
        "Duration" => format!("{} {}Y{}M{}D {}H{}M{:?}S", n(a, 0) != 0, un(a, 1), un(a, 2), un(a, 3), un(a, 4), un(a, 5), secs(a)),
        _ => return None,
    })
}

fn down<T: 'static>(v: &dyn Val) -> Option<&T> {
    v.any().downcast_ref::<Alone<T>>().map(|a| &a.0)
}

/// what the application takes out, with the arguments to make the value again
fn take(ty: &str, v: &dyn Val) -> Result<(Value, Option<FixedOffset>), String> {
    let d = |d: NaiveDate| vec![json!(d.year()), json!(d.month()), json!(d.day())];
    let t = |t: NaiveTime| vec![json!(t.hour()), json!(t.minute()), json!(t.second()), json!(t.nanosecond())];
    let dt = |v: CDateTime<FixedOffset>| {
        let l = v.naive_local();
        ([d(l.date()), t(l.time())].concat(), Some(*v.offset()))
    };
    let int = |x: Option<BigInt>| x.map(|x| vec![json!(x.to_string())]).ok_or("no integer".to_string());
    macro_rules! v {
        ($t:ident) => {
            down::<xt::$t>(v).ok_or("other type")?
        };
    }
    let (args, tz): (Vec<Value>, Option<FixedOffset>) = match ty {
        "Decimal" => {
            let (u, e) = v!(Decimal).to_bigdecimal().into_bigint_and_exponent();
            (vec![json!(u.to_string()), json!(e)], None)
        }
        "Integer" => (int(v!(Integer).to_bigint())?, None),
        "NegativeInteger" => (int(v!(NegativeInteger).to_bigint())?, None),
        "NonPositiveInteger" => (int(v!(NonPositiveInteger).to_bigint())?, None),
        "PositiveInteger" => (int(v!(PositiveInteger).to_biguint().map(BigInt::from))?, None),
        "NonNegativeInteger" => (int(v!(NonNegativeInteger).to_biguint().map(BigInt::from))?, None),
        "Date" => (d(v!(Date).to_chrono_naive_date()), v!(Date).timezone),
        "Time" => (t(v!(Time).to_chrono_naive_time()), v!(Time).timezone),
        "DateTime" => dt(v!(DateTime).to_chrono_datetime()),
        "DateTimeStamp" => dt(v!(DateTimeStamp).to_chrono_datetime()),
        "GDay" => (vec![json!(v!(GDay).value)], v!(GDay).timezone),
        "GMonth" => (vec![json!(v!(GMonth).value)], v!(GMonth).timezone),
        "GYear" => (vec![json!(v!(GYear).value)], v!(GYear).timezone),
        "GMonthDay" => {
            let (m, d) = (v!(GMonthDay).clone().gmonth(), v!(GMonthDay).clone().gday());
            if m.timezone != d.timezone {
                return Err(format!("gmonth() and gday() have different time zones: {m:?}, {d:?}"));
            }
            (vec![json!(m.value), json!(d.value)], d.timezone)
        }
        "GYearMonth" => {
            let (y, m) = (v!(GYearMonth).clone().gyear(), v!(GYearMonth).clone().gmonth());
            if m.timezone != y.timezone {
                return Err(format!("gyear() and gmonth() have different time zones: {y:?}, {m:?}"));
            }
            (vec![json!(y.value), json!(m.value)], y.timezone)
        }
        "Duration" => {
            let x = v!(Duration);
            std_duration(x)?;
            (vec![json!(x.is_negative as u8), json!(x.years), json!(x.months), json!(x.days), json!(x.hours), json!(x.minutes), json!(format!("{:?}", x.seconds))], None)
        }
        _ => return Err("unknown type".into()),
    };
    Ok((json!(args), tz))
}

/// a duration either converts to the same length or is refused
fn std_duration(x: &xt::Duration) -> Result<(), String> {
    let got = x.to_std_duration();
    if !(x.seconds.is_finite() && x.seconds >= 0.0) {
        return Ok(()); // no value of xs:duration
    }
    let whole = x.seconds.trunc();
    let rest = ((x.seconds - whole) * 1e9) as u128;
    let secs = 86_400 * x.days as u128 + 3_600 * x.hours as u128 + 60 * x.minutes as u128 + whole.min(1e30) as u128;
    let ns = secs * 1_000_000_000 + rest;
    let max = u64::MAX as u128 * 1_000_000_000;
    let fits = x.years == 0 && x.months == 0 && !(x.is_negative && ns > 1) && ns < max;
    match got {
        Ok(g) if !fits && !(ns >= max && g.as_nanos().abs_diff(ns) <= 1) => Err(format!("to_std_duration gives {g:?} for {x:?}, which no such duration equals")),
        Ok(g) if g.as_nanos().abs_diff(ns) > 1 => Err(format!("to_std_duration gives {g:?} for {x:?}, which is {secs} s and {rest} ns long")),
        // durations next to nothing may go either way
        Err(e) if fits && !(x.is_negative && ns <= 1) => Err(format!("to_std_duration refuses {x:?}: {e}")),
        _ => Ok(()),
    }
}

fn gen_args(ty: &str, r: &mut Rng) -> Value {
    let int = |r: &mut Rng| -> String {
        match r.below(6) {
            0 => "0".into(),
            1 => r.range(-20, 20).to_string(),
            2 => i64::MIN.to_string(),
            3 => u64::MAX.to_string(),
            _ => {
                let n = 1 + r.idx(50);
                let d: String = (0..n).map(|k| if k == 0 { (b'1' + r.below(9) as u8) as char } else { (b'0' + r.below(10) as u8) as char }).collect();
                format!("{}{d}", if r.chance(1, 2) { "-" } else { "" })
            }
        }
    };
    let odd = |r: &mut Rng, hi: i64| match r.below(8) {
        0 => *r.pick(&[i32::MIN as i64, i32::MAX as i64, -1, 0, 1, i32::MIN as i64 + 1]),
        1 => r.range(-40, 40),
        2 => r.range(i32::MIN as i64, i32::MAX as i64),
        _ => r.range(1, hi),
    };
    let year = |r: &mut Rng| if r.chance(1, 8) { *r.pick(&[1, 4, 99, 100, 999, 1000, 1582, 1600, 1899, 1900, 2000, 9999]) } else { r.range(1, 9999) };
    let date = |r: &mut Rng| {
        let (y, m) = (year(r), r.range(1, 12));
        let last = (28..=31).rev().find(|d| NaiveDate::from_ymd_opt(y as i32, m as u32, *d as u32).is_some()).unwrap_or(28);
        vec![json!(y), json!(m), json!(if r.chance(1, 5) { last } else { r.range(1, last) })]
    };
    let time = |r: &mut Rng| {
        let ns = match r.below(6) {
            0 | 1 => 0,
            2 => r.range(0, 999) * 1_000_000,
            3 => *r.pick(&[1, 999_999_999, 100_000_000, 1_000, 10]),
            _ => r.range(0, 999_999_999),
        };
        let e = |r: &mut Rng, hi: i64| if r.chance(1, 5) { *r.pick(&[0, hi]) } else { r.range(0, hi) };
        vec![json!(e(r, 23)), json!(e(r, 59)), json!(e(r, 59)), json!(ns)]
    };
    let u = |r: &mut Rng| match r.below(10) {
        0 => u64::MAX,
        1 => 1u64 << r.below(64),
        2 => u64::MAX / [60, 3_600, 86_400, 2, 3][r.idx(5)] + r.below(3) - 1,
        3..=5 => 0,
        _ => r.below(500),
    };
    match ty {
        "Decimal" => json!([int(r), if r.chance(1, 6) { r.range(-60, 60) } else { r.range(-3, 20) }]),
        "Integer" => json!([int(r)]),
        "NegativeInteger" | "NonPositiveInteger" | "PositiveInteger" => loop {
            let t = int(r);
            let t = t.trim_start_matches('-');
            if t != "0" {
                break json!([if ty == "PositiveInteger" { t.to_string() } else { format!("-{t}") }]);
            } else if ty == "NonPositiveInteger" {
                break json!([t]);
            }
        },
        "NonNegativeInteger" => json!([int(r).trim_start_matches('-')]),
        "Date" => json!(date(r)),
        "Time" => json!(time(r)),
        "DateTime" | "DateTimeStamp" => json!([date(r), time(r)].concat()),
        "GDay" => json!([odd(r, 31)]),
        "GMonth" => json!([odd(r, 12)]),
        "GMonthDay" => json!([odd(r, 12), if r.chance(1, 3) { r.range(28, 32) } else { odd(r, 31) }]),
        "GYear" => json!([odd(r, 9999)]),
        "GYearMonth" => json!([odd(r, 9999), odd(r, 12)]),
        _ => {
            let sec = match r.below(8) {
                0..=2 => 0.0,
                3 => r.below(60) as f64,
                4 => r.below(60) as f64 + r.below(1_000) as f64 / 1e3,
                5 => r.below(100_000) as f64 + r.below(1_000_000_000) as f64 / 1e9,
                6 => *r.pick(&[0.1, 0.999_999_999, 59.999_999_999, 1e-9, 1e-12, 0.999_999_999_9, 4_294_967_295.5, 4_294_967_296.0]),
                _ => (1u64 << r.below(53)) as f64 + [0.0, 0.5][r.idx(2)],
            };
            let (y, m) = if r.chance(1, 5) { (u(r), u(r)) } else { (0, 0) };
            json!([r.chance(1, 4) as u8, y, m, u(r), u(r), u(r), format!("{sec:?}")])
        }
    }
}

fn gen_tz(ty: &str, r: &mut Rng) -> Value {
    let any = || -> bool { !ty.ends_with("Integer") && !matches!(ty, "Decimal" | "Duration") };
    if !any() || (r.chance(1, 3) && !ty.starts_with("DateTime")) {
        return Value::Null;
    }
    json!(match r.below(6) {
        0 => 0,
        1 => *r.pick(&[-840, 840, -839, 839, -1, 1, -30, 59, -60]),
        _ => r.range(-840, 840),
    })
}

fn tz_of(case: &Value) -> Option<i32> {
    case["tz"].as_i64().map(|m| m as i32)
}

pub struct S06;
impl Sim for S06 {
    fn gen(&self, r: &mut Rng, k: u64) -> Value {
        let ty = TYPES[k as usize % TYPES.len()];
        if r.chance(3, 5) {
            return json!({"ty": ty, "mode": "put", "args": gen_args(ty, r), "tz": gen_tz(ty, r), "indent": r.chance(1, 8), "w": gen_sched(r), "r": gen_sched(r)});
        }
        let mut doc = Value::Null;
        with_ty(ty, |t| {
            doc = (t.gen)(r);
            if r.chance(1, 3) {
                splice_hostile(r, &(t.fields)(), &mut doc, &Value::Null);
            }
        });
        no_cdata_end(&mut doc);
        json!({"ty": ty, "mode": "relay", "doc": doc, "style": if r.chance(1, 2) { 0 } else { r.next() >> 16 }, "indent": r.chance(1, 8), "w": gen_sched(r), "r": gen_sched(r)})
    }

    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let ty = case["ty"].as_str().unwrap_or("");
        with_ty(ty, |t| if case["mode"] == "put" { run_put(t, case, cov) } else { run_relay(t, case, cov) }).unwrap_or(Ok(()))
    }

    fn shrink(&self, c: &Value) -> Vec<Value> {
        let mut out = vec![];
        if c["mode"] != "put" {
            return shrink_doc(c);
        }
        for k in ["w", "r"] {
            if c[k].as_array().is_some_and(|a| !a.is_empty()) {
                let mut x = c.clone();
                x[k] = json!([]);
                out.push(x);
                out.extend(shrink_array(c, k));
            }
        }
        if c["tz"].as_i64().is_some_and(|z| z != 0) {
            let mut x = c.clone();
            x["tz"] = json!(0);
            out.push(x);
        }
        if c["indent"] == true {
            let mut x = c.clone();
            x["indent"] = json!(false);
            out.push(x);
        }
        for (k, a) in c["args"].as_array().into_iter().flatten().enumerate() {
            let simpler: Vec<Value> = match a {
                Value::String(t) if t.len() > 1 => vec![json!("0"), json!("1"), json!(t[..t.len() / 2])],
                Value::Number(_) => match (a.as_i64(), a.as_u64()) {
                    (_, Some(u)) if u > 1 => vec![json!(0), json!(1), json!(u / 2), json!(u - 1)],
                    (Some(v), _) if v < -1 => vec![json!(-1), json!(v / 2), json!(v + 1)],
                    _ => vec![],
                },
                _ => vec![],
            };
            for v in simpler {
                let mut x = c.clone();
                x["args"][k] = v;
                out.push(x);
            }
        }
        out
    }

    fn directed(&self) -> Vec<Value> {
        let mut v = vec![];
        for ty in TYPES {
            let mut r = Rng::new(crate::rng::hash_bytes(ty.as_bytes()));
            for k in 0..24 {
                v.push(json!({"ty": ty, "mode": "put", "args": gen_args(ty, &mut r), "tz": gen_tz(ty, &mut r), "indent": false, "w": [1], "r": [1 + k, 0]}));
            }
        }
        v
    }
}

fn checked_take(ty: &str, v: &dyn Val, key: Option<&str>, trace: &[String]) -> Result<(Value, Option<i32>), Violation> {
    let got = guard(|| take(ty, v)).map_err(|p| viol(format!("take-panic:{ty}"), format!("taking out of {v:?} panicked: {p}"), trace.to_vec()))?;
    let (args, off) = got.map_err(|e| viol(format!("take:{ty}"), e, trace.to_vec()))?;
    let tz = off.map(|o| o.local_minus_utc() / 60);
    if let Some(key) = key {
        let got = want(ty, &args, tz);
        if got.as_deref() != Some(key) {
            return Err(viol(format!("take-value:{ty}"), format!("took {got:?} out of {v:?}, which is {key}"), trace.to_vec()));
        }
    }
    Ok((args, tz))
}

/// the value goes out, and comes in at the peer
fn travel(t: &crate::xtypes::Ty, v: &dyn Val, key: &str, case: &Value, cov: &mut Cov, trace: &mut Vec<String>) -> Result<Option<Box<dyn Val>>, Violation> {
    let ty = t.name;
    let out = send(v, &case["w"], None, case["indent"] == true);
    out.log.cover(cov, "write");
    trace.push(format!("sent: {}", show(&out.bytes)));
    match out.result {
        Err(p) => return Err(viol(format!("send-panic:{ty}"), format!("sending {v:?} panicked: {p}"), trace.clone())),
        Ok(Err(e)) => return Err(viol(format!("send:{ty}"), format!("sending {v:?} failed: {e}"), trace.clone())),
        Ok(Ok(())) => {}
    }
    let text = std::str::from_utf8(&out.bytes).ok().and_then(|x| Some(roxmltree::Document::parse(x).ok()?.root_element().text().unwrap_or("").to_string()));
    let on = text.as_deref().and_then((t.fields)()[0].key);
    if on.as_deref() != Some(key) {
        return Err(viol(format!("sent-value:{ty}"), format!("{v:?} is {key} and was sent as {text:?}, which denotes {on:?}"), trace.clone()));
    }
    let got = receive(t, &out.bytes, &case["r"], None);
    got.log.cover(cov, "read");
    match got.result {
        Err(p) => Err(viol(format!("receive-panic:{ty}"), format!("receiving {text:?} panicked: {p}"), trace.clone())),
        Ok(Err(e)) => Err(viol(format!("receive:{ty}"), format!("receiving {text:?} failed: {e}"), trace.clone())),
        Ok(Ok(v)) => {
            let k = v.keys().map(|k| k["."][0].clone());
            if k != Some(json!(key)) {
                return Err(viol(format!("received-value:{ty}"), format!("{text:?} denotes {key} and was received as {k:?}"), trace.clone()));
            }
            Ok(Some(v))
        }
    }
}

fn run_put(t: &crate::xtypes::Ty, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
    let (ty, args, tz) = (t.name, &case["args"], tz_of(case));
    let mut trace = vec![format!("constructed from: {args} with zone {tz:?}")];
    let made = guard(|| put(ty, args, tz)).map_err(|p| viol(format!("put-panic:{ty}"), format!("constructing {ty} from {args} panicked: {p}"), trace.clone()))?;
    let Some(made) = made else { return Ok(()) };
    distinct(cov, case);
    let (v, key) = match (made, want(ty, args, tz)) {
        (Err(_), None) => {
            cov.hit("constructor refused");
            return Ok(());
        }
        (Err(e), Some(k)) => return Err(viol(format!("put-refused:{ty}"), format!("{args} denotes {k} and was refused: {e}"), trace)),
        (Ok(v), None) => return Err(viol(format!("put-accepted:{ty}"), format!("{args} denotes no value and was taken for {v:?}"), trace)),
        (Ok(v), Some(k)) => (v, k),
    };
    cov.hit("value constructed");
    if v.keys().map(|k| k["."][0].clone()) != Some(json!(key)) {
        return Err(viol(format!("put-value:{ty}"), format!("{args} denotes {key} and was taken for {v:?}"), trace));
    }
    checked_take(ty, &*v, Some(&key), &trace)?;
    if let Some(got) = travel(t, &*v, &key, case, cov, &mut trace)? {
        checked_take(ty, &*got, Some(&key), &trace)?;
    }
    Ok(())
}

fn run_relay(t: &crate::xtypes::Ty, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
    let ty = t.name;
    let bytes = render(t, &case["doc"], case["style"].as_u64().unwrap_or(0));
    let mut trace = vec![format!("received: {}", show(&bytes))];
    let got = receive(t, &bytes, &case["r"], None);
    got.log.cover(cov, "read");
    distinct(cov, case);
    // what may be received is judged by S01 and S05
    let Ok(Ok(v)) = got.result else {
        cov.hit("text refused");
        return Ok(());
    };
    // a sloppy form may give a value outside the value space: taking it out must still not panic
    let key = v.keys().and_then(|k| k["."][0].as_str().map(str::to_string));
    let (args, tz) = checked_take(ty, &*v, key.as_deref(), &trace)?;
    let Some(key) = key else {
        cov.hit("value outside the value space taken out");
        return Ok(());
    };
    if judged_elsewhere(ty, &args, tz) {
        return Ok(());
    }
    let made = guard(|| put(ty, &args, tz)).map_err(|p| viol(format!("put-panic:{ty}"), format!("constructing {ty} from {args} panicked: {p}"), trace.clone()))?;
    match made {
        Some(Ok(v)) => {
            cov.hit("value relayed");
            travel(t, &*v, &key, case, cov, &mut trace).map(|_| ())
        }
        Some(Err(e)) => Err(viol(format!("put-refused:{ty}"), format!("{args} was received and is refused by the constructor: {e}"), trace)),
        None => Ok(()),
    }
}

/// sloppily accepted texts can give values outside XSD's ranges, which no constructor is meant for
fn judged_elsewhere(ty: &str, args: &Value, tz: Option<i32>) -> bool {
    tz.is_some_and(|z| z.abs() > 840)
        || matches!(ty, "Date" | "DateTime" | "DateTimeStamp") && !(1..=9999).contains(&n(args, 0))
        || matches!(ty, "Time") && n(args, 3) > 999_999_999
        || ty.starts_with("DateTime") && n(args, 6) > 999_999_999
}


//! The types under test, each with an independent reference: a lexical model written from the XSD
//! recommendation (`make` turns a valid lexical form into a value through public fields only, never
//! through the FromStr under test) and a canonical key read back from public fields (never through
//! the Display under test).

use std::{
    any::Any,
    fmt,
    io::{Read, Write},
    str::FromStr,
};

use bigdecimal::BigDecimal;
use chrono::{DateTime as CDateTime, Datelike, FixedOffset, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use num_bigint::{BigInt, BigUint};
use serde_json::{json, Value};
use xsd_macro_utils::{UtilsDefaultSerde, UtilsTupleIo, UtilsUnionSerDe};
use xsd_types::types as xt;
use yaserde_derive::{YaDeserialize, YaSerialize};

use crate::rng::Rng;

pub trait Xt: Sized + PartialEq + fmt::Debug + Clone {
    /// value denoted by a valid lexical form, None when the text is not one
    fn make(t: &str) -> Option<Self>;
    /// canonical form of the value; None when the value is outside the type's value space
    fn key(&self) -> Option<String>;
    /// a random valid lexical form
    fn lex(r: &mut Rng) -> String;
    /// characters hostile text for this type is built from
    fn alphabet() -> &'static str;
    /// simplest valid lexical form
    fn min() -> &'static str;
    /// may surrounding white space be added by a sender (whiteSpace = collapse)
    fn collapses() -> bool {
        true
    }
}

// ---------------------------------------------------------------- reference lexical models

fn digits(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit())
}

fn split_sign(t: &str) -> (bool, &str) {
    if let Some(r) = t.strip_prefix('-') {
        (true, r)
    } else {
        (false, t.strip_prefix('+').unwrap_or(t))
    }
}

fn ref_int(t: &str) -> Option<BigInt> {
    let (neg, d) = split_sign(t);
    if !digits(d) {
        return None;
    }
    let v = BigInt::parse_bytes(d.as_bytes(), 10)?;
    Some(if neg { -v } else { v })
}

fn ref_decimal(t: &str) -> Option<(BigInt, usize)> {
    let (neg, d) = split_sign(t);
    let (i, f) = d.split_once('.').unwrap_or((d, ""));
    if i.is_empty() && f.is_empty() || !(i.is_empty() || digits(i)) || !(f.is_empty() || digits(f)) {
        return None;
    }
    let v = BigInt::parse_bytes(format!("0{i}{f}").as_bytes(), 10)?;
    Some((if neg { -v } else { v }, f.len()))
}

pub(crate) fn decimal_key(unscaled: &BigInt, scale: i64) -> String {
    // plain digits without superfluous zeros
    let s = unscaled.to_string();
    let (neg, d) = split_sign(&s);
    if d.bytes().all(|b| b == b'0') {
        return "0".into();
    }
    let mut d = d.to_string();
    let mut sc = scale;
    while d.ends_with('0') {
        d.pop();
        sc -= 1;
    }
    format!("{}{}e{}", if neg { "-" } else { "" }, d, -sc)
}

/// splits off a timezone: (rest, minutes)
fn ref_tz(t: &str) -> Option<(&str, Option<i32>)> {
    if let Some(r) = t.strip_suffix('Z') {
        return Some((r, Some(0)));
    }
    if t.len() >= 6 && t.is_char_boundary(t.len() - 6) {
        let (r, z) = t.split_at(t.len() - 6);
        let b = z.as_bytes();
        if (b[0] == b'+' || b[0] == b'-') && b[3] == b':' && digits(&z[1..3]) && digits(&z[4..6]) {
            let h: i32 = z[1..3].parse().ok()?;
            let m: i32 = z[4..6].parse().ok()?;
            if m > 59 || h * 60 + m > 14 * 60 {
                return None;
            }
            let v = h * 60 + m;
            return Some((r, Some(if b[0] == b'-' { -v } else { v })));
        }
    }
    Some((t, None))
}

pub(crate) fn tz_off(m: Option<i32>) -> Option<FixedOffset> {
    m.map(|m| FixedOffset::east_opt(m * 60).unwrap())
}

pub(crate) fn tz_key(o: &Option<FixedOffset>) -> Option<String> {
    match o {
        None => Some("local".into()),
        Some(o) => {
            let s = o.local_minus_utc();
            if s.abs() > 14 * 3600 || s % 60 != 0 {
                return None;
            }
            Some(format!("{s:+}"))
        }
    }
}

/// year of a date type: at least four digits; the range every processor must support
fn ref_year(t: &str) -> Option<i32> {
    if t.len() != 4 || !digits(t) {
        return None;
    }
    let y: i32 = t.parse().ok()?;
    (y >= 1).then_some(y)
}

/// year of gYear/gYearMonth: any sign, any number of digits the type can hold
fn ref_gyear(t: &str) -> Option<i32> {
    let (neg, d) = if let Some(r) = t.strip_prefix('-') { (true, r) } else { (false, t) };
    if d.len() < 4 || !digits(d) || d.len() > 4 && d.starts_with('0') {
        return None;
    }
    let y: i64 = d.parse().ok()?;
    i32::try_from(if neg { -y } else { y }).ok().filter(|y| *y != 0)
}

fn two(t: &str, lo: i32, hi: i32) -> Option<i32> {
    if t.len() != 2 || !digits(t) {
        return None;
    }
    let v: i32 = t.parse().ok()?;
    (lo..=hi).contains(&v).then_some(v)
}

fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

fn mdays(y: i32, m: i32) -> i32 {
    match m {
        2 => 28 + i32::from(leap(y)),
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn ref_date(t: &str) -> Option<(i32, i32, i32)> {
    let p: Vec<&str> = t.split('-').collect();
    if p.len() != 3 {
        return None;
    }
    let y = ref_year(p[0])?;
    let m = two(p[1], 1, 12)?;
    let d = two(p[2], 1, 31)?;
    (d <= mdays(y, m)).then_some((y, m, d))
}

/// (h, m, s, nanos); end-of-day 24:00:00 is outside the supported range (see DESIGN.md)
fn ref_time(t: &str) -> Option<(u32, u32, u32, u32)> {
    let p: Vec<&str> = t.split(':').collect();
    if p.len() != 3 {
        return None;
    }
    let h = two(p[0], 0, 23)? as u32;
    let m = two(p[1], 0, 59)? as u32;
    let (s, f) = match p[2].split_once('.') {
        Some((s, f)) => {
            if !digits(f) || f.len() > 9 {
                return None;
            }
            (s, f)
        }
        None => (p[2], ""),
    };
    let s = two(s, 0, 59)? as u32;
    let n: u32 = format!("{f:0<9}").parse().ok()?;
    Some((h, m, s, n))
}

fn r_year(r: &mut Rng) -> String {
    let y = match r.below(6) {
        0 => 1,
        1 => 9999,
        2 => 1970,
        3 => 400 * r.range(1, 24),
        4 => r.range(1, 999),
        _ => r.range(1000, 9999),
    };
    format!("{y:04}")
}

fn r_tz(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => String::new(),
        2 => "Z".into(),
        3 => (*r.pick(&["+14:00", "-14:00", "+00:00", "-00:00", "+13:59", "-13:59", "+05:45", "-00:30", "+00:01", "-00:01", "-12:00", "+10:00"])).into(),
        _ => format!("{}{:02}:{:02}", if r.chance(1, 2) { "+" } else { "-" }, r.below(14), r.below(60)),
    }
}

fn r_date(r: &mut Rng) -> String {
    let y = r_year(r);
    let yi: i32 = y.parse().unwrap();
    let m = r.range(1, 12) as i32;
    let d = match r.below(4) {
        0 => mdays(yi, m) as i64,
        1 => 1,
        _ => r.range(1, i64::from(mdays(yi, m))),
    };
    format!("{y}-{m:02}-{d:02}")
}

fn r_time(r: &mut Rng) -> String {
    let (h, m, s) = match r.below(5) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        _ => (r.below(24), r.below(60), r.below(60)),
    };
    let f = match r.below(5) {
        0 => format!(".{}", r.range(0, 9)),
        1 => format!(".{:03}", r.below(1000)),
        2 => {
            let n = 1 + r.idx(9);
            format!(".{}", (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect::<String>())
        }
        _ => String::new(),
    };
    format!("{h:02}:{m:02}:{s:02}{f}")
}

fn r_digits(r: &mut Rng, max: usize) -> String {
    let n = match r.below(8) {
        0 => 1,
        1 => max,
        2 | 3 => 1 + r.idx(max),
        _ => 1 + r.idx(max.min(6)),
    };
    let mut s: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
    match r.below(8) {
        0 => s = format!("{}{}", "0".repeat(1 + r.idx(4)), s),
        1 => s = "0".into(),
        2 => s = "9".repeat(n),
        3 => s = format!("1{}", "0".repeat(n)),
        _ => {}
    }
    s
}

// ---------------------------------------------------------------- xsd-types

impl Xt for xt::Decimal {
    fn make(t: &str) -> Option<Self> {
        let (v, s) = ref_decimal(t)?;
        Some(xt::Decimal(BigDecimal::new(v, s as i64)))
    }
    fn key(&self) -> Option<String> {
        let (u, s) = self.0.as_bigint_and_exponent();
        Some(decimal_key(&u, s))
    }
    fn lex(r: &mut Rng) -> String {
        let sign = *r.pick(&["", "", "", "-", "-", "+"]);
        let i = r_digits(r, 40);
        match r.below(8) {
            0 | 1 => format!("{sign}{i}"),
            2 => format!("{sign}{i}."),
            3 => format!("{sign}.{}", r_digits(r, 30)),
            4 => format!("{sign}0.{}{}", "0".repeat(r.idx(14)), r_digits(r, 5)),
            _ => format!("{sign}{i}.{}", r_digits(r, 30)),
        }
    }
    fn alphabet() -> &'static str {
        "0123456789.+-eE_ ٣½x"
    }
    fn min() -> &'static str {
        "1"
    }
}

macro_rules! int_type {
    ($t:ty, $b:ty, $ok:expr, $min:literal, $signs:expr) => {
        impl Xt for $t {
            fn make(t: &str) -> Option<Self> {
                let v = ref_int(t)?;
                let ok: fn(&BigInt) -> bool = $ok;
                if !ok(&v) {
                    return None;
                }
                let inner: $b = TryFrom::try_from(v).ok()?;
                Some(Self(inner))
            }
            fn key(&self) -> Option<String> {
                let v: BigInt = self.0.clone().into();
                let ok: fn(&BigInt) -> bool = $ok;
                ok(&v).then(|| v.to_string())
            }
            fn lex(r: &mut Rng) -> String {
                loop {
                    let s = format!("{}{}", r.pick(&$signs), r_digits(r, 60));
                    if Self::make(&s).is_some() {
                        return s;
                    }
                }
            }
            fn alphabet() -> &'static str {
                "0123456789+-_ .e٣x"
            }
            fn min() -> &'static str {
                $min
            }
        }
    };
}
fn zero() -> BigInt {
    BigInt::from(0)
}
int_type!(xt::Integer, BigInt, |_| true, "1", ["", "", "-", "+"]);
int_type!(xt::PositiveInteger, BigUint, |v| *v > zero(), "1", ["", "", "+"]);
int_type!(xt::NonNegativeInteger, BigUint, |v| *v >= zero(), "1", ["", "", "+", "-"]);
int_type!(xt::NegativeInteger, BigInt, |v| *v < zero(), "-1", ["-"]);
int_type!(xt::NonPositiveInteger, BigInt, |v| *v <= zero(), "-1", ["-", "", "-", "+"]);

impl Xt for xt::Date {
    fn make(t: &str) -> Option<Self> {
        let (d, z) = ref_tz(t)?;
        let (y, m, d) = ref_date(d)?;
        Some(xt::Date { value: NaiveDate::from_ymd_opt(y, m as u32, d as u32)?, timezone: tz_off(z) })
    }
    fn key(&self) -> Option<String> {
        let v = self.value;
        Some(format!("{}-{}-{} {}", v.year(), v.month(), v.day(), tz_key(&self.timezone)?))
    }
    fn lex(r: &mut Rng) -> String {
        r_date(r) + &r_tz(r)
    }
    fn alphabet() -> &'static str {
        "0123456789-+:Z é٣日"
    }
    fn min() -> &'static str {
        "2000-01-02"
    }
}

impl Xt for xt::Time {
    fn make(t: &str) -> Option<Self> {
        let (d, z) = ref_tz(t)?;
        let (h, m, s, n) = ref_time(d)?;
        Some(xt::Time { value: NaiveTime::from_hms_nano_opt(h, m, s, n)?, timezone: tz_off(z) })
    }
    fn key(&self) -> Option<String> {
        let v = self.value;
        Some(format!("{}:{}:{}.{} {}", v.hour(), v.minute(), v.second(), v.nanosecond(), tz_key(&self.timezone)?))
    }
    fn lex(r: &mut Rng) -> String {
        r_time(r) + &r_tz(r)
    }
    fn alphabet() -> &'static str {
        "0123456789:.-+Z é٣日"
    }
    fn min() -> &'static str {
        "01:02:03"
    }
}

fn make_dt(t: &str) -> Option<CDateTime<FixedOffset>> {
    let (d, z) = ref_tz(t)?;
    let (d, tm) = d.split_once('T')?;
    let (y, m, d) = ref_date(d)?;
    let (h, mi, s, n) = ref_time(tm)?;
    let off = FixedOffset::east_opt(z.unwrap_or(0) * 60)?;
    let local = NaiveDateTime::new(NaiveDate::from_ymd_opt(y, m as u32, d as u32)?, NaiveTime::from_hms_nano_opt(h, mi, s, n)?);
    local.and_local_timezone(off).single()
}
pub(crate) fn key_dt(v: &CDateTime<FixedOffset>) -> Option<String> {
    let o = v.offset().local_minus_utc();
    if o % 60 != 0 {
        return None;
    }
    let l = v.naive_local();
    Some(format!("{}-{}-{} {}:{}:{}.{} {:+}", l.year(), l.month(), l.day(), l.hour(), l.minute(), l.second(), l.nanosecond(), o))
}
impl Xt for xt::DateTime {
    // a dateTime without timezone denotes UTC here: the normalisation documented in datetime.rs
    fn make(t: &str) -> Option<Self> {
        Some(xt::DateTime { value: make_dt(t)? })
    }
    fn key(&self) -> Option<String> {
        key_dt(&self.value)
    }
    fn lex(r: &mut Rng) -> String {
        format!("{}T{}{}", r_date(r), r_time(r), r_tz(r))
    }
    fn alphabet() -> &'static str {
        "0123456789:.-+ZTtz é٣"
    }
    fn min() -> &'static str {
        "2000-01-02T03:04:05Z"
    }
}
impl Xt for xt::DateTimeStamp {
    fn make(t: &str) -> Option<Self> {
        ref_tz(t)?.1?;
        Some(xt::DateTimeStamp { value: xt::DateTime { value: make_dt(t)? } })
    }
    fn key(&self) -> Option<String> {
        key_dt(&self.value.value)
    }
    fn lex(r: &mut Rng) -> String {
        loop {
            let z = r_tz(r);
            if !z.is_empty() {
                return format!("{}T{}{}", r_date(r), r_time(r), z);
            }
        }
    }
    fn alphabet() -> &'static str {
        "0123456789:.-+ZTtz é٣"
    }
    fn min() -> &'static str {
        "2000-01-02T03:04:05Z"
    }
}

impl Xt for xt::GDay {
    fn make(t: &str) -> Option<Self> {
        let (d, z) = ref_tz(t)?;
        let v = two(d.strip_prefix("---")?, 1, 31)?;
        Some(xt::GDay { value: v, timezone: tz_off(z) })
    }
    fn key(&self) -> Option<String> {
        (1..=31).contains(&self.value).then_some(())?;
        Some(format!("{} {}", self.value, tz_key(&self.timezone)?))
    }
    fn lex(r: &mut Rng) -> String {
        format!("---{:02}{}", r.range(1, 31), r_tz(r))
    }
    fn alphabet() -> &'static str {
        "0123456789---+:Zé٣日"
    }
    fn min() -> &'static str {
        "---01"
    }
}
impl Xt for xt::GMonth {
    fn make(t: &str) -> Option<Self> {
        let (d, z) = ref_tz(t)?;
        let v = two(d.strip_prefix("--")?, 1, 12)?;
        Some(xt::GMonth { value: v, timezone: tz_off(z) })
    }
    fn key(&self) -> Option<String> {
        (1..=12).contains(&self.value).then_some(())?;
        Some(format!("{} {}", self.value, tz_key(&self.timezone)?))
    }
    fn lex(r: &mut Rng) -> String {
        format!("--{:02}{}", r.range(1, 12), r_tz(r))
    }
    fn alphabet() -> &'static str {
        "0123456789---+:Zé٣日"
    }
    fn min() -> &'static str {
        "--01"
    }
}
impl Xt for xt::GMonthDay {
    fn make(t: &str) -> Option<Self> {
        let (d, z) = ref_tz(t)?;
        let (m, d) = d.strip_prefix("--")?.split_once('-')?;
        let (m, d) = (two(m, 1, 12)?, two(d, 1, 31)?);
        if d > mdays(2000, m) {
            return None;
        }
        Some(xt::GMonthDay { month: m, day: d, timezone: tz_off(z) })
    }
    fn key(&self) -> Option<String> {
        if !(1..=12).contains(&self.month) || !(1..=mdays(2000, self.month)).contains(&self.day) {
            return None;
        }
        Some(format!("{}-{} {}", self.month, self.day, tz_key(&self.timezone)?))
    }
    fn lex(r: &mut Rng) -> String {
        let m = r.range(1, 12) as i32;
        let d = if r.chance(1, 3) { i64::from(mdays(2000, m)) } else { r.range(1, i64::from(mdays(2000, m))) };
        format!("--{m:02}-{d:02}{}", r_tz(r))
    }
    fn alphabet() -> &'static str {
        "0123456789---+:Zé٣日"
    }
    fn min() -> &'static str {
        "--01-01"
    }
}
fn r_gyear(r: &mut Rng) -> String {
    let y = match r.below(8) {
        0 => 1,
        1 => 9999,
        2 => 10000,
        3 => i64::from(i32::MAX),
        4 => r.range(1, 9999),
        5 => r.range(10000, 3_000_000),
        _ => r.range(1500, 2500),
    };
    format!("{}{y:04}", if r.chance(1, 5) { "-" } else { "" })
}
impl Xt for xt::GYear {
    fn make(t: &str) -> Option<Self> {
        let (d, z) = ref_tz(t)?;
        Some(xt::GYear { value: ref_gyear(d)?, timezone: tz_off(z) })
    }
    fn key(&self) -> Option<String> {
        (self.value != 0).then_some(())?;
        Some(format!("{} {}", self.value, tz_key(&self.timezone)?))
    }
    fn lex(r: &mut Rng) -> String {
        r_gyear(r) + &r_tz(r)
    }
    fn alphabet() -> &'static str {
        "0123456789---+:Zé٣日"
    }
    fn min() -> &'static str {
        "2000"
    }
}
impl Xt for xt::GYearMonth {
    fn make(t: &str) -> Option<Self> {
        let (d, z) = ref_tz(t)?;
        let (y, m) = d.rsplit_once('-')?;
        Some(xt::GYearMonth { year: ref_gyear(y)?, month: two(m, 1, 12)?, timezone: tz_off(z) })
    }
    fn key(&self) -> Option<String> {
        (self.year != 0 && (1..=12).contains(&self.month)).then_some(())?;
        Some(format!("{}-{} {}", self.year, self.month, tz_key(&self.timezone)?))
    }
    fn lex(r: &mut Rng) -> String {
        format!("{}-{:02}{}", r_gyear(r), r.range(1, 12), r_tz(r))
    }
    fn alphabet() -> &'static str {
        "0123456789---+:Zé٣日"
    }
    fn min() -> &'static str {
        "2000-01"
    }
}

impl Xt for xt::Duration {
    fn make(t: &str) -> Option<Self> {
        let (neg, p) = if let Some(r) = t.strip_prefix('-') { (true, r) } else { (false, t) };
        let p = p.strip_prefix('P')?;
        let (date, time) = match p.split_once('T') {
            Some((d, t)) => (d, Some(t)),
            None => (p, None),
        };
        let mut v = xt::Duration { is_negative: neg, ..Default::default() };
        let mut any = false;
        let comp = |s: &str, des: &[char]| -> Option<Vec<(char, String)>> {
            let mut out = vec![];
            let mut cur = String::new();
            let mut next = 0;
            for c in s.chars() {
                if c.is_ascii_digit() || c == '.' {
                    cur.push(c);
                } else {
                    let i = des.iter().position(|d| *d == c)?;
                    if i < next || cur.is_empty() {
                        return None;
                    }
                    next = i + 1;
                    out.push((c, std::mem::take(&mut cur)));
                }
            }
            cur.is_empty().then_some(out)
        };
        for (c, n) in comp(date, &['Y', 'M', 'D'])? {
            if !digits(&n) {
                return None;
            }
            let n: u64 = n.parse().ok()?;
            match c {
                'Y' => v.years = n,
                'M' => v.months = n,
                _ => v.days = n,
            }
            any = true;
        }
        if let Some(time) = time {
            let cs = comp(time, &['H', 'M', 'S'])?;
            if cs.is_empty() {
                return None;
            }
            for (c, n) in cs {
                any = true;
                if c == 'S' {
                    let (a, b) = n.split_once('.').unwrap_or((&n, "0"));
                    if !digits(a) || !digits(b) {
                        return None;
                    }
                    v.seconds = n.parse().ok()?;
                } else {
                    if !digits(&n) {
                        return None;
                    }
                    let n: u64 = n.parse().ok()?;
                    if c == 'H' {
                        v.hours = n;
                    } else {
                        v.minutes = n;
                    }
                }
            }
        }
        any.then_some(v)
    }
    fn key(&self) -> Option<String> {
        if !(self.seconds.is_finite() && self.seconds >= 0.0) {
            return None;
        }
        Some(format!(
            "{} {}Y{}M{}D {}H{}M{:?}S",
            self.is_negative, self.years, self.months, self.days, self.hours, self.minutes, self.seconds
        ))
    }
    fn lex(r: &mut Rng) -> String {
        loop {
            let mut s = String::from(if r.chance(1, 4) { "-P" } else { "P" });
            let num = |r: &mut Rng| match r.below(8) {
                0 => 0u64,
                1 => u64::MAX,
                2 => 1u64 << r.below(63),
                _ => r.below(400),
            };
            let mut any = false;
            for d in ['Y', 'M', 'D'] {
                if r.chance(1, 2) {
                    s += &format!("{}{d}", num(r));
                    any = true;
                }
            }
            if r.chance(2, 3) {
                let mut t = String::new();
                for d in ['H', 'M'] {
                    if r.chance(1, 2) {
                        t += &format!("{}{d}", num(r));
                    }
                }
                if r.chance(1, 2) {
                    t += &match r.below(6) {
                        0 => r.below(60).to_string(),
                        1 => format!("{}.{}", r.below(60), r.below(10)),
                        2 => format!("{}.{:03}", r.below(60), r.below(1000)),
                        3 => format!("{}.{:09}", r.below(60), r.below(1_000_000_000)),
                        4 => format!("{}.{:017}", r.below(100_000), r.below(100_000_000_000_000_000)),
                        _ => format!("0.{}1", "0".repeat(r.idx(17))),
                    };
                    t.push('S');
                }
                if !t.is_empty() {
                    s.push('T');
                    s += &t;
                    any = true;
                }
            }
            if any {
                return s;
            }
        }
    }
    fn alphabet() -> &'static str {
        "0123456789PTYMDHS.-P1DT0é٣"
    }
    fn min() -> &'static str {
        "P1D"
    }
}

// ---------------------------------------------------------------- macro-derived types

pub fn xml_text(r: &mut Rng, max: usize) -> String {
    const C: &[&str] = &["a", "Z", "0", "-", "_", ".", "é", "ß", "日本", "😀", "&", "<", ">", "\"", "'", "]]>", " ", "\u{85}", "\u{2028}", "x", "%", "\\", "{}", "&amp;", "#"];
    let n = 1 + r.idx(max);
    let mut s = String::new();
    for i in 0..n {
        let p = *r.pick(C);
        if p == " " && (i == 0 || i + 1 == n) {
            continue;
        }
        s.push_str(p);
    }
    // xml-rs writes it unescaped: known finding, has its own directed case
    while s.contains("]]>") {
        s = s.replace("]]>", "]]");
    }
    s
}

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct TStr(pub String);
impl Xt for TStr {
    fn make(t: &str) -> Option<Self> {
        Some(TStr(t.to_string()))
    }
    fn key(&self) -> Option<String> {
        Some(self.0.clone())
    }
    fn lex(r: &mut Rng) -> String {
        if r.chance(1, 12) {
            String::new()
        } else {
            xml_text(r, 30).trim().to_string()
        }
    }
    fn alphabet() -> &'static str {
        "ab<>&\"']é日😀 -_."
    }
    fn min() -> &'static str {
        "a"
    }
    fn collapses() -> bool {
        false
    }
}

macro_rules! prim_tuple {
    ($n:ident, $t:ident, $make:expr, $min:literal, $alpha:literal, $lex:expr) => {
        #[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
        pub struct $n(pub $t);
        impl Xt for $n {
            fn make(t: &str) -> Option<Self> {
                let f: fn(&str) -> Option<$t> = $make;
                f(t).map($n)
            }
            fn key(&self) -> Option<String> {
                Some(format!("{:?}", self.0))
            }
            fn lex(r: &mut Rng) -> String {
                let f: fn(&mut Rng) -> String = $lex;
                f(r)
            }
            fn alphabet() -> &'static str {
                $alpha
            }
            fn min() -> &'static str {
                $min
            }
        }
    };
}
pub fn r_bounded(r: &mut Rng, lo: i128, hi: i128) -> String {
    let v = match r.below(6) {
        0 => lo,
        1 => hi,
        2 => 0.clamp(lo, hi),
        3 => (r.next() as i128).clamp(lo, hi),
        4 => (-(r.next() as i128)).clamp(lo, hi),
        _ => i128::from(r.range(-130, 300)).clamp(lo, hi),
    };
    match r.below(5) {
        0 if v >= 0 => format!("+{v}"),
        1 if v >= 0 => format!("00{v}"),
        _ => v.to_string(),
    }
}
pub fn ref_i128(t: &str, lo: i128, hi: i128) -> Option<i128> {
    if lo == 0 && t.starts_with('-') {
        return None; // -0: known finding with a case of its own
    }
    let v: i128 = ref_int(t)?.try_into().ok()?;
    (lo..=hi).contains(&v).then_some(v)
}
prim_tuple!(TI32, i32, |t| ref_i128(t, i32::MIN.into(), i32::MAX.into()).map(|v| v as i32), "1", "0123456789+-_ .٣", |r| r_bounded(r, i32::MIN.into(), i32::MAX.into()));
prim_tuple!(TU8, u8, |t| ref_i128(t, 0, 255).map(|v| v as u8), "1", "0123456789+-_ .٣", |r| r_bounded(r, 0, 255));
prim_tuple!(TI64, i64, |t| ref_i128(t, i64::MIN.into(), i64::MAX.into()).map(|v| v as i64), "1", "0123456789+-_ .٣", |r| r_bounded(r, i64::MIN.into(), i64::MAX.into()));
prim_tuple!(TU64, u64, |t| ref_i128(t, 0, u64::MAX.into()).map(|v| v as u64), "1", "0123456789+-_ .٣", |r| r_bounded(r, 0, u64::MAX.into()));
prim_tuple!(TBool, bool, |t| match t { "true" => Some(true), "false" => Some(false), _ => None }, "true", "truefalse01 T", |r| (*r.pick(&["true", "false"])).to_string());
pub fn ref_float(t: &str) -> Option<f64> {
    // decimal mantissa and optional exponent; the special values are known findings
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    ref_decimal(m)?;
    if let Some(e) = e {
        ref_int(e)?;
    }
    let v: f64 = t.parse().ok()?;
    v.is_finite().then_some(v)
}
pub fn r_float(r: &mut Rng) -> String {
    match r.below(5) {
        0 => xt::Decimal::lex(r),
        1 => format!("{}{}.{}E{}", r.pick(&["", "-", "+"]), r.below(10), r.below(1000), r.range(-30, 30)),
        2 => format!("{:?}", f64::from_bits(r.next() & 0x7FDF_FFFF_FFFF_FFFF)),
        3 => format!("{}", r.range(-1000, 1000) as f64 / 8.0),
        _ => (*r.pick(&["0", "-0", "1e0", "4.9E-324", "1.7976931348623157E308", "0.1", "1E+2"])).to_string(),
    }
}
prim_tuple!(TF64, f64, ref_float, "1", "0123456789+-.eE infNAa", r_float);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct TDec(pub xt::Decimal);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct TDateTime(pub xt::DateTime);
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
pub struct TNested(pub TStr);
macro_rules! wrap {
    ($n:ident, $t:ty) => {
        impl Xt for $n {
            fn make(t: &str) -> Option<Self> {
                <$t>::make(t).map($n)
            }
            fn key(&self) -> Option<String> {
                self.0.key()
            }
            fn lex(r: &mut Rng) -> String {
                <$t>::lex(r)
            }
            fn alphabet() -> &'static str {
                <$t>::alphabet()
            }
            fn min() -> &'static str {
                <$t>::min()
            }
            fn collapses() -> bool {
                <$t>::collapses()
            }
        }
    };
}
wrap!(TDec, xt::Decimal);
wrap!(TDateTime, xt::DateTime);
wrap!(TNested, TStr);

fn xsd_split(t: &str) -> Vec<&str> {
    t.split([' ', '\t', '\n', '\r']).filter(|s| !s.is_empty()).collect()
}
macro_rules! list_tuple {
    ($n:ident, $($t:ident)::+, $make:expr, $key:expr, $lex:expr, $min:literal, $alpha:literal) => {
        #[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
        pub struct $n(pub Vec<$($t)::+>);
        impl Xt for $n {
            fn make(t: &str) -> Option<Self> {
                let f: fn(&str) -> Option<$($t)::+> = $make;
                xsd_split(t).into_iter().map(f).collect::<Option<Vec<_>>>().map($n)
            }
            fn key(&self) -> Option<String> {
                let f: fn(&$($t)::+) -> Option<String> = $key;
                self.0.iter().map(f).collect::<Option<Vec<_>>>().map(|v| v.join("|"))
            }
            fn lex(r: &mut Rng) -> String {
                let f: fn(&mut Rng) -> String = $lex;
                let n = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 2 + r.idx(40),
                    _ => 1 + r.idx(6),
                };
                let mut s = String::new();
                for i in 0..n {
                    if i > 0 {
                        s.push_str(*r.pick(&[" ", " ", " ", "  ", "\t", "\n", "\n  "]));
                    }
                    s.push_str(&f(r));
                }
                s
            }
            fn alphabet() -> &'static str {
                $alpha
            }
            fn min() -> &'static str {
                $min
            }
        }
    };
}
list_tuple!(LI32, i32, |t| ref_i128(t, i32::MIN.into(), i32::MAX.into()).map(|v| v as i32), |v| Some(v.to_string()), |r| r_bounded(r, i32::MIN.into(), i32::MAX.into()), "1", "0123 +- x\u{a0}");
list_tuple!(LU8, u8, |t| ref_i128(t, 0, 255).map(|v| v as u8), |v| Some(v.to_string()), |r| r_bounded(r, 0, 255), "1", "0123 +- x\u{a0}");
list_tuple!(LBool, bool, |t| match t { "true" => Some(true), "false" => Some(false), _ => None }, |v| Some(v.to_string()), |r| (*r.pick(&["true", "false"])).to_string(), "true", "true false");
list_tuple!(LF64, f64, ref_float, |v| Some(format!("{v:?}")), r_float, "1", "0123 +-.e x");
list_tuple!(LStr, String, |t| Some(t.to_string()), |v| Some(v.clone()), |r| xml_text(r, 5).split_whitespace().collect::<Vec<_>>().concat().replace("]]", "]") + "q", "a", "ab <>&é");
list_tuple!(LDate, xt::Date, xt::Date::make, |v| v.key(), xt::Date::lex, "2000-01-02", "0123456789-+:Z ");
list_tuple!(LDec, xt::Decimal, xt::Decimal::make, |v| v.key(), xt::Decimal::lex, "1", "0123456789.+- ");
list_tuple!(LName, TStr, |t| TStr::make(t), |v| v.key(), |r| xml_text(r, 5).split_whitespace().collect::<Vec<_>>().concat().replace("]]", "]") + "q", "a", "ab <>&é");

/// key of the explicit "no member accepted the text" marker of a union
pub const UNKNOWN: &str = "?unknown";

/// a union takes the first member that accepts the text
macro_rules! union_type {
    ($n:ident { $($v:ident($($t:ident)::+, $make:expr, $key:expr, $lex:expr);)* } $min:literal $alpha:literal $coll:literal) => {
        #[derive(Clone, PartialEq, Debug, UtilsUnionSerDe)]
        #[allow(non_camel_case_types)]
        pub enum $n { $($v($($t)::+),)* __Unknown__(String) }
        impl Default for $n {
            fn default() -> $n { Self::__Unknown__("No valid variants".into()) }
        }
        impl Xt for $n {
            fn make(t: &str) -> Option<Self> {
                $( let f: fn(&str) -> Option<$($t)::+> = $make; if let Some(v) = f(t) { return Some($n::$v(v)); } )*
                None
            }
            fn key(&self) -> Option<String> {
                match self {
                    $( $n::$v(v) => { let f: fn(&$($t)::+) -> Option<String> = $key; f(v).map(|k| format!("{}:{}", stringify!($v), k)) } )*
                    $n::__Unknown__(_) => Some(UNKNOWN.into()),
                }
            }
            fn lex(r: &mut Rng) -> String {
                let fs: Vec<fn(&mut Rng) -> String> = vec![$($lex),*];
                loop {
                    let s = r.pick(&fs)(r);
                    if Self::make(&s).is_some() { return s; }
                }
            }
            fn alphabet() -> &'static str { $alpha }
            fn min() -> &'static str { $min }
            fn collapses() -> bool { $coll }
        }
    };
}
union_type!(UIntString {
    Int(i32, |t| ref_i128(t, i32::MIN.into(), i32::MAX.into()).map(|v| v as i32), |v| Some(v.to_string()), |r| r_bounded(r, i32::MIN.into(), i32::MAX.into()));
    Str(String, |t| Some(t.to_string()), |v| Some(v.clone()), TStr::lex);
} "1" "0123+-abé<&" false);
union_type!(UDateDurDec {
    Dt(xt::DateTime, xt::DateTime::make, |v| v.key(), xt::DateTime::lex);
    D(xt::Date, xt::Date::make, |v| v.key(), xt::Date::lex);
    Dur(xt::Duration, xt::Duration::make, |v| v.key(), xt::Duration::lex);
    Dec(xt::Decimal, xt::Decimal::make, |v| v.key(), xt::Decimal::lex);
} "1" "0123456789-:TPYMDHS.+Z" true);
union_type!(UBoolList {
    B(bool, |t| match t { "true" => Some(true), "false" => Some(false), _ => None }, |v| Some(v.to_string()), |r| (*r.pick(&["true", "false"])).to_string());
    N(TU8, |t| TU8::make(t), |v| v.key(), |r| TU8::lex(r));
    Y(xt::GYear, xt::GYear::make, |v| v.key(), xt::GYear::lex);
    S(TNested, |t| TNested::make(t), |v| v.key(), |r| TNested::lex(r));
} "true" "truefalse0123-é<&" false);

// ---------------------------------------------------------------- documents

pub trait Val: fmt::Debug {
    fn keys(&self) -> Option<Value>;
    fn same(&self, o: &dyn Val) -> bool;
    fn ser(&self, w: &mut dyn Write, indent: bool) -> Result<(), String>;
    fn any(&self) -> &dyn Any;
}

pub struct Ty {
    pub name: &'static str,
    pub de: fn(&mut dyn Read) -> Result<Box<dyn Val>, String>,
    pub make: fn(&Value) -> Option<Box<dyn Val>>,
    /// random document: field name -> texts
    pub gen: fn(&mut Rng) -> Value,
    /// layout of the document for a foreign sender
    pub root: &'static str,
    pub fields: fn() -> Vec<Field>,
}

#[derive(Clone, Copy)]
pub struct Field {
    pub name: &'static str,
    pub attr: bool,
    /// 1 = required, 0 = optional, 2 = repeated
    pub card: u8,
    pub collapses: bool,
    pub min: &'static str,
    pub alphabet: &'static str,
    pub inner: Option<fn() -> Vec<Field>>,
    pub key: fn(&str) -> Option<String>,
}

fn ser_any<T: yaserde::YaSerialize>(v: &T, w: &mut dyn Write, indent: bool) -> Result<(), String> {
    let cfg = yaserde::ser::Config { perform_indent: indent, ..Default::default() };
    yaserde::ser::serialize_with_writer(v, w, &cfg).map(|_| ())
}

/// a simple-typed root element
macro_rules! simple {
    ($t:ty, $n:literal) => {{
        fn de(r: &mut dyn Read) -> Result<Box<dyn Val>, String> {
            yaserde::de::from_reader::<_, $t>(r).map(|v| Box::new(Alone(v)) as Box<dyn Val>)
        }
        fn make(v: &Value) -> Option<Box<dyn Val>> {
            <$t as Xt>::make(v["."][0].as_str()?).map(|v| Box::new(Alone(v)) as Box<dyn Val>)
        }
        fn gen(r: &mut Rng) -> Value {
            json!({ ".": [<$t as Xt>::lex(r)] })
        }
        fn fields() -> Vec<Field> {
            vec![field::<$t>(".", false, 1)]
        }
        Ty { name: $n, de, make, gen, root: "Root", fields }
    }};
}
pub struct Alone<T>(pub T);
impl<T: fmt::Debug> fmt::Debug for Alone<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Xt + yaserde::YaSerialize + 'static> Val for Alone<T> {
    fn keys(&self) -> Option<Value> {
        Some(json!({ ".": [self.0.key()?] }))
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<Alone<T>>().is_some_and(|o| o.0 == self.0)
    }
    fn ser(&self, w: &mut dyn Write, indent: bool) -> Result<(), String> {
        ser_any(&self.0, w, indent)
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

pub fn field<T: Xt>(name: &'static str, attr: bool, card: u8) -> Field {
    Field { name, attr, card, collapses: T::collapses(), min: T::min(), alphabet: T::alphabet(), inner: None, key: |t| T::make(t).and_then(|v| v.key()) }
}

fn opt_count(r: &mut Rng, card: u8) -> usize {
    match card {
        1 => 1,
        0 => usize::from(r.chance(1, 2)),
        _ => *r.pick(&[0, 0, 1, 2, 3, 7]),
    }
}

fn get<T: Xt>(v: &Value, name: &str) -> Option<Vec<T>> {
    v[name].as_array().map(|a| a.iter().map(|t| T::make(t.as_str()?)).collect::<Option<Vec<T>>>()).unwrap_or(Some(vec![]))
}

pub fn attr_safe(s: String) -> String {
    // yaserde 0.7 re-parses attribute text as markup: < and & in attributes are outside its reach
    s.replace(['<', '&'], "_")
}

macro_rules! cardn {
    (req) => { 1 };
    (opt) => { 0 };
    (vec) => { 2 };
}
macro_rules! from_vec {
    (req $v:expr) => { $v.into_iter().next()? };
    (opt $v:expr) => { $v.into_iter().next() };
    (vec $v:expr) => { $v };
}
macro_rules! keys_of {
    (req $e:expr) => { vec![$e.key()?] };
    (opt $e:expr) => { match &$e { Some(v) => vec![v.key()?], None => vec![] } };
    (vec $e:expr) => { $e.iter().map(|v| v.key()).collect::<Option<Vec<_>>>()? };
}

macro_rules! document {
    ($n:ident, $modname:ident, $prefix:tt, $ns:tt,
     attrs { $($ac:ident $af:ident $an:tt [$($aty:tt)*] $at:ty;)* }
     elems { $($ec:ident $ef:ident $en:tt [$($ety:tt)*] $et:ty;)* }
     inner { $($ic:ident $if_:ident $in_:tt [$($ity:tt)*] $it:ident $imod:ident;)* }) => {
        #[derive(Default, Clone, PartialEq, Debug, YaSerialize, YaDeserialize)]
        #[yaserde(prefix = $prefix, namespace = $ns)]
        pub struct $n {
            $( #[yaserde(attribute, rename = $an)] pub $af: $($aty)*, )*
            $( #[yaserde(prefix = $prefix, rename = $en)] pub $ef: $($ety)*, )*
            $( #[yaserde(prefix = $prefix, rename = $in_)] pub $if_: $($ity)*, )*
        }
        pub mod $modname {
            use super::*;
            pub fn fields() -> Vec<Field> {
                #[allow(unused_mut)]
                let mut v = vec![
                    $( field::<$at>($an, true, cardn!($ac)), )*
                    $( field::<$et>($en, false, cardn!($ec)), )*
                ];
                $( v.push(Field { name: $in_, attr: false, card: cardn!($ic), collapses: true, min: "", alphabet: "", inner: Some($imod::fields), key: |_| None }); )*
                v
            }
            pub fn make1(v: &Value) -> Option<$n> {
                Some($n {
                    $( $af: from_vec!($ac get::<$at>(v, $an)?), )*
                    $( $ef: from_vec!($ec get::<$et>(v, $en)?), )*
                    $( $if_: from_vec!($ic v[$in_].as_array().cloned().unwrap_or_default().iter().map($imod::make1).collect::<Option<Vec<_>>>()?), )*
                })
            }
            pub fn keys1(x: &$n) -> Option<Value> {
                let mut m = serde_json::Map::new();
                $( m.insert($an.into(), json!(keys_of!($ac x.$af))); )*
                $( m.insert($en.into(), json!(keys_of!($ec x.$ef))); )*
                $( m.insert($in_.into(), json!(inner_keys!($ic x.$if_, $imod))); )*
                Some(Value::Object(m))
            }
            pub fn gen(r: &mut Rng) -> Value {
                let mut m = serde_json::Map::new();
                let style = r.below(3);
                $( { let n = if style == 0 && cardn!($ac) != 1 { 0 } else { opt_count(r, cardn!($ac)) };
                     m.insert($an.into(), json!((0..n).map(|_| attr_safe(<$at as Xt>::lex(r))).collect::<Vec<_>>())); } )*
                $( { let n = if style == 0 && cardn!($ec) != 1 && r.chance(4, 5) { 0 } else { opt_count(r, cardn!($ec)) };
                     m.insert($en.into(), json!((0..n).map(|_| <$et as Xt>::lex(r)).collect::<Vec<_>>())); } )*
                $( { let n = opt_count(r, cardn!($ic)).min(3);
                     m.insert($in_.into(), json!((0..n).map(|_| $imod::gen(r)).collect::<Vec<_>>())); } )*
                Value::Object(m)
            }
            pub fn de(r: &mut dyn Read) -> Result<Box<dyn Val>, String> {
                yaserde::de::from_reader::<_, $n>(r).map(|v| Box::new(v) as Box<dyn Val>)
            }
            pub fn make(v: &Value) -> Option<Box<dyn Val>> {
                make1(v).map(|v| Box::new(v) as Box<dyn Val>)
            }
        }
        impl Val for $n {
            fn keys(&self) -> Option<Value> { $modname::keys1(self) }
            fn same(&self, o: &dyn Val) -> bool { o.any().downcast_ref::<$n>().is_some_and(|o| o == self) }
            fn ser(&self, w: &mut dyn Write, indent: bool) -> Result<(), String> { ser_any(self, w, indent) }
            fn any(&self) -> &dyn Any { self }
        }
    };
}
macro_rules! inner_keys {
    (req $e:expr, $m:ident) => { vec![$m::keys1(&$e)?] };
    (opt $e:expr, $m:ident) => { match &$e { Some(v) => vec![$m::keys1(v)?], None => vec![] } };
    (vec $e:expr, $m:ident) => { $e.iter().map($m::keys1).collect::<Option<Vec<_>>>()? };
}

document!(Part, part, "tns", "tns: http://example.com",
    attrs { req p_id "pid" [xt::NonNegativeInteger] xt::NonNegativeInteger; opt p_when "when" [Option<xt::DateTime>] xt::DateTime; opt p_len "len" [Option<xt::Duration>] xt::Duration; }
    elems { req p_dec "PDec" [xt::Decimal] xt::Decimal; opt p_union "PUnion" [Option<UIntString>] UIntString; vec p_list "PList" [Vec<LI32>] LI32; opt p_str "PStr" [Option<TStr>] TStr; }
    inner {});

document!(Small, small, "tns", "tns: http://example.com",
    attrs { opt s_attr "sAttr" [Option<xt::Integer>] xt::Integer; }
    elems { req s_dec "SDec" [xt::Decimal] xt::Decimal; opt s_time "STime" [Option<xt::Time>] xt::Time; vec s_date "SDate" [Vec<xt::Date>] xt::Date; opt s_union "SUnion" [Option<UDateDurDec>] UDateDurDec; }
    inner {});

document!(Doc, doc, "tns", "tns: http://example.com",
    attrs {
        req a_int "aInt" [xt::Integer] xt::Integer; opt a_dec "aDec" [Option<xt::Decimal>] xt::Decimal; opt a_date "aDate" [Option<xt::Date>] xt::Date; opt a_time "aTime" [Option<xt::Time>] xt::Time;
        opt a_day "aDay" [Option<xt::GDay>] xt::GDay; opt a_month "aMonth" [Option<xt::GMonth>] xt::GMonth; opt a_md "aMonthDay" [Option<xt::GMonthDay>] xt::GMonthDay; opt a_year "aYear" [Option<xt::GYear>] xt::GYear;
        opt a_ym "aYearMonth" [Option<xt::GYearMonth>] xt::GYearMonth; opt a_stamp "aStamp" [Option<xt::DateTimeStamp>] xt::DateTimeStamp; opt a_str "aStr" [Option<TStr>] TStr; opt a_list "aList" [Option<LU8>] LU8;
        opt a_union "aUnion" [Option<UDateDurDec>] UDateDurDec; opt a_neg "aNeg" [Option<xt::NegativeInteger>] xt::NegativeInteger;
    }
    elems {
        req e_int "EInt" [xt::Integer] xt::Integer; opt e_pos "EPos" [Option<xt::PositiveInteger>] xt::PositiveInteger; vec e_nn "ENonNeg" [Vec<xt::NonNegativeInteger>] xt::NonNegativeInteger; opt e_neg "ENeg" [Option<xt::NegativeInteger>] xt::NegativeInteger;
        opt e_np "ENonPos" [Option<xt::NonPositiveInteger>] xt::NonPositiveInteger; req e_dec "EDec" [xt::Decimal] xt::Decimal; vec e_dur "EDur" [Vec<xt::Duration>] xt::Duration; opt e_date "EDate" [Option<xt::Date>] xt::Date;
        req e_time "ETime" [xt::Time] xt::Time; vec e_dt "EDateTime" [Vec<xt::DateTime>] xt::DateTime; opt e_stamp "EStamp" [Option<xt::DateTimeStamp>] xt::DateTimeStamp; opt e_day "EDay" [Option<xt::GDay>] xt::GDay;
        vec e_month "EMonth" [Vec<xt::GMonth>] xt::GMonth; opt e_md "EMonthDay" [Option<xt::GMonthDay>] xt::GMonthDay; opt e_year "EYear" [Option<xt::GYear>] xt::GYear; vec e_ym "EYearMonth" [Vec<xt::GYearMonth>] xt::GYearMonth;
        req t_str "TStr" [TStr] TStr; opt t_i32 "TI32" [Option<TI32>] TI32; vec t_bool "TBool" [Vec<TBool>] TBool; opt t_f64 "TF64" [Option<TF64>] TF64; opt t_dec "TDec" [Option<TDec>] TDec; opt t_dt "TDateTime" [Option<TDateTime>] TDateTime;
        vec t_nested "TNested" [Vec<TNested>] TNested; req l_i32 "LI32" [LI32] LI32; opt l_bool "LBool" [Option<LBool>] LBool; vec l_f64 "LF64" [Vec<LF64>] LF64; opt l_str "LStr" [Option<LStr>] LStr; vec l_date "LDate" [Vec<LDate>] LDate;
        opt l_dec "LDec" [Option<LDec>] LDec; opt l_name "LName" [Option<LName>] LName; req u_is "UIntString" [UIntString] UIntString; vec u_ddd "UDateDurDec" [Vec<UDateDurDec>] UDateDurDec; opt u_bl "UBoolList" [Option<UBoolList>] UBoolList;
    }
    inner { vec parts "DPart" [Vec<Part>] Part part; opt small "DSmall" [Option<Small>] Small small; });

macro_rules! docty {
    ($n:literal, $m:ident) => {
        Ty { name: $n, de: $m::de, make: $m::make, gen: $m::gen, root: $n, fields: $m::fields }
    };
}

pub fn types() -> Vec<Ty> {
    vec![
        simple!(xt::Decimal, "Decimal"),
        simple!(xt::Integer, "Integer"),
        simple!(xt::PositiveInteger, "PositiveInteger"),
        simple!(xt::NonNegativeInteger, "NonNegativeInteger"),
        simple!(xt::NegativeInteger, "NegativeInteger"),
        simple!(xt::NonPositiveInteger, "NonPositiveInteger"),
        simple!(xt::Date, "Date"),
        simple!(xt::Time, "Time"),
        simple!(xt::DateTime, "DateTime"),
        simple!(xt::DateTimeStamp, "DateTimeStamp"),
        simple!(xt::GDay, "GDay"),
        simple!(xt::GMonth, "GMonth"),
        simple!(xt::GMonthDay, "GMonthDay"),
        simple!(xt::GYear, "GYear"),
        simple!(xt::GYearMonth, "GYearMonth"),
        simple!(xt::Duration, "Duration"),
        simple!(TStr, "TStr"),
        simple!(TI32, "TI32"),
        simple!(TU8, "TU8"),
        simple!(TI64, "TI64"),
        simple!(TU64, "TU64"),
        simple!(TBool, "TBool"),
        simple!(TF64, "TF64"),
        simple!(TDec, "TDec"),
        simple!(TDateTime, "TDateTime"),
        simple!(TNested, "TNested"),
        simple!(LI32, "LI32"),
        simple!(LU8, "LU8"),
        simple!(LBool, "LBool"),
        simple!(LF64, "LF64"),
        simple!(LStr, "LStr"),
        simple!(LDate, "LDate"),
        simple!(LDec, "LDec"),
        simple!(LName, "LName"),
        simple!(UIntString, "UIntString"),
        simple!(UDateDurDec, "UDateDurDec"),
        simple!(UBoolList, "UBoolList"),
        docty!("Small", small),
        docty!("Part", part),
        docty!("Doc", doc),
    ]
}

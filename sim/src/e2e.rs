//! E checks: schemas, documents and their reference semantics. A schema is drawn as a small model
//! (this file), written as XSD, turned into Rust by the real parser and generator, and compiled by
//! the real compiler. At run time the simulator sends schema-valid documents, rendered from the
//! model, through the generated endpoints over a simulated stream. What has to arrive is read off
//! the model; nothing here looks at the generated code.

use std::collections::{BTreeMap, BTreeSet};

use bigdecimal::BigDecimal;
use serde_json::{json, Map, Value};
use xsd_types::types as xt;

use crate::{
    rng::Rng,
    xtypes::{attr_safe, r_bounded, r_float, ref_float, ref_i128, xml_text, Xt},
};

pub const URI: &str = "http://example.com/e2e";

// ---------------------------------------------------------------- built-in types

pub const INTS: &[(&str, i128, i128)] = &[
    ("long", i64::MIN as i128, i64::MAX as i128),
    ("int", i32::MIN as i128, i32::MAX as i128),
    ("short", i16::MIN as i128, i16::MAX as i128),
    ("byte", i8::MIN as i128, i8::MAX as i128),
    ("unsignedLong", 0, u64::MAX as i128),
    ("unsignedInt", 0, u32::MAX as i128),
    ("unsignedShort", 0, u16::MAX as i128),
    ("unsignedByte", 0, u8::MAX as i128),
];
const BIG: &[&str] = &["integer", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger"];
const TIMES: &[&str] = &["date", "time", "dateTime", "dateTimeStamp", "duration", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth"];
const TOKENS: &[&str] = &["language", "Name", "NCName", "ID", "NMTOKEN", "hexBinary", "base64Binary", "anyURI", "QName"];
const TEXTS: &[&str] = &["string", "normalizedString", "token", "anySimpleType"];

fn int_range(b: &str) -> Option<(i128, i128)> {
    INTS.iter().find(|x| x.0 == b).map(|x| (x.1, x.2))
}

macro_rules! by_xt {
    ($b:expr, $f:ident ( $($a:expr),* )) => {
        match $b {
            "integer" => Some(<xt::Integer as Xt>::$f($($a),*).into()),
            "nonNegativeInteger" => Some(<xt::NonNegativeInteger as Xt>::$f($($a),*).into()),
            "positiveInteger" => Some(<xt::PositiveInteger as Xt>::$f($($a),*).into()),
            "nonPositiveInteger" => Some(<xt::NonPositiveInteger as Xt>::$f($($a),*).into()),
            "negativeInteger" => Some(<xt::NegativeInteger as Xt>::$f($($a),*).into()),
            "decimal" => Some(<xt::Decimal as Xt>::$f($($a),*).into()),
            "date" => Some(<xt::Date as Xt>::$f($($a),*).into()),
            "time" => Some(<xt::Time as Xt>::$f($($a),*).into()),
            "dateTime" => Some(<xt::DateTime as Xt>::$f($($a),*).into()),
            "dateTimeStamp" => Some(<xt::DateTimeStamp as Xt>::$f($($a),*).into()),
            "duration" => Some(<xt::Duration as Xt>::$f($($a),*).into()),
            "gDay" => Some(<xt::GDay as Xt>::$f($($a),*).into()),
            "gMonth" => Some(<xt::GMonth as Xt>::$f($($a),*).into()),
            "gMonthDay" => Some(<xt::GMonthDay as Xt>::$f($($a),*).into()),
            "gYear" => Some(<xt::GYear as Xt>::$f($($a),*).into()),
            "gYearMonth" => Some(<xt::GYearMonth as Xt>::$f($($a),*).into()),
            _ => None,
        }
    };
}

fn xt_lex(b: &str, r: &mut Rng) -> Option<String> {
    by_xt!(b, lex(r))
}

fn key_of<T: Xt>(t: &str) -> KeyOf {
    KeyOf(T::make(t).and_then(|v| v.key()))
}
struct KeyOf(Option<String>);
fn xt_key(b: &str, t: &str) -> Option<Option<String>> {
    let k = match b {
        "integer" => key_of::<xt::Integer>(t),
        "nonNegativeInteger" => key_of::<xt::NonNegativeInteger>(t),
        "positiveInteger" => key_of::<xt::PositiveInteger>(t),
        "nonPositiveInteger" => key_of::<xt::NonPositiveInteger>(t),
        "negativeInteger" => key_of::<xt::NegativeInteger>(t),
        "decimal" => key_of::<xt::Decimal>(t),
        "date" => key_of::<xt::Date>(t),
        "time" => key_of::<xt::Time>(t),
        "dateTime" => key_of::<xt::DateTime>(t),
        "dateTimeStamp" => key_of::<xt::DateTimeStamp>(t),
        "duration" => key_of::<xt::Duration>(t),
        "gDay" => key_of::<xt::GDay>(t),
        "gMonth" => key_of::<xt::GMonth>(t),
        "gMonthDay" => key_of::<xt::GMonthDay>(t),
        "gYear" => key_of::<xt::GYear>(t),
        "gYearMonth" => key_of::<xt::GYearMonth>(t),
        _ => return None,
    };
    Some(k.0)
}

fn token(r: &mut Rng) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCXYZ";
    const B: &[u8] = b"abcxyz0123456789-_.";
    let mut s = String::from(*r.pick(A) as char);
    for _ in 0..r.idx(8) {
        s.push(*r.pick(B) as char);
    }
    s
}

/// a valid lexical form of a built-in type
fn b_lex(b: &str, r: &mut Rng, attr: bool) -> String {
    if let Some((lo, hi)) = int_range(b) {
        return r_bounded(r, lo, hi);
    }
    if let Some(s) = xt_lex(b, r) {
        return s;
    }
    match b {
        "boolean" => (*r.pick(&["true", "false"])).into(),
        "double" | "float" => loop {
            let s = r_float(r);
            // float: stay within its range and precision
            if ref_float(&s).is_some() && (b == "double" || s.len() <= 7) {
                return s;
            }
        },
        "language" => (*r.pick(&["en", "de-CH", "x-klingon", "zh-Hant"])).into(),
        "hexBinary" => (0..1 + r.idx(6)).map(|_| format!("{:02X}", r.below(256))).collect(),
        "base64Binary" => (*r.pick(&["QUJD", "QQ==", "QUI=", "+/+/", "AAECAwQFBgc="])).into(),
        "anyURI" if attr => (*r.pick(&["http://example.com/a?b=c#d", "urn:x:y", "../a/b", "a%20b"])).into(),
        "anyURI" => (*r.pick(&["http://example.com/a?b=c&d=e#f", "urn:x:y", "../a/b", "a%20b", "http://[::1]/"])).into(),
        "string" | "normalizedString" | "token" | "anySimpleType" => loop {
            let s = xml_text(r, 12).split_whitespace().collect::<Vec<_>>().join(" ");
            let s = if attr { attr_safe(s) } else { s };
            let s = s.trim().to_string();
            if !s.is_empty() {
                return s;
            }
        },
        _ => token(r),
    }
}

/// canonical key of a text of a built-in type; None: not a valid lexical form
fn b_key(b: &str, t: &str) -> Option<String> {
    let c = t.split_ascii_whitespace().collect::<Vec<_>>().join(" ");
    if let Some((lo, hi)) = int_range(b) {
        return ref_i128(&c, lo, hi).map(|v| v.to_string());
    }
    if let Some(k) = xt_key(b, &c) {
        return k;
    }
    match b {
        "boolean" => match c.as_str() {
            "true" => Some("true".into()),
            "false" => Some("false".into()),
            _ => None,
        },
        "double" | "float" => ref_float(&c).map(|v| format!("{v:?}")),
        "string" | "normalizedString" | "anySimpleType" => Some(t.to_string()),
        _ => Some(c),
    }
}

fn numeric(b: &str) -> bool {
    int_range(b).is_some() || BIG.contains(&b) || matches!(b, "decimal" | "double" | "float")
}

fn b_num(b: &str, t: &str) -> Option<BigDecimal> {
    if !numeric(b) {
        return None;
    }
    b_key(b, t)?;
    t.trim().trim_start_matches('+').parse().ok()
}

// ---------------------------------------------------------------- the schema model

#[derive(Clone, Debug)]
pub enum Sref {
    B(&'static str),
    T(usize),
    Anon(Box<Simple>),
}
#[derive(Clone, Debug)]
pub enum Simple {
    Enum { base: &'static str, values: Vec<String> },
    Restr { base: Sref, facets: Vec<(&'static str, String)> },
    List(Sref),
    Union(Vec<Sref>),
}
#[derive(Clone, Debug)]
pub struct SimpleTy {
    pub name: String,
    pub def: Simple,
    pub doc: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Attr {
    pub name: String,
    pub ty: Sref,
    pub usage: &'static str,
    /// a reference to a global attribute
    pub global: bool,
    /// in the target namespace: a reference, or declared so
    pub qualified: bool,
}
#[derive(Clone, Debug)]
pub struct Elem {
    pub name: String,
    pub ty: Ety,
    pub min: u32,
    pub max: Option<u32>,
    /// in the target namespace if there is one, as references to global elements always are
    pub target: bool,
    pub doc: Option<String>,
}
#[derive(Clone, Debug)]
pub enum Ety {
    S(Sref),
    C(usize),
    Anon(Box<Complex>),
    Ref(usize),
    /// a reference to a global element of a named or built-in type
    Named(usize),
}
#[derive(Clone, Debug)]
pub enum Part {
    E(Elem),
    C(Vec<Elem>),
    Any,
}
#[derive(Clone, Debug)]
pub enum Content {
    Empty,
    Seq(Vec<Part>),
    All(Vec<Elem>),
    Choice(Vec<Elem>),
}
#[derive(Clone, Debug)]
pub struct Complex {
    pub name: String,
    pub base: Option<usize>,
    /// restricts this type: the content is its own, the attributes are those it does not declare anew
    pub restricts: Option<usize>,
    pub content: Content,
    pub attrs: Vec<Attr>,
    pub groups: Vec<usize>,
    pub any_attr: bool,
    pub doc: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Group {
    pub name: String,
    pub attrs: Vec<Attr>,
    pub groups: Vec<usize>,
}
/// a global element: of a named type of the same name, or with an anonymous type
#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub named: Option<usize>,
    pub anon: Option<Complex>,
}
#[derive(Clone, Debug)]
pub struct Schema {
    pub idx: u64,
    pub tns: bool,
    /// prefix of the target namespace; empty: it is the default namespace
    pub prefix: &'static str,
    /// the target namespace has a prefix and is the default namespace as well
    pub both: bool,
    pub xsd: &'static str,
    /// elementFormDefault and attributeFormDefault
    pub forms: [bool; 2],
    pub simples: Vec<SimpleTy>,
    pub complexes: Vec<Complex>,
    pub groups: Vec<Group>,
    pub globals: Vec<Global>,
    /// global elements that are only referred to
    pub named: Vec<(String, Ety)>,
    /// global attributes
    pub gattrs: Vec<(String, Sref)>,
    pub style: u64,
}

/// which complex type an element or root leads to
#[derive(Clone, Copy)]
pub enum Ty<'a> {
    S(&'a Sref),
    C(&'a Complex),
}

impl Schema {
    pub fn ety<'a>(&'a self, e: &'a Ety) -> Ty<'a> {
        match e {
            Ety::S(s) => Ty::S(s),
            Ety::C(i) => Ty::C(&self.complexes[*i]),
            Ety::Anon(c) => Ty::C(c),
            Ety::Ref(g) => Ty::C(self.global(*g)),
            Ety::Named(g) => self.ety(&self.named[*g].1),
        }
    }
    pub fn global(&self, g: usize) -> &Complex {
        let g = &self.globals[g];
        match (&g.anon, g.named) {
            (Some(c), _) => c,
            (None, Some(i)) => &self.complexes[i],
            _ => unreachable!(),
        }
    }
    pub fn attrs<'a>(&'a self, c: &'a Complex) -> Vec<&'a Attr> {
        fn group<'a>(s: &'a Schema, g: usize, out: &mut Vec<&'a Attr>) {
            out.extend(&s.groups[g].attrs);
            for g in &s.groups[g].groups {
                group(s, *g, out);
            }
        }
        let mut out = c.base.map(|b| self.attrs(&self.complexes[b])).unwrap_or_default();
        out.extend(&c.attrs);
        for g in &c.groups {
            group(self, *g, &mut out);
        }
        if let Some(b) = c.restricts {
            for a in self.attrs(&self.complexes[b]) {
                if !c.attrs.iter().any(|x| x.name == a.name) {
                    out.push(a);
                }
            }
        }
        out
    }
    /// every element that may occur, with those of the base
    pub fn elems<'a>(&'a self, c: &'a Complex) -> Vec<&'a Elem> {
        let mut out = c.base.map(|b| self.elems(&self.complexes[b])).unwrap_or_default();
        match &c.content {
            Content::Empty => {}
            Content::All(v) | Content::Choice(v) => out.extend(v),
            Content::Seq(v) => {
                for p in v {
                    match p {
                        Part::E(e) => out.push(e),
                        Part::C(v) => out.extend(v),
                        Part::Any => {}
                    }
                }
            }
        }
        out
    }
    fn choices(&self, c: &Complex) -> usize {
        let own = match &c.content {
            Content::Choice(_) => 1,
            Content::Seq(v) => v.iter().filter(|p| matches!(p, Part::C(_))).count(),
            _ => 0,
        };
        own + c.base.map_or(0, |b| self.choices(&self.complexes[b]))
    }
    fn beside(&self, c: &Complex) -> bool {
        let own = match &c.content {
            Content::All(v) => v.iter().any(|e| !plain(&e.ty)),
            Content::Seq(v) => v.iter().any(|p| matches!(p, Part::E(e) if !plain(&e.ty))),
            _ => false,
        };
        own || c.base.is_some_and(|b| self.beside(&self.complexes[b]))
    }
    fn lossy(&self, c: &Complex) -> bool {
        self.choices(c) > 0 && self.beside(c)
    }
    /// does a choice meet the names of an inherited element again further down: the generated
    /// reader of a choice takes an element from any depth
    fn mixed(&self, c: &Complex) -> bool {
        let Some(b) = c.base else { return false };
        let (mut above, mut below) = (BTreeSet::new(), BTreeSet::new());
        self.reach(&self.complexes[b], &mut above);
        for e in self.elems(&Complex { base: None, ..c.clone() }) {
            if let Ty::C(t) = self.ety(&e.ty) {
                self.reach(t, &mut below);
            }
        }
        self.choices(c) > 0 && !above.is_disjoint(&below)
    }
    /// names of every element below a type
    fn reach(&self, c: &Complex, out: &mut BTreeSet<String>) {
        for e in self.elems(c) {
            out.insert(norm(&e.name));
            if let Ty::C(c) = self.ety(&e.ty) {
                self.reach(c, out);
            }
        }
    }

    // ------------------------------------------------------------ simple values

    pub fn sdef<'a>(&'a self, s: &'a Sref) -> Result<&'a Simple, &'static str> {
        match s {
            Sref::B(b) => Err(b),
            Sref::T(i) => Ok(&self.simples[*i].def),
            Sref::Anon(d) => Ok(d),
        }
    }
    pub fn lex(&self, s: &Sref, r: &mut Rng, attr: bool) -> String {
        match self.sdef(s) {
            Err(b) => b_lex(b, r, attr),
            Ok(d) => self.dlex(d, r, attr),
        }
    }
    fn dlex(&self, d: &Simple, r: &mut Rng, attr: bool) -> String {
        match d {
            Simple::Enum { values, .. } => {
                // yaserde reads the value of an attribute as markup
                let v: Vec<&String> = values.iter().filter(|v| !attr || !v.contains(['&', '<'])).collect();
                (*r.pick(&v)).clone()
            }
            Simple::Restr { base, facets } => self.lex_facets(base, facets, r, attr),
            Simple::List(item) => (0..1 + r.idx(4)).map(|_| self.lex(item, r, attr)).collect::<Vec<_>>().join(" "),
            Simple::Union(m) => {
                let m = r.pick(m).clone();
                let t = self.lex(&m, r, attr);
                // sent on without the sign, which may make it a text of an earlier member
                let t = t.strip_prefix('+').map(str::to_string).unwrap_or(t);
                // refused by the unsigned members, but sent on as the 0 they take
                match t.strip_prefix('-') {
                    Some(z) if !z.is_empty() && !z.contains(|c| c != '0') => z.to_string(),
                    // sent on with the time zone it is taken to have, as a dateTimeStamp would be
                    _ if xt_key("dateTime", &t).flatten().is_some() && xt_key("dateTimeStamp", &t).flatten().is_none() => t + "Z",
                    _ => t,
                }
            }
        }
    }
    fn lex_facets(&self, base: &Sref, facets: &[(&'static str, String)], r: &mut Rng, attr: bool) -> String {
        let b = self.builtin(base);
        let f = |n: &str| facets.iter().find(|f| f.0 == n).map(|f| f.1.clone());
        for _ in 0..12 {
            let t = self.lex(base, r, attr);
            if self.facets_hold(base, facets, &t) == Some(true) {
                return t;
            }
        }
        let Some(b) = b else { return self.lex(base, r, attr) };
        if numeric(b) {
            // within the bounds, often on them
            let lo = f("minInclusive").or(f("minExclusive")).and_then(|t| b_num(b, &t));
            let hi = f("maxInclusive").or(f("maxExclusive")).and_then(|t| b_num(b, &t));
            let one = BigDecimal::from(1);
            let (lo, hi) = match (lo, hi) {
                (Some(l), Some(h)) => (l, h),
                (Some(l), None) => (l.clone(), l + BigDecimal::from(100)),
                (None, Some(h)) => (h.clone() - BigDecimal::from(100), h),
                (None, None) => (BigDecimal::from(0), BigDecimal::from(100)),
            };
            for _ in 0..200 {
                let v = match r.below(6) {
                    0 => lo.clone(),
                    1 => hi.clone(),
                    2 => lo.clone() + &one,
                    3 => hi.clone() - &one,
                    _ => lo.clone() + BigDecimal::from(r.below(1000)),
                };
                let t = v.to_string();
                if self.facets_hold(base, facets, &t) == Some(true) {
                    return t;
                }
            }
            panic!("no value within {facets:?} of {b}");
        }
        let n = f("length").or(f("minLength")).map_or(1, |t| t.parse::<usize>().unwrap());
        let m = f("length").or(f("maxLength")).map_or(n + 5, |t| t.parse::<usize>().unwrap());
        let k = (n + r.idx(m - n + 1)).max(1);
        (0..k).map(|_| *r.pick(&['a', 'b', 'z', '0', '9'])).collect::<String>().replace('0', "o")
    }
    /// the built-in type a restriction is ultimately based on, None for lists and unions
    pub fn builtin(&self, s: &Sref) -> Option<&'static str> {
        match self.sdef(s) {
            Err(b) => Some(b),
            Ok(Simple::Restr { base, .. }) => self.builtin(base),
            Ok(Simple::Enum { base, .. }) => Some(base),
            Ok(_) => None,
        }
    }
    /// does a text, valid for the base, satisfy the facets; None: not valid for the base
    pub fn facets_hold(&self, base: &Sref, facets: &[(&'static str, String)], t: &str) -> Option<bool> {
        self.key(base, t)?;
        let b = self.builtin(base)?;
        let mut ok = true;
        for (f, v) in facets {
            ok &= match *f {
                "minInclusive" => b_num(b, t)? >= b_num(b, v)?,
                "maxInclusive" => b_num(b, t)? <= b_num(b, v)?,
                "minExclusive" => b_num(b, t)? > b_num(b, v)?,
                "maxExclusive" => b_num(b, t)? < b_num(b, v)?,
                "length" => t.chars().count() == v.parse::<usize>().ok()?,
                "minLength" => t.chars().count() >= v.parse::<usize>().ok()?,
                "maxLength" => t.chars().count() <= v.parse::<usize>().ok()?,
                _ => true,
            };
        }
        Some(ok)
    }
    /// a value of the base around what the facets allow
    pub fn near(&self, base: &Sref, facets: &[(&'static str, String)], r: &mut Rng) -> String {
        let Some(b) = self.builtin(base) else { return self.lex(base, r, false) };
        if numeric(b) && r.chance(3, 4) {
            let bounds: Vec<BigDecimal> = facets.iter().filter(|f| f.0.contains("clusive")).filter_map(|f| b_num(b, &f.1)).collect();
            if !bounds.is_empty() {
                let v = r.pick(&bounds).clone();
                let whole = int_range(b).is_some() || BIG.contains(&b);
                let d = match r.below(8) {
                    0..=2 => BigDecimal::from(0),
                    3 => BigDecimal::from(1),
                    4 => BigDecimal::from(-1),
                    5 if !whole => BigDecimal::from(1) / BigDecimal::from(1 << r.below(10)),
                    6 if !whole => BigDecimal::from(-1) / BigDecimal::from(1 << r.below(10)),
                    _ => BigDecimal::from(r.range(-50, 50)),
                };
                let t = (v + d).to_string();
                if self.key(base, &t).is_some() {
                    return t;
                }
            }
        }
        if (TEXTS.contains(&b) || TOKENS.contains(&b)) && r.chance(3, 4) {
            if let Some(n) = facets.iter().filter(|f| f.0.to_lowercase().ends_with("length")).filter_map(|f| f.1.parse::<i64>().ok()).last() {
                let k = (n + r.range(-2, 2)).max(1);
                return (0..k).map(|_| *r.pick(&['a', 'b', 'z', 'o'])).collect();
            }
        }
        for _ in 0..20 {
            // lengths are counted in bytes: known finding
            let t = self.lex(base, r, false);
            if t.is_ascii() && !t.contains(['<', '&', '>']) {
                return t;
            }
        }
        "a".into()
    }
    pub fn key(&self, s: &Sref, t: &str) -> Option<Value> {
        match self.sdef(s) {
            Err(b) => b_key(b, t).map(Value::from),
            Ok(d) => self.dkey(d, t),
        }
    }
    fn dkey(&self, d: &Simple, t: &str) -> Option<Value> {
        match d {
            Simple::Enum { values, .. } => values.iter().any(|v| v == t.trim()).then(|| json!(t.trim())),
            Simple::Restr { base, .. } => self.key(base, t),
            Simple::List(i) => t.split_ascii_whitespace().map(|x| self.key(i, x)).collect::<Option<Vec<_>>>().map(Value::from),
            // the first member type that has the text in its lexical space
            Simple::Union(m) => m.iter().enumerate().find_map(|(i, m)| self.key(m, t).map(|k| json!([i, k]))),
        }
    }
    /// may a sender add white space around a value
    fn collapses(&self, s: &Sref) -> bool {
        match self.sdef(s) {
            Err(b) => !TEXTS.contains(&b) || b == "token",
            Ok(Simple::Restr { base, .. }) => self.collapses(base),
            Ok(Simple::Enum { base, .. }) => *base != "string",
            Ok(Simple::List(_)) => true,
            Ok(Simple::Union(_)) => false,
        }
    }

    // ------------------------------------------------------------ documents

    /// {"a": {attribute: text}, "c": [[element, text or document]]}
    pub fn doc(&self, c: &Complex, r: &mut Rng, depth: usize) -> Value {
        let mut a = Map::new();
        for at in self.attrs(c) {
            let there = match at.usage {
                "required" => true,
                "prohibited" => false,
                _ => r.chance(1, 2),
            };
            if there {
                a.insert(at.name.clone(), self.lex(&at.ty, r, true).into());
            }
        }
        json!({ "a": a, "c": self.children(c, r, depth) })
    }
    fn children(&self, c: &Complex, r: &mut Rng, depth: usize) -> Vec<Value> {
        let mut out = c.base.map(|b| self.children(&self.complexes[b], r, depth)).unwrap_or_default();
        match &c.content {
            Content::Empty => {}
            Content::All(v) => {
                let mut x = vec![];
                for e in v {
                    self.elem(e, r, depth, &mut x);
                }
                r.shuffle(&mut x);
                out.extend(x);
            }
            Content::Choice(v) => self.elem(r.pick(v), r, depth, &mut out),
            Content::Seq(v) => {
                for p in v {
                    match p {
                        Part::E(e) => self.elem(e, r, depth, &mut out),
                        Part::C(v) => self.elem(r.pick(v), r, depth, &mut out),
                        Part::Any => {}
                    }
                }
            }
        }
        out
    }
    fn elem(&self, e: &Elem, r: &mut Rng, depth: usize, out: &mut Vec<Value>) {
        let most = e.max.unwrap_or(if depth > 2 { 2 } else { 5 }).max(e.min);
        let n = match r.below(4) {
            0 => e.min,
            1 => most,
            _ => r.range(i64::from(e.min), i64::from(most)) as u32,
        };
        for _ in 0..n {
            out.push(json!([e.name, match self.ety(&e.ty) {
                Ty::S(s) => Value::from(self.lex(s, r, false)),
                Ty::C(c) => self.doc(c, r, depth + 1),
            }]));
        }
    }

    /// the smaller documents that are still valid
    pub fn shrink(&self, c: &Complex, d: &Value) -> Vec<Value> {
        let mut out = vec![];
        let attrs = self.attrs(c);
        for at in attrs.iter().filter(|a| a.usage != "required") {
            if d["a"].get(&at.name).is_some() {
                let mut x = d.clone();
                x["a"].as_object_mut().unwrap().remove(&at.name);
                out.push(x);
            }
        }
        let all = d["c"].as_array().cloned().unwrap_or_default();
        let elems = self.elems(c);
        for (i, kid) in all.iter().enumerate() {
            let name = kid[0].as_str().unwrap_or("");
            let Some(e) = elems.iter().find(|e| e.name == name) else { continue };
            let n = all.iter().filter(|k| k[0] == kid[0]).count();
            if n as u32 > e.min {
                let mut x = d.clone();
                x["c"].as_array_mut().unwrap().remove(i);
                out.push(x);
            }
            match self.ety(&e.ty) {
                Ty::C(c) => {
                    for s in self.shrink(c, &kid[1]) {
                        let mut x = d.clone();
                        x["c"][i][1] = s;
                        out.push(x);
                    }
                }
                Ty::S(s) => {
                    for t in self.simpler(s, false) {
                        if kid[1].as_str().is_some_and(|o| t.len() < o.len()) {
                            let mut x = d.clone();
                            x["c"][i][1] = t.into();
                            out.push(x);
                        }
                    }
                }
            }
        }
        for at in attrs {
            if let Some(o) = d["a"][&at.name].as_str() {
                for t in self.simpler(&at.ty, true) {
                    if t.len() < o.len() {
                        let mut x = d.clone();
                        x["a"][&at.name] = t.into();
                        out.push(x);
                    }
                }
            }
        }
        out
    }
    fn simpler(&self, s: &Sref, attr: bool) -> Vec<String> {
        let mut v: Vec<String> = (0..6).map(|k| self.lex(s, &mut Rng::new(k), attr)).collect();
        v.extend(["1", "a", "true", "0"].into_iter().filter(|t| self.key(s, t).is_some() && self.valid(s, t)).map(String::from));
        v.sort_by_key(String::len);
        v.truncate(2);
        v
    }
    fn valid(&self, s: &Sref, t: &str) -> bool {
        match self.sdef(s) {
            Ok(Simple::Restr { base, facets }) => self.valid(base, t) && self.facets_hold(base, facets, t) == Some(true),
            _ => self.key(s, t).is_some(),
        }
    }

    // ------------------------------------------------------------ reference semantics

    /// what a document means: attribute values, and the children of each name in order
    pub fn canon(&self, c: &Complex, d: &Value) -> Result<Value, String> {
        let mut a = Map::new();
        let attrs = self.attrs(c);
        for (n, t) in d["a"].as_object().into_iter().flatten() {
            let at = attrs.iter().find(|x| x.name == *n).ok_or(format!("attribute {n} is not declared"))?;
            let k = self.key(&at.ty, t.as_str().unwrap_or("")).ok_or(format!("attribute {n}: {t} is not valid"))?;
            a.insert(n.clone(), k);
        }
        let mut kids: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        let elems = self.elems(c);
        for k in d["c"].as_array().into_iter().flatten() {
            let n = k[0].as_str().unwrap_or("");
            let e = elems.iter().find(|x| x.name == *n).ok_or(format!("element {n} is not declared"))?;
            let v = match self.ety(&e.ty) {
                Ty::S(s) => self.key(s, k[1].as_str().unwrap_or("")).ok_or(format!("element {n}: {} is not valid", k[1]))?,
                Ty::C(c) => self.canon(c, &k[1]).map_err(|e| format!("{n}/{e}"))?,
            };
            kids.entry(n.to_string()).or_default().push(v);
        }
        Ok(json!({ "a": a, "c": kids }))
    }
    /// reads a received document with an independent XML parser
    pub fn read(&self, c: &Complex, n: roxmltree::Node) -> Result<Value, String> {
        let mut a = Map::new();
        for at in n.attributes() {
            let want = self.attrs(c).iter().any(|x| x.name == at.name() && x.qualified).then_some(URI);
            if at.namespace() != want {
                return Err(format!("attribute {} is in namespace {:?} instead of {want:?}", at.name(), at.namespace()));
            }
            a.insert(at.name().to_string(), at.value().into());
        }
        let elems = self.elems(c);
        let mut kids = vec![];
        for k in n.children() {
            if k.is_text() && !k.text().unwrap_or("").trim().is_empty() {
                return Err(format!("text {:?} in element content", k.text().unwrap_or("")));
            }
            if !k.is_element() {
                continue;
            }
            let name = k.tag_name().name();
            let e = elems.iter().find(|x| x.name == name).ok_or(format!("element {name} is not declared in {}", n.tag_name().name()))?;
            self.in_namespace(&k, self.tns && e.target)?;
            kids.push(json!([name, match self.ety(&e.ty) {
                Ty::S(_) => {
                    if k.children().any(|x| x.is_element()) || k.attributes().next().is_some() {
                        return Err(format!("{name}: markup in a simple value"));
                    }
                    Value::from(k.children().filter(|x| x.is_text()).filter_map(|x| x.text()).collect::<String>())
                }
                Ty::C(c) => self.read(c, k).map_err(|e| format!("{name}/{e}"))?,
            }]));
        }
        Ok(json!({ "a": a, "c": kids }))
    }
    pub fn namespace(&self, n: &roxmltree::Node) -> Result<(), String> {
        self.in_namespace(n, self.tns)
    }
    fn in_namespace(&self, n: &roxmltree::Node, target: bool) -> Result<(), String> {
        let want = target.then_some(URI);
        if n.tag_name().namespace().filter(|n| !n.is_empty()) != want {
            return Err(format!("element {} is in namespace {:?} instead of {want:?}", n.tag_name().name(), n.tag_name().namespace()));
        }
        Ok(())
    }
}

/// exchanged as a plain Rust type
fn plain(t: &Ety) -> bool {
    matches!(t, Ety::S(Sref::B(b)) if TEXTS.contains(b) || int_range(b).is_some() || matches!(*b, "boolean" | "NCName" | "NMTOKEN" | "hexBinary" | "base64Binary"))
}

/// Rust identifiers are compared without case and punctuation
fn norm(s: &str) -> String {
    s.chars().filter(char::is_ascii_alphanumeric).map(|c| c.to_ascii_lowercase()).collect()
}

// ---------------------------------------------------------------- drawing schemas

struct Names {
    used: BTreeSet<String>,
    values: BTreeSet<String>,
    pool: Vec<String>,
    types: Vec<String>,
    /// names of elements and of attributes: the generated reader of an element takes an attribute
    /// of its own name for a child
    kinds: [BTreeSet<String>; 2],
}
pub const SYL: &[&str] = &["ba", "ko", "ri", "ne", "tu", "la", "mi", "so", "du", "ve", "pa", "go", "zi", "fe", "wo", "ny"];
pub const KEYWORDS: &[&str] = &["type", "match", "self", "use", "mod", "async", "ref", "in", "fn", "where", "enum", "box", "loop", "base", "name", "value", "move", "trait", "final", "struct", "try"];

impl Names {
    fn word(&mut self, r: &mut Rng) -> String {
        loop {
            let w: String = (0..2 + r.idx(2)).map(|_| *r.pick(SYL)).collect();
            if self.used.insert(w.clone()) {
                return w;
            }
        }
    }
    fn pascal(&mut self, r: &mut Rng) -> String {
        let w = self.word(r);
        format!("{}{}", w[..1].to_uppercase(), &w[1..])
    }
    /// the name of a type in one of the styles schemas use
    fn type_name(&mut self, r: &mut Rng) -> String {
        let a = self.pascal(r);
        if !self.types.is_empty() && r.chance(1, 5) {
            // parts of other names: FooBar beside Bar
            let old = r.pick(&self.types).clone();
            let old = format!("{}{}", old[..1].to_uppercase(), &old[1..]);
            let n = if r.chance(2, 3) { format!("{a}{old}") } else { format!("{old}{a}") };
            self.types.push(n.clone());
            return n;
        }
        let n = match r.below(8) {
            0 => a.to_lowercase(),
            1 => format!("{a}{}", self.pascal(r)),
            2 => format!("{}-{}", a.to_lowercase(), self.word(r)),
            3 => format!("{a}_{}", self.word(r)),
            4 => format!("{a}{}", 1 + r.below(9)),
            5 => format!("{}{}", a.to_lowercase(), self.pascal(r)),
            _ => a,
        };
        self.types.push(n.clone());
        n
    }
    fn field(&mut self, r: &mut Rng, taken: &BTreeSet<String>, attr: bool) -> String {
        for _ in 0..8 {
            let n = match r.below(14) {
                0 | 1 => (*r.pick(KEYWORDS)).to_string(),
                2 | 3 if !self.pool.is_empty() => r.pick(&self.pool).clone(),
                4 => format!("{}-{}", self.word(r), self.word(r)),
                5 => format!("{}_{}", self.word(r), self.word(r)),
                6 => format!("{}{}", self.word(r), self.pascal(r)),
                7 => self.pascal(r),
                8 => format!("{}{}", self.word(r), 1 + r.below(20)),
                9 => self.word(r).to_uppercase(),
                10 => format!("{}.{}", self.word(r), self.word(r)),
                11 => format!("_{}", self.word(r)),
                _ => self.word(r),
            };
            if !taken.contains(&norm(&n)) && !self.values.contains(&n) && !self.kinds[usize::from(!attr)].contains(&norm(&n)) {
                self.pool.push(n.clone());
                self.kinds[usize::from(attr)].insert(norm(&n));
                return n;
            }
        }
        let n = self.word(r);
        self.pool.push(n.clone());
        self.kinds[usize::from(attr)].insert(norm(&n));
        n
    }
}

pub fn comment(r: &mut Rng) -> Option<String> {
    const C: &[&str] = &["plain", "two\nlines", "*/ }", "// /* \" '", "{} {0} \\n \\", "naïve ☃", "a\r\nb", "&lt;xml&gt; &amp;amp;", "#[derive(X)] }", "r#\"", "   ", "tab\there"];
    r.chance(1, 3).then(|| (0..1 + r.idx(20)).map(|_| if r.chance(1, 20) { crate::textgen::long_word(r) } else { (*r.pick(C)).to_string() }).collect::<Vec<_>>().join(" "))
}

/// what the next type drawn has to be: the combinations are dealt out over the schemas by their index,
/// so that each of them occurs whatever the seed
#[derive(Clone, Copy)]
struct Shape {
    base: bool,
    /// nothing, one element, two, a choice, all
    content: u64,
    attr: bool,
    group: bool,
}
const CARDS: &[(u32, Option<u32>)] = &[(1, Some(1)), (1, Some(1)), (1, Some(1)), (0, Some(1)), (0, Some(1)), (0, None), (1, None), (0, Some(3)), (2, Some(4)), (1, Some(2)), (0, Some(2)), (2, Some(2)), (3, None), (1, Some(9)), (0, Some(0))];
impl Shape {
    const ALL: u64 = 40;
    fn of(i: u64) -> Self {
        Self { base: i % 2 == 0, content: i / 2 % 5, attr: i / 10 % 2 == 1, group: i / 20 % 2 == 1 }
    }
}

struct Draw<'a> {
    s: Schema,
    shape: Option<Shape>,
    n: Names,
    r: &'a mut Rng,
}

pub fn schema(seed: u64, idx: u64) -> Schema {
    draw(&mut Rng::new(seed ^ crate::rng::mix64(idx.wrapping_add(0xE2E))), idx, 1)
}
/// the types of a service: more global elements, to be used by its messages
pub fn service_schema(seed: u64, idx: u64) -> Schema {
    draw(&mut Rng::new(seed ^ crate::rng::mix64(idx.wrapping_add(0x5E2)).rotate_left(7)), idx, 3)
}
fn draw(r: &mut Rng, idx: u64, roots: usize) -> Schema {
    let tns = !r.chance(1, 10);
    // one of the two namespaces may be the default one
    let (xsd, prefix) = match r.below(8) {
        0 => ("", "tns"),
        1 => ("xsd", ""),
        2 => ("xs", ""),
        3 => ("xsd", "t"),
        4 => ("xs", "ns-1"),
        _ => ("xs", "tns"),
    };
    let (xsd, prefix) = if tns { (xsd, prefix) } else { ("xs", "") };
    let both = tns && !prefix.is_empty() && !xsd.is_empty() && r.chance(1, 6);
    let forms = [!r.chance(1, 3), tns && !prefix.is_empty() && r.chance(1, 5)];
    let s = Schema { idx, tns, prefix, both, xsd, forms, simples: vec![], complexes: vec![], groups: vec![], globals: vec![], named: vec![], gattrs: vec![], style: r.next() };
    let mut d = Draw { s, shape: None, n: Names { used: BTreeSet::new(), values: BTreeSet::new(), pool: vec![], types: vec![], kinds: Default::default() }, r };
    for _ in 0..2 + d.r.idx(5) {
        d.simple_type();
    }
    if tns && !prefix.is_empty() {
        for _ in 0..d.r.idx(4) {
            let name = d.n.type_name(d.r);
            if d.n.kinds[0].contains(&norm(&name)) {
                continue;
            }
            d.n.kinds[1].insert(norm(&name));
            let ty = d.sref(true);
            d.s.gattrs.push((name, ty));
        }
    }
    for _ in 0..d.r.idx(4) {
        let g = d.group();
        d.s.groups.push(g);
    }
    for _ in 0..2 + d.r.idx(4) {
        let name = d.n.type_name(d.r);
        let c = d.complex(name, 0, true);
        d.s.complexes.push(c);
        if d.r.chance(1, 3) {
            let name = d.n.type_name(d.r);
            if !d.n.kinds[1].contains(&norm(&name)) {
                d.n.kinds[0].insert(norm(&name));
                let ty = match d.r.chance(1, 2) {
                    true => Ety::C(d.r.idx(d.s.complexes.len())),
                    false => Ety::S(match d.sref(true) {
                        Sref::Anon(_) => Sref::B("int"),
                        s => s,
                    }),
                };
                d.s.named.push((name, ty));
            }
        }
        if d.r.chance(1, 4) {
            let name = d.n.pascal(d.r);
            let c = d.complex(name.clone(), 0, false);
            d.s.globals.push(Global { name, named: None, anon: Some(c) });
        }
    }
    // roots: the names of their Rust types are their own
    for _ in 0..roots + d.r.idx(2 * roots) {
        let name = d.n.pascal(d.r);
        let c = d.complex(name.clone(), 0, true);
        d.s.complexes.push(c);
        let i = d.s.complexes.len() - 1;
        d.s.globals.push(Global { name, named: Some(i), anon: None });
    }
    if roots == 1 {
        d.dealt(idx);
    }
    d.s
}

impl Draw<'_> {
    /// a root type of a shape, and one that holds an element with an anonymous type of a shape and one
    /// with a pairing of bounds and kind of type
    fn dealt(&mut self, idx: u64) {
        self.shape = Some(Shape::of(idx % Shape::ALL));
        let name = self.n.pascal(self.r);
        let c = self.complex(name.clone(), 0, true);
        self.root(name, c);
        let name = self.n.pascal(self.r);
        let mut taken = BTreeSet::new();
        self.shape = Some(Shape::of(idx.wrapping_mul(7).wrapping_add(3) % Shape::ALL));
        let anon = Ety::Anon(Box::new(self.complex(String::new(), 1, false)));
        let first = self.element_of(anon, &mut taken, None);
        let kind = idx / CARDS.len() as u64 % 6;
        let simple = |d: &Self, f: fn(&Simple) -> bool| d.s.simples.iter().position(|t| f(&t.def)).map(|i| Ety::S(Sref::T(i)));
        let ty = match kind {
            0 => None,
            1 => simple(self, |d| matches!(d, Simple::Enum { .. })),
            2 => simple(self, |d| matches!(d, Simple::List(_))),
            3 => simple(self, |d| matches!(d, Simple::Union(_))),
            4 => simple(self, |d| matches!(d, Simple::Restr { .. })),
            _ => Some(Ety::C(self.r.idx(self.s.complexes.len()))),
        };
        let ty = match ty {
            Some(t) => t,
            None => Ety::S(Sref::B(self.builtin())),
        };
        let mut second = self.element_of(ty, &mut taken, None);
        (second.min, second.max) = CARDS[(idx % CARDS.len() as u64) as usize];
        let parts = if idx % 2 == 0 { vec![first, second] } else { vec![second, first] };
        let c = Complex { name: name.clone(), base: None, restricts: None, content: Content::Seq(parts.into_iter().map(Part::E).collect()), attrs: vec![], groups: vec![], any_attr: false, doc: None };
        self.root(name, c);
    }
    fn root(&mut self, name: String, c: Complex) {
        self.s.complexes.push(c);
        self.s.globals.push(Global { name, named: Some(self.s.complexes.len() - 1), anon: None });
    }
    fn values(&mut self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut seen = BTreeSet::new();
        for _ in 0..1 + self.r.idx(5) {
            let w = self.n.word(self.r);
            let x = match self.r.below(7) {
                0 => w.to_uppercase(),
                1 => format!("{w}-{}", self.n.word(self.r)),
                2 => format!("{}{w}", self.r.below(10)),
                3 => format!("{}", self.r.below(1000)),
                4 => (*self.r.pick(&["None", "Some", "Ok", "Self", "type", "String", "Vec", "Default"])).to_string(),
                _ => w,
            };
            let k = norm(&x);
            if seen.insert(k.clone()) && !self.n.pool.contains(&x) {
                self.n.used.insert(k);
                self.n.values.insert(x.clone());
                v.push(x);
            }
        }
        if v.is_empty() {
            let w = self.n.word(self.r).to_uppercase();
            self.n.values.insert(w.clone());
            v.push(w);
        }
        // values whose names collide or are empty, as plain text as well
        if self.r.chance(1, 6) {
            let a = self.r.pick(&v).clone();
            let mut c = a.chars();
            let x = match self.r.below(7) {
                0 => a.to_uppercase(),
                1 => a.to_lowercase(),
                2 => c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default(),
                3 => a.replace('-', ""),
                4 => format!("{a}é"),
                5 => format!("{a}-"),
                _ => (*self.r.pick(&["-", "--", "é", "ü-1"])).to_string(),
            };
            if !v.contains(&x) {
                v.insert(self.r.idx(v.len() + 1), x);
            }
        }
        // a value that is no name makes the type a plain text
        if self.r.chance(1, 3) {
            for _ in 0..1 + self.r.idx(2) {
                let a = if self.r.chance(1, 2) { self.r.pick(&v).clone() } else { self.n.word(self.r) };
                let b = self.n.word(self.r);
                let c = match self.r.below(2) {
                    0 => *self.r.pick(&['.', '_', ':', '.', '_']),
                    _ => *self.r.pick(&['/', '#', '+', '*', '@', ',', ' ', '\'', '&', '<', '%', '{', '}', '\\', '"', 'é', '\u{2011}']),
                };
                let x = match (self.r.below(8), c) {
                    (0, _) => format!("http://{a}.example/{b}#x"),
                    (7, _) => format!("t:{a}"),
                    (1 | 2, ' ') | (3 | 4, _) => format!("{a}{c}{b}"),
                    (5 | 6, ' ') => format!("{a} {b} {a}"),
                    (1 | 2, _) => format!("{c}{a}"),
                    _ => format!("{a}{c}"),
                };
                if !v.contains(&x) {
                    let at = self.r.idx(v.len() + 1);
                    v.insert(at, x);
                }
            }
        }
        v
    }
    fn builtin(&mut self) -> &'static str {
        match self.r.below(10) {
            0 | 1 => self.r.pick(INTS).0,
            2 => self.r.pick(BIG),
            3 | 4 => self.r.pick(TIMES),
            5 => self.r.pick(TOKENS),
            6 => self.r.pick(&["boolean", "decimal", "double", "float"]),
            _ => self.r.pick(TEXTS),
        }
    }
    fn facets(&mut self, b: &'static str) -> Vec<(&'static str, String)> {
        let r = &mut *self.r;
        let mut f: Vec<(&'static str, String)> = vec![];
        if numeric(b) {
            let (lo, hi) = int_range(b).unwrap_or(match b {
                "positiveInteger" => (1, 100_000),
                "nonNegativeInteger" => (0, 100_000),
                "negativeInteger" => (-100_000, -1),
                "nonPositiveInteger" => (-100_000, 0),
                _ => (-100_000, 100_000),
            });
            let wide = int_range(b).is_some() && r.chance(1, 3);
            let (lo, hi) = if wide { (lo, hi) } else { (lo.max(-1_000_000), hi.min(1_000_000)) };
            // the bounds people write, and those where signs, widths and conversions matter
            let edge = |r: &mut Rng| *r.pick(&[0, 0, 1, -1, 9, 10, 99, 127, 128, 255, 256, -128, 32_767, 65_535, lo, lo + 1, hi - 4, hi - 5]);
            let a = match edge(r) {
                e if e >= lo && e <= hi - 4 && r.chance(1, 2) => e,
                _ => lo + i128::from(r.below((hi - lo - 5) as u64)),
            };
            let z = match edge(r) {
                e if e >= a + 4 && e <= hi && r.chance(1, 2) => e,
                _ if r.chance(1, 5) => hi.max(a + 4),
                _ => a + 4 + i128::from(r.below((hi - a - 4).max(1) as u64)),
            };
            let frac = |r: &mut Rng| if int_range(b).is_none() && !BIG.contains(&b) && r.chance(1, 3) { format!(".{}", 1 + r.below(9)) } else { String::new() };
            if r.chance(3, 4) {
                f.push((*r.pick(&["minInclusive", "minExclusive"]), format!("{a}{}", if a >= 0 { frac(r) } else { String::new() })));
            }
            if r.chance(3, 4) {
                f.push((*r.pick(&["maxInclusive", "maxExclusive"]), format!("{z}{}", if z >= 0 { frac(r) } else { String::new() })));
            }
            if r.chance(1, 5) {
                f.push(("totalDigits", "30".into()));
            }
        } else if TEXTS.contains(&b) || matches!(b, "NCName" | "NMTOKEN" | "ID" | "Name") {
            match r.below(5) {
                0 => f.push(("length", format!("{}", 1 + r.below(12)))),
                1 => f.push(("minLength", format!("{}", r.below(5)))),
                2 => f.push(("maxLength", format!("{}", 1 + r.below(20)))),
                3 => {
                    let n = r.below(5);
                    f.push(("minLength", n.to_string()));
                    f.push(("maxLength", format!("{}", n.max(1) + r.below(10))));
                }
                _ => {}
            }
            if r.chance(1, 4) {
                f.push(("whiteSpace", "collapse".into()));
            }
            if r.chance(1, 4) {
                f.push(("pattern", ".*".into()));
            }
        }
        r.shuffle(&mut f);
        f
    }
    fn simple_type(&mut self) {
        let name = self.n.pascal(self.r);
        let doc = comment(self.r);
        // generated enums have no text form outside documents: known finding
        let named: Vec<usize> = (0..self.s.simples.len()).filter(|i| !self.is_enum(*i)).collect();
        let def = match self.r.below(10) {
            0..=2 => {
                let values = self.values();
                let nmtokens = values.iter().all(|v| v.chars().all(|c| c.is_alphanumeric() || "-._:".contains(c)));
                let base = self.r.pick(&["string", "string", "NMTOKEN", "token"]);
                Simple::Enum { base: if *base == "NMTOKEN" && !nmtokens { "token" } else { base }, values }
            }
            3..=5 => {
                let b = self.builtin();
                Simple::Restr { base: Sref::B(b), facets: self.facets(b) }
            }
            6 if named.iter().any(|i| !self.is_union(*i)) => {
                let v: Vec<usize> = named.iter().copied().filter(|i| !self.is_union(*i)).collect();
                Simple::Restr { base: Sref::T(*self.r.pick(&v)), facets: vec![] }
            }
            7 | 8 => Simple::List(self.item()),
            _ => {
                let n = 1 + self.r.idx(4);
                let mut v: Vec<Sref> = vec![];
                for _ in 0..n {
                    // a member that takes any text comes last
                    let m = match self.r.below(6) {
                        0 => Sref::B("boolean"),
                        1 => Sref::B(self.r.pick(INTS).0),
                        2 => Sref::B(self.r.pick(&["decimal", "integer", "date", "dateTime", "double"])),
                        3 | 4 if !named.is_empty() => Sref::T(*self.r.pick(&named)),
                        _ => Sref::B("date"),
                    };
                    // 4.0 is a double, but the generated code sends it as 4: no other number beside one
                    let real = |b: Option<&str>| matches!(b, Some("decimal" | "double" | "float"));
                    let (b, others): (_, Vec<_>) = (self.s.builtin(&m), v.iter().map(|m| self.s.builtin(m)).collect());
                    let clash = others.iter().any(|o| o.is_some_and(numeric) && b.is_some_and(numeric) && (real(*o) || real(b)));
                    if !clash && self.member(&m) && !v.iter().any(|x| format!("{x:?}") == format!("{m:?}")) {
                        v.push(m);
                    }
                }
                if self.r.chance(1, 3) {
                    v.push(Sref::B("string"));
                }
                for b in ["gYear", "duration"] {
                    if self.r.chance(1, 4) {
                        v.push(Sref::Anon(Box::new(Simple::Restr { base: Sref::B(b), facets: vec![] })));
                    }
                }
                if v.is_empty() {
                    v.push(Sref::B("int"));
                }
                // memberTypes come before nested types, whatever the order in the document
                v.sort_by_key(|m| matches!(m, Sref::Anon(_)));
                if let Some(p) = v.iter().position(|m| matches!(m, Sref::B("string"))) {
                    if p + 1 < v.len() {
                        v.remove(p);
                    }
                }
                Simple::Union(v)
            }
        };
        self.s.simples.push(SimpleTy { name, def, doc });
    }
    fn is_enum(&self, i: usize) -> bool {
        match &self.s.simples[i].def {
            Simple::Enum { .. } => true,
            Simple::Restr { base: Sref::T(b), .. } => self.is_enum(*b),
            _ => false,
        }
    }
    /// generated enums of a union have no text form outside documents either
    fn is_union(&self, i: usize) -> bool {
        match &self.s.simples[i].def {
            Simple::Union(_) => true,
            Simple::Restr { base: Sref::T(b), .. } => self.is_union(*b),
            _ => false,
        }
    }
    /// can a type be a member of a union next to others
    fn member(&self, m: &Sref) -> bool {
        match self.s.sdef(m) {
            Err(b) => !TEXTS.contains(&b),
            Ok(Simple::Restr { base, facets }) => facets.is_empty() && self.member(base) && self.s.builtin(base).is_some_and(|b| !TOKENS.contains(&b)),
            Ok(_) => false,
        }
    }
    /// item type of a list
    fn item(&mut self) -> Sref {
        let named: Vec<usize> = (0..self.s.simples.len())
            .filter(|i| {
                let s = Sref::T(*i);
                match &self.s.simples[*i].def {
                    Simple::Restr { .. } if !self.is_enum(*i) => self.s.builtin(&s).is_some_and(|b| !TEXTS.contains(&b)),
                    _ => false,
                }
            })
            .collect();
        match self.r.below(6) {
            0 | 1 if !named.is_empty() => Sref::T(*self.r.pick(&named)),
            2 => Sref::Anon(Box::new(Simple::Restr { base: Sref::B(self.r.pick(TIMES)), facets: vec![] })),
            _ => loop {
                let b = self.builtin();
                if !TEXTS.contains(&b) {
                    return Sref::B(b);
                }
            },
        }
    }
    fn sref(&mut self, attr: bool) -> Sref {
        let named = self.s.simples.len();
        match self.r.below(8) {
            0..=2 if named > 0 => Sref::T(self.r.idx(named)),
            3 if !attr && self.r.chance(1, 2) => {
                let def = match self.r.below(3) {
                    0 => Simple::Enum { base: "string", values: self.values() },
                    1 => Simple::List(Sref::B(self.r.pick(INTS).0)),
                    _ => {
                        let b = self.builtin();
                        Simple::Restr { base: Sref::B(b), facets: self.facets(b) }
                    }
                };
                Sref::Anon(Box::new(def))
            }
            3 if self.r.chance(1, 2) => Sref::Anon(Box::new(Simple::Restr { base: Sref::B("string"), facets: vec![("maxLength", "40".into())] })),
            _ => Sref::B(self.builtin()),
        }
    }
    fn attr(&mut self, taken: &mut BTreeSet<String>) -> Attr {
        if !self.s.gattrs.is_empty() && self.r.chance(1, 4) {
            let (name, ty) = self.r.pick(&self.s.gattrs).clone();
            if taken.insert(norm(&name)) {
                let usage = *self.r.pick(&["", "optional", "required"]);
                return Attr { name, ty, usage, global: true, qualified: true };
            }
        }
        let name = self.n.field(self.r, taken, true);
        taken.insert(norm(&name));
        let usage = *self.r.pick(&["", "", "optional", "required", "required", "prohibited"]);
        // without a prefix for the target namespace there is none to generate
        let qualified = self.s.forms[1] != (self.s.tns && !self.s.prefix.is_empty() && self.r.chance(1, 12));
        Attr { name, ty: self.sref(true), usage, global: false, qualified }
    }
    fn group(&mut self) -> Group {
        let name = self.n.type_name(self.r);
        let mut taken = BTreeSet::new();
        // attributes of groups never clash with anything
        let attrs = (0..1 + self.r.idx(3))
            .map(|_| {
                let mut a = self.attr(&mut taken);
                a.name = format!("g-{}", self.n.word(self.r));
                (a.global, a.qualified) = (false, self.s.forms[1]);
                a
            })
            .collect();
        let groups = if !self.s.groups.is_empty() && self.r.chance(1, 3) { vec![self.r.idx(self.s.groups.len())] } else { vec![] };
        Group { name, attrs, groups }
    }
    fn all_groups(&self, g: &[usize], out: &mut BTreeSet<usize>) {
        for g in g {
            out.insert(*g);
            self.all_groups(&self.s.groups[*g].groups.clone(), out);
        }
    }
    fn type_groups(&self, c: &Complex, out: &mut BTreeSet<usize>) {
        self.all_groups(&c.groups, out);
        if let Some(b) = c.base {
            self.type_groups(&self.s.complexes[b], out);
        }
    }
    /// a type that restricts another one: elements and attributes made mandatory or left out
    fn restriction(&mut self, name: String) -> Option<Complex> {
        let v: Vec<usize> = (0..self.s.complexes.len())
            .filter(|i| {
                let c = &self.s.complexes[*i];
                c.base.is_none() && c.restricts.is_none() && self.s.choices(c) == 0 && !matches!(c.content, Content::All(_))
            })
            .collect();
        if v.is_empty() {
            return None;
        }
        let b = *self.r.pick(&v);
        let of = self.s.complexes[b].clone();
        let mut c = Complex { name, restricts: Some(b), attrs: vec![], groups: vec![], any_attr: self.r.chance(1, 4), doc: comment(self.r), ..of.clone() };
        if let Content::Seq(parts) = &mut c.content {
            parts.retain_mut(|p| {
                let Part::E(e) = p else { return true };
                match (e.min, e.max) {
                    (0, _) if self.r.chance(1, 4) => return false,
                    (0, m) if m != Some(0) && self.r.chance(1, 4) => e.min = 1,
                    (0 | 1, None) if self.r.chance(1, 4) => e.max = Some(1 + self.r.below(3) as u32),
                    _ => {}
                }
                true
            });
        }
        for a in &of.attrs {
            if self.r.chance(1, 2) {
                let usage = match a.usage {
                    "required" | "prohibited" => a.usage,
                    u => *self.r.pick(&[u, "required", if a.global { "optional" } else { "prohibited" }]),
                };
                c.attrs.push(Attr { usage, ..a.clone() });
            }
        }
        Some(c)
    }
    fn complex(&mut self, name: String, depth: usize, named: bool) -> Complex {
        if self.shape.is_none() && self.r.chance(1, 8) {
            if let Some(c) = self.restriction(name.clone()) {
                return c;
            }
        }
        let mut c = Complex { name, base: None, restricts: None, content: Content::Empty, attrs: vec![], groups: vec![], any_attr: self.r.chance(1, 12), doc: comment(self.r) };
        let mut taken = BTreeSet::new();
        let shape = self.shape.take();
        let bases: Vec<usize> = match shape {
            Some(s) if !s.base => vec![],
            Some(_) => {
                let v: Vec<usize> = (0..self.s.complexes.len()).filter(|i| { let c = &self.s.complexes[*i]; !matches!(c.content, Content::All(_)) && !self.s.lossy(c) && self.s.choices(c) == 0 }).collect();
                // one that has something to pass on
                let full: Vec<usize> = v.iter().copied().filter(|i| !self.s.elems(&self.s.complexes[*i]).is_empty()).collect();
                if full.is_empty() { v } else { full }
            }
            None if self.r.chance(1, 3) => (0..self.s.complexes.len()).collect(),
            None => vec![],
        };
        if !bases.is_empty() {
            let b = *self.r.pick(&bases);
            c.base = Some(b);
            let base = &self.s.complexes[b];
            taken.extend(self.s.elems(base).iter().map(|e| norm(&e.name)));
            taken.extend(self.s.attrs(base).iter().map(|a| norm(&a.name)));
            let mut r = BTreeSet::new();
            self.s.reach(base, &mut r);
            taken.extend(r);
        }
        let _ = named;
        for _ in 0..shape.map_or_else(|| self.r.idx(4), |s| s.attr as usize) {
            let a = self.attr(&mut taken);
            c.attrs.push(a);
        }
        if !self.s.groups.is_empty() && shape.map_or_else(|| self.r.chance(1, 3), |s| s.group) {
            let mut have = BTreeSet::new();
            self.type_groups(&c, &mut have);
            for _ in 0..1 + self.r.idx(2) {
                let g = self.r.idx(self.s.groups.len());
                let mut with = BTreeSet::new();
                self.all_groups(&[g], &mut with);
                if have.is_disjoint(&with) {
                    have.extend(with);
                    c.groups.push(g);
                }
            }
        }
        c.content = match shape.map_or_else(|| self.r.below(10), |s| [0, 10, 11, 2, 1][s.content as usize]) {
            0 => Content::Empty,
            n @ (10 | 11) => Content::Seq((10..=n).map(|_| Part::E(self.element(&mut taken, depth + 1, None))).collect()),
            1 => Content::All((0..1 + self.r.idx(4)).map(|_| self.element(&mut taken, depth, Some((0, 1)))).collect()),
            2 | 3 => Content::Choice((0..1 + self.r.idx(4)).map(|_| self.element(&mut taken, depth, Some((1, 1)))).collect()),
            _ => {
                let n = 1 + self.r.idx(if depth > 0 { 3 } else { 5 });
                let mut v: Vec<Part> = (0..n).map(|_| Part::E(self.element(&mut taken, depth, None))).collect();
                if self.r.chance(1, 5) {
                    let ch = (0..1 + self.r.idx(3)).map(|_| self.element(&mut taken, depth, Some((1, 1)))).collect();
                    let at = self.r.idx(v.len() + 1);
                    v.insert(at, Part::C(ch));
                }
                if self.r.chance(1, 12) {
                    v.push(Part::Any);
                }
                Content::Seq(v)
            }
        };
        // the content of an all group cannot be extended
        if c.base.is_some() && matches!(c.content, Content::All(_)) {
            c.content = Content::Empty;
        }
        if let Some(b) = c.base {
            if matches!(self.s.complexes[b].content, Content::All(_)) {
                c.base = None;
            }
        }
        // yaserde loses a choice as soon as the document has an element of a structured type beside it
        if c.base.is_some() && (self.s.lossy(&c) || self.s.mixed(&c)) {
            c.base = None;
        }
        if self.s.lossy(&c) {
            if let Content::Seq(v) = &mut c.content {
                for p in v {
                    match p {
                        Part::E(e) if !plain(&e.ty) => {
                            if matches!(e.ty, Ety::Ref(_) | Ety::Named(_)) {
                                e.name = self.n.field(self.r, &taken, false);
                                taken.insert(norm(&e.name));
                            }
                            e.ty = Ety::S(Sref::B(self.r.pick(&["string", "int", "boolean", "token", "unsignedByte"])));
                        }
                        _ => {}
                    }
                }
            }
        }
        c
    }
    /// card: bounds the context imposes
    fn element(&mut self, taken: &mut BTreeSet<String>, depth: usize, card: Option<(u32, u32)>) -> Elem {
        let choice = card == Some((1, 1));
        let ty = match self.r.below(10) {
            0..=2 if !self.s.complexes.is_empty() => {
                // yaserde does not write the attributes of a choice's members
                let v: Vec<usize> = (0..self.s.complexes.len()).filter(|i| !choice || self.s.attrs(&self.s.complexes[*i]).is_empty()).collect();
                match v.is_empty() {
                    true => Ety::S(Sref::B("string")),
                    false => Ety::C(*self.r.pick(&v)),
                }
            }
            3 if depth < 2 => {
                let mut c = self.complex(String::new(), depth + 1, false);
                if choice {
                    (c.attrs, c.groups) = (vec![], vec![]);
                }
                match choice && !self.s.attrs(&c).is_empty() {
                    true => Ety::S(Sref::B("string")),
                    false => Ety::Anon(Box::new(c)),
                }
            }
            4 if self.r.chance(1, 2) && !self.s.named.is_empty() => {
                let v: Vec<usize> = (0..self.s.named.len())
                    .filter(|i| match self.s.ety(&self.s.named[*i].1) {
                        Ty::C(c) => !choice || self.s.attrs(c).is_empty(),
                        Ty::S(_) => true,
                    })
                    .collect();
                match v.is_empty() {
                    true => Ety::S(Sref::B("string")),
                    false => Ety::Named(*self.r.pick(&v)),
                }
            }
            4 if self.s.globals.iter().any(|g| g.anon.is_some()) => {
                let v: Vec<usize> = (0..self.s.globals.len()).filter(|g| self.s.globals[*g].anon.as_ref().is_some_and(|c| !choice || self.s.attrs(c).is_empty())).collect();
                match v.is_empty() {
                    true => Ety::S(Sref::B("string")),
                    false => Ety::Ref(*self.r.pick(&v)),
                }
            }
            _ => Ety::S(self.sref(false)),
        };
        self.element_of(ty, taken, card)
    }
    fn element_of(&mut self, ty: Ety, taken: &mut BTreeSet<String>, card: Option<(u32, u32)>) -> Elem {
        let mut below = taken.clone();
        if let Ty::C(c) = self.s.ety(&ty) {
            let mut r = BTreeSet::new();
            self.s.reach(c, &mut r);
            below.extend(r);
        }
        let name = match &ty {
            Ety::Ref(g) => self.s.globals[*g].name.clone(),
            Ety::Named(g) => self.s.named[*g].0.clone(),
            _ => self.n.field(self.r, &below, false),
        };
        let (name, ty) = if matches!(ty, Ety::Ref(_) | Ety::Named(_)) && below.contains(&norm(&name)) {
            (self.n.field(self.r, taken, false), Ety::S(Sref::B("string")))
        } else {
            (name, ty)
        };
        // names below may not come again beside it: the generated readers cannot tell them apart
        taken.insert(norm(&name));
        if let Ty::C(c) = self.s.ety(&ty) {
            let mut r = BTreeSet::new();
            self.s.reach(c, &mut r);
            taken.extend(r);
        }
        let (min, max) = match card {
            Some((1, 1)) => (1, Some(1)),
            Some(_) => (self.r.below(2) as u32, Some(1)),
            None => *self.r.pick(CARDS),
        };
        let target = matches!(ty, Ety::Ref(_) | Ety::Named(_)) || self.s.forms[0] != self.r.chance(1, 12);
        Elem { name, ty, min, max, target, doc: comment(self.r) }
    }
}

// ---------------------------------------------------------------- the schema as text

struct W<'a> {
    s: &'a Schema,
    r: Rng,
    o: String,
}

pub fn esc(t: &str) -> String {
    t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

impl Schema {
    fn q(&self, n: &str) -> String {
        let plain = self.both && crate::rng::hash_bytes(n.as_bytes()).wrapping_add(self.style) % 3 == 0;
        if self.prefix.is_empty() || !self.tns || plain { n.to_string() } else { format!("{}:{n}", self.prefix) }
    }
    pub fn xs(&self, n: &str) -> String {
        if self.xsd.is_empty() { n.to_string() } else { format!("{}:{n}", self.xsd) }
    }
    fn sref(&self, s: &Sref) -> Option<String> {
        match s {
            Sref::B(b) => Some(self.xs(b)),
            Sref::T(i) => Some(self.q(&self.simples[*i].name)),
            Sref::Anon(_) => None,
        }
    }
    pub fn xsd_text(&self) -> String {
        let mut w = W { s: self, r: Rng::new(self.style), o: String::new() };
        w.schema();
        w.o
    }
}

impl W<'_> {
    fn nl(&mut self, d: usize) {
        self.o.push('\n');
        self.o.push_str(&" ".repeat(2 * d));
        if self.r.chance(1, 40) {
            self.o.push_str("<!-- a comment -->");
        }
    }
    fn open(&mut self, d: usize, tag: &str, attrs: &[(&str, String)], empty: bool) {
        self.nl(d);
        let mut a: Vec<_> = attrs.to_vec();
        if self.r.chance(1, 5) {
            self.r.shuffle(&mut a);
        }
        self.o.push_str(&format!("<{}", self.s.xs(tag)));
        for (n, v) in a {
            let q = if self.r.chance(1, 6) && !v.contains('\'') { '\'' } else { '"' };
            self.o.push_str(&format!(" {n}={q}{}{q}", esc(&v)));
        }
        self.o.push_str(if empty { "/>" } else { ">" });
    }
    /// an empty element, in one of the ways there are
    fn empty(&mut self, d: usize, tag: &str, a: &[(&str, String)]) {
        match self.r.below(16) {
            0 => {
                self.open(d, tag, a, false);
                self.doc(d + 1, &Some("A note".into()));
                self.close(d, tag);
            }
            1 => {
                self.open(d, tag, a, false);
                self.close(d, tag);
            }
            _ => self.open(d, tag, a, true),
        }
    }
    fn close(&mut self, d: usize, tag: &str) {
        self.nl(d);
        self.o.push_str(&format!("</{}>", self.s.xs(tag)));
    }
    fn doc(&mut self, d: usize, t: &Option<String>) {
        if let Some(t) = t {
            self.open(d, "annotation", &[], false);
            if self.r.chance(1, 10) {
                self.open(d + 1, "appinfo", &[("source", "urn:info".into())], false);
                self.o.push_str(self.r.pick(&["<x:info xmlns:x=\"urn:x\">12</x:info>", "plain", "<element name=\"NoElement\"/>"]));
                self.o.push_str(&format!("</{}>", self.s.xs("appinfo")));
            }
            for again in 0.. {
                let a: &[(&str, String)] = if self.r.chance(1, 8) { &[("xml:lang", "en".into())] } else { &[] };
                self.open(d + 1, "documentation", a, false);
                if self.r.chance(1, 12) {
                    self.o.push_str("<p xmlns=\"http://www.w3.org/1999/xhtml\">Some <b>text</b> &amp; more</p>");
                }
                self.o.push_str(&esc(t));
                self.o.push_str(&format!("</{}>", self.s.xs("documentation")));
                if again > 1 || !self.r.chance(1, 10) {
                    break;
                }
            }
            self.close(d, "annotation");
        }
    }
    /// an annotation where hardly anybody writes one
    fn note(&mut self, d: usize) {
        if self.r.chance(1, 12) {
            let t = comment(&mut self.r).or(Some("A note".into()));
            self.doc(d, &t);
        }
    }
    fn schema(&mut self) {
        if self.r.chance(1, 2) {
            self.o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        }
        let mut ns = vec![(if self.s.xsd.is_empty() { "xmlns".into() } else { format!("xmlns:{}", self.s.xsd) }, "http://www.w3.org/2001/XMLSchema".to_string())];
        if self.s.tns {
            ns.push((if self.s.prefix.is_empty() { "xmlns".into() } else { format!("xmlns:{}", self.s.prefix) }, URI.to_string()));
            ns.push(("targetNamespace".into(), URI.to_string()));
        }
        if self.s.both {
            let at = self.r.idx(ns.len() + 1);
            ns.insert(at, ("xmlns".into(), URI.to_string()));
        }
        if self.r.chance(1, 5) {
            let at = self.r.idx(ns.len() + 1);
            ns.insert(at, ("xmlns:other".into(), "http://example.com/other".into()));
        }
        if self.r.chance(1, 8) {
            ns.push(("version".into(), "1.0".into()));
        }
        for (what, qualified) in ["elementFormDefault", "attributeFormDefault"].into_iter().zip(self.s.forms) {
            if qualified {
                ns.push((what.into(), "qualified".into()));
            } else if self.r.chance(1, 3) {
                ns.push((what.into(), "unqualified".into()));
            }
        }
        let a: Vec<(&str, String)> = ns.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
        self.open(0, "schema", &a, false);
        // declarations come in any order
        let mut order: Vec<(u8, usize)> = vec![];
        order.extend((0..self.s.simples.len()).map(|i| (0, i)));
        order.extend((0..self.s.complexes.len()).map(|i| (1, i)));
        order.extend((0..self.s.groups.len()).map(|i| (2, i)));
        order.extend((0..self.s.globals.len()).map(|i| (3, i)));
        order.extend((0..self.s.gattrs.len()).map(|i| (4, i)));
        order.extend((0..self.s.named.len()).map(|i| (5, i)));
        match self.r.below(4) {
            0 => {}
            1 => order.reverse(),
            _ => self.r.shuffle(&mut order),
        }
        let s = self.s;
        for (k, i) in order {
            self.note(1);
            match k {
                0 => {
                    let t = &s.simples[i];
                    self.simple(1, Some(&t.name), &t.def, &t.doc);
                }
                1 => self.complex(1, Some(&s.complexes[i].name), &s.complexes[i]),
                2 => {
                    let g = &s.groups[i];
                    self.open(1, "attributeGroup", &[("name", g.name.clone())], false);
                    self.note(2);
                    self.attrs(2, &g.attrs, &g.groups, false);
                    self.close(1, "attributeGroup");
                }
                4 => {
                    let (name, ty) = &s.gattrs[i];
                    match s.sref(ty) {
                        Some(t) => self.open(1, "attribute", &[("name", name.clone()), ("type", t)], true),
                        None => {
                            self.open(1, "attribute", &[("name", name.clone())], false);
                            self.anon(2, ty);
                            self.close(1, "attribute");
                        }
                    }
                }
                5 => {
                    let (name, ty) = &s.named[i];
                    let t = match ty {
                        Ety::C(i) => s.q(&s.complexes[*i].name),
                        Ety::S(t) => s.sref(t).expect("named"),
                        _ => unreachable!(),
                    };
                    self.open(1, "element", &[("name", name.clone()), ("type", t)], true);
                }
                _ => {
                    let g = &s.globals[i];
                    match (&g.anon, g.named) {
                        (Some(c), _) => {
                            self.open(1, "element", &[("name", g.name.clone())], false);
                            self.note(2);
                            self.complex(2, None, c);
                            self.close(1, "element");
                        }
                        (None, Some(t)) => self.open(1, "element", &[("name", g.name.clone()), ("type", s.q(&s.complexes[t].name))], true),
                        _ => unreachable!(),
                    }
                }
            }
        }
        self.close(0, "schema");
        self.o.push('\n');
    }
    fn simple(&mut self, d: usize, name: Option<&str>, def: &Simple, doc: &Option<String>) {
        let a: Vec<(&str, String)> = name.map(|n| ("name", n.to_string())).into_iter().collect();
        self.open(d, "simpleType", &a, false);
        self.doc(d + 1, doc);
        let s = self.s;
        match def {
            Simple::Enum { base, values } => {
                self.open(d + 1, "restriction", &[("base", s.xs(base))], false);
                self.note(d + 2);
                for v in values {
                    self.facet(d + 2, "enumeration", v);
                }
                self.close(d + 1, "restriction");
            }
            Simple::Restr { base, facets } => {
                let b = s.sref(base).expect("named base");
                if facets.is_empty() && self.r.chance(1, 2) {
                    self.open(d + 1, "restriction", &[("base", b)], true);
                } else {
                    self.open(d + 1, "restriction", &[("base", b)], false);
                    self.note(d + 2);
                    for (f, v) in facets {
                        self.facet(d + 2, f, v);
                    }
                    self.close(d + 1, "restriction");
                }
            }
            Simple::List(i) => match s.sref(i) {
                Some(n) => self.open(d + 1, "list", &[("itemType", n)], true),
                None => {
                    self.open(d + 1, "list", &[], false);
                    self.note(d + 2);
                    self.anon(d + 2, i);
                    self.close(d + 1, "list");
                }
            },
            Simple::Union(m) => {
                let names: Vec<String> = m.iter().filter_map(|m| s.sref(m)).collect();
                let a: Vec<(&str, String)> = if names.is_empty() { vec![] } else { vec![("memberTypes", names.join(self.r.pick(&[" ", " ", " ", "  ", "\n    "])))] };
                let anon: Vec<&Sref> = m.iter().filter(|m| matches!(m, Sref::Anon(_))).collect();
                self.open(d + 1, "union", &a, anon.is_empty());
                if !anon.is_empty() {
                    self.note(d + 2);
                    for m in anon {
                        self.anon(d + 2, m);
                    }
                    self.close(d + 1, "union");
                }
            }
        }
        self.close(d, "simpleType");
    }
    fn facet(&mut self, d: usize, f: &str, v: &str) {
        let c = comment(&mut self.r);
        self.open(d, f, &[("value", v.to_string())], c.is_none());
        if c.is_some() {
            self.doc(d + 1, &c);
            self.close(d, f);
        }
    }
    fn anon(&mut self, d: usize, s: &Sref) {
        if let Sref::Anon(def) = s {
            self.simple(d, None, def, &None);
        }
    }
    fn attrs(&mut self, d: usize, attrs: &[Attr], groups: &[usize], any: bool) {
        let s = self.s;
        let mut o: Vec<(bool, usize)> = (0..attrs.len()).map(|i| (true, i)).collect();
        o.extend((0..groups.len()).map(|i| (false, i)));
        self.r.shuffle(&mut o);
        for (is_attr, i) in o {
            if is_attr {
                let at = &attrs[i];
                let t = s.sref(&at.ty);
                let mut a = vec![("name", at.name.clone())];
                a.extend(t.clone().map(|t| ("type", t)));
                if at.global {
                    a = vec![("ref", format!("{}:{}", s.prefix, at.name))];
                    if !at.usage.is_empty() {
                        a.push(("use", at.usage.to_string()));
                    }
                    self.open(d, "attribute", &a, true);
                    continue;
                }
                if !at.usage.is_empty() {
                    a.push(("use", at.usage.to_string()));
                }
                if at.qualified != self.s.forms[1] || self.r.chance(1, 12) {
                    a.push(("form", if at.qualified { "qualified" } else { "unqualified" }.into()));
                }
                if at.usage != "required" && at.usage != "prohibited" && self.r.chance(1, 6) {
                    a.push(("default", self.s.lex(&at.ty, &mut self.r, true)));
                }
                let c = if self.r.chance(1, 3) { comment(&mut self.r) } else { None };
                let empty = t.is_some() && c.is_none();
                self.open(d, "attribute", &a, empty);
                if !empty {
                    self.doc(d + 1, &c);
                    if t.is_none() {
                        self.anon(d + 1, &at.ty);
                    }
                    self.close(d, "attribute");
                }
            } else {
                self.empty(d, "attributeGroup", &[("ref", s.q(&s.groups[groups[i]].name))]);
            }
        }
        if any {
            self.empty(d, "anyAttribute", &[("processContents", "lax".into())]);
        }
    }
    fn complex(&mut self, d: usize, name: Option<&str>, c: &Complex) {
        let mut a: Vec<(&str, String)> = name.map(|n| ("name", n.to_string())).into_iter().collect();
        if self.r.chance(1, 12) {
            a.push(("mixed", "false".into()));
        }
        if name.is_some() && self.r.chance(1, 12) {
            let (k, v) = *self.r.pick(&[("abstract", "false"), ("block", "#all"), ("block", "extension")]);
            a.push((k, v.into()));
        }
        self.open(d, "complexType", &a, false);
        self.doc(d + 1, &c.doc);
        let mut e = d + 1;
        if let Some(b) = c.base {
            self.open(d + 1, "complexContent", &[], false);
            self.note(d + 2);
            self.open(d + 2, "extension", &[("base", self.s.q(&self.s.complexes[b].name))], false);
            self.note(d + 3);
            e = d + 3;
        }
        // what restricts anyType is what it would be without it
        let restricts = match c.restricts {
            Some(b) => Some(self.s.q(&self.s.complexes[b].name)),
            None if c.base.is_none() && self.r.chance(1, 10) => Some(self.s.xs("anyType")),
            None => None,
        };
        if let Some(b) = &restricts {
            self.open(d + 1, "complexContent", &[], false);
            self.note(d + 2);
            self.open(d + 2, "restriction", &[("base", b.clone())], false);
            self.note(d + 3);
            e = d + 3;
        }
        match &c.content {
            Content::Empty => {}
            Content::All(v) => self.elems(e, "all", v),
            Content::Choice(v) => self.elems(e, "choice", v),
            Content::Seq(v) => {
                self.open(e, "sequence", &[], false);
                self.note(e + 1);
                for p in v {
                    match p {
                        Part::E(x) => self.elem(e + 1, x),
                        Part::C(v) => self.elems(e + 1, "choice", v),
                        Part::Any => self.empty(e + 1, "any", &[("minOccurs", "0".into()), ("maxOccurs", "unbounded".into()), ("processContents", "lax".into())]),
                    }
                }
                self.close(e, "sequence");
            }
        }
        self.attrs(e, &c.attrs, &c.groups, c.any_attr);
        if c.base.is_some() {
            self.close(d + 2, "extension");
            self.close(d + 1, "complexContent");
        }
        if restricts.is_some() {
            self.close(d + 2, "restriction");
            self.close(d + 1, "complexContent");
        }
        self.close(d, "complexType");
    }
    fn elems(&mut self, d: usize, tag: &str, v: &[Elem]) {
        self.open(d, tag, &[], false);
        self.note(d + 1);
        for e in v {
            self.elem(d + 1, e);
        }
        self.close(d, tag);
    }
    fn elem(&mut self, d: usize, e: &Elem) {
        let s = self.s;
        let mut a: Vec<(&str, String)> = vec![];
        match &e.ty {
            Ety::Ref(g) => a.push(("ref", s.q(&s.globals[*g].name))),
            Ety::Named(g) => a.push(("ref", s.q(&s.named[*g].0))),
            Ety::C(i) => a.extend([("name", e.name.clone()), ("type", s.q(&s.complexes[*i].name))]),
            Ety::S(t) => {
                a.push(("name", e.name.clone()));
                a.extend(s.sref(t).map(|t| ("type", t)));
            }
            Ety::Anon(_) => a.push(("name", e.name.clone())),
        }
        if e.min != 1 || self.r.chance(1, 6) {
            a.push(("minOccurs", e.min.to_string()));
        }
        match e.max {
            None => a.push(("maxOccurs", "unbounded".into())),
            Some(m) if m != 1 || self.r.chance(1, 6) => a.push(("maxOccurs", m.to_string())),
            _ => {}
        }
        if !matches!(e.ty, Ety::Ref(_) | Ety::Named(_)) {
            if e.target != self.s.forms[0] || self.r.chance(1, 15) {
                a.push(("form", if e.target { "qualified" } else { "unqualified" }.into()));
            }
            if self.r.chance(1, 15) {
                a.push(("nillable", self.r.pick(&["true", "false", "1"]).to_string()));
            }
            if let Ety::S(t) = &e.ty {
                if self.r.chance(1, 15) {
                    a.push((self.r.pick(&["default", "default"]), s.lex(t, &mut self.r, true)));
                }
            }
        }
        let body = matches!(e.ty, Ety::Anon(_) | Ety::S(Sref::Anon(_))) || e.doc.is_some();
        self.open(d, "element", &a, !body);
        if body {
            self.doc(d + 1, &e.doc);
            match &e.ty {
                Ety::Anon(c) => self.complex(d + 1, None, c),
                Ety::S(x @ Sref::Anon(_)) => self.anon(d + 1, x),
                _ => {}
            }
            self.close(d, "element");
        }
    }
}

// ---------------------------------------------------------------- documents as text

fn escape(t: &str, attr: Option<char>, r: &mut Rng, plain: bool, o: &mut String) {
    for c in t.chars() {
        if !plain && attr.is_none() && r.chance(1, 25) {
            o.push_str(&format!("&#x{:x};", c as u32));
            continue;
        }
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' if attr == Some('"') => o.push_str("&quot;"),
            '\'' if attr == Some('\'') => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
}

impl Schema {
    /// the document as a foreign implementation would write it; style 0 is the plainest form
    pub fn render(&self, c: &Complex, root: &str, doc: &Value, style: u64) -> Vec<u8> {
        let mut r = Rng::new(style);
        let plain = style == 0;
        let prefix = if !self.tns {
            ""
        } else if plain {
            "tns:"
        } else {
            let p = *r.pick(&["tns:", "tns:", "", "ns1:", "x-y:"]);
            // yaserde forgets xmlns="" when it puts the members of a choice aside
            let all = format!("{:?}{:?}", self.complexes, self.globals);
            match (all.contains("Choice([") || all.contains(" C([") || all.contains("[C([")) && all.contains("target: false") {
                true if p.is_empty() => "tns:",
                _ => p,
            }
        };
        let mut o = String::new();
        if !plain {
            if r.chance(1, 8) {
                o.push('\u{feff}');
            }
            if r.chance(1, 2) {
                o.push_str(r.pick(&["<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>"]));
            }
        }
        let pretty = !plain && r.chance(1, 2);
        let mut x = Doc { s: self, r: &mut r, plain, pretty, prefix, attr_prefix: prefix, o };
        x.node(c, root, doc, 0, self.tns, false);
        let mut o = x.o;
        if !plain && r.chance(1, 4) {
            o.push_str(r.pick(&["\n", "<!-- after -->", "\n  "]));
        }
        o.into_bytes()
    }
}

struct Doc<'a> {
    s: &'a Schema,
    r: &'a mut Rng,
    plain: bool,
    pretty: bool,
    prefix: &'a str,
    attr_prefix: &'a str,
    o: String,
}
impl Doc<'_> {
    fn nl(&mut self, d: usize) {
        if self.pretty {
            self.o.push('\n');
            self.o.push_str(&"  ".repeat(d));
        }
        if !self.plain && self.r.chance(1, 25) {
            self.o.push_str(self.r.pick(&["<!-- note -->", "<?pi data?>", "<!---->"]));
        }
    }
    /// a start tag, in the target namespace or in none, without its end, the name to close it with,
    /// and whether the target namespace is the default one in it
    fn tag(&mut self, name: &str, target: bool, default: bool) -> (String, bool) {
        let tag = format!("{}{name}", if target { self.prefix } else { "" });
        self.o.push_str(&format!("<{tag}"));
        if !tag.contains(':') && target != default {
            self.o.push_str(&format!(" xmlns=\"{}\"", if target { URI } else { "" }));
            return (tag, target);
        }
        (tag, default)
    }
    fn node(&mut self, c: &Complex, name: &str, doc: &Value, d: usize, target: bool, default: bool) {
        let (tag, default) = self.tag(name, target, default);
        if d == 0 && self.s.tns {
            let p = self.prefix.trim_end_matches(':');
            if !p.is_empty() {
                self.o.push_str(&format!(" xmlns:{p}=\"{URI}\""));
            }
            // attributes are in no namespace without a prefix
            if (!self.s.gattrs.is_empty() || self.s.tns && !self.s.prefix.is_empty()) && (p.is_empty() || (!self.plain && self.r.chance(1, 3))) {
                self.o.push_str(&format!(" xmlns:q=\"{URI}\""));
                self.attr_prefix = "q:";
            }
        }
        let decls = self.s.attrs(c);
        let mut at: Vec<(String, String)> = doc["a"].as_object().into_iter().flatten().map(|(n, t)| (n.clone(), t.as_str().unwrap_or("").to_string())).collect();
        if !self.plain {
            self.r.shuffle(&mut at);
        }
        for (n, t) in at {
            let q = if !self.plain && self.r.chance(1, 3) { '\'' } else { '"' };
            let p = if decls.iter().any(|a| a.name == n && a.qualified) { self.attr_prefix } else { "" };
            self.o.push_str(&format!(" {p}{n}={q}"));
            escape(&t, Some(q), self.r, self.plain, &mut self.o);
            self.o.push(q);
        }
        let kids = doc["c"].as_array().cloned().unwrap_or_default();
        if kids.is_empty() && !self.plain && self.r.chance(1, 2) {
            self.o.push_str("/>");
            return;
        }
        self.o.push('>');
        let elems = self.s.elems(c);
        for k in kids {
            let n = k[0].as_str().unwrap_or("");
            let Some(e) = elems.iter().find(|e| e.name == n) else { continue };
            self.nl(d + 1);
            match self.s.ety(&e.ty) {
                Ty::C(c) => self.node(c, n, &k[1], d + 1, self.s.tns && e.target, default),
                Ty::S(s) => {
                    let (tag, _) = self.tag(n, self.s.tns && e.target, default);
                    self.o.push('>');
                    let pad = !self.plain && self.s.collapses(s);
                    if pad && self.r.chance(1, 8) {
                        self.o.push_str(self.r.pick(&[" ", "\n", "\t "]));
                    }
                    let t = k[1].as_str().unwrap_or("");
                    if !self.plain && self.r.chance(1, 12) && !t.contains("]]>") {
                        self.o.push_str(&format!("<![CDATA[{t}]]>"));
                    } else {
                        escape(t, None, self.r, self.plain, &mut self.o);
                    }
                    if pad && self.r.chance(1, 8) {
                        self.o.push_str(self.r.pick(&[" ", "\n", "\t "]));
                    }
                    self.o.push_str(&format!("</{tag}>"));
                }
            }
        }
        self.nl(d);
        self.o.push_str(&format!("</{tag}>"));
    }
}

// ---------------------------------------------------------------- generated code

/// what xsd-parser-cli does with the text of one file
pub fn convert(text: &str) -> String {
    let file = xsd_parser::parser::parse(text).expect("parse");
    let gen = xsd_parser::generator::builder::GeneratorBuilder::default().build();
    gen.generate_rs_file(&file)
}

impl Schema {
    /// global elements and the Rust types they are exchanged as
    pub fn roots(&self) -> Vec<(usize, String)> {
        self.globals.iter().enumerate().map(|(i, g)| (i, g.name.clone())).collect()
    }
    /// simple types with facets the generated code validates
    pub fn checked(&self) -> Vec<(usize, String)> {
        let mut v = vec![];
        for (i, s) in self.simples.iter().enumerate() {
            if let Simple::Restr { base: Sref::B(_), facets } = &s.def {
                if !facets.is_empty() {
                    v.push((i, s.name.clone()));
                }
            }
        }
        v
    }
    /// simple types read on their own, lists first
    pub fn valued(&self) -> Vec<(usize, String)> {
        let of = |f: fn(&Simple) -> bool| self.simples.iter().enumerate().filter(move |(_, s)| f(&s.def)).map(|(i, s)| (i, s.name.clone()));
        of(|d| matches!(d, Simple::List(_))).chain(of(|d| matches!(d, Simple::Union(_) | Simple::Restr { base: Sref::B(_), .. }))).take(3).collect()
    }
    /// the enums generated for unions lack Clone, which structures holding them need (known finding)
    pub fn shims(&self, code: &str) -> String {
        let mut o = String::new();
        for s in &self.simples {
            let derives = code.find(&format!("pub enum {} {{", s.name)).and_then(|p| code[..p].rfind("#[derive(").map(|q| code[q..p].split(']').next().unwrap_or("").contains("Clone")));
            if matches!(s.def, Simple::Union(_)) && derives == Some(false) {
                o.push_str(&format!("\nimpl Clone for {} {{ fn clone(&self) -> Self {{ unimplemented!() }} }}\n", s.name));
            }
        }
        o
    }
}

//! G05: generators with replaced parts.

use std::{
    borrow::Cow,
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
};

use serde_json::{json, Value};
use wsdl_parser::parser::definitions::Definitions;
use xsd_parser::{
    generator::{
        alias::{AliasGenerator, DefaultAliasGen},
        base::{BaseGenerator, DefaultBaseGenerator},
        builder::GeneratorBuilder,
        enum_case::{DefaultEnumCaseGen, EnumCaseGenerator},
        import::{DefaultImportGen, ImportGenerator},
        r#enum::{DefaultEnumGen, EnumGenerator},
        r#struct::{DefaultStructGen, StructGenerator},
        struct_field::{DefaultStructFieldGen, StructFieldGenerator},
        tuple_struct::{DefaultTupleStructGen, TupleStructGenerator},
        Generator,
    },
    parser::{parse, schema::parse_schema, types::*},
};

use crate::{
    hist::*,
    rng::{hash_bytes, Rng},
    runner::{guard, Cov, Sim, Violation},
    simos,
};

const OPEN: char = '\u{E000}';
const MID: char = '\u{E001}';
const CLOSE: char = '\u{E002}';
const KINDS: &[&str] = &["alias", "case", "import", "field", "tuple", "struct", "enum", "base"];

thread_local! {
    /// calls until a part fails, <= 0: never
    static TICK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static INDENT: Cell<usize> = const { Cell::new(4) };
    /// what the marks stand for
    static MARKS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    /// texts without anything to mark
    static ASKED: RefCell<BTreeMap<String, i64>> = const { RefCell::new(BTreeMap::new()) };
    static EMPTY: RefCell<BTreeMap<String, i64>> = const { RefCell::new(BTreeMap::new()) };
}

fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
    TICK.with(|t| {
        let n = t.get();
        if n > 0 {
            t.set(n - 1);
            if n == 1 {
                panic!("injected failure of a replaced part");
            }
        }
    });
}

/// what a replaced base generator was asked
fn asked(what: &str, name: &str) {
    tick();
    ASKED.with(|a| *a.borrow_mut().entry(format!("{what} {name}")).or_default() += 1);
}

/// the text with a mark around it; white space stays where it is
fn mark(what: &str, name: &str, s: &str) -> String {
    let t = s.trim();
    if t.is_empty() {
        EMPTY.with(|e| *e.borrow_mut().entry(what.to_string()).or_default() += 1);
        return s.to_string();
    }
    let at = s.find(t).unwrap_or(0);
    let n = MARKS.with(|m| {
        let mut m = m.borrow_mut();
        m.push(format!("{what} {name}"));
        m.len() - 1
    });
    format!("{}{OPEN}{n}{MID}{t}{CLOSE}{}", &s[..at], &s[at + t.len()..])
}

/// replaces the whole of a part
struct Whole;
/// replaces pieces of a part
struct Pieces;

macro_rules! whole {
    ($tr:ident, $d:ident, $e:ty, $k:literal) => {
        impl $tr for Whole {
            fn generate(&self, e: &$e, g: &Generator) -> String {
                tick();
                let s = $d.generate(e, g);
                tick();
                mark($k, &e.name, &s)
            }
        }
    };
}
whole!(AliasGenerator, DefaultAliasGen, Alias, "alias");
whole!(EnumCaseGenerator, DefaultEnumCaseGen, EnumCase, "case");
whole!(ImportGenerator, DefaultImportGen, Import, "import");
whole!(StructFieldGenerator, DefaultStructFieldGen, StructField, "field");
whole!(TupleStructGenerator, DefaultTupleStructGen, TupleStruct, "tuple");
whole!(StructGenerator, DefaultStructGen, Struct, "struct");
whole!(EnumGenerator, DefaultEnumGen, Enum, "enum");
impl BaseGenerator for Whole {
    fn format_comment(&self, c: Option<&str>, indent: usize) -> String {
        tick();
        mark("comment", "", &DefaultBaseGenerator.format_comment(c, indent))
    }
    fn format_name(&self, n: &str) -> Cow<'_, str> {
        tick();
        Cow::Owned(mark("name", n, &DefaultBaseGenerator.format_name(n)))
    }
    fn join_subtypes(&self, s: &[RsEntity], g: &Generator) -> String {
        tick();
        mark("subtypes", "", &DefaultBaseGenerator.join_subtypes(s, g))
    }
    // types and modules are told apart by their names in the generator: these are only counted
    fn format_type_name(&self, n: &str, g: &Generator) -> Cow<'_, str> {
        asked("type", n);
        Cow::Owned(DefaultBaseGenerator.format_type_name(n, g).into_owned())
    }
    fn modify_type(&self, n: &str, m: &[TypeModifier]) -> Cow<'_, str> {
        asked("modify", "");
        Cow::Owned(DefaultBaseGenerator.modify_type(n, m).into_owned())
    }
    fn mod_name(&self, n: &str) -> String {
        asked("mod", n);
        DefaultBaseGenerator.mod_name(n)
    }
    fn indent_size(&self) -> usize {
        INDENT.with(Cell::get)
    }
}

macro_rules! pieces {
    ($tr:ident, $d:ident, $e:ty, $k:literal, $($m:ident -> $t:ty),*) => {
        impl $tr for Pieces {
            $(fn $m(&self, e: &$e, g: &Generator) -> $t {
                tick();
                mark(concat!($k, ".", stringify!($m)), &e.name, &$d.$m(e, g)).into()
            })*
        }
    };
}
pieces!(StructGenerator, DefaultStructGen, Struct, "struct", fields -> String, subtypes -> String, macros -> Cow<'static, str>, format_comment -> String, validation -> Cow<'static, str>);
pieces!(EnumGenerator, DefaultEnumGen, Enum, "enum", cases -> String, subtypes -> String, macros -> Cow<'static, str>, format_comment -> String, validation -> Cow<'static, str>);
pieces!(TupleStructGenerator, DefaultTupleStructGen, TupleStruct, "tuple", subtypes -> String, macros -> Cow<'static, str>, format_comment -> String, validation -> Cow<'static, str>);
pieces!(StructFieldGenerator, DefaultStructFieldGen, StructField, "field", get_name -> String, macros -> String, format_comment -> String, get_type_name -> String);
pieces!(EnumCaseGenerator, DefaultEnumCaseGen, EnumCase, "case", macros -> String, format_comment -> String, get_type_name -> String);
impl AliasGenerator for Pieces {
    fn format_name(&self, n: &str, g: &Generator) -> String {
        tick();
        mark("alias.format_name", n, &DefaultAliasGen.format_name(n, g))
    }
    fn format_original_type(&self, n: &str, g: &Generator) -> String {
        tick();
        mark("alias.format_original_type", n, &DefaultAliasGen.format_original_type(n, g))
    }
}

/// pieces every entity of a kind has exactly one of
const ALWAYS: &[&str] = &[
    "struct.macros", "struct.validation", "enum.cases", "enum.macros", "enum.validation", "tuple.macros", "tuple.validation", "field.get_name", "field.get_type_name",
    "alias.format_name", "alias.format_original_type",
];

/// per kind: 0 the default part, 1 replaced as a whole, 2 replaced in pieces
fn build(parts: &Value) -> Generator<'static> {
    let p = |k: &str| parts[k].as_u64().unwrap_or(0);
    let mut b = GeneratorBuilder::default();
    macro_rules! with {
        ($k:literal, $f:ident) => {
            match p($k) {
                1 => b = b.$f(Box::new(Whole)),
                2 => b = b.$f(Box::new(Pieces)),
                _ => {}
            }
        };
    }
    with!("alias", with_alias_gen);
    with!("case", with_enum_case_gen);
    with!("field", with_struct_field_gen);
    with!("tuple", with_tuple_struct_gen);
    with!("struct", with_struct_gen);
    with!("enum", with_enum_gen);
    if p("import") > 0 {
        b = b.with_import_gen(Box::new(Whole));
    }
    if p("base") > 0 {
        b = b.with_base_gen(Box::new(Whole));
    }
    b.build()
}

/// everything there is to generate
fn walk(es: &[RsEntity], f: &mut dyn FnMut(&'static str, &str)) {
    for e in es {
        match e {
            RsEntity::Struct(s) => {
                f("struct", &s.name);
                for x in s.fields.borrow().iter() {
                    if !x.type_modifiers.contains(&TypeModifier::Empty) {
                        f("field", &x.name);
                    }
                    walk(&x.subtypes, f);
                }
                walk(&s.subtypes, f);
            }
            RsEntity::Enum(x) => {
                f("enum", &x.name);
                x.cases.iter().for_each(|c| f("case", &c.name));
                walk(&x.subtypes, f);
            }
            RsEntity::TupleStruct(t) => {
                f("tuple", &t.name);
                walk(&t.subtypes, f);
            }
            RsEntity::Alias(a) => {
                f("alias", &a.name);
                walk(&a.subtypes, f);
            }
            RsEntity::Import(i) => f("import", &i.name),
            RsEntity::StructField(x) => {
                // only malformed schemas have these outside a struct
                if !x.type_modifiers.contains(&TypeModifier::Empty) {
                    f("field", &x.name);
                }
            }
            RsEntity::EnumCase(c) => f("case", &c.name),
        }
    }
}

/// what the base generator has to be asked for
#[derive(Default)]
struct Needs {
    subtypes: i64,
    comments: i64,
    modified: i64,
    types: BTreeSet<String>,
    modules: BTreeSet<String>,
}
impl Needs {
    fn comment(&mut self, c: &Option<String>) {
        self.comments += c.as_ref().is_some_and(|c| !c.trim().is_empty()) as i64;
    }
    fn sub(&mut self, s: &[RsEntity]) {
        self.subtypes += !s.is_empty() as i64;
        self.all(s);
    }
    fn all(&mut self, es: &[RsEntity]) {
        for e in es {
            match e {
                RsEntity::Struct(s) => {
                    self.comment(&s.comment);
                    self.types.insert(s.name.clone());
                    for x in s.fields.borrow().iter() {
                        if !x.type_modifiers.contains(&TypeModifier::Empty) {
                            self.comment(&x.comment);
                            self.types.insert(x.type_name.clone());
                            self.modified += 1;
                        }
                        if !x.subtypes.is_empty() {
                            self.modules.insert(s.name.clone());
                        }
                        self.sub(&x.subtypes);
                    }
                    self.sub(&s.subtypes);
                }
                RsEntity::Enum(x) => {
                    self.comment(&x.comment);
                    self.types.insert(x.name.clone());
                    for c in &x.cases {
                        self.comment(&c.comment);
                        if let Some(t) = &c.type_name {
                            self.types.insert(t.clone());
                            self.modified += 1;
                        }
                    }
                    self.sub(&x.subtypes);
                }
                RsEntity::TupleStruct(x) => {
                    self.comment(&x.comment);
                    self.types.insert(x.name.clone());
                    self.types.insert(x.type_name.clone());
                    self.modified += 1;
                    self.sub(&x.subtypes);
                }
                _ => {}
            }
        }
    }
}

fn files(wsdl: bool, text: &'static str) -> Option<Vec<RsFile<'static>>> {
    if !wsdl {
        return parse(text).ok().map(|f| vec![f]);
    }
    let doc: &'static roxmltree::Document<'static> = Box::leak(Box::new(roxmltree::Document::parse(text).ok()?));
    let root: &'static roxmltree::Node<'static, 'static> = Box::leak(Box::new(doc.root_element()));
    let d: &'static Definitions<'static> = Box::leak(Box::new(Definitions::new(root)));
    let mut out = vec![];
    for t in d.types() {
        for s in t.schemas() {
            let s: &'static roxmltree::Node<'static, 'static> = Box::leak(Box::new(s));
            out.push(parse_schema(s));
        }
    }
    Some(out)
}

/// without marks; and how often each mark is there
fn strip(s: &str) -> Result<(String, BTreeMap<usize, u32>), String> {
    let (mut out, mut seen) = (String::new(), BTreeMap::new());
    let (mut num, mut depth) = (None::<usize>, 0i64);
    for c in s.chars() {
        match (c, num) {
            (OPEN, None) => num = Some(0),
            (MID, Some(n)) => {
                *seen.entry(n).or_insert(0) += 1;
                num = None;
                depth += 1;
            }
            (d, Some(n)) => num = Some(n * 10 + d.to_digit(10).ok_or("a mark was torn")? as usize),
            (CLOSE, None) => depth -= 1,
            (c, None) => out.push(c),
        }
        if depth < 0 {
            return Err("a mark was torn".into());
        }
    }
    if depth != 0 || num.is_some() {
        return Err("a mark was torn".into());
    }
    Ok((out, seen))
}

type Bad = Option<(String, String, Vec<String>)>;

fn one(parts: &Value, g: &Generator<'static>, rs: &RsFile<'static>, want: &str, indent: usize, fail: i64, n: &mut BTreeMap<&'static str, u64>) -> Bad {
    MARKS.with(|m| m.borrow_mut().clear());
    EMPTY.with(|m| m.borrow_mut().clear());
    ASKED.with(|m| m.borrow_mut().clear());
    CALLS.with(|c| c.set(0));
    TICK.with(|t| t.set(fail));
    let got = guard(|| g.generate_rs_file(rs));
    let fired = fail > 0 && TICK.with(Cell::get) == 0;
    TICK.with(|t| t.set(0));
    *n.entry("calls of replaced parts").or_default() += CALLS.with(Cell::get);
    let bad = |s: &str, d: String| Some((s.to_string(), d, vec![format!("replaced parts: {parts}")]));
    let got = match got {
        Err(_) if fired => {
            *n.entry("fault:replaced part fails").or_default() += 1;
            return None;
        }
        Ok(_) if fired => return bad("failure-lost", "a replaced part failed and the conversion went on as if nothing had happened".into()),
        Err(p) => return bad("panic", format!("a schema that the default generator converts makes one with replaced parts panic: {p}")),
        Ok(s) => s,
    };
    let (text, seen) = match strip(&got) {
        Ok(x) => x,
        Err(e) => return bad("torn", format!("the text of a replaced part does not arrive whole: {e}")),
    };
    let norm = |t: &str| if indent == 4 { t.to_string() } else { t.chars().filter(|c| !c.is_whitespace() && *c != '/').collect() };
    if norm(&text) != norm(want) {
        return bad("other-text", format!("replaced parts that give what the default ones give change the rest of the code: {}", Out::Code(want.to_string()).diff(&Out::Code(text))));
    }
    let marks = MARKS.with(|m| m.borrow().clone());
    let mut left: BTreeMap<String, i64> = BTreeMap::new();
    let mut kinds: BTreeMap<&str, i64> = BTreeMap::new();
    walk(&rs.types, &mut |k, name| {
        *kinds.entry(k).or_default() += 1;
        if parts[k] == 1 {
            *left.entry(format!("{k} {name}")).or_default() += 1;
        }
    });
    *n.entry("entities").or_default() += kinds.values().sum::<i64>() as u64;
    let empty = EMPTY.with(|e| e.borrow().clone());
    let mut pieces: BTreeMap<&str, i64> = empty.iter().map(|(k, n)| (k.as_str(), *n)).collect();
    for (m, c) in &seen {
        let Some(w) = marks.get(*m) else { return bad("torn", "a mark nobody made".into()) };
        let k = w.split(' ').next().unwrap_or("");
        *pieces.entry(k).or_default() += *c as i64;
        if KINDS.contains(&k) {
            *left.entry(w.clone()).or_default() -= *c as i64;
        }
    }
    if let Some((w, d)) = left.iter().find(|x| *x.1 != 0) {
        return bad("not-used", format!("{w}: {} than there is, from the replaced part", if *d > 0 { format!("{d} less") } else { format!("{} more", -d) }));
    }
    for p in ALWAYS {
        let (k, _) = p.split_once('.').unwrap();
        let (want, got) = (kinds.get(k).copied().unwrap_or(0), pieces.get(p).copied().unwrap_or(0));
        // a name may be used more than once in the code of one entity
        if parts[k] == 2 && got < want {
            return bad("piece-not-used", format!("the replaced {p} is in the code of {got} of {want} entities"));
        }
    }
    if parts["base"] == 1 {
        let asked = ASKED.with(|a| a.borrow().clone());
        let has = |w: &str, n: &str| asked.contains_key(&format!("{w} {n}"));
        let mut needs = Needs::default();
        needs.all(&rs.types);
        for (what, want, got) in [("join_subtypes", needs.subtypes, pieces.get("subtypes")), ("format_comment", needs.comments, pieces.get("comment")), ("modify_type", needs.modified, asked.get("modify "))] {
            let got = got.copied().unwrap_or(0);
            if got < want {
                return bad("piece-not-used", format!("the replaced {what} is used {got} times for {want} declarations"));
            }
        }
        if let Some(n) = needs.types.iter().find(|n| !has("type", n) && !asked.keys().any(|k| k.starts_with("type ") && k.ends_with(&format!("::{n}")))) {
            return bad("piece-not-used", format!("the replaced format_type_name is never given {n}"));
        }
        if let Some(n) = needs.modules.iter().find(|n| !has("mod", n)) {
            return bad("piece-not-used", format!("the replaced mod_name is never given {n}"));
        }
        let (want, got) = (kinds.get("field").copied().unwrap_or(0), pieces.get("name").copied().unwrap_or(0));
        if got < want {
            return bad("piece-not-used", format!("the replaced format_name is in the code of {got} of {want} fields"));
        }
    }
    *n.entry("conversions compared").or_default() += 1;
    None
}

pub struct G05;
impl Sim for G05 {
    fn gen(&self, r: &mut Rng, _i: u64) -> Value {
        let nd = 1 + r.idx(2);
        let docs = gen_docs(r, nd, true);
        let parts: serde_json::Map<String, Value> = if r.chance(1, 6) {
            let v = 1 + r.below(2);
            KINDS.iter().map(|k| (k.to_string(), json!(if matches!(*k, "import" | "base") { 1 } else { v }))).collect()
        } else {
            let n = 1 + r.below(4);
            KINDS.iter().map(|k| (k.to_string(), json!(if r.below(5) < n { if matches!(*k, "import" | "base") { 1 } else { 1 + r.below(2) } } else { 0 }))).collect()
        };
        let ops: Vec<Value> = (0..1 + r.idx(4)).map(|_| json!([r.idx(nd), if r.chance(1, 3) { 1 + r.below(200) } else { 0 }])).collect();
        json!({"docs": docs, "parts": parts, "indent": if r.chance(1, 3) { r.below(9) } else { 4 }, "ops": ops, "hash": r.next() >> 12})
    }
    fn run(&self, case: &Value, cov: &mut Cov) -> Result<(), Violation> {
        let Some((texts, _)) = prepare(case) else {
            cov.hit("histories skipped: a document kills a fresh process");
            return Ok(());
        };
        let c = in_fork(|| {
            simos::seed_random(case["hash"].as_u64().unwrap_or(0));
            on_thread(|| {
                let mut n: BTreeMap<&'static str, u64> = BTreeMap::new();
                let indent = if case["parts"]["base"] == 1 { case["indent"].as_u64().unwrap_or(4) as usize } else { 4 };
                INDENT.with(|i| i.set(indent));
                let g = build(&case["parts"]);
                let mut bad = None;
                let mut parsed: Vec<Option<Vec<(RsFile<'static>, String)>>> = vec![];
                for (w, t) in &texts {
                    // the default generator's code, from a parsed schema of its own
                    let want = guard(|| files(*w, t).map(|f| f.iter().map(|f| GeneratorBuilder::default().build().generate_rs_file(f)).collect::<Vec<_>>()));
                    let kept = guard(|| files(*w, t));
                    parsed.push(match (want, kept) {
                        (Ok(Some(w)), Ok(Some(k))) => Some(k.into_iter().zip(w).collect()),
                        _ => None,
                    });
                }
                for op in case["ops"].as_array().into_iter().flatten() {
                    let d = op[0].as_u64().unwrap_or(0) as usize % texts.len().max(1);
                    let fail = op[1].as_i64().unwrap_or(0);
                    match parsed.get(d) {
                        Some(Some(fs)) => {
                            for (rs, want) in fs {
                                bad = bad.or_else(|| one(&case["parts"], &g, rs, want, indent, fail, &mut n));
                            }
                        }
                        _ => *n.entry("documents the default generator rejects").or_default() += 1,
                    }
                }
                let digest = n.values().fold(0u64, |a, b| crate::rng::mix64(a ^ b));
                json!({"bad": bad.map(|(s, d, t): (String, String, Vec<String>)| json!([s, d, t])), "counts": n.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "digest": digest})
            })
        });
        free(texts);
        cov.steps += case["ops"].as_array().map_or(0, Vec::len) as u64;
        cov.states.insert(hash_bytes(format!("{}{}{}", case["parts"], case["ops"], case["indent"]).as_bytes()));
        conclude(case, cov, c, "G05")
    }
    fn shrink(&self, c: &Value) -> Vec<Value> {
        let mut v = shrink_list(c, "ops", 1);
        v.extend(shrink_list(c, "docs", 1));
        for k in KINDS {
            if c["parts"][k] != 0 {
                let mut x = c.clone();
                x["parts"][k] = json!(0);
                v.push(x);
            }
        }
        v.extend(shrink_docs(c));
        v
    }
    fn directed(&self) -> Vec<Value> {
        let mut v = vec![];
        for tool in ["xsd", "wsdl"] {
            for (k, (n, _)) in crate::cli::bank(tool).iter().enumerate() {
                for m in 1..=2u64 {
                    let parts: serde_json::Map<String, Value> = KINDS.iter().map(|k| (k.to_string(), json!(if matches!(*k, "import" | "base") { 1 } else { m }))).collect();
                    v.push(json!({"docs": [{"bank": n, "kind": tool}], "parts": parts, "indent": if k % 2 == 0 { 4 } else { 2 }, "ops": [[0, 0], [0, 5], [0, 0]], "hash": k}));
                }
            }
        }
        v
    }
}

//! services over drawn schemas: messages, port types and operations, and their WSDL document.
use std::collections::BTreeSet;

use crate::{
    e2e::{comment, esc, Schema, KEYWORDS, SYL, URI},
    rng::Rng,
};

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    /// name of the generated function
    pub rust: String,
    /// messages, by index
    pub input: usize,
    pub output: usize,
    pub faults: Vec<usize>,
    pub doc: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Message {
    pub name: String,
    pub part: &'static str,
    /// the global element it carries
    pub global: usize,
}
#[derive(Clone, Debug)]
pub struct Service {
    pub messages: Vec<Message>,
    pub ports: Vec<(String, Vec<Op>)>,
    style: u64,
}

struct Names<'a> {
    r: &'a mut Rng,
    used: BTreeSet<String>,
    /// what was named so far: later names contain, start or end like earlier ones
    last: Vec<Vec<String>>,
}
impl Names<'_> {
    fn words(&mut self) -> Vec<String> {
        loop {
            let n = 1 + self.r.idx(3);
            let v: Vec<String> = (0..n)
                .map(|_| match self.r.below(5) {
                    0 => (*self.r.pick(&["get", "set", "create", "delete", "list"])).to_string(),
                    1 => (*self.r.pick(KEYWORDS)).to_string(),
                    _ => (0..2).map(|_| *self.r.pick(SYL)).collect(),
                })
                .collect();
            let mut v = v;
            if !self.last.is_empty() && self.r.chance(1, 3) {
                let old = self.r.pick(&self.last).clone();
                match self.r.below(3) {
                    0 => v.extend(old),
                    1 => v = [old, v].concat(),
                    _ => v = [&v[..1], &old[old.len() - 1..]].concat(),
                }
                v.truncate(5);
            }
            // Self and self, and the arguments' own names, are not what this is about
            if !["self", "super", "crate"].contains(&v[0].as_str()) && self.used.insert(v.concat()) {
                self.last.push(v.clone());
                return v;
            }
        }
    }
    fn pascal(w: &[String]) -> String {
        w.iter().map(|w| format!("{}{}", w[..1].to_uppercase(), &w[1..])).collect()
    }
}

impl Service {
    pub fn ops(&self) -> Vec<&Op> {
        self.ports.iter().flat_map(|p| &p.1).collect()
    }
}

pub fn service(s: &Schema) -> Service {
    let mut r = Rng::new(s.style ^ 0x5E41CE);
    let style = r.next();
    let mut n = Names { r: &mut r, used: BTreeSet::new(), last: vec![] };
    let mut messages: Vec<Message> = vec![];
    let mut ports = vec![];
    for _ in 0..1 + n.r.idx(3) {
        let port = Names::pascal(&n.words());
        let mut ops: Vec<Op> = vec![];
        for _ in 0..1 + n.r.idx(5) {
            let w = n.words();
            let rust = w.join("_");
            let rust = if rust_keyword(&rust) { format!("_{rust}") } else { rust };
            let name = match n.r.below(5) {
                0 => w.join("_"),
                1 => w.join("-"),
                2 => format!("{}{}", w[0], Names::pascal(&w[1..])),
                _ => Names::pascal(&w),
            };
            let mut message = |n: &mut Names, tail: &str| {
                if !messages.is_empty() && n.r.chance(1, 4) {
                    return n.r.idx(messages.len());
                }
                let own = Names::pascal(&w);
                let mut name = match n.r.below(8) {
                    0 => format!("{own}{tail}{}", messages.len()),
                    1 => own,
                    2 if !messages.is_empty() => format!("{}{}", n.r.pick(&["Get", "Un", "x", "A-", "_"]), n.r.pick(&messages).name),
                    3 if !messages.is_empty() => format!("{}{}", n.r.pick(&messages).name, n.r.pick(&["2", "Ex", "_", "-b", ".c"])),
                    4 if !messages.is_empty() => n.r.pick(&messages).name.to_lowercase(),
                    5 => s.globals[n.r.idx(s.globals.len())].name.clone(),
                    6 => tail.to_string(),
                    _ => format!("{own}{tail}"),
                };
                while messages.iter().any(|m| m.name == name) || name == "Unused" {
                    name = format!("{}{name}", n.r.pick(&["M", "a", "_"]));
                }
                messages.push(Message {
                    name,
                    part: n.r.pick(&["parameters", "body", "request", "part1"]),
                    global: n.r.idx(s.globals.len()),
                });
                messages.len() - 1
            };
            let input = message(&mut n, "Request");
            let output = message(&mut n, "Response");
            let faults = (0..n.r.idx(3)).map(|_| message(&mut n, "Fault")).collect();
            ops.push(Op { name, rust, input, output, faults, doc: comment(n.r) });
        }
        ports.push((port, ops));
    }
    Service { messages, ports, style }
}

/// what Rust itself keeps for its own use
pub fn rust_keyword(w: &str) -> bool {
    ["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "alignof", "offsetof", "proc", "pure", "sizeof"].contains(&w)
}

impl Service {
    pub fn text(&self, s: &Schema) -> String {
        let mut r = Rng::new(self.style);
        // the default namespace is free if the schema does not count on there being none
        let w = match r.below(3) {
            0 if s.tns && !s.prefix.is_empty() => "",
            1 => "w",
            _ => "wsdl",
        };
        let q = |t: &str| if w.is_empty() { t.to_string() } else { format!("{w}:{t}") };
        // names of the service live in the namespace of its types
        let (uri, prefix) = if s.tns { (URI, s.prefix) } else { ("http://example.com/service", "svc") };
        let own = |n: &str| if prefix.is_empty() { n.to_string() } else { format!("{prefix}:{n}") };
        let el = |n: &str| if s.tns { own(n) } else { n.to_string() };
        let xmlns = |p: &str| if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{p}") };
        let mut o = String::new();
        if r.chance(1, 2) {
            o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
        }
        let mut ns = vec![
            format!("{}=\"http://schemas.xmlsoap.org/wsdl/\"", xmlns(w)),
            format!("{}=\"{uri}\"", xmlns(prefix)),
            "xmlns:soap=\"http://schemas.xmlsoap.org/wsdl/soap/\"".to_string(),
            format!("targetNamespace=\"{uri}\""),
        ];
        // the namespace of the service may be the default one as well
        if s.tns && !prefix.is_empty() && !w.is_empty() && !s.xsd.is_empty() && r.chance(1, 6) {
            ns.push(format!("xmlns=\"{uri}\""));
        }
        r.shuffle(&mut ns);
        o.push_str(&format!("<{} name=\"Service\" {}>\n", q("definitions"), ns.join(" ")));
        if r.chance(1, 4) {
            o.push_str(&format!("<{0}>{1}</{0}>\n", q("documentation"), esc(&comment(&mut r).unwrap_or_default())));
        }
        let xsd = s.xsd_text();
        let xsd = match xsd.starts_with("<?") {
            true => xsd.split_once("?>").unwrap().1.to_string(),
            false => xsd,
        };
        let mut parts = vec![];
        parts.push(format!("<{0}>{xsd}</{0}>\n", q("types")));
        for m in &self.messages {
            parts.push(format!("<{0} name=\"{1}\">\n  <{2} name=\"{3}\" element=\"{4}\"/>\n</{0}>\n", q("message"), m.name, q("part"), m.part, el(&s.globals[m.global].name)));
        }
        // messages nobody uses
        if r.chance(1, 3) {
            parts.push(format!("<{0} name=\"Unused\"/>\n", q("message")));
        }
        for (port, ops) in &self.ports {
            let mut t = format!("<{} name=\"{port}\">\n", q("portType"));
            for op in ops {
                t.push_str(&format!("  <{} name=\"{}\">\n", q("operation"), op.name));
                if let Some(d) = &op.doc {
                    t.push_str(&format!("    <{0}>{1}</{0}>\n", q("documentation"), esc(d)));
                }
                if r.chance(1, 6) {
                    t.push_str("    <!-- input, then output -->\n");
                }
                for (k, m) in [("input", op.input), ("output", op.output)] {
                    let name = if r.chance(1, 4) { format!(" name=\"{k}Of{}\"", Names::pascal(&[op.rust.trim_start_matches('_').to_string()])) } else { String::new() };
                    t.push_str(&format!("    <{}{name} message=\"{}\"/>\n", q(k), own(&self.messages[m].name)));
                }
                for (n, f) in op.faults.iter().enumerate() {
                    t.push_str(&format!("    <{} name=\"fault{n}\" message=\"{}\"/>\n", q("fault"), own(&self.messages[*f].name)));
                }
                t.push_str(&format!("  </{}>\n", q("operation")));
            }
            t.push_str(&format!("</{}>\n", q("portType")));
            parts.push(t);
            let mut t = format!("<{} name=\"{port}Binding\" type=\"{}\">\n  <soap:binding style=\"document\" transport=\"http://schemas.xmlsoap.org/soap/http\"/>\n", q("binding"), own(port));
            for op in ops {
                t.push_str(&format!(
                    "  <{0} name=\"{1}\">\n    <soap:operation soapAction=\"{2}/{1}\"/>\n    <{3}><soap:body use=\"literal\"/></{3}>\n    <{4}><soap:body use=\"literal\"/></{4}>\n  </{0}>\n",
                    q("operation"), op.name, uri, q("input"), q("output")
                ));
            }
            t.push_str(&format!("</{}>\n", q("binding")));
            parts.push(t);
        }
        // the order of declarations carries no meaning
        if r.chance(1, 2) {
            r.shuffle(&mut parts);
        }
        o.push_str(&parts.concat());
        if r.chance(1, 2) {
            o.push_str(&format!("<{0} name=\"Service\"><{1} name=\"Port\" binding=\"{2}Binding\"><soap:address location=\"http://example.com/\"/></{1}></{0}>\n", q("service"), q("port"), own(&self.ports[0].0)));
        }
        o.push_str(&format!("</{}>\n", q("definitions")));
        o
    }
}

/// as wsdl-parser does
pub fn convert(text: &str) -> String {
    let doc = roxmltree::Document::parse(text).expect("parse");
    let definitions = wsdl_parser::parser::definitions::Definitions::new(&doc.root_element());
    let gen = xsd_parser::generator::builder::GeneratorBuilder::default().build();
    let mut code: Vec<String> = definitions.types().iter().flat_map(|t| t.schemas()).map(|f| gen.generate_rs_file(&xsd_parser::parser::schema::parse_schema(&f))).collect();
    code.push(wsdl_parser::generator::generate(&definitions));
    code.join("")
}

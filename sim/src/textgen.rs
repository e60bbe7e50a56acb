//! Seeded random schema and WSDL texts for the command line simulations.
use crate::rng::Rng;

const WORDS: &[&str] = &[
    "alpha", "beta", "größe", "naïve", "日本語", "код", "🦀", "sensor", "value", "“quoted”", "range", "timestamp", "é", "ß",
    "unit", "x", "configuration", "a-rather-long-compound-word-that-forces-wrapping", "€", "end.",
];
const NAMES: &[&str] = &[
    "Temp", "Status", "Item", "Config", "Frame", "Zone", "Event", "type", "self", "Point", "speed-limit", "my_type", "HTTPServer",
    "Ref", "Box", "Größe", "A1", "loop",
];
const BUILTIN: &[&str] = &[
    "xs:string", "xs:int", "xs:boolean", "xs:dateTime", "xs:duration", "xs:decimal", "xs:anyURI", "xs:float", "xs:integer",
    "xs:unsignedByte", "xs:date", "xs:token",
];

pub fn words(r: &mut Rng, n: usize) -> String {
    // words of any length too, the way addresses and other scripts have them
    let long = r.chance(1, 4);
    (0..n)
        .map(|_| match r.below(12) {
            0 if long => long_word(r),
            _ => (*r.pick(WORDS)).to_string(),
        })
        .collect::<Vec<_>>()
        .join(if r.chance(1, 6) { "\n      " } else { " " })
}

pub fn long_word(r: &mut Rng) -> String {
    let c = *r.pick(&["x", "ü", "漢", "😀", "http://a.b/", "-"]);
    let n = match r.below(3) {
        0 => 70 + r.idx(20),
        1 => 1 + r.idx(90),
        _ => 100 + r.idx(200),
    };
    c.repeat(1 + n / c.len())
}

fn doc(r: &mut Rng, s: &mut String, ind: &str) {
    if r.chance(1, 2) {
        let n = 1 + r.size(60);
        s.push_str(&format!("{ind}<xs:annotation><xs:documentation>{}</xs:documentation></xs:annotation>\n", words(r, n)));
    }
}

fn fields(r: &mut Rng, s: &mut String, ind: &str, types: &[String], depth: u32) {
    let n = 1 + r.size(6);
    for i in 0..n {
        let name = format!("{}{}", r.pick(NAMES), i);
        let occ = match r.below(4) {
            0 => " minOccurs=\"0\"",
            1 => " maxOccurs=\"unbounded\"",
            _ => "",
        };
        if depth < 2 && r.chance(1, 6) {
            s.push_str(&format!("{ind}<xs:element name=\"{name}\"{occ}>\n"));
            doc(r, s, ind);
            s.push_str(&format!("{ind}<xs:complexType><xs:sequence>\n"));
            fields(r, s, &format!("{ind}  "), types, depth + 1);
            s.push_str(&format!("{ind}</xs:sequence></xs:complexType></xs:element>\n"));
        } else {
            let ty = if !types.is_empty() && r.chance(1, 3) {
                format!("tns:{}", r.pick(types))
            } else {
                (*r.pick(BUILTIN)).to_string()
            };
            s.push_str(&format!("{ind}<xs:element name=\"{name}\" type=\"{ty}\"{occ}>\n"));
            doc(r, s, &format!("{ind}  "));
            s.push_str(&format!("{ind}</xs:element>\n"));
        }
    }
}

fn schema_body(r: &mut Rng, s: &mut String, ntypes: usize) -> Vec<String> {
    let mut types: Vec<String> = vec![];
    for i in 0..ntypes {
        let name = format!("{}{}Type", r.pick(NAMES), i);
        match r.below(5) {
            0 => {
                s.push_str(&format!("  <xs:simpleType name=\"{name}\">\n"));
                doc(r, s, "    ");
                s.push_str("    <xs:restriction base=\"xs:string\">\n");
                for k in 0..1 + r.size(8) {
                    s.push_str(&format!("      <xs:enumeration value=\"{}{k}\"/>\n", r.pick(NAMES)));
                }
                s.push_str("    </xs:restriction>\n  </xs:simpleType>\n");
            }
            1 => {
                s.push_str(&format!(
                    "  <xs:simpleType name=\"{name}\"><xs:restriction base=\"xs:int\"><xs:minInclusive value=\"{}\"/></xs:restriction></xs:simpleType>\n",
                    r.range(-50, 50)
                ));
            }
            2 => {
                s.push_str(&format!("  <xs:simpleType name=\"{name}\"><xs:list itemType=\"xs:int\"/></xs:simpleType>\n"));
            }
            _ => {
                s.push_str(&format!("  <xs:complexType name=\"{name}\">\n"));
                doc(r, s, "    ");
                s.push_str("    <xs:sequence>\n");
                let t = types.clone();
                fields(r, s, "      ", &t, 0);
                s.push_str("    </xs:sequence>\n");
                if r.chance(1, 3) {
                    s.push_str("    <xs:attribute name=\"token\" type=\"xs:string\" use=\"required\"/>\n");
                }
                s.push_str("  </xs:complexType>\n");
            }
        }
        types.push(name);
    }
    types
}

pub fn xsd(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 12) {
        s.push('\u{feff}');
    }
    if r.chance(3, 4) {
        s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    s.push_str("<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:tns=\"http://example.com\" targetNamespace=\"http://example.com\" elementFormDefault=\"qualified\">\n");
    let n = r.size(30);
    let types = schema_body(r, &mut s, n);
    if let Some(t) = types.first() {
        s.push_str(&format!("  <xs:element name=\"Root\" type=\"tns:{t}\"/>\n"));
    }
    s.push_str("</xs:schema>\n");
    s
}

pub fn wsdl(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(3, 4) {
        s.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
    }
    s.push_str("<wsdl:definitions xmlns:wsdl=\"http://schemas.xmlsoap.org/wsdl/\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:tns=\"http://example.com\" targetNamespace=\"http://example.com\">\n<wsdl:types>\n");
    let np = r.size(9);
    let mut ops = vec![];
    let ns = 1 + r.idx(2);
    for k in 0..ns {
        s.push_str("<xs:schema targetNamespace=\"http://example.com\" elementFormDefault=\"qualified\">\n");
        let n = r.size(10);
        schema_body(r, &mut s, n);
        if k == 0 {
            for p in 0..np {
                for o in 0..1 + r.size(5) {
                    let name = format!("Do{}P{p}x{o}", r.pick(&["Get", "Set", "Create", "Move"]));
                    for suffix in ["", "Response"] {
                        s.push_str(&format!("<xs:element name=\"{name}{suffix}\"><xs:complexType><xs:sequence>\n"));
                        fields(r, &mut s, "  ", &[], 2);
                        s.push_str("</xs:sequence></xs:complexType></xs:element>\n");
                    }
                    ops.push((p, name));
                }
            }
        }
        s.push_str("</xs:schema>\n");
    }
    s.push_str("</wsdl:types>\n");
    for (_, n) in &ops {
        s.push_str(&format!(
            "<wsdl:message name=\"{n}Request\"><wsdl:part name=\"parameters\" element=\"tns:{n}\"/></wsdl:message>\n<wsdl:message name=\"{n}Response\"><wsdl:part name=\"parameters\" element=\"tns:{n}Response\"/></wsdl:message>\n"
        ));
    }
    for p in 0..np {
        s.push_str(&format!("<wsdl:portType name=\"{}Port{p}\">\n", r.pick(&["Z", "A", "m", "Event", "q"])));
        for (_, n) in ops.iter().filter(|(q, _)| *q == p) {
            s.push_str(&format!("<wsdl:operation name=\"{n}\">"));
            if r.chance(1, 2) {
                let k = 1 + r.size(30);
                s.push_str(&format!("<wsdl:documentation>{}</wsdl:documentation>", words(r, k)));
            }
            s.push_str(&format!(
                "<wsdl:input message=\"tns:{n}Request\"/><wsdl:output message=\"tns:{n}Response\"/></wsdl:operation>\n"
            ));
        }
        s.push_str("</wsdl:portType>\n");
    }
    s.push_str("</wsdl:definitions>\n");
    s
}

// ---------------------------------------------------------------- rich schemas

/// Schemas over a small pool of names, so that different schemas define the same names differently;
/// namespace prefixes, features and documentation vary.
pub fn rich_xsd(r: &mut Rng) -> String {
    let mut s = String::new();
    let header = rich_header(r);
    s.push_str(&header.open);
    rich_body(r, &mut s, &header);
    s.push_str(&format!("</{}schema>\n", header.x));
    s
}

struct Header {
    open: String,
    /// prefix of XSD tags, with colon
    x: String,
    /// prefix of own names, with colon
    t: String,
}

fn rich_header(r: &mut Rng) -> Header {
    let x = *r.pick(&["xs:", "xs:", "xsd:", ""]);
    let t = *r.pick(&["tns:", "tns:", "t:", "ns1:", ""]);
    let t = if x.is_empty() && t.is_empty() { "tns:" } else { t };
    let uri = *r.pick(&["http://example.com", "http://example.com/other", "urn:x"]);
    let mut open = String::from("<");
    open.push_str(x);
    open.push_str("schema");
    open.push_str(&match x {
        "" => " xmlns=\"http://www.w3.org/2001/XMLSchema\"".to_string(),
        _ => format!(" xmlns:{}=\"http://www.w3.org/2001/XMLSchema\"", x.trim_end_matches(':')),
    });
    if t.is_empty() {
        if r.chance(1, 2) {
            open.push_str(&format!(" xmlns=\"{uri}\""));
        }
    } else {
        open.push_str(&format!(" xmlns:{}=\"{uri}\"", t.trim_end_matches(':')));
    }
    if r.chance(1, 4) {
        open.push_str(" xmlns:ext=\"http://example.com/ext\"");
    }
    if r.chance(5, 6) {
        open.push_str(&format!(" targetNamespace=\"{uri}\""));
    }
    open.push_str(">\n");
    Header { open, x: x.into(), t: t.into() }
}

const POOL: &[&str] = &["Item", "Config", "Part", "Status", "Range", "Address", "type", "Frame-Rate", "item", "HTTPServer"];

const GROUPS: &[&str] = &["Common", "Id-Attrs", "Lang", "extra"];

fn rich_doc(r: &mut Rng, s: &mut String, x: &str) {
    if r.chance(1, 3) {
        let n = 1 + r.size(20);
        s.push_str(&format!("<{x}annotation><{x}documentation>{}</{x}documentation></{x}annotation>", words(r, n)));
    }
}

fn rich_type(r: &mut Rng, h: &Header, names: &[String]) -> String {
    if !names.is_empty() && r.chance(1, 2) {
        format!("{}{}", h.t, r.pick(names))
    } else {
        let b = *r.pick(&["string", "int", "boolean", "dateTime", "decimal", "integer", "unsignedByte", "duration", "NMTOKENS", "anyURI", "base64Binary", "gYear"]);
        if r.chance(1, 14) {
            format!("ext:{}", r.pick(POOL))
        } else {
            format!("{}{b}", h.x)
        }
    }
}

fn rich_occurs(r: &mut Rng) -> &'static str {
    r.pick(&["", "", " minOccurs=\"0\"", " maxOccurs=\"unbounded\"", " minOccurs=\"0\" maxOccurs=\"unbounded\"", " maxOccurs=\"3\"", " minOccurs=\"1\" maxOccurs=\"1\""])
}

fn rich_particles(r: &mut Rng, s: &mut String, h: &Header, names: &[String], depth: u32) {
    let x = &h.x;
    for i in 0..1 + r.size(5) {
        let n = format!("{}{}", r.pick(POOL), if r.chance(1, 3) { String::new() } else { i.to_string() });
        let occ = rich_occurs(r);
        match r.below(10) {
            0 if depth < 3 => {
                s.push_str(&format!("<{x}element name=\"{n}\"{occ}><{x}complexType>"));
                rich_content(r, s, h, names, depth + 1);
                s.push_str(&format!("</{x}complexType></{x}element>"));
            }
            1 if depth < 3 => {
                s.push_str(&format!("<{x}element name=\"{n}\"{occ}><{x}simpleType>"));
                rich_simple(r, s, h, names, depth + 1);
                s.push_str(&format!("</{x}simpleType></{x}element>"));
            }
            2 if depth < 3 => {
                s.push_str(&format!("<{x}choice{}>", rich_occurs(r)));
                rich_particles(r, s, h, names, depth + 1);
                s.push_str(&format!("</{x}choice>"));
            }
            3 => s.push_str(&format!("<{x}any namespace=\"##any\" processContents=\"lax\"{occ}/>")),
            4 if !names.is_empty() => s.push_str(&format!("<{x}element ref=\"{}{}\"{occ}/>", h.t, r.pick(names))),
            _ => {
                let ty = rich_type(r, h, names);
                s.push_str(&format!("<{x}element name=\"{n}\" type=\"{ty}\"{occ}>"));
                rich_doc(r, s, x);
                s.push_str(&format!("</{x}element>"));
            }
        }
    }
}

fn rich_attributes(r: &mut Rng, s: &mut String, h: &Header, names: &[String]) {
    let x = &h.x;
    for i in 0..r.size(3) {
        let own = r.chance(1, 4);
        let ty = rich_type(r, h, if own { names } else { &[] });
        let u = *r.pick(&["", " use=\"required\"", " use=\"optional\"", " use=\"prohibited\""]);
        s.push_str(&format!("<{x}attribute name=\"{}{i}\" type=\"{ty}\"{u}/>", r.pick(POOL)));
    }
    if r.chance(1, 4) {
        for _ in 0..1 + r.size(4) {
            s.push_str(&format!("<{x}attributeGroup ref=\"{}{}\"/>", h.t, if r.chance(1, 9) { r.pick(POOL) } else { r.pick(GROUPS) }));
        }
    }
    if r.chance(1, 12) {
        s.push_str(&format!("<{x}anyAttribute processContents=\"lax\"/>"));
    }
}

fn rich_content(r: &mut Rng, s: &mut String, h: &Header, names: &[String], depth: u32) {
    let x = h.x.clone();
    match r.below(9) {
        0 => {
            s.push_str(&format!("<{x}all>"));
            rich_particles(r, s, h, names, 3);
            s.push_str(&format!("</{x}all>"));
            rich_attributes(r, s, h, names);
        }
        1 => {
            s.push_str(&format!("<{x}choice{}>", rich_occurs(r)));
            rich_particles(r, s, h, names, depth + 1);
            s.push_str(&format!("</{x}choice>"));
        }
        2 | 3 if !names.is_empty() => {
            s.push_str(&format!("<{x}complexContent><{x}extension base=\"{}{}\"><{x}sequence>", h.t, r.pick(names)));
            rich_particles(r, s, h, names, depth + 1);
            s.push_str(&format!("</{x}sequence>"));
            rich_attributes(r, s, h, names);
            s.push_str(&format!("</{x}extension></{x}complexContent>"));
        }
        4 => {
            let base = rich_type(r, h, &[]);
            s.push_str(&format!("<{x}simpleContent><{x}extension base=\"{base}\">"));
            rich_attributes(r, s, h, names);
            s.push_str(&format!("</{x}extension></{x}simpleContent>"));
        }
        5 => rich_attributes(r, s, h, names),
        _ => {
            s.push_str(&format!("<{x}sequence>"));
            rich_particles(r, s, h, names, depth + 1);
            s.push_str(&format!("</{x}sequence>"));
            rich_attributes(r, s, h, names);
        }
    }
}

fn rich_simple(r: &mut Rng, s: &mut String, h: &Header, names: &[String], depth: u32) {
    let x = h.x.clone();
    match r.below(5) {
        0 => {
            s.push_str(&format!("<{x}restriction base=\"{x}string\">"));
            for _ in 0..1 + r.size(5) {
                s.push_str(&format!("<{x}enumeration value=\"{}\"/>", r.pick(&["On", "OFF", "type", "1", "a b", "x-y", "Größe", "on", "self", "+", "Unknown"])));
            }
            s.push_str(&format!("</{x}restriction>"));
        }
        1 => {
            let own = r.chance(1, 3);
            let t = rich_type(r, h, if own { names } else { &[] });
            s.push_str(&format!("<{x}list itemType=\"{t}\"/>"));
        }
        2 if depth < 3 => {
            s.push_str(&format!("<{x}union memberTypes=\"{} {}\">", rich_type(r, h, names), rich_type(r, h, names)));
            if r.chance(1, 2) {
                s.push_str(&format!("<{x}simpleType>"));
                rich_simple(r, s, h, names, depth + 1);
                s.push_str(&format!("</{x}simpleType>"));
            }
            s.push_str(&format!("</{x}union>"));
        }
        3 => {
            s.push_str(&format!("<{x}restriction base=\"{x}int\"><{x}minInclusive value=\"{}\"/><{x}maxExclusive value=\"{}\"/></{x}restriction>", r.range(-9, 9), r.range(10, 99)));
        }
        _ => {
            s.push_str(&format!("<{x}restriction base=\"{x}string\"><{x}minLength value=\"{}\"/><{x}maxLength value=\"{}\"/></{x}restriction>", r.below(4), r.range(4, 99)));
        }
    }
}

fn rich_body(r: &mut Rng, s: &mut String, h: &Header) {
    let x = h.x.clone();
    let mut names: Vec<String> = POOL.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut names);
    names.truncate(1 + r.size(7));
    if r.chance(1, 6) {
        s.push_str(&format!("<{x}import namespace=\"http://example.com/ext\" schemaLocation=\"ext.xsd\"/>\n"));
    }
    for g in GROUPS {
        if r.chance(2, 5) {
            s.push_str(&format!("<{x}attributeGroup name=\"{g}\">"));
            for i in 0..1 + r.size(3) {
                s.push_str(&format!("<{x}attribute name=\"{}{i}\" type=\"{}\"/>", r.pick(POOL), rich_type(r, h, &[])));
            }
            s.push_str(&format!("</{x}attributeGroup>\n"));
        }
    }
    for n in &names {
        match r.below(9) {
            0 | 1 => {
                s.push_str(&format!("<{x}simpleType name=\"{n}\">"));
                rich_doc(r, s, &x);
                rich_simple(r, s, h, &names, 0);
                s.push_str(&format!("</{x}simpleType>\n"));
            }
            2 => {
                let ty = rich_type(r, h, &names);
                s.push_str(&format!("<{x}element name=\"{n}\" type=\"{ty}\"/>\n"));
            }
            3 => {
                s.push_str(&format!("<{x}element name=\"{n}\"><{x}complexType>"));
                rich_content(r, s, h, &names, 0);
                s.push_str(&format!("</{x}complexType></{x}element>\n"));
            }
            4 => {
                s.push_str(&format!("<{x}attributeGroup name=\"{n}\">"));
                rich_attributes(r, s, h, &[]);
                s.push_str(&format!("</{x}attributeGroup>\n"));
            }
            _ => {
                s.push_str(&format!("<{x}complexType name=\"{n}\">"));
                rich_doc(r, s, &x);
                rich_content(r, s, h, &names, 0);
                s.push_str(&format!("</{x}complexType>\n"));
            }
        }
    }
}

/// WSDL texts over a small pool of names, with several inline schemas and odd shapes
pub fn rich_wsdl(r: &mut Rng) -> String {
    let w = *r.pick(&["wsdl:", "wsdl:", ""]);
    let t = *r.pick(&["tns:", "t:"]);
    let uri = *r.pick(&["http://example.com", "urn:svc"]);
    let mut s = format!(
        "<{w}definitions xmlns{}=\"http://schemas.xmlsoap.org/wsdl/\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:xsd=\"http://www.w3.org/2001/XMLSchema\" xmlns:{}=\"{uri}\" targetNamespace=\"{uri}\">\n<{w}types>\n",
        if w.is_empty() { "" } else { ":wsdl" },
        t.trim_end_matches(':')
    );
    for _ in 0..1 + r.idx(3) {
        let h = rich_header(r);
        s.push_str(&h.open);
        rich_body(r, &mut s, &h);
        s.push_str(&format!("</{}schema>\n", h.x));
    }
    s.push_str(&format!("</{w}types>\n"));
    let mut ops = vec![];
    for k in 0..1 + r.size(5) {
        let n = format!("{}{}", r.pick(&["Get", "Set", "get-item", "type"]), if r.chance(1, 3) { String::new() } else { k.to_string() });
        for suf in ["Request", "Response"] {
            s.push_str(&format!("<{w}message name=\"{n}{suf}\"><{w}part name=\"parameters\" element=\"{t}{}\"/></{w}message>\n", r.pick(POOL)));
        }
        ops.push(n);
    }
    for p in 0..1 + r.size(3) {
        s.push_str(&format!("<{w}portType name=\"{}{}\">\n", r.pick(&["Z", "A", "m"]), if r.chance(1, 3) { String::new() } else { p.to_string() }));
        for n in &ops {
            if r.chance(1, 3) {
                continue;
            }
            s.push_str(&format!("<{w}operation name=\"{n}\"><{w}input message=\"{t}{n}Request\"/><{w}output message=\"{t}{n}Response\"/></{w}operation>\n"));
        }
        s.push_str(&format!("</{w}portType>\n"));
    }
    s.push_str(&format!("</{w}definitions>\n"));
    s
}

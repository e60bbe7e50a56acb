//! e2egen DIR COUNT CRATES [INDEX...]: draws schemas, runs the real parser and generator on them and
//! writes a workspace that compiles what came out. Schemas that cannot be converted, and those named
//! in DIR/skip, are left out; DIR/failed lists the former. With E2E_KIND=wsdl the schemas are the
//! types of drawn services, and it is their clients that are generated.
use std::{fs, path::Path};

use dst::{e2e, runner, wsdl};

const PREAMBLE: &str = "use std::str::FromStr;\nuse xsd_macro_utils::*;\nuse yaserde_derive::{YaDeserialize, YaSerialize};\nuse xsd_types::types as xs;\nuse xsd_parser::generator::validator::Validate;\n";

fn put(p: &Path, t: &str) {
    if fs::read_to_string(p).ok().as_deref() != Some(t) {
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, t).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = Path::new(&a[1]);
    let (count, crates): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let only: Vec<u64> = a[4..].iter().map(|x| x.parse().unwrap()).collect();
    let seed = runner::seed();
    let services = std::env::var("E2E_KIND").is_ok_and(|k| k == "wsdl");
    runner::quiet_panics();
    let skip: Vec<u64> = fs::read_to_string(dir.join("skip")).unwrap_or_default().lines().filter_map(|l| l.split_whitespace().next()?.parse().ok()).collect();
    let mut failed = String::new();
    let mut mods = vec![String::new(); crates as usize];
    let mut tables = vec![String::new(); crates as usize];
    for idx in if only.is_empty() { (0..count).collect::<Vec<_>>() } else { only } {
        if skip.contains(&idx) {
            continue;
        }
        let s = if services { e2e::service_schema(seed, idx) } else { e2e::schema(seed, idx) };
        let service = services.then(|| wsdl::service(&s));
        let text = service.as_ref().map_or_else(|| s.xsd_text(), |w| w.text(&s));
        // should the conversion take the whole process down, the driver reads what it was working on
        put(&dir.join("doing"), &idx.to_string());
        let (tx, rx) = std::sync::mpsc::channel();
        let t = text.clone();
        std::thread::spawn(move || {
            let _ = tx.send(runner::guard(|| if services { wsdl::convert(&t) } else { e2e::convert(&t) }));
        });
        let code = match rx.recv_timeout(std::time::Duration::from_secs(60)).unwrap_or_else(|_| Err("conversion does not end".into())) {
            Ok(c) => c,
            Err(e) => {
                failed.push_str(&format!("{idx} generate {}\n", e.replace('\n', " ")));
                continue;
            }
        };
        let k = (idx % crates) as usize;
        put(&dir.join(format!("xsd/s{idx}.{}", if services { "wsdl" } else { "xsd" })), &text);
        put(&dir.join(format!("c{k}/src/s{idx}.rs")), &format!("{PREAMBLE}{}{code}{}", if services { "use e2e_glue::transport;\n" } else { "" }, s.shims(&code)));
        mods[k].push_str(&format!("pub mod s{idx};\n"));
        if let Some(w) = service {
            for (i, op) in w.ops().iter().enumerate() {
                tables[k].push_str(&format!("    t.operations.push(e2e_glue::Operation {{ schema: {idx}, op: {i}, call: |net, doc| Box::pin(async move {{ let request = e2e_glue::load(&doc)?; let response = s{idx}::{}(&net, &request).await.map_err(|e| format!(\"{{e:?}}\"))?; e2e_glue::store(&response)}}) }});\n", op.rust));
            }
            continue;
        }
        for (g, name) in s.roots() {
            tables[k].push_str(&format!("    t.endpoints.push(e2e_glue::endpoint::<s{idx}::{name}>({idx}, {g}));\n"));
        }
        for (i, name) in s.valued() {
            tables[k].push_str(&format!("    t.values.push(e2e_glue::endpoint::<s{idx}::{name}>({idx}, {i}));\n"));
        }
        for (i, name) in s.checked() {
            tables[k].push_str(&format!("    t.checkers.push(e2e_glue::checker::<s{idx}::{name}>({idx}, {i}));\n"));
        }
    }
    put(&dir.join("doing"), "");
    put(&dir.join("failed"), &failed);
    let sim = runner::verif_dir().join("sim");
    let sim = sim.canonicalize().unwrap();
    let sim = sim.display();
    let members: Vec<String> = (0..crates).map(|k| format!("\"c{k}\"")).chain(["\"run\"".to_string()]).collect();
    put(&dir.join("Cargo.toml"), &format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n[profile.dev]\nopt-level = 0\ndebug = 0\noverflow-checks = true\ndebug-assertions = true\nincremental = false\n[profile.dev.package.\"*\"]\nopt-level = 1\n", members.join(", ")));
    for k in 0..crates {
        put(&dir.join(format!("c{k}/Cargo.toml")), &format!("[package]\nname = \"c{k}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nxsd-parser = {{ path = \"/repo/xsd-parser\" }}\nxsd-types = {{ path = \"/repo/xsd-types\" }}\nxsd-macro-utils = {{ path = \"/repo/xsd-macro-utils\" }}\ne2e-glue = {{ path = \"{sim}/../glue\" }}\nyaserde = \"0.7\"\nyaserde_derive = \"0.7\"\nxml-rs = \"0.8\"\n"));
        put(&dir.join(format!("c{k}/src/lib.rs")), &format!("#![allow(warnings)]\n{}pub fn add(t: &mut e2e_glue::Table) {{\n{}}}\n", mods[k as usize], tables[k as usize]));
    }
    let deps: String = (0..crates).map(|k| format!("c{k} = {{ path = \"../c{k}\" }}\n")).collect();
    put(&dir.join("run/Cargo.toml"), &format!("[package]\nname = \"e2erun\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\ndst = {{ path = \"{sim}\" }}\ne2e-glue = {{ path = \"{sim}/../glue\" }}\n{deps}"));
    let adds: String = (0..crates).map(|k| format!("    c{k}::add(&mut t);\n")).collect();
    put(&dir.join("run/src/main.rs"), &format!("fn main() {{\n    let mut t = e2e_glue::Table::default();\n{adds}    dst::e2erun::main(t)\n}}\n"));
    println!("{} failed", failed.lines().count());
    std::process::exit(0)
}

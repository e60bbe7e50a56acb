use dst::{
    apps::S06,
    runner::{main as run, Meta, Sim},
    stream::{S01, S02, S03, S04, S05},
};

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let (p, sim, rule, quick, thorough): (&'static str, &dyn Sim, &'static str, u64, u64) = match id.as_str() {
        "S01" => ("S01", &S01, "a run sends one document through a split and interrupted stream and back; it counts when at least one transfer was short or interrupted; distinct = distinct (document, rendering, schedules)", 1_000_000, 60_000_000),
        "S02" => ("S02", &S02, "a run cuts or fails the stream of one document at up to 400 positions; distinct = distinct (document, rendering, schedule, fault list)", 150_000, 8_000_000),
        "S03" => ("S03", &S03, "a run fails or fills the writer of one document at up to 400 positions; distinct = distinct (document, schedule, fault list)", 300_000, 20_000_000),
        "S04" => ("S04", &S04, "a run delivers one document damaged in transit or with hostile content; distinct = distinct (document, damage, schedule)", 2_000_000, 100_000_000),
        "S05" => ("S05", &S05, "a run delivers one text to the reader of one simple type; distinct = distinct (type, text, rendering, schedule)", 2_000_000, 100_000_000),
        "S06" => ("S06", &S06, "a run constructs or receives one value, takes it apart, makes it again and sends it through a split and interrupted stream; distinct = distinct (type, arguments or text, schedules)", 2_000_000, 100_000_000),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    };
    run(
        Meta {
            property: p,
            level: "exploration",
            rule,
            states_measure: "distinct byte-exact transfer histories (sizes, interruptions and boundary bytes of every read or write)",
            real: vec!["xsd-types, xsd-macro-utils (every type and derive macro)", "yaserde, yaserde_derive, xml-rs, chrono, bigdecimal, num-bigint"],
            stub: vec!["reader, writer and transport (simulated)", "foreign peer (renders documents from the reference lexical model)", "clock (stalls advance simulated time)"],
            assumptions: vec![
                "value range: the one every XSD processor has to support (years 0001-9999 for date and dateTime, up to nanoseconds), i32 years for gYear types, u64 duration components",
                "a dateTime without timezone denotes UTC, as documented in datetime.rs",
                "yaserde 0.7 trims surrounding white space of text and cannot carry < and & in attributes of simple types",
            ],
            quick_runs: quick,
            thorough_runs: thorough,
            max_workers: 16,
            forked: false,
        },
        sim,
    )
}

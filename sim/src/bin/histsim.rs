use dst::{
    hist::{G01, G02, G03, G04},
    parts::G05,
    runner::{main as run, Meta, Sim},
    simos::SimAlloc,
};

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let (p, sim, rule, states, quick, thorough): (&'static str, &dyn Sim, &'static str, &'static str, u64, u64) = match id.as_str() {
        "G01" => ("G01", &G01, "a run is a history of conversions, failures and nested conversions on shared generators; distinct = distinct (documents, operations)", "distinct operation sequences", 25_000, 2_000_000),
        "G02" => ("G02", &G02, "a run is a history of generations from kept parsed schemas; distinct = distinct (documents, operations)", "distinct operation sequences", 25_000, 2_000_000),
        "G03" => ("G03", &G03, "a run interleaves 2-4 converting threads at allocation, lock and yield points; distinct = distinct (documents, threads, schedule)", "distinct thread interleavings (sequence of switch points and threads)", 25_000, 2_000_000),
        "G04" => ("G04", &G04, "a run converts one document whose references were rewired, whose declarations were nested into each other, or that was damaged; distinct = distinct documents", "distinct (step count, answer) pairs", 160_000, 12_000_000),
        "G05" => ("G05", &G05, "a run is a history of conversions with one generator some parts of which are replaced, and may fail; distinct = distinct (documents, parts, operations)", "distinct (parts, operations)", 25_000, 2_000_000),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    };
    run(
        Meta {
            property: p,
            level: "exploration",
            rule,
            states_measure: states,
            real: vec!["xsd-parser, wsdl-parser (parsing and generation)", "roxmltree, inflector", "std locks and threads (G03), scheduled through interposed futex calls"],
            stub: vec!["thread scheduler, hash seeds, sleeps (simulated)", "user-supplied generators (forward to the default ones; fail or convert something else at a seeded call)"],
            assumptions: vec!["the reference for a document is what a fresh process answers for it alone", "threads are preempted at allocations, lock operations, yields and sleeps, not between other instructions"],
            quick_runs: quick,
            thorough_runs: thorough,
            max_workers: 8,
            forked: true,
        },
        sim,
    )
}

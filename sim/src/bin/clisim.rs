use dst::{
    cli::{C01, C02, C03, C04, C05, C06, C07},
    runner::{main as run, Meta, Sim},
};

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let (p, sim, rule, quick, thorough): (&'static str, &dyn Sim, &'static str, u64, u64) = match id.as_str() {
        "C01" => ("C01", &C01, "a run counts when at least one short or interrupted transfer was injected; distinct = distinct (scenario, plan)", 8000, 200_000),
        "C02" => ("C02", &C02, "a run counts when at least one hard fault (error, full disk, failed allocation) really struck; distinct = distinct (scenario, plan)", 8000, 200_000),
        "C03" => ("C03", &C03, "a run counts when at least one input was refused (damaged or unreadable); distinct = distinct (scenario, plan)", 8000, 200_000),
        "C04" => ("C04", &C04, "a run counts when at least one attempt was crashed or failed by an injected fault; distinct = distinct (scenario, plans)", 5000, 120_000),
        "C05" => ("C05", &C05, "a run counts when the tree has at least two files; each scenario is executed under two listing orders; distinct = distinct scenarios", 2500, 60_000),
        "C06" => ("C06", &C06, "a run executes one command 3 to 5 times under different entropy/clock/pid/environment/listing/chunking; distinct = distinct inputs", 2500, 60_000),
        "C07" => ("C07", &C07, "a run counts when the schedule switched between live processes more than once; distinct = distinct (scenario, executed order)", 3000, 80_000),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    };
    let meta = Meta {
        property: p,
        level: "exploration",
        rule,
        states_measure: "distinct sequences of (system call, file, injected action) executed by the simulated processes; for C05 also distinct listing orders, for C07 distinct interleavings",
        real: vec![
            "xsd-parser-cli and wsdl-parser-cli binaries built from /repo (main, clap, anyhow, std, xsd-parser, wsdl-parser, roxmltree)",
            "kernel tmpfs as the backing store below the fault layer",
        ],
        stub: vec![
            "system call layer (shim/iosim.c): short/interrupted/failing transfers, crash points, listing order, full disk, allocation failure, clock, entropy, pid, step gate",
            "terminal/pipe peers of stdout and stderr",
        ],
        assumptions: vec![
            "crash = process kill: completed system calls survive, as the tools never call fsync and promise no power-loss durability",
            "errors returned by close(2) are not injected as effective faults: Rust's File drop cannot observe them",
            "simulated time does not advance: the tools use no timers or deadlines (clock reads are simulated and counted)",
        ],
        quick_runs: quick,
        thorough_runs: thorough,
        max_workers: 16,
            forked: false,
    };
    extern "C" fn at_exit() {
        dst::cli::cleanup();
    }
    unsafe {
        libc::atexit(at_exit);
    }
    run(meta, sim)
}

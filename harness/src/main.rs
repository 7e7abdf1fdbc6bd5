//! Scenarios that search for a concrete failing input of a property in the real code.
//! `vh list` prints "property name"; `vh run <property> <name> <seed> <scale>` runs one:
//! exit 0 if nothing was found, 10 with a line "FAIL .." or 11 with a line "HANG .." otherwise.
#[macro_use]
mod util;
mod audit;
mod auto;
mod busy;
mod conv;
mod elem;
mod grow;
mod iters;
mod known;
mod model;
mod panicking;
mod slices;

use std::sync::atomic::Ordering::SeqCst;
use util::*;

type Scenario = fn(&mut Cx);
/// property, name, function, also run under the interpreter
const ALL: &[(&str, &str, Scenario, bool)] = &[
    ("C01", "seq", grow::c01_seq, true),
    ("C01", "par", grow::c01_par, true),
    ("C01", "read", grow::c01_read, true),
    ("C01", "model", model::c01, false),
    ("C02", "full", grow::c02_full, true),
    ("C02", "shapes", grow::c02_shapes, true),
    ("C02", "stall", grow::c02_stall, false),
    ("C02", "race", grow::c02_race, true),
    ("C03", "gap", grow::c03_gap, false),
    ("C03", "clone_hold", grow::c03_clone_hold, false),
    ("C03", "par", grow::c03_par, true),
    ("C03", "quiescent", grow::c03_quiescent, true),
    ("C03", "model", model::c03, false),
    ("C04", "all", elem::c04_all, true),
    ("C04", "gap", elem::c04_gap, false),
    ("C04", "par", elem::c04_par, true),
    ("C04", "model", model::c04, false),
    ("C05", "seq", elem::c05_seq, true),
    ("C05", "par", elem::c05_par, true),
    ("C05", "model", model::c05, false),
    ("C06", "all", slices::c06_all, true),
    ("C06", "live", slices::c06_live, true),
    ("C07", "all", slices::c07_all, true),
    ("C07", "grow", slices::c07_grow, true),
    ("C06", "model", model::c06, false),
    ("C07", "model", model::c07, false),
    ("C08", "seq", elem::c08_seq, true),
    ("C08", "par", elem::c08_par, true),
    ("C08", "model", model::c08, false),
    ("C09", "seq", elem::c09_seq, true),
    ("C09", "par", elem::c09_par, true),
    ("C09", "model", model::c09, false),
    ("C10", "all", iters::c10_all, true),
    ("C10", "long", iters::c10_long, false),
    ("C10", "par", iters::c10_par, true),
    ("C10", "model", model::c10, false),
    ("C11", "all", iters::c11_all, true),
    ("C11", "par", iters::c11_par, true),
    ("C11", "model", model::c11, false),
    ("C12", "all", conv::c12_all, true),
    ("C12", "more", conv::c12_more, true),
    ("C12", "model", model::c12, false),
    ("C13", "clear", conv::c13_clear, true),
    ("C13", "reserve", conv::c13_reserve, true),
    ("C13", "model", model::c13, false),
    ("C14", "all", conv::c14_all, true),
    ("C14", "par", conv::c14_par, false),
    ("C14", "model", model::c14, false),
    ("C15", "all", auto::c15_all, false),
    ("C16", "ops", panicking::c16_ops, true),
    ("C16", "grow", panicking::c16_grow, true),
    ("C16", "par", panicking::c16_par, false),
    ("C16", "full", panicking::c16_full, true),
    ("C01", "nested", audit::c01_nested, true),
    ("C03", "grow", audit::c03_grow, true),
    ("C03", "states", audit::c03_states, false),
    ("C04", "states", audit::c04_states, false),
    ("C05", "states", audit::c05_states, false),
    ("C05", "sizes", audit::c05_sizes, false),
    ("C05", "torn", audit::c05_torn, true),
    ("C06", "states", audit::c06_states, false),
    ("C07", "states", audit::c07_states, false),
    ("C08", "states", audit::c08_states, false),
    ("C09", "states", audit::c09_states, false),
    ("C09", "hooks", audit::c09_hooks, true),
    ("C10", "states", audit::c10_states, false),
    ("C11", "states", audit::c11_states, false),
    ("C11", "fmt", audit::c11_fmt, false),
    ("C14", "states", audit::c14_states, false),
    ("C04", "busy", busy::c04, false),
    ("C05", "busy", busy::c05, false),
    ("C08", "busy", busy::c08, false),
    ("C09", "busy", busy::c09, false),
    ("C10", "busy", busy::c10, false),
    ("C11", "busy", busy::c11, false),
    ("C12", "busy", busy::c12, false),
    ("C14", "busy", busy::c14, false),
    ("K1", "known", known::k1, false),
    ("K2", "known", known::k2, false),
];

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|x| x.as_str()) {
        Some("list") => {
            for (p, n, _, m) in ALL {
                println!("{p} {n} {m}");
            }
        }
        Some("run") if a.len() >= 5 => {
            let s = ALL.iter().find(|x| x.0 == a[1] && x.1 == a[2]).expect("no such scenario");
            let mut cx = Cx { prop: a[1].clone(), seed: a[3].parse().unwrap(), scale: a[4].parse().unwrap(), rng: Rng::new(a[3].parse().unwrap()) };
            let limit: u64 = a.get(5).map_or(75, |x| x.parse().unwrap());
            install_hook();
            if !cfg!(miri) {
                std::thread::spawn(move || {
                    let (mut last, mut still) = (0, 0u64);
                    loop {
                        std::thread::sleep(std::time::Duration::from_secs(1));
                        let now = PROGRESS.load(SeqCst);
                        still = if now == last { still + 1 } else { 0 };
                        last = now;
                        if still >= limit {
                            println!("HANG no progress for {limit} s | input: {}", ctx().replace('\n', " "));
                            std::process::exit(11);
                        }
                    }
                });
            }
            let f = s.2;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
            if r.is_err() {
                fail(&format!("unexpected panic: {}", last_panic()));
            }
            println!("OK {} cases", CASES.load(SeqCst));
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: vh list | vh run <property> <name> <seed> <scale> [hang limit in s]");
            std::process::exit(2);
        }
    }
}

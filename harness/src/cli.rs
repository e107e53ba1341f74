//! `BIN check ID TIER SEED BUDGET_S OUT.json` / `BIN replay ID SCENARIO SEED OUT.json`
use crate::run::{replay, run_groups, Group, Outcome};
use std::time::Duration;

pub fn main(groups: fn(&str) -> Vec<Group>) {
    let a: Vec<String> = std::env::args().collect();
    if let Err(e) = crate::interpose::self_test() {
        eprintln!("{e}");
        std::process::exit(3);
    }
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let gs = groups(&arg(2));
    if gs.is_empty() {
        eprintln!("no such check: {}", arg(2));
        std::process::exit(3);
    }
    let mut out = Outcome::default();
    let path = match arg(1).as_str() {
        "check" => {
            let budget = Duration::from_secs_f64(arg(5).parse().expect("budget"));
            run_groups(&gs, arg(4).parse().expect("seed"), arg(3) == "thorough", budget, &mut out);
            arg(6)
        }
        "replay" => {
            replay(&gs, &arg(3), arg(4).parse().expect("seed"), &mut out);
            arg(5)
        }
        _ => std::process::exit(3),
    };
    std::fs::write(&path, serde_json::to_string_pretty(&out.to_json()).expect("json")).expect("written");
    // Detached runtimes may still hold threads.
    std::process::exit(0);
}

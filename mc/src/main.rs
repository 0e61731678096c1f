//! Bounded exhaustive model checking of the quadtree crate. See DESIGN.md.
#![allow(clippy::all)]

mod engine;
mod model;
mod props;
mod shape;
mod tree;
mod worlds;

use props::Tier;
use std::collections::HashSet;
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    engine::install_hook();
    let usage = || -> ! {
        eprintln!("usage: qtmc run PROP quick|thorough OUT SLOTS KNOWN [SPACE] | qtmc one PROP TIER SPACE CHUNK TRACE");
        std::process::exit(2)
    };
    if a.len() < 7 {
        usage();
    }
    let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let Some(spaces) = props::spaces(&a[2], tier) else { usage() };
    let code = match a[1].as_str() {
        "run" => {
            let known: HashSet<String> = std::fs::read_to_string(&a[6]).unwrap_or_default().lines().map(|s| s.to_string()).collect();
            let budget = match tier {
                Tier::Quick => 240,
                Tier::Thorough => 720,
            };
            let o = engine::Opts {
                out: a[4].clone(),
                slots: a[5].clone(),
                budget: Duration::from_secs(budget),
                known,
                threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8),
                only: a.get(7).cloned(),
            };
            engine::explore(spaces, &o)
        }
        "one" => engine::one(spaces, a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6]),
        _ => usage(),
    };
    std::process::exit(code);
}

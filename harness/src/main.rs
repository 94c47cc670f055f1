mod alloc;
mod files;
mod geom;
mod known;
mod maps;
mod props;
mod run;
mod topo;

use run::{Prop, Tier};
use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::MovingAlloc = alloc::MovingAlloc;

macro_rules! registry {
    ($($t:ty),* $(,)?) => {
        fn dispatch(id: &str, act: Action) -> i32 {
            $( if id == <$t as Prop>::ID { return act.run::<$t>(); } )*
            eprintln!("no such property: {}", id);
            2
        }
        fn ids() -> Vec<&'static str> { vec![$(<$t as Prop>::ID),*] }
    };
}

registry!(
    props::convert::C07, props::convert::C08, props::convert::C26,
    props::files::C01, props::files::C02, props::files::C03, props::files::C04, props::files::C05, props::files::C06,
    props::geo::C09, props::geo::C10,
    props::build::C11, props::build::C12,
    props::normalize::C14, props::normalize::C15, props::normalize::C16, props::normalize::C17,
    props::simplify::C18, props::simplify::C19, props::simplify::C20,
    props::clip::C21, props::clip::C22, props::clip::C23, props::clip::C24,
    props::pipeline::C13, props::pipeline::C25, props::scaling::C27,
);

enum Action {
    Run(PathBuf, Tier, u64),
    Shard(Tier, u64, u64, PathBuf),
    Replay(serde_json::Value),
}

impl Action {
    fn run<P: Prop>(self) -> i32 {
        match self {
            Action::Run(root, tier, seed) => run::run::<P>(&root, tier, seed),
            Action::Shard(tier, seed, shard, dir) => {
                run::shard::<P>(tier, seed, shard, &dir);
                0
            }
            Action::Replay(v) => run::replay_case::<P>(&v),
        }
    }
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    run::install_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = tier_of(args.get(3).map(|s| s.as_str()).unwrap_or("quick"));
            let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
            dispatch(&args[2], Action::Run(root, tier, seed))
        }
        Some("shard") => dispatch(&args[2], Action::Shard(tier_of(&args[3]), args[4].parse().unwrap(), args[5].parse().unwrap(), PathBuf::from(&args[6]))),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap().to_string();
            dispatch(&id, Action::Replay(v["case"].clone()))
        }
        Some("list") => {
            for i in ids() { println!("{}", i); }
            0
        }
        Some("selftest") => selftest(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(2000)),
        _ => {
            eprintln!("usage: vh run ID quick|thorough | replay FILE | list | selftest N");
            2
        }
    };
    std::process::exit(code);
}

/// Validates the map generator: every generated map is planar.
fn selftest(n: usize) -> i32 {
    use proptest::strategy::{Strategy, ValueTree};
    use proptest::test_runner::{Config, TestRunner};
    let mut r = TestRunner::new(Config { failure_persistence: None, ..Config::default() });
    let mut nf = 0;
    for exact in vec![false, true] {
        let s = maps::map_strategy(exact, 6);
        for i in 0..n {
            let spec = s.new_tree(&mut r).unwrap().current();
            let m = spec.build();
            nf += m.faces.len();
            if let Err(e) = maps::validate(&m) {
                println!("case {}: {}\n{}", i, e, serde_json::to_string(&spec).unwrap());
                return 1;
            }
        }
    }
    println!("{} maps valid, {} faces", 2 * n, nf);
    0
}

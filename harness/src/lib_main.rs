#![allow(dead_code)]
mod access;
mod checks;
mod explore;
mod grid;
mod lib_checks;
mod model;
mod out;
mod probes;
mod refmath;
mod scen;
mod svm;
mod watch;
mod world;
use explore::*;

fn main() {
    svm::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            out::redirect();
            std::process::exit(checks::check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")));
        }
        Some("replay") => {
            out::redirect();
            std::process::exit(checks::replay_file(&a[2]));
        }
        Some("sweep") => sweep(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(2), a.get(3).cloned()),
        _ => {
            eprintln!("usage: check <property> <quick|thorough> | replay <file> | sweep <depth> [scenario]");
            std::process::exit(2);
        }
    }
}

/// development aid: every scenario, every divergence
fn sweep(depth: usize, only: Option<String>) {
    out::redirect();
    for (f, _, _) in checks::ALL {
        let t = std::time::Instant::now();
        let scn = f(depth);
        if only.as_ref().is_some_and(|o| *o != scn.name) {
            continue;
        }
        let st = Stats::default();
        let o = run(&scn, "NONE", &st);
        eprintln!(
            "{:14} ops {:2} {:?} states {:?} tx {:?} ok {:?} swaps {:?} cross {:?} obs {:?}",
            scn.name,
            scn.ops.len(),
            t.elapsed(),
            st.states,
            st.transitions,
            st.ok,
            st.swaps,
            st.crossings,
            st.obs_writes
        );
        for f in o.found.iter().chain(o.other.iter()).take(6) {
            eprintln!("   {:?} {:?} {}", f.trace, f.props, f.what);
        }
    }
}

#![allow(dead_code)]
mod access;
mod checks;
mod explore;
mod grid;
mod model;
mod out;
mod probes;
mod refmath;
mod scen;
mod svm;
mod watch;
mod world;
use explore::*;

fn main() {
    svm::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            out::redirect();
            std::process::exit(checks::check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")));
        }
        Some("replay") => {
            out::redirect();
            std::process::exit(checks::replay_file(&a[2]));
        }
        Some("any") => std::process::exit(any()),
        Some("sweep") => sweep(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(2), a.get(3).cloned()),
        _ => {
            eprintln!("usage: check <property> <quick|thorough> | replay <file> | sweep <depth> [scenario]");
            std::process::exit(2);
        }
    }
}

/// development aid: every scenario, every divergence
fn sweep(depth: usize, only: Option<String>) {
    out::redirect();
    for (f, _, _) in checks::ALL {
        let t = std::time::Instant::now();
        let scn = f(depth);
        if only.as_ref().is_some_and(|o| *o != scn.name) {
            continue;
        }
        let st = Stats::default();
        let o = run(&scn, "NONE", &st);
        eprintln!(
            "{:14} ops {:2} {:?} states {:?} tx {:?} ok {:?} swaps {:?} cross {:?} obs {:?}",
            scn.name,
            scn.ops.len(),
            t.elapsed(),
            st.states,
            st.transitions,
            st.ok,
            st.swaps,
            st.crossings,
            st.obs_writes
        );
        for f in o.found.iter().chain(o.other.iter()).take(6) {
            eprintln!("   {:?} {:?} {}", f.trace, f.props, f.what);
        }
    }
}

/// development aid: everything, until the first divergence from anything specified
fn any() -> i32 {
    use checks::Matrix;
    out::redirect();
    watch::start("ANY", "quick");
    svm::set_watch(watch::busy, watch::idle);
    let go = |f: &fn(usize) -> Scn, d: usize, ps: Vec<explore::Probe>| -> bool {
        let mut scn = match svm::caught(|| f(d)) {
            Ok(s) => s,
            Err(e) => {
                out::say(&format!("CAUGHT setup {e}"));
                return true;
            }
        };
        scn.events = ps.is_empty();
        scn.budget_s = 60.0;
        scn.max_states = 1_500_000;
        scn.probes = ps;
        scn.probe_depth = 1;
        let st = Stats::default();
        let o = run(&scn, "ANY", &st);
        if let Some(x) = o.found.first() {
            out::say(&format!("CAUGHT {:?} {} {:?} {}", x.props, x.scn, x.trace, x.what.chars().take(150).collect::<String>()));
            return true;
        }
        false
    };
    for cap in [1, 2] {
        for (f, q, _) in checks::ALL {
            if go(f, (*q).min(cap), vec![]) {
                return 1;
            }
        }
    }
    for n in 1..=33 {
        if let Some(p) = checks::plan(&format!("C{n:02}")) {
            if !p.probes.is_empty() {
                for (f, _, _) in &p.items {
                    if go(f, 1, p.probes.clone()) {
                        return 1;
                    }
                }
            }
        }
    }
    let ms: [(&str, fn(&str, &mut Matrix)); 8] = [
        ("C33", grid::deposits),
        ("C32", grid::nft_identity),
        ("C18", access::creation),
        ("C29", grid::admin_events),
        ("C16", access::ownership),
        ("C26", access::payment),
        ("C25", access::reentrance),
        ("C17", access::substitution),
    ];
    for (id, m) in ms {
        let mut x = Matrix { deadline: Some(std::time::Instant::now() + std::time::Duration::from_secs(150)), ..Default::default() };
        if let Err(e) = svm::caught(|| m(id, &mut x)) {
            out::say(&format!("CAUGHT setup {e}"));
            return 1;
        }
        if let Some(r) = x.found.first() {
            out::say(&format!("CAUGHT [{id}] {} {:?} {}", r.group, r.trace, r.what.chars().take(150).collect::<String>()));
            return 1;
        }
    }
    let less: usize = std::env::var("ANY_LESS").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    for (f, q, _) in checks::ALL {
        if go(f, *q - less, vec![]) {
            return 1;
        }
    }
    out::say("SURVIVED");
    0
}

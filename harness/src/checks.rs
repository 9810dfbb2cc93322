//! Which scenarios, probes and matrices decide each property, and the driver that runs them.
use crate::explore::*;
use crate::out::*;
use crate::probes;
use crate::scen;
use crate::svm::caught;
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

pub type Mk = fn(usize) -> Scn;
/// (constructor, quick depth, thorough depth)
pub type Item = (Mk, usize, usize);

pub const ALL: &[Item] = &[
    (scen::core, 5, 7),
    (scen::core_liquid, 4, 6),
    (scen::core_edge, 4, 5),
    (scen::nft, 4, 6),
    (scen::nft_live, 4, 5),
    (scen::words, 4, 5),
    (scen::far_neg, 4, 5),
    (scen::far_pos, 4, 5),
    (scen::ext_low, 4, 6),
    (scen::ext_high, 4, 6),
    (scen::limits, 3, 5),
    (scen::oracle, 5, 7),
    (scen::oracle_ring, 4, 6),
    (scen::oracle_grow, 5, 7),
    (scen::oracle_2106, 5, 7),
    (scen::oracle_256, 4, 5),
    (scen::oracle_restart, 4, 5),
    (scen::wrap, 5, 6),
    (scen::big, 4, 6),
    (scen::tiny, 4, 6),
    (scen::route, 3, 5),
    (scen::twins, 3, 4),
    (scen::fees, 4, 6),
    (scen::fee_zero, 3, 5),
    (scen::fee_half, 4, 5),
    (scen::fee_max, 4, 5),
    (scen::wide, 4, 5),
    (scen::life, 5, 7),
    (scen::life_again, 4, 6),
    (scen::life_edges, 3, 3),
    (scen::life_edges_1, 2, 2),
    (scen::life_edges_10, 2, 2),
    (scen::life_edges_200, 2, 2),
    (scen::life_edges_max, 2, 2),
    (scen::life_shared, 3, 5),
    (scen::nft_wide, 4, 5),
    (scen::nft_one, 4, 5),
    (scen::harm, 4, 5),
    (scen::nft_pools, 3, 5),
    (scen::slippage, 4, 5),
    (scen::harm_nft, 4, 5),
];

fn pick(names: &[&str]) -> Vec<Item> {
    // names are the constructors' scenario names
    // one that cannot even be built is kept: the failure is then reported
    ALL.iter().copied().filter(|(f, _, _)| caught(|| f(0).name).map(|n| names.contains(&n.as_str())).unwrap_or(true)).collect()
}

/// all scenarios, to at most the given depths
fn shallow(q: usize, t: usize) -> Vec<Item> {
    ALL.iter().map(|(f, a, b)| (*f, (*a).min(q), (*b).min(t))).collect()
}

pub struct Plan {
    pub items: Vec<Item>,
    pub probes: Vec<Probe>,
    /// probes run at states up to this depth (quick, thorough)
    pub probe_depth: (usize, usize),
    pub matrix: Option<fn(&str, &mut Matrix)>,
    /// in the magnitude worlds, probes run at states up to this depth (one more in the thorough tier)
    pub scale_probes: usize,
}
impl Plan {
    fn of(items: Vec<Item>) -> Plan {
        Plan { items, probes: vec![], probe_depth: (2, 3), matrix: None, scale_probes: 1 }
    }
}

/// Results of an exhaustive enumeration that is not a search over histories.
#[derive(Default)]
pub struct Matrix {
    pub thorough: bool,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub samples: Vec<String>,
    pub found: Vec<Report>,
    pub notes: Vec<String>,
    pub capped: bool,
    /// stop starting new work after this
    pub deadline: Option<Instant>,
}

fn own_matrix(id: &str, x: &mut Matrix) {
    crate::access::ownership(id, x);
    crate::access::substitution(id, x);
}
fn pay_matrix(id: &str, x: &mut Matrix) {
    crate::access::payment(id, x);
    crate::access::substitution(id, x);
}

fn identity_matrix(id: &str, x: &mut Matrix) {
    crate::grid::nft_identity(id, x);
    crate::access::substitution(id, x);
}

pub fn plan(id: &str) -> Option<Plan> {
    use probes::*;
    let with = |items: Vec<Item>, p: Probe, d: (usize, usize)| Plan { items, probes: vec![p], probe_depth: d, matrix: None, scale_probes: 1 };
    let p = match id {
        "C01" => with(ALL.to_vec(), full_exit, (2, 3)),
        "C02" => with(ALL.to_vec(), mint_burn, (2, 3)),
        "C04" => Plan { scale_probes: 0, probes: vec![round_trip, swaps], ..with(ALL.to_vec(), round_trip, (2, 3)) },
        "C07" => Plan { matrix: Some(crate::access::substitution), probes: vec![thieves, amounts], ..with(ALL.to_vec(), thieves, (2, 3)) },
        "C05" => Plan { matrix: Some(crate::grid::bad_ranges), ..with(ALL.to_vec(), amounts, (2, 3)) },
        "C09" | "C27" => with(ALL.to_vec(), amounts, (2, 3)),
        "C03" | "C19" => Plan { scale_probes: 0, ..with(ALL.to_vec(), swaps, (2, 3)) },
        "C08" => Plan { matrix: Some(crate::access::substitution), ..with(pick(&["nft", "nft-live", "nft-wide", "nft-one", "nft-pools", "slippage"]), nft_thieves, (2, 3)) },
        "C10" => with(pick(&["route", "limits", "slippage", "core", "wide", "words"]), min_out, (2, 3)),
        "C11" => with(pick(&["nft", "nft-live", "nft-wide", "nft-one", "nft-pools", "slippage"]), min_liq, (2, 3)),
        "C12" => with(pick(&["slippage", "route", "nft"]), deadlines, (2, 3)),
        "C30" => with(pick(&["harm", "harm-nft", "nft-wide"]), stranger, (3, 4)),
        "C36" => Plan { scale_probes: 0, ..with(shallow(3, 4), agree, (1, 2)) },
        "C35" => Plan { matrix: Some(crate::access::substitution), ..with(pick(&["twins", "route", "nft-pools", "slippage"]), commute, (1, 2)) },
        "C34" => Plan { scale_probes: 0, ..with(shallow(3, 4), split, (1, 2)) },
        "C33" => Plan { matrix: Some(crate::grid::deposits), ..Plan::of(ALL.to_vec()) },
        "C32" => Plan { matrix: Some(identity_matrix), ..Plan::of(pick(&["nft", "nft-live", "nft-pools", "nft-wide", "nft-one", "harm-nft", "slippage"])) },
        "C16" => Plan { matrix: Some(own_matrix), ..Plan::of(pick(&["fees"])) },
        "C17" => Plan { matrix: Some(crate::access::substitution), ..Plan::of(vec![]) },
        "C18" => Plan { matrix: Some(crate::access::creation), ..Plan::of(ALL.to_vec()) },
        "C25" => Plan { matrix: Some(crate::access::reentrance), ..Plan::of(ALL.to_vec()) },
        "C26" => Plan { matrix: Some(pay_matrix), ..Plan::of(ALL.to_vec()) },
        "C29" => Plan { matrix: Some(crate::grid::admin_events), ..Plan::of(ALL.to_vec()) },
        "C06" | "C13" | "C14" | "C28" | "C31" => Plan::of(ALL.to_vec()),
        #[cfg(feature = "lib")]
        "C15" => Plan::of(ALL.to_vec()),
        #[cfg(feature = "lib")]
        "C20" | "C21" | "C22" | "C23" | "C24" => {
            use crate::lib_checks as l;
            let m: fn(&str, &mut Matrix) = match id {
                "C20" => l::ticks,
                "C21" => l::steps,
                "C22" => l::full_math,
                "C23" => l::liquidity,
                _ => l::bitmap,
            };
            Plan { matrix: Some(m), ..Plan::of(vec![]) }
        }
        _ => return None,
    };
    Some(p)
}

/// Every history starts with steps that any correct program accepts (fee tiers, pools, accounts, first
/// deposits). If one of them is refused, the property cannot be observed at all.
fn unbuilt(e: String) -> Report {
    let e = e.split(" @ ").next().unwrap_or("").to_string();
    Report { group: "setup".into(), path: vec![], trace: vec![e.clone()], what: format!("the starting state cannot be reached: {e}") }
}

pub fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    crate::watch::start(id, tier);
    crate::svm::set_watch(crate::watch::busy, crate::watch::idle);
    let plan = match plan(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let thorough = tier == "thorough";
    let budget = if thorough { 780.0 } else { 240.0 };
    let mut reports: Vec<Report> = vec![];
    let (mut states, mut transitions, mut validated) = (0u64, 0u64, 0u64);
    let (mut ok, mut rej, mut probes, mut swaps, mut cross) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut table: Vec<String> = vec![];
    let mut capped: Vec<String> = vec![];
    let mut other: Vec<String> = vec![];
    if let Some(m) = plan.matrix {
        let mut x = Matrix { thorough, deadline: Some(t0 + std::time::Duration::from_secs_f64(if plan.items.is_empty() { budget } else { budget * 0.6 })), ..Default::default() };
        if let Err(e) = caught(|| m(id, &mut x)) {
            x.found.push(unbuilt(e));
        }
        states += x.states;
        transitions += x.transitions;
        validated += x.validated;
        samples.extend(x.samples.into_iter().take(6));
        table.extend(x.notes);
        reports.extend(x.found);
        if x.capped {
            capped.push("matrix".into());
        }
    }
    // Every scenario is explored to its quick depth first. The thorough tier then goes on to the larger
    // depth, cheapest scenario first, sharing the remaining time among those still waiting.
    struct Row {
        text: String,
        name: String,
        n: [u64; 8],
        depth: u64,
        cap: Option<String>,
        sample: Option<String>,
        cost: f64,
    }
    let mut rows: Vec<Row> = vec![];
    let mut go = |f: &Mk, depth: usize, left: f64, reports: &mut Vec<Report>, other: &mut Vec<String>| -> Row {
        let mut scn = match caught(|| f(depth)) {
            Ok(s) => s,
            Err(e) => {
                reports.push(unbuilt(e));
                return Row { text: "not built".into(), name: "not built".into(), n: [0; 8], depth: 0, cap: None, sample: None, cost: 0.0 };
            }
        };
        scn.budget_s = left;
        scn.max_states = if thorough { 12_000_000 } else { 1_500_000 };
        scn.probes = plan.probes.clone();
        scn.probe_depth = if thorough { plan.probe_depth.1 } else { plan.probe_depth.0 };
        scn.events = id == "C29";
        let st = Stats::default();
        let s0 = Instant::now();
        let o = run(&scn, id, &st);
        let l = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
        let cost = s0.elapsed().as_secs_f64();
        let text = format!(
            "{}: {} operations to choose from, starting history of {}, all sequences to depth {} (asked {}): {} states, {} transactions ({} accepted, {} rejected as specified), {} revisits, {} probes, {} swaps crossing {} ticks, {:.1} s",
            scn.name,
            scn.ops.len(),
            scn.pre.len(),
            l(&st.depth_done),
            scn.depth,
            l(&st.states),
            l(&st.transitions),
            l(&st.ok),
            l(&st.failed),
            l(&st.dup),
            l(&st.probes),
            l(&st.swaps),
            l(&st.crossings),
            cost
        );
        for x in o.other.iter().take(3) {
            other.push(format!("{} {:?}: {}", x.scn, x.props, x.what));
        }
        reports.extend(o.found.into_iter().map(|x| Report { group: x.scn, path: x.path, trace: x.trace, what: x.what }));
        Row {
            text,
            n: [l(&st.states), l(&st.transitions), l(&st.leaves), l(&st.ok), l(&st.failed), l(&st.probes), l(&st.swaps), l(&st.crossings)],
            depth: l(&st.depth_done),
            cap: if st.capped.load(Relaxed) { Some(format!("{} after depth {} of {}", scn.name, l(&st.depth_done), scn.depth)) } else { None },
            sample: o.sample.map(|s| format!("{}: {}", scn.name, s.join(" ; "))),
            name: scn.name,
            cost,
        }
    };
    // one small world per order of magnitude and configuration, explored side by side
    if plan.items.len() > 4 && reports.is_empty() {
        let depth = if thorough { 3 } else { 2 };
        let s0 = Instant::now();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let found: std::sync::Mutex<Vec<Found>> = Default::default();
        let rest: std::sync::Mutex<Vec<Found>> = Default::default();
        let broken: std::sync::Mutex<Vec<String>> = Default::default();
        let late = std::sync::atomic::AtomicBool::new(false);
        let st = Stats::default();
        let end = t0 + std::time::Duration::from_secs_f64(budget * if thorough { 0.4 } else { 0.6 });
        std::thread::scope(|s| {
            for _ in 0..threads() {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Relaxed);
                    if k >= scen::scales() {
                        break;
                    }
                    if Instant::now() > end {
                        late.store(true, Relaxed);
                        break;
                    }
                    let mut scn = match caught(|| scen::scale(k, depth)) {
                        Ok(s) => s,
                        Err(e) => {
                            broken.lock().unwrap().push(e);
                            break;
                        }
                    };
                    scn.workers = 1;
                    scn.probes = plan.probes.clone();
                    scn.probe_depth = plan.scale_probes + thorough as usize;
                    scn.events = id == "C29";
                    let o = run(&scn, id, &st);
                    found.lock().unwrap().extend(o.found);
                    rest.lock().unwrap().extend(o.other);
                });
            }
        });
        let l = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
        let mut f = found.into_inner().unwrap();
        f.sort_by(|a, b| (&a.scn, &a.path).cmp(&(&b.scn, &b.path)));
        reports.extend(f.into_iter().map(|x| Report { group: x.scn, path: x.path, trace: x.trace, what: x.what }));
        reports.extend(broken.into_inner().unwrap().into_iter().take(1).map(unbuilt));
        for x in rest.into_inner().unwrap().iter().take(3) {
            other.push(format!("{} {:?}: {}", x.scn, x.props, x.what));
        }
        rows.push(Row {
            text: format!(
                "magnitudes: {} worlds (liquidity 2^0 to 2^60, 14 configurations of fee, spacing, price, past and clock), 19 operations each, all sequences to depth {depth}: {} states, {} transactions ({} accepted, {} rejected as specified), {} probes, {} swaps crossing {} ticks, {:.1} s",
                scen::scales(), l(&st.states), l(&st.transitions), l(&st.ok), l(&st.failed), l(&st.probes), l(&st.swaps), l(&st.crossings), s0.elapsed().as_secs_f64()
            ),
            n: [l(&st.states), l(&st.transitions), l(&st.leaves), l(&st.ok), l(&st.failed), l(&st.probes), l(&st.swaps), l(&st.crossings)],
            depth: depth as u64,
            cap: if late.load(Relaxed) { Some("magnitudes (time)".into()) } else { None },
            sample: None,
            name: "magnitudes".into(),
            cost: 0.0,
        });
    }
    let base = rows.len();
    for (f, q, _) in &plan.items {
        let left = budget - t0.elapsed().as_secs_f64();
        if left < 0.5 {
            capped.push(format!("{} (not started)", caught(|| f(0).name).unwrap_or_default()));
            continue;
        }
        rows.push(go(f, *q, left, &mut reports, &mut other));
        if reports.len() > 200 {
            break;
        }
    }
    if thorough && reports.is_empty() {
        let mut order: Vec<usize> = (base..rows.len()).filter(|i| plan.items[*i - base].2 > plan.items[*i - base].1).collect();
        order.sort_by(|a, b| rows[*a].cost.total_cmp(&rows[*b].cost));
        for (k, i) in order.iter().enumerate() {
            let left = budget - t0.elapsed().as_secs_f64();
            if left < 0.5 {
                capped.push(format!("{} (depth {} only)", rows[*i].name, rows[*i].depth));
                continue;
            }
            let r = go(&plan.items[*i - base].0, plan.items[*i - base].2, left / (order.len() - k) as f64, &mut reports, &mut other);
            if r.n[0] >= rows[*i].n[0] {
                rows[*i] = r;
            } else {
                capped.push(format!("{} (depth {} only)", rows[*i].name, rows[*i].depth));
            }
            if reports.len() > 200 {
                break;
            }
        }
    }
    for r in rows {
        states += r.n[0];
        transitions += r.n[1];
        validated += r.n[2];
        ok += r.n[3];
        rej += r.n[4];
        probes += r.n[5];
        swaps += r.n[6];
        cross += r.n[7];
        table.push(r.text);
        capped.extend(r.cap);
        if samples.len() < 8 {
            samples.extend(r.sample);
        }
    }
    // known findings
    let kn = known(id);
    let mut viol = vec![];
    let mut hits = vec![];
    for r in &reports {
        if kn.contains(&r.key()) {
            if !hits.contains(&r.key()) {
                hits.push(r.key());
                say(&format!("KNOWN-FINDING: property={id} {} [{}]", r.what, r.key()));
            }
        } else {
            viol.push(r.clone());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let level = "model_checking";
    let vs: Vec<String> = viol.iter().take(20).map(|r| format!("{} :: {} :: {}", r.group, r.trace.join(" ; "), r.what)).collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": {},\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {validated},\n  \"accepted\": {ok},\n  \"rejected_as_specified\": {rej},\n  \"probe_transactions\": {probes},\n  \"swaps\": {swaps},\n  \"tick_crossings\": {cross},\n  \"exhausted\": {},\n  \"caps_hit\": {},\n  \"per_space\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"violations\": {},\n \"known_findings_hit\": {},\n \"seen_outside_this_property\": {},\n \"wall_s\": {:.2}\n}}\n",
        esc(id),
        esc(tier),
        esc(level),
        capped.is_empty(),
        list(&capped),
        list(&table),
        list(&samples),
        list(&[
            "the real instruction handlers of the program run natively; the SPL token, associated-token-account and token-metadata programs are their published crates; the Solana runtime (accounts, privileges, rent, cross-program calls, clock) is re-implemented in harness/src/svm.rs".to_string(),
            "arithmetic wraps as in the shipped release profile (overflow checks off)".to_string(),
            "the enumeration is complete within the alphabets and depths listed in per_space; nothing is sampled".to_string(),
        ]),
        list(&vs),
        list(&hits),
        list(&other),
        wall
    );
    let ev = root().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(ev.join(format!("{id}.json")), j) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    for t in &table {
        say(&format!("  {t}"));
    }
    say(&format!("{id} {tier}: {states} states, {transitions} transitions, {} violation(s), {wall:.1} s", viol.len()));
    if !capped.is_empty() {
        say(&format!("  capped: {}", capped.join(", ")));
    }
    for x in other.iter().take(5) {
        say(&format!("  note (another property): {x}"));
    }
    for (i, r) in viol.iter().enumerate().take(5) {
        let p = write_replay(id, tier, i, r);
        say(&format!("  {}: {}", r.group, r.what));
        for (k, t) in r.trace.iter().enumerate() {
            say(&format!("     {k}: {t}"));
        }
        say(&format!("VIOLATION property={id} replay={}", p.display()));
    }
    if viol.is_empty() {
        0
    } else {
        1
    }
}

/// Re-executes a recorded violation.
pub fn replay_file(file: &str) -> i32 {
    let j = match std::fs::read_to_string(file) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let id = field(&j, "property").unwrap_or_default();
    let group = field(&j, "group").unwrap_or_default();
    let tier = field(&j, "tier").unwrap_or_default();
    let what = field(&j, "what").unwrap_or_default();
    let path: Vec<u16> = field(&j, "path").unwrap_or_default().trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let p = match plan(&id) {
        Some(p) => p,
        None => return 2,
    };
    say(&format!("replaying {id} {group} {path:?}"));
    crate::watch::start(&id, &tier);
    crate::svm::set_watch(crate::watch::busy, crate::watch::idle);
    for (f, q, t) in &p.items {
        let mut scn = match caught(|| f(if tier == "thorough" { *t } else { *q })) {
            Ok(s) => s,
            Err(e) => {
                say(&unbuilt(e).what);
                return 1;
            }
        };
        if scn.name != group {
            continue;
        }
        scn.probes = p.probes.clone();
        scn.events = id == "C29";
        let st = Stats::default();
        let v = replay(&scn, &path, &st, &mut |s| say(s));
        let hit = v.iter().any(|x| x.props.contains(&id.as_str()));
        say(if hit { "reproduced" } else { "not reproduced" });
        return if hit { 1 } else { 0 };
    }
    for k in 0..scen::scales() {
        let scn = match caught(|| scen::scale(k, 3)) {
            Ok(s) if s.name == group => s,
            _ => continue,
        };
        let mut scn = scn;
        scn.probes = p.probes.clone();
        scn.events = id == "C29";
        let st = Stats::default();
        let v = replay(&scn, &path, &st, &mut |s| say(s));
        let hit = v.iter().any(|x| x.props.contains(&id.as_str()));
        say(if hit { "reproduced" } else { "not reproduced" });
        return if hit { 1 } else { 0 };
    }
    if let Some(m) = p.matrix {
        let mut x = Matrix { thorough: tier == "thorough", ..Default::default() };
        m(&id, &mut x);
        let hit = x.found.iter().find(|r| r.group == group && r.what == what);
        for r in x.found.iter().take(5) {
            say(&format!("{}: {} {}", r.group, r.trace.join(" ; "), r.what));
        }
        say(if hit.is_some() { "reproduced" } else { "not reproduced" });
        return if hit.is_some() { 1 } else { 0 };
    }
    2
}

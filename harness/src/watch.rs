//! A call of the program that never returns is itself a wrong result (the chain would abort it
//! when its compute budget is used up). Loops that log are stopped by the log budget in svm.rs;
//! this thread catches silent ones.
use crate::out::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// one transaction takes well under a millisecond
const LIMIT: u64 = 30;

#[derive(Default)]
pub struct Slot {
    since: AtomicU64,
    what: Mutex<(String, Arc<Vec<String>>, Vec<u16>, String)>,
}
static CLOCK: AtomicU64 = AtomicU64::new(1);
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static JOB: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
struct Reg(Arc<Slot>);
impl Drop for Reg {
    fn drop(&mut self) {
        SLOTS.lock().unwrap().retain(|s| !Arc::ptr_eq(s, &self.0));
    }
}
thread_local! {
    static MINE: Reg = {
        let s = Arc::new(Slot::default());
        SLOTS.lock().unwrap().push(s.clone());
        Reg(s)
    };
}
/// what this thread works on: scenario, its operations and the history so far
pub fn at(group: &str, ops: &Arc<Vec<String>>, path: &[u16], now: impl FnOnce() -> String) {
    MINE.with(|m| {
        let mut g = m.0.what.lock().unwrap();
        if g.0 != group {
            g.0 = group.to_string();
        }
        g.1 = ops.clone();
        g.2.clear();
        g.2.extend_from_slice(path);
        g.3 = now();
    })
}
pub fn busy() {
    let _ = MINE.try_with(|m| m.0.since.store(CLOCK.load(Relaxed), Relaxed));
}
pub fn idle() {
    let _ = MINE.try_with(|m| m.0.since.store(0, Relaxed));
}
pub fn start(property: &str, tier: &str) {
    *JOB.lock().unwrap() = (property.into(), tier.into());
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = CLOCK.fetch_add(1, Relaxed) + 1;
        let stuck = {
            let g = SLOTS.lock().unwrap();
            g.iter().find(|s| matches!(s.since.load(Relaxed), t if t != 0 && now - t > LIMIT)).cloned()
        };
        if let Some(s) = stuck {
            let w = s.what.lock().unwrap();
            let (id, tier) = JOB.lock().unwrap().clone();
            let mut trace: Vec<String> = w.2.iter().map(|i| w.1[*i as usize].clone()).collect();
            let mut path = w.2.clone();
            if let Some(i) = w.1.iter().position(|o| *o == w.3) {
                path.push(i as u16);
            }
            trace.push(w.3.clone());
            let r = Report { group: w.0.clone(), path, trace, what: "the call does not come to an end".into() };
            say(&format!("  {}: {} : {}", r.group, r.trace.join(" ; "), r.what));
            let p = write_replay(&id, &tier, 0, &r);
            say(&format!("VIOLATION property={id} replay={}", p.display()));
            std::process::exit(1);
        }
    });
}

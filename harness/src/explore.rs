//! Exhaustive breadth-first exploration of operation sequences on the real program, in lockstep with
//! the reference model.
use crate::model::*;
use crate::refmath as rm;
use crate::svm::*;
use crate::world::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct BankWorld<'a>(pub &'a Bank);
impl<'a> World for BankWorld<'a> {
    fn balance(&self, k: &Pubkey) -> u64 {
        tok_amount(self.0, k)
    }
    fn has_word(&self, p: &PoolK, w: i16) -> bool {
        bitmap_v(self.0, &p.word(w)).is_some()
    }
    fn exists(&self, k: &Pubkey) -> bool {
        self.0.get(k).is_some_and(|a| a.owner == core_id())
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub what: String,
}
#[derive(Default)]
pub struct Viols(pub Vec<Viol>);
impl Viols {
    pub fn add(&mut self, props: &[&'static str], what: String) {
        self.0.push(Viol { props: props.to_vec(), what });
    }
}

/// implementation-minus-reference offset of a range snapshot, fixed when both ends become initialized
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Off {
    pub p: usize,
    pub lo: i32,
    pub up: i32,
    pub d: (i64, u64, u32),
}

#[derive(Clone)]
pub struct Node {
    pub bank: Bank,
    pub model: Model,
    pub offs: Vec<Off>,
    pub path: Vec<u16>,
    /// the model and the program have diverged outside the checked property
    pub tainted: bool,
}

pub type Probe = fn(&Scn, &Node, &mut Viols, &Stats);

pub struct Scn {
    pub name: String,
    pub env: Env,
    pub start: Node,
    /// history executed (in lockstep, checked) before the exploration starts
    pub pre: Vec<Op>,
    pub ops: Vec<Op>,
    pub labels: std::sync::OnceLock<std::sync::Arc<Vec<String>>>,
    pub depth: usize,
    pub probes: Vec<Probe>,
    /// probes run on states up to this depth
    pub probe_depth: usize,
    pub events: bool,
    /// ranges whose accounts are prepared, per pool
    pub ranges: Vec<Vec<(i32, i32)>>,
    /// operations that a state at full depth still receives (none) -- kept for documentation
    pub max_states: u64,
    pub budget_s: f64,
    /// steps of the starting history that are impossible in this world are left out
    pub lenient: bool,
    /// number of threads (0 = all)
    pub workers: usize,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub ok: AtomicU64,
    pub failed: AtomicU64,
    pub dup: AtomicU64,
    /// histories that were executed to their end: no successor that is new
    pub leaves: AtomicU64,
    pub probes: AtomicU64,
    pub crossings: AtomicU64,
    pub swaps: AtomicU64,
    pub obs_writes: AtomicU64,
    pub depth_done: AtomicU64,
    pub capped: AtomicBool,
    pub kinds: Mutex<std::collections::BTreeMap<String, u64>>,
}
impl Stats {
    pub fn inc(a: &AtomicU64) {
        a.fetch_add(1, Ordering::Relaxed);
    }
    pub fn kind(&self, k: &str) {
        *self.kinds.lock().unwrap().entry(k.to_string()).or_insert(0) += 1;
    }
}

// ------------------------------------------------------------------ client: op -> transaction

pub fn path_metas(p: &PoolK, path: &[Path]) -> Vec<AccountMeta> {
    path.iter()
        .map(|x| match x {
            Path::Word(w) => r(p.word(*w)),
            Path::Tick(t) => w(p.tick(*t)),
        })
        .collect()
}
#[allow(clippy::too_many_arguments)]
pub fn swap_extra(env: &Env, b: &Bank, m: &mut Model, pi: usize, z: bool, amt: i64, limit: u64) -> (Vec<AccountMeta>, Option<SwapOut>) {
    let p = &env.pools[pi];
    let hw = |x: i16| bitmap_v(b, &p.word(x)).is_some();
    let mut path = vec![];
    let o = m.pools[pi].swap(p, m.fee_protocol, z, amt, lim(z, limit), &hw, None, &mut path).ok();
    let mut v = path_metas(p, &path);
    v.push(w(env.next_obs(b, p)));
    (v, o)
}

pub fn tx_of(env: &Env, b: &Bank, m: &Model, op: &Op) -> (Vec<Instruction>, Vec<Pubkey>) {
    let core = core_id();
    match op {
        Op::Wait(_) => (vec![], vec![]),
        Op::Mint { u, p, lo, up, liq } => {
            let pk = &env.pools[*p];
            (vec![env.ix_mint(b, env.users[*u], env.ta(*u, pk), pk, env.users[*u], *lo, *up, *liq, core)], vec![env.users[*u]])
        }
        Op::Burn { u, p, lo, up, liq } => {
            let pk = &env.pools[*p];
            let o = env.users[*u];
            let l = if *liq == ALL { m.pools[*p].pos(&o, *lo, *up).map(|i| m.pools[*p].positions[i].liq).unwrap_or(0) } else { *liq };
            (vec![env.ix_burn(b, o, pk, *lo, *up, l)], vec![o])
        }
        Op::Collect { u, p, lo, up, a0, a1 } => {
            let pk = &env.pools[*p];
            let t = env.ta(*u, pk);
            (vec![env.ix_collect(env.users[*u], pk, *lo, *up, t.0, t.1, *a0, *a1)], vec![env.users[*u]])
        }
        Op::Swap { u, p, z, amt, limit } => {
            let pk = &env.pools[*p];
            let t = env.ta(*u, pk);
            let (ti, to) = if *z { t } else { (t.1, t.0) };
            let mut m2 = m.clone();
            let (extra, _) = swap_extra(env, b, &mut m2, *p, *z, *amt, *limit);
            (vec![env.ix_swap(b, env.users[*u], ti, to, pk, *z, *amt, lim(*z, *limit), core, extra)], vec![env.users[*u]])
        }
        Op::ExactIn { u, p, z, amt, min, limit, dl } => {
            let pk = &env.pools[*p];
            let t = env.ta(*u, pk);
            let (ti, to) = if *z { t } else { (t.1, t.0) };
            let mut m2 = m.clone();
            let (extra, _) = swap_extra(env, b, &mut m2, *p, *z, *amt as i64, *limit);
            (vec![env.ix_exact_input_single(b, env.users[*u], ti, to, pk, *z, *dl, *amt, *min, *limit, extra)], vec![env.users[*u]])
        }
        Op::Route { u, hops, amt, min, dl } => {
            let mut m2 = m.clone();
            let mut a = *amt;
            let mut hs = vec![];
            let tin = |p: &PoolK, z: bool| if z { p.t0 } else { p.t1 };
            let tout = |p: &PoolK, z: bool| if z { p.t1 } else { p.t0 };
            let first = tin(&env.pools[hops[0].0], hops[0].1);
            for (pi, z) in hops {
                let pk = &env.pools[*pi];
                let inp = a as i64;
                let (extra, o) = swap_extra(env, b, &mut m2, *pi, *z, inp, 0);
                let (was, oi) = (m.pools[*pi].oi, m2.pools[*pi].oi);
                let last = if oi == was { env.last_obs(b, pk) } else { pk.obs(oi) };
                a = match &o {
                    Some(o) => (if *z { -o.a1 } else { -o.a0 }) as u64,
                    None => a,
                };
                // a later hop through the same pool sees the state after this one
                if o.is_some() {
                    let hw = |x: i16| bitmap_v(b, &pk.word(x)).is_some();
                    let fp = m2.fee_protocol;
                    let _ = m2.pools[*pi].apply_swap(pk, fp, *z, inp, lim(*z, 0), b.now as u32, &hw);
                }
                hs.push((pk.clone(), *z, env.tok[*u][tout(pk, *z)], last, extra));
            }
            (vec![env.ix_exact_input(env.users[*u], env.tok[*u][first], &hs, *dl, *amt, *min)], vec![env.users[*u]])
        }
        Op::NftMint { u, to, id, p, lo, up, d, m: mm, dl } => {
            let pk = &env.pools[*p];
            let mint = env.nft_mint_key(*id);
            (
                vec![env.ix_nft_mint(b, env.users[*u], env.users[*to], mint, env.ta(*u, pk), pk, *lo, *up, d[0], d[1], mm[0], mm[1], *dl)],
                vec![env.users[*u], mint],
            )
        }
        Op::NftInc { u, id, d, m: mm, dl } => {
            let n = m.nfts.iter().find(|n| n.id == *id);
            let (pi, lo, up) = n.map(|n| (n.pool, n.lo, n.up)).unwrap_or((0, 0, 0));
            let pk = &env.pools[pi];
            (
                vec![env.ix_nft_increase(b, env.users[*u], env.nft_mint_key(*id), env.ta(*u, pk), pk, lo, up, d[0], d[1], mm[0], mm[1], *dl)],
                vec![env.users[*u]],
            )
        }
        Op::NftDec { u, id, liq, m: mm, dl } => {
            let n = m.nfts.iter().find(|n| n.id == *id);
            let (pi, lo, up, h, nl) = n.map(|n| (n.pool, n.lo, n.up, n.holder, n.liq)).unwrap_or((0, 0, 0, 0, 0));
            let mint = env.nft_mint_key(*id);
            let l = if *liq == ALL { nl } else { *liq };
            (
                vec![env.ix_nft_decrease(b, env.users[*u], ata(&env.users[h], &mint), mint, &env.pools[pi], lo, up, l, mm[0], mm[1], *dl)],
                vec![env.users[*u]],
            )
        }
        Op::NftCollect { u, id, a } => {
            let n = m.nfts.iter().find(|n| n.id == *id);
            let (pi, lo, up, h) = n.map(|n| (n.pool, n.lo, n.up, n.holder)).unwrap_or((0, 0, 0, 0));
            let mint = env.nft_mint_key(*id);
            let pk = &env.pools[pi];
            let t = env.ta(*u, pk);
            (
                vec![env.ix_nft_collect(b, env.users[*u], ata(&env.users[h], &mint), mint, pk, lo, up, t.0, t.1, a[0], a[1])],
                vec![env.users[*u]],
            )
        }
        Op::NftMeta { u, id } => (vec![env.ix_metadata(env.users[*u], env.nft_mint_key(*id))], vec![env.users[*u]]),
        Op::NftSend { id, to } => {
            let mint = env.nft_mint_key(*id);
            let h = m.nfts.iter().find(|n| n.id == *id).map(|n| n.holder).unwrap_or(0);
            let (hk, tk) = (env.users[h], env.users[*to]);
            let mut ixs = vec![];
            if b.get(&ata(&tk, &mint)).is_none() {
                ixs.push(spl_associated_token_account::create_associated_token_account(&hk, &tk, &mint));
            }
            ixs.push(spl_token::instruction::transfer(&spl_token::id(), &ata(&hk, &mint), &ata(&tk, &mint), &hk, &[], 1).unwrap());
            (ixs, vec![hk])
        }
        Op::NftApprove { id, to } => {
            let mint = env.nft_mint_key(*id);
            let h = m.nfts.iter().find(|n| n.id == *id).map(|n| n.holder).unwrap_or(0);
            let hk = env.users[h];
            (vec![spl_token::instruction::approve(&spl_token::id(), &ata(&hk, &mint), &env.users[*to], &hk, &[], 1).unwrap()], vec![hk])
        }
        Op::FeeProtocol(n) => (vec![env.ix_set_fee_protocol(env.admin, *n)], vec![env.admin]),
        Op::CollectProtocol { u, p, a } => {
            let pk = &env.pools[*p];
            let t = env.ta(*u, pk);
            (vec![env.ix_collect_protocol(env.admin, pk, t.0, t.1, a[0], a[1])], vec![env.admin])
        }
        Op::IncObs { u, p, n } => {
            let pk = &env.pools[*p];
            let start = m.pools[*p].card_next;
            (vec![env.ix_inc_obs(env.users[*u], pk, start, *n)], vec![env.users[*u]])
        }
        Op::InitTick { u, p, t } => (vec![env.ix_init_tick(env.users[*u], &env.pools[*p], *t)], vec![env.users[*u]]),
        Op::CloseTick { u, p, t } => (vec![env.ix_close_tick(&env.pools[*p], *t, env.users[*u])], vec![env.users[*u]]),
        Op::InitWord { u, p, w } => (vec![env.ix_init_bitmap(env.users[*u], &env.pools[*p], *w)], vec![env.users[*u]]),
        Op::InitPos { u, p, o, lo, up } => {
            let owner = env.users.get(*o).copied().unwrap_or(factory_key());
            (vec![env.ix_init_position(env.users[*u], &env.pools[*p], &owner, *lo, *up)], vec![env.users[*u]])
        }
    }
}
// ------------------------------------------------------------------ independent views of real state

/// fee growth inside a range from the raw tick accounts
pub fn inside(v: &PoolV, lo: &TickV, up: &TickV) -> (u64, u64) {
    let f = |g: u64, ol: u64, ou: u64| {
        let below = if v.tick >= lo.tick { ol } else { g.wrapping_sub(ol) };
        let above = if v.tick < up.tick { ou } else { g.wrapping_sub(ou) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    (f(v.fg0, lo.fgo0, up.fgo0), f(v.fg1, lo.fgo1, up.fgo1))
}

/// The library's own range snapshot on the real accounts.
#[cfg(not(feature = "lib"))]
pub fn real_snapshot(_b: &Bank, _p: &PoolK, _lo: i32, _up: i32) -> Option<(i64, u64, u32)> {
    None
}
#[cfg(feature = "lib")]
pub fn real_snapshot(b: &Bank, p: &PoolK, lo: i32, up: i32) -> Option<(i64, u64, u32)> {
    let v = pool_v(b, &p.key)?;
    set_now(b.now);
    let pool: PoolState = zc(b, &p.key)?;
    let l: TickState = zc(b, &p.tick(lo))?;
    let u: TickState = zc(b, &p.tick(up))?;
    let o: ObservationState = zc(b, &p.obs(v.obs_index))?;
    let s = guard(|| pool.snapshot_cumulatives_inside(&l, &u, &o)).ok()?;
    Some((s.tick_cumulative_inside, s.seconds_per_liquidity_inside_x32, s.seconds_inside))
}
fn true_snapshot(m: &MPool, now: u32, lo: i32, up: i32) -> (i64, u64, u32) {
    let mut m = m.clone();
    m.range(lo, up);
    m.advance(now);
    let r = m.ranges.iter().find(|r| r.lo == lo && r.up == up).unwrap();
    (r.tc, r.spl, r.secs)
}

/// Everything the pool owes right now, computed from its accounts alone, must be in its vaults.
pub fn solvency(env: &Env, b: &Bank, ranges: &[Vec<(i32, i32)>], v: &mut Viols) {
    for (pi, p) in env.pools.iter().enumerate() {
        let pv = match pool_v(b, &p.key) {
            Some(x) => x,
            None => continue,
        };
        let mut c = [pv.pf0 as u128, pv.pf1 as u128];
        let mut owners = env.users.clone();
        owners.push(factory_key());
        for (lo, up) in &ranges[pi] {
            let (tl, tu) = match (tick_v(b, &p.tick(*lo)), tick_v(b, &p.tick(*up))) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            let ins = inside(&pv, &tl, &tu);
            for o in &owners {
                if let Some(ps) = pos_v(b, &p.pos(o, *lo, *up)) {
                    c[0] += ps.owed0 as u128;
                    c[1] += ps.owed1 as u128;
                    if ps.liq > 0 {
                        c[0] += (ins.0.wrapping_sub(ps.fgi0) as u128 * ps.liq as u128) >> 32;
                        c[1] += (ins.1.wrapping_sub(ps.fgi1) as u128 * ps.liq as u128) >> 32;
                        let (a, z) = (rm::sqrt_tab(*lo), rm::sqrt_tab(*up));
                        let x = pv.sqrt_p.clamp(a, z);
                        if pv.tick < *lo {
                            c[0] += rm::amt0(a, z, ps.liq, false).unwrap_or(u64::MAX) as u128;
                        } else if pv.tick < *up {
                            c[0] += rm::amt0(x, z, ps.liq, false).unwrap_or(u64::MAX) as u128;
                            c[1] += rm::amt1(a, x, ps.liq, false).unwrap_or(u64::MAX) as u128;
                        } else {
                            c[1] += rm::amt1(a, z, ps.liq, false).unwrap_or(u64::MAX) as u128;
                        }
                    }
                }
            }
        }
        let have = [tok_amount(b, &p.v0) as u128, tok_amount(b, &p.v1) as u128];
        for i in 0..2 {
            if c[i] > have[i] {
                v.add(&["C01"], format!("pool {pi}: owed {} of token {i} but the vault holds {}", c[i], have[i]));
            }
        }
    }
}

// ------------------------------------------------------------------ comparing real state and model

fn op_props(op: &Op) -> &'static [&'static str] {
    match op {
        Op::Mint { .. } => &["C02"],
        Op::Burn { .. } => &["C07", "C01"],
        Op::Collect { .. } => &["C07", "C01"],
        Op::Swap { .. } => &["C03", "C04"],
        Op::ExactIn { .. } => &["C03", "C04", "C10"],
        Op::Route { .. } => &["C10", "C04"],
        Op::NftMint { .. } | Op::NftInc { .. } => &["C09", "C11"],
        Op::NftDec { .. } | Op::NftCollect { .. } => &["C09"],
        Op::CollectProtocol { .. } | Op::FeeProtocol(_) => &["C27"],
        Op::IncObs { .. } => &["C14"],
        Op::NftMeta { .. } => &["C32"],
        Op::InitTick { .. } | Op::CloseTick { .. } | Op::InitWord { .. } | Op::InitPos { .. } => &["C28"],
        _ => &["C30"],
    }
}
fn live_props(op: &Op) -> &'static [&'static str] {
    match op {
        Op::Mint { .. } => &["C31", "C05"],
        Op::Burn { .. } | Op::Collect { .. } => &["C31", "C01", "C07"],
        Op::Swap { .. } => &["C31", "C04", "C03"],
        Op::ExactIn { .. } | Op::Route { .. } => &["C31", "C10", "C04"],
        Op::NftMint { .. } | Op::NftInc { .. } => &["C31", "C09", "C11"],
        Op::NftDec { .. } | Op::NftCollect { .. } => &["C31", "C09", "C08"],
        Op::NftMeta { .. } => &["C31", "C32"],
        Op::CollectProtocol { .. } | Op::FeeProtocol(_) => &["C31", "C27", "C16"],
        Op::IncObs { .. } => &["C31", "C14"],
        Op::InitTick { .. } | Op::CloseTick { .. } | Op::InitWord { .. } | Op::InitPos { .. } => &["C31", "C28"],
        _ => &["C31"],
    }
}
/// Which of the caller's own conditions a wrongly rejected operation failed on: it succeeds
/// when that condition is lifted.
fn blame(env: &Env, n: &Node, op: &Op) -> Vec<&'static str> {
    let works = |o: &Op| {
        let mut b = n.bank.clone();
        let (ixs, signers) = tx_of(env, &n.bank, &n.model, o);
        process(&mut b, &ixs, &signers).is_ok()
    };
    let mut ps = vec![];
    let now = n.bank.now;
    for d in [now, now + 1, now + 3600, 1 << 40, i64::MAX] {
        let mut o = op.clone();
        if let Op::ExactIn { dl, .. } | Op::Route { dl, .. } | Op::NftMint { dl, .. } | Op::NftInc { dl, .. } | Op::NftDec { dl, .. } = &mut o {
            if d != *dl {
                *dl = d;
                if works(&o) {
                    ps.push("C12");
                    break;
                }
            }
        }
    }
    let mut o = op.clone();
    let tag = match &mut o {
        Op::ExactIn { min, .. } | Op::Route { min, .. } if *min > 0 => {
            *min = 0;
            "C10"
        }
        Op::NftMint { m, .. } | Op::NftInc { m, .. } | Op::NftDec { m, .. } if *m != [0, 0] => {
            *m = [0, 0];
            "C11"
        }
        _ => "",
    };
    if !tag.is_empty() && works(&o) {
        ps.push(tag);
    }
    // it wants another slot of the observation ring than the one that is due
    let (ixs, signers) = tx_of(env, &n.bank, &n.model, op);
    'ring: for p in &env.pools {
        let due = env.next_obs(&n.bank, p);
        if !ixs.iter().any(|i| i.accounts.iter().any(|a| a.pubkey == due)) {
            continue;
        }
        let k = pool_v(&n.bank, &p.key).map(|v| v.card_next).unwrap_or(0);
        for i in 0..k {
            if p.obs(i) == due {
                continue;
            }
            let mut alt = ixs.clone();
            for a in alt.iter_mut().flat_map(|x| x.accounts.iter_mut()) {
                if a.pubkey == due {
                    a.pubkey = p.obs(i);
                }
            }
            let mut b = n.bank.clone();
            if process(&mut b, &alt, &signers).is_ok() {
                ps.push("C14");
                break 'ring;
            }
        }
    }
    ps
}
fn why_props(op: &Op, w: &Why) -> Vec<&'static str> {
    match w {
        Why::Deadline => vec!["C12"],
        Why::Slippage => match op {
            Op::ExactIn { .. } | Op::Route { .. } => vec!["C10"],
            _ => vec!["C11"],
        },
        Why::Auth => vec!["C08"],
        Why::Limit => vec!["C03"],
        Why::Zero => vec!["C03", "C05", "C30"],
        Why::NoLiquidity => match op {
            Op::NftDec { .. } => vec!["C09", "C08", "C01"],
            _ => vec!["C05", "C07", "C01"],
        },
        Why::Math => vec!["C01", "C05", "C04", "C03", "C02", "C10"],
        Why::Funds => vec!["C26", "C01", "C02", "C03"],
        Why::Vault => vec!["C01"],
        Why::InUse => vec!["C28", "C30"],
        Why::Missing => vec!["C17", "C28"],
        Why::Other => match op {
            Op::InitTick { .. } | Op::CloseTick { .. } | Op::InitWord { .. } | Op::InitPos { .. } => vec!["C28"],
            Op::FeeProtocol(_) => vec!["C27"],
            Op::NftMint { .. } => vec!["C08", "C32"],
            Op::NftMeta { .. } => vec!["C32"],
            _ => vec!["C05"],
        },
    }
}

fn b64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut acc = 0u32;
    let mut n = 0;
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            b'=' => continue,
            _ => return None,
        };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    Some(out)
}
pub const EVENTS: [&str; 13] = [
    "OwnerChanged",
    "SetFeeProtocolEvent",
    "FeeAmountEnabled",
    "IncreaseObservationCardinalityNext",
    "PoolCreatedAndInitialized",
    "CollectProtocolEvent",
    "SwapEvent",
    "MintEvent",
    "BurnEvent",
    "CollectEvent",
    "IncreaseLiquidityEvent",
    "DecreaseLiquidityEvent",
    "CollectTokenizedEvent",
];
pub fn events_of(logs: &[String]) -> Vec<Vec<u8>> {
    thread_local! { static D: Vec<[u8;8]> = EVENTS.iter().map(|n| evdisc(n)).collect(); }
    let mut v = vec![];
    for l in logs {
        let s = l.strip_prefix("Program data: ").unwrap_or(l);
        if s.len() < 10 || s.contains(' ') {
            continue;
        }
        if let Some(d) = b64(s) {
            if d.len() >= 8 && D.with(|x| x.iter().any(|e| e[..] == d[..8])) {
                v.push(d);
            }
        }
    }
    v
}

pub fn op_pool(op: &Op, m: &Model) -> Vec<usize> {
    match op {
        Op::Mint { p, .. } | Op::Burn { p, .. } | Op::Collect { p, .. } | Op::Swap { p, .. } | Op::ExactIn { p, .. } | Op::NftMint { p, .. } | Op::CollectProtocol { p, .. } | Op::IncObs { p, .. } | Op::InitTick { p, .. } | Op::CloseTick { p, .. } | Op::InitWord { p, .. } | Op::InitPos { p, .. } => vec![*p],
        Op::Route { hops, .. } => hops.iter().map(|h| h.0).collect(),
        Op::NftInc { id, .. } | Op::NftDec { id, .. } | Op::NftCollect { id, .. } => m.nfts.iter().filter(|n| n.id == *id).map(|n| n.pool).collect(),
        _ => vec![],
    }
}

/// the pools an operation names
pub fn touched(m: &Model, op: &Op) -> Vec<usize> {
    match op {
        Op::Mint { p, .. }
        | Op::Burn { p, .. }
        | Op::Collect { p, .. }
        | Op::Swap { p, .. }
        | Op::ExactIn { p, .. }
        | Op::NftMint { p, .. }
        | Op::CollectProtocol { p, .. }
        | Op::IncObs { p, .. }
        | Op::InitTick { p, .. }
        | Op::CloseTick { p, .. }
        | Op::InitWord { p, .. }
        | Op::InitPos { p, .. } => vec![*p],
        Op::Route { hops, .. } => hops.iter().map(|h| h.0).collect(),
        Op::NftInc { id, .. } | Op::NftDec { id, .. } | Op::NftCollect { id, .. } => m.nfts.iter().filter(|n| n.id == *id).map(|n| n.pool).collect(),
        Op::NftMeta { .. } | Op::NftSend { .. } | Op::NftApprove { .. } | Op::FeeProtocol(_) | Op::Wait(_) => vec![],
    }
}

/// whether an account belongs to a pool that is not among the named ones
fn foreign(env: &Env, ranges: &[Vec<(i32, i32)>], named: &[usize], k: &Pubkey) -> bool {
    env.pools.iter().enumerate().any(|(pi, p)| {
        !named.contains(&pi)
            && (*k == p.key
                || *k == p.v0
                || *k == p.v1
                || (0..64).any(|i| *k == p.obs(i))
                || ranges[pi].iter().any(|(lo, up)| {
                    [lo, up].iter().any(|t| *k == p.tick(**t) || *k == p.bitmap_of_tick(**t)) || env.users.iter().chain([&factory_key()]).any(|o| *k == p.pos(o, *lo, *up))
                }))
    })
}

/// Accounts an operation may change.
fn footprint(env: &Env, pre: &Bank, m: &Model, op: &Op, ranges: &[Vec<(i32, i32)>]) -> HashSet<Pubkey> {
    let mut s = HashSet::new();
    let pool_all = |s: &mut HashSet<Pubkey>, pi: usize| {
        let p = &env.pools[pi];
        s.insert(p.key);
        s.insert(env.last_obs(pre, p));
        s.insert(env.next_obs(pre, p));
    };
    let pos = |s: &mut HashSet<Pubkey>, pi: usize, o: &Pubkey, lo: i32, up: i32| {
        let p = &env.pools[pi];
        s.insert(p.pos(o, lo, up));
        for t in [lo, up] {
            s.insert(p.tick(t));
            s.insert(p.bitmap_of_tick(t));
        }
    };
    let vaults = |s: &mut HashSet<Pubkey>, pi: usize| {
        s.insert(env.pools[pi].v0);
        s.insert(env.pools[pi].v1);
    };
    let wallet = |s: &mut HashSet<Pubkey>, u: usize, pi: usize| {
        let t = env.ta(u, &env.pools[pi]);
        s.insert(t.0);
        s.insert(t.1);
    };
    let f = factory_key();
    match op {
        Op::Mint { u, p, lo, up, .. } => {
            pool_all(&mut s, *p);
            pos(&mut s, *p, &env.users[*u], *lo, *up);
            vaults(&mut s, *p);
            wallet(&mut s, *u, *p);
        }
        Op::Burn { u, p, lo, up, .. } => {
            pool_all(&mut s, *p);
            pos(&mut s, *p, &env.users[*u], *lo, *up);
        }
        Op::Collect { u, p, lo, up, .. } => {
            s.insert(env.pools[*p].pos(&env.users[*u], *lo, *up));
            vaults(&mut s, *p);
            wallet(&mut s, *u, *p);
        }
        Op::Swap { u, p, .. } | Op::ExactIn { u, p, .. } => {
            pool_all(&mut s, *p);
            vaults(&mut s, *p);
            wallet(&mut s, *u, *p);
            for (lo, up) in &ranges[*p] {
                s.insert(env.pools[*p].tick(*lo));
                s.insert(env.pools[*p].tick(*up));
            }
        }
        Op::Route { u, hops, .. } => {
            for (p, _) in hops {
                pool_all(&mut s, *p);
                vaults(&mut s, *p);
                wallet(&mut s, *u, *p);
                for (lo, up) in &ranges[*p] {
                    s.insert(env.pools[*p].tick(*lo));
                    s.insert(env.pools[*p].tick(*up));
                }
            }
        }
        Op::NftMint { u, to, id, p, lo, up, .. } => {
            pool_all(&mut s, *p);
            pos(&mut s, *p, &f, *lo, *up);
            vaults(&mut s, *p);
            wallet(&mut s, *u, *p);
            let mint = env.nft_mint_key(*id);
            s.insert(mint);
            s.insert(nft_state(&mint));
            s.insert(ata(&env.users[*to], &mint));
            s.insert(env.users[*u]);
        }
        Op::NftInc { u, id, .. } | Op::NftDec { u, id, .. } | Op::NftCollect { u, id, .. } => {
            if let Some(n) = m.nfts.iter().find(|n| n.id == *id) {
                pool_all(&mut s, n.pool);
                pos(&mut s, n.pool, &f, n.lo, n.up);
                s.insert(nft_state(&env.nft_mint_key(*id)));
                if !matches!(op, Op::NftDec { .. }) {
                    vaults(&mut s, n.pool);
                    wallet(&mut s, *u, n.pool);
                }
            }
        }
        Op::NftMeta { u, id } => {
            let mint = env.nft_mint_key(*id);
            s.insert(mint);
            s.insert(nft_meta(&mint));
            s.insert(env.users[*u]);
        }
        Op::NftSend { id, to } | Op::NftApprove { id, to } => {
            let mint = env.nft_mint_key(*id);
            for u in &env.users {
                s.insert(ata(u, &mint));
                s.insert(*u);
            }
            let _ = to;
        }
        Op::FeeProtocol(_) => {
            s.insert(f);
        }
        Op::CollectProtocol { u, p, .. } => {
            s.insert(env.pools[*p].key);
            vaults(&mut s, *p);
            wallet(&mut s, *u, *p);
        }
        Op::IncObs { u, p, n } => {
            s.insert(env.pools[*p].key);
            s.insert(env.users[*u]);
            let start = m.pools[*p].card_next;
            for i in start..start + n {
                s.insert(env.pools[*p].obs(i));
            }
        }
        Op::Wait(_) => {}
        Op::InitTick { u, p, t } | Op::CloseTick { u, p, t } => {
            s.insert(env.pools[*p].tick(*t));
            s.insert(env.users[*u]);
        }
        Op::InitWord { u, p, w } => {
            s.insert(env.pools[*p].word(*w));
            s.insert(env.users[*u]);
        }
        Op::InitPos { u, p, o, lo, up } => {
            s.insert(env.pools[*p].pos(&env.users.get(*o).copied().unwrap_or(f), *lo, *up));
            s.insert(env.users[*u]);
        }
    }
    s
}

pub fn changed_keys(a: &Bank, b: &Bank) -> Vec<Pubkey> {
    let mut v = vec![];
    for (k, x) in a.accs.iter() {
        match b.accs.get(k) {
            Some(y) if Arc::ptr_eq(x, y) => {}
            Some(y) if x.acc == y.acc => {}
            _ => v.push(*k),
        }
    }
    for k in b.accs.keys() {
        if !a.accs.contains_key(k) {
            v.push(*k);
        }
    }
    v
}

/// the rent-exempt minimum of an account
pub fn rent_min(len: usize) -> u64 {
    solana_program::rent::Rent::default().minimum_balance(len)
}
/// Lamports: whoever signs pays exactly what new accounts lack of their rent-exempt minimum, and a
/// closed account gives back everything; nothing else moves.
pub fn deposit_faults(env: &Env, pre: &Bank, post: &Bank, signers: &[Pubkey], closes: Option<Pubkey>) -> Vec<String> {
    let mut bad = vec![];
    let l = |b: &Bank, k: &Pubkey| b.get(k).map(|a| (a.lamports, a.data.len())).unwrap_or((0, 0));
    let (mut people, mut rest) = (0i128, 0i128);
    for k in changed_keys(pre, post) {
        let ((a, had), (z, has)) = (l(pre, &k), l(post, &k));
        if env.users.contains(&k) || k == env.admin {
            people += z as i128 - a as i128;
            if z < a && !signers.contains(&k) {
                bad.push(format!("lamports were taken from {k}, who did not sign"));
            }
            continue;
        }
        rest += z as i128 - a as i128;
        if has == 0 && (had > 0 || a > 0) {
            if closes != Some(k) {
                bad.push(format!("account {k} was closed"));
            }
            continue;
        }
        let want = if had == 0 { a.max(rent_min(has)) } else { a };
        if z != want && closes != Some(k) {
            bad.push(format!("account {k} ({has} bytes) has {z} lamports instead of {want}"));
        }
    }
    if people + rest != 0 {
        bad.push(format!("users' lamports changed by {people}, accounts' by {rest}"));
    }
    if let Some(k) = closes {
        if l(post, &k) != (0, 0) {
            bad.push(format!("{k} keeps lamports although it was closed"));
        }
    }
    bad
}

/// Compares the whole real state with the model.
pub fn compare(scn: &Scn, n: &Node, v: &mut Viols) {
    let env = &scn.env;
    let b = &n.bank;
    let now = b.now as u32;
    for (pi, p) in env.pools.iter().enumerate() {
        let m = &n.model.pools[pi];
        let pv = match pool_v(b, &p.key) {
            Some(x) => x,
            None => {
                v.add(&["C18"], format!("pool {pi} is gone"));
                continue;
            }
        };
        if (pv.token_0, pv.token_1, pv.fee, pv.spacing) != (p.m0, p.m1, p.fee, p.spacing) {
            v.add(&["C18"], format!("pool {pi}: immutable fields changed: {pv:?}"));
        }
        if !pv.unlocked {
            v.add(&["C25", "C31"], format!("pool {pi} left locked"));
        }
        if pv.sqrt_p != m.price || pv.tick != m.tick {
            // at a tick's own price, the history decides which tick is the right one
            let w: &[&'static str] = if pv.sqrt_p == m.price { &["C04", "C03", "C19"] } else { &["C04", "C03"] };
            v.add(w, format!("pool {pi}: price/tick {}/{} expected {}/{}", pv.sqrt_p, pv.tick, m.price, m.tick));
        }
        // price and tick agree
        let ta = if (rm::MIN_SQRT..=rm::MAX_SQRT).contains(&pv.sqrt_p) { rm::tick_at(pv.sqrt_p) } else { i32::MAX };
        if pv.tick != ta && !(pv.tick == ta - 1 && rm::sqrt_tab(ta) == pv.sqrt_p) {
            v.add(&["C19"], format!("pool {pi}: price {} has tick {ta}, recorded {}", pv.sqrt_p, pv.tick));
        }
        if pv.liq != m.liq() {
            v.add(&["C05"], format!("pool {pi}: active liquidity {} but in-range positions sum to {}", pv.liq, m.liq()));
        }
        if [pv.fg0, pv.fg1] != m.fg {
            v.add(&["C06", "C04"], format!("pool {pi}: fee growth {:?} expected {:?}", [pv.fg0, pv.fg1], m.fg));
        }
        if [pv.pf0, pv.pf1] != m.pf {
            v.add(&["C27"], format!("pool {pi}: protocol fees {:?} expected {:?}", [pv.pf0, pv.pf1], m.pf));
        }
        if (pv.obs_index, pv.card, pv.card_next) != (m.oi, m.card, m.card_next) {
            v.add(
                &["C14", "C13"],
                format!("pool {pi}: oracle index/cardinality/next {:?} expected {:?}", (pv.obs_index, pv.card, pv.card_next), (m.oi, m.card, m.card_next)),
            );
        }
        for (i, o) in m.obs.iter().enumerate() {
            match obs_v(b, &p.obs(i as u16)) {
                None => v.add(&["C14"], format!("pool {pi}: observation {i} missing")),
                Some(x) => {
                    if x.index != i as u16 || x.init != o.init {
                        v.add(&["C14"], format!("pool {pi}: observation {i} is {x:?}, expected {o:?}"));
                    }
                    if (x.ts, x.tc, x.spl) != (o.ts, o.tc, o.spl) {
                        v.add(if x.ts != o.ts { &["C13", "C14"] } else { &["C13"] }, format!("pool {pi}: observation {i} is {x:?}, expected {o:?}"));
                    }
                }
            }
        }
        // ticks and bitmap
        let mut ts: Vec<i32> = scn.ranges[pi].iter().flat_map(|r| [r.0, r.1]).collect();
        ts.sort();
        ts.dedup();
        let mut words: Vec<i16> = ts.iter().map(|t| p.word_of_tick(*t)).collect();
        words.sort();
        words.dedup();
        for t in &ts {
            let g = m.gross(*t);
            match tick_v(b, &p.tick(*t)) {
                None => {
                    if g > 0 {
                        v.add(&["C28", "C05"], format!("pool {pi}: tick {t} account missing while referenced"));
                    }
                }
                Some(x) => {
                    if x.tick != *t {
                        v.add(&["C28", "C05"], format!("pool {pi}: tick account {t} says {}", x.tick));
                    }
                    if x.gross as u128 != g || x.net as i128 != m.net(*t) {
                        v.add(&["C05"], format!("pool {pi}: tick {t} gross/net {}/{} expected {}/{}", x.gross, x.net, g, m.net(*t)));
                    }
                    if g == 0 && x != (TickV { tick: *t, ..Default::default() }) {
                        v.add(&["C28", "C06", "C15"], format!("pool {pi}: unreferenced tick {t} keeps data {x:?}"));
                    }
                }
            }
        }
        for wd in words {
            let got = bitmap_v(b, &p.word(wd));
            let mut want = [0u64; 4];
            for t in m.ticks() {
                let c = t.div_euclid(p.spacing as i32);
                if (c >> 8) as i16 == wd {
                    let bit = (c & 255) as usize;
                    want[bit / 64] |= 1 << (bit % 64);
                }
            }
            match got {
                Some(x) => {
                    if x.word != want || x.word_pos != wd {
                        v.add(&["C05", "C24"], format!("pool {pi}: bitmap word {wd} is {:x?} expected {:x?}", x, want));
                    }
                }
                None => {
                    if want != [0; 4] {
                        v.add(&["C05"], format!("pool {pi}: bitmap word {wd} missing"));
                    }
                }
            }
        }
        // positions
        let mut owners = env.users.clone();
        owners.push(factory_key());
        for (lo, up) in &scn.ranges[pi] {
            for o in &owners {
                let got = match pos_v(b, &p.pos(o, *lo, *up)) {
                    Some(x) => x,
                    None => continue,
                };
                let (liq, owed, due) = match m.pos(o, *lo, *up) {
                    Some(i) => (m.positions[i].liq, m.positions[i].owed, m.fees_due(i).unwrap_or([u64::MAX; 2])),
                    None => (0, [0; 2], [0; 2]),
                };
                if got.liq != liq {
                    v.add(&["C05", "C07"], format!("pool {pi} position {lo}..{up}: liquidity {} expected {liq}", got.liq));
                }
                if [got.owed0, got.owed1] != owed {
                    v.add(&["C06", "C07"], format!("pool {pi} position {lo}..{up}: owed {:?} expected {owed:?}", [got.owed0, got.owed1]));
                }
                if liq > 0 && got.liq > 0 {
                    if let (Some(tl), Some(tu)) = (tick_v(b, &p.tick(*lo)), tick_v(b, &p.tick(*up))) {
                        let ins = inside(&pv, &tl, &tu);
                        let pend = [
                            rm::mul_div(ins.0.wrapping_sub(got.fgi0), got.liq, rm::Q32),
                            rm::mul_div(ins.1.wrapping_sub(got.fgi1), got.liq, rm::Q32),
                        ];
                        if pend != [Some(due[0]), Some(due[1])] {
                            v.add(&["C06"], format!("pool {pi} position {lo}..{up}: fees accrued {pend:?} expected {due:?}"));
                        }
                    }
                }
            }
        }
        // range snapshots
        for o in n.offs.iter().filter(|o| o.p == pi) {
            let t = true_snapshot(m, now, o.lo, o.up);
            match real_snapshot(b, p, o.lo, o.up) {
                None => v.add(&["C15"], format!("pool {pi} range {}..{}: snapshot failed", o.lo, o.up)),
                Some(s) => {
                    let d = (s.0.wrapping_sub(t.0), s.1.wrapping_sub(t.1), s.2.wrapping_sub(t.2));
                    if d != o.d {
                        v.add(
                            &["C15"],
                            format!(
                                "pool {pi} range {}..{}: snapshot change since the range opened is off by (tick-seconds {}, seconds/liq {}, seconds {})",
                                o.lo,
                                o.up,
                                d.0.wrapping_sub(o.d.0),
                                d.1.wrapping_sub(o.d.1) as i64,
                                d.2.wrapping_sub(o.d.2) as i32
                            ),
                        );
                    }
                }
            }
        }
    }
    match factory_v(b) {
        Some(f) => {
            if f.fee_protocol != n.model.fee_protocol {
                v.add(&["C27"], format!("protocol fee setting {} expected {}", f.fee_protocol, n.model.fee_protocol));
            }
            if f.owner != env.admin {
                v.add(&["C16"], "factory owner changed".into());
            }
        }
        None => v.add(&["C16"], "factory gone".into()),
    }
    for x in &n.model.nfts {
        let mint = env.nft_mint_key(x.id);
        match nft_v(b, &nft_state(&mint)) {
            None => v.add(&["C08", "C09"], format!("nft {} state missing", x.id)),
            Some(s) => {
                if (s.mint, s.pool, s.lo, s.up) != (mint, env.pools[x.pool].key, x.lo, x.up) {
                    v.add(&["C08", "C09"], format!("nft {} is bound to {s:?}, expected pool {} {}..{}", x.id, x.pool, x.lo, x.up));
                }
                if s.liq != x.liq || [s.owed0, s.owed1] != x.owed {
                    v.add(&["C09"], format!("nft {}: liquidity {} owed {:?}, expected {} {:?}", x.id, s.liq, [s.owed0, s.owed1], x.liq, x.owed));
                }
            }
        }
        if let Some(w) = nft_mint_fault(b, &mint, x.meta) {
            v.add(&["C08", "C32"], format!("nft {} mint: {w}", x.id));
        }
        match (x.meta, meta_fault(b, &mint)) {
            (true, Some(w)) => v.add(&["C32"], format!("nft {} registered, {w}", x.id)),
            (false, _) if b.get(&nft_meta(&mint)).is_some_and(|a| !a.data.is_empty()) => v.add(&["C32"], format!("nft {} has metadata although never registered", x.id)),
            _ => {}
        }
        if tok_amount(b, &ata(&env.users[x.holder], &mint)) != 1 {
            v.add(&["C08"], format!("nft {} is not held by user {}", x.id, x.holder));
        }
    }
    // position NFTs are exactly the manager's core liquidity
    for (pi, _) in env.pools.iter().enumerate() {
        for (lo, up) in &scn.ranges[pi] {
            let sum: u128 = n
                .model
                .nfts
                .iter()
                .filter(|x| x.pool == pi && x.lo == *lo && x.up == *up)
                .map(|x| nft_v(b, &nft_state(&env.nft_mint_key(x.id))).map(|s| s.liq as u128).unwrap_or(0))
                .sum();
            let core = pos_v(b, &env.pools[pi].pos(&factory_key(), *lo, *up)).map(|p| p.liq as u128).unwrap_or(0);
            if sum != core {
                v.add(&["C09"], format!("pool {pi} {lo}..{up}: position NFTs claim {sum} but the manager holds {core}"));
            }
        }
    }
}

/// ranges whose two ends are referenced get (or keep) a snapshot base
fn refresh_offs(env: &Env, n: &mut Node, ranges: &[Vec<(i32, i32)>]) {
    for (pi, p) in env.pools.iter().enumerate() {
        for (lo, up) in &ranges[pi] {
            let m = &n.model.pools[pi];
            let live = m.gross(*lo) > 0 && m.gross(*up) > 0;
            let have = n.offs.iter().position(|o| o.p == pi && o.lo == *lo && o.up == *up);
            match (live, have) {
                (false, Some(i)) => {
                    n.offs.remove(i);
                }
                (true, None) => {
                    n.model.pools[pi].range(*lo, *up);
                    let t = true_snapshot(&n.model.pools[pi], n.bank.now as u32, *lo, *up);
                    if let Some(s) = real_snapshot(&n.bank, p, *lo, *up) {
                        n.offs.push(Off { p: pi, lo: *lo, up: *up, d: (s.0.wrapping_sub(t.0), s.1.wrapping_sub(t.1), s.2.wrapping_sub(t.2)) });
                    }
                }
                _ => {}
            }
        }
    }
}

pub fn node_hash(n: &Node) -> u128 {
    let mut h1 = DefaultHasher::new();
    n.model.hash(&mut h1);
    n.offs.hash(&mut h1);
    n.tainted.hash(&mut h1);
    let a = h1.finish();
    1u8.hash(&mut h1);
    let c = h1.finish();
    n.bank.hash() ^ (((a as u128) << 64) | c as u128)
}

pub enum StepR {
    /// new state
    New(Node),
    /// rejected, as specified
    Rejected,
    /// outcome differs and the model cannot follow
    Dead,
}

/// Executes one operation on the real program and on the model and compares.
pub fn step(scn: &Scn, n: &Node, op: &Op, v: &mut Viols, st: &Stats) -> StepR {
    let env = &scn.env;
    if let Op::Wait(dt) = op {
        let mut c = n.clone();
        c.bank.now += dt;
        Stats::inc(&st.ok);
        if v.0.is_empty() {
            compare(scn, &c, v);
        }
        return StepR::New(c);
    }
    let mut bank = n.bank.clone();
    let (ixs, signers) = tx_of(env, &n.bank, &n.model, op);
    let mut m = n.model.clone();
    let want = m.apply(env, &BankWorld(&n.bank), n.bank.now, op);
    crate::watch::at(&scn.name, scn.labels.get_or_init(|| std::sync::Arc::new(scn.ops.iter().map(|o| format!("{o:?}")).collect())), &n.path, || format!("{op:?}"));
    let got = process(&mut bank, &ixs, &signers);
    Stats::inc(&st.transitions);
    match (want, got) {
        (Err(_), Err(_)) => {
            Stats::inc(&st.failed);
            StepR::Rejected
        }
        (Err(w), Ok(_)) => {
            let mut ps = why_props(op, &w);
            // whatever the model thinks, an insolvent result is a solvency violation
            let mut sv = Viols::default();
            solvency(env, &bank, &scn.ranges, &mut sv);
            if !sv.0.is_empty() {
                ps.push("C01");
            }
            v.add(&ps, format!("accepted although it must be rejected ({w:?})"));
            StepR::Dead
        }
        (Ok(_), Err(e)) => {
            let mut ps = live_props(op).to_vec();
            ps.extend(blame(env, n, op));
            v.add(&ps, format!("rejected although it must succeed: {}", e.text()));
            StepR::Dead
        }
        (Ok(fx), Ok(out)) => {
            Stats::inc(&st.ok);
            for s in &fx.swaps {
                Stats::inc(&st.swaps);
                st.crossings.fetch_add(s.crossed as u64, Ordering::Relaxed);
                if s.writes_obs {
                    Stats::inc(&st.obs_writes);
                }
            }
            // token movements
            let mut keys: Vec<Pubkey> = env.tok.iter().flatten().copied().collect();
            for p in &env.pools {
                keys.push(p.v0);
                keys.push(p.v1);
            }
            for (k, _) in &fx.delta {
                if !keys.contains(k) {
                    keys.push(*k);
                }
            }
            for k in keys {
                let d = tok_amount(&bank, &k) as i128 - tok_amount(&n.bank, &k) as i128;
                if d != fx.of(&k) {
                    v.add(op_props(op), format!("token account {k} changed by {d}, expected {}", fx.of(&k)));
                }
            }
            // isolation
            let ok = footprint(env, &n.bank, &n.model, op, &scn.ranges);
            for k in changed_keys(&n.bank, &bank) {
                if !ok.contains(&k) {
                    let mut ps = vec!["C07", "C30"];
                    if foreign(env, &scn.ranges, &touched(&n.model, op), &k) {
                        ps.push("C35");
                    }
                    v.add(&ps, format!("account {k} outside the operation's footprint changed"));
                }
            }
            let closes = match op {
                Op::CloseTick { p, t, .. } => Some(env.pools[*p].tick(*t)),
                _ => None,
            };
            for w in deposit_faults(env, &n.bank, &bank, &signers, closes) {
                v.add(&["C33"], w);
            }
            // a tick put into use takes all growth so far to be below it
            for (pi, mp) in m.pools.iter().enumerate() {
                let p = &env.pools[pi];
                for t in mp.ticks() {
                    if n.model.pools.get(pi).map_or(true, |o| o.gross(t) > 0) {
                        continue;
                    }
                    if let (Some(x), Some(q)) = (tick_v(&bank, &p.tick(t)), pool_v(&bank, &p.key)) {
                        let (tc, spl) = mp.observe(bank.now as u32);
                        let below = t <= q.tick;
                        let f = if below { (q.fg0, q.fg1) } else { (0, 0) };
                        let o = if below { (tc, spl, bank.now as u32) } else { (0, 0, 0) };
                        if (x.fgo0, x.fgo1) != f {
                            v.add(&["C28", "C06"], format!("pool {pi}: tick {t} starts with fee growth {:?}, expected {f:?}", (x.fgo0, x.fgo1)));
                        }
                        if (x.tc, x.spl, x.secs) != o {
                            v.add(&["C28", "C15"], format!("pool {pi}: tick {t} starts with oracle figures {:?}, expected {o:?}", (x.tc, x.spl, x.secs)));
                        }
                    }
                }
            }
            if scn.events {
                let mut e = events_of(&out.logs);
                let mut w = fx.events.clone();
                e.sort();
                w.sort();
                if e != w {
                    v.add(&["C29"], format!("events differ: got {:?} expected {:?}", e, w));
                }
            }
            let mut c = Node { bank, model: m, offs: n.offs.clone(), path: n.path.clone(), tainted: n.tainted };
            refresh_offs(env, &mut c, &scn.ranges);
            let from = v.0.len();
            compare(scn, &c, v);
            solvency(env, &c.bank, &scn.ranges, v);
            if env.pools.len() > 1 && v.0.len() > from {
                // a difference in a pool the operation does not name
                let t = touched(&n.model, op);
                for x in &mut v.0[from..] {
                    let q = x.what.strip_prefix("pool ").and_then(|s| s.split(|c: char| !c.is_ascii_digit()).next()).and_then(|s| s.parse::<usize>().ok());
                    if q.map_or(false, |q| !t.contains(&q)) && !n.tainted {
                        x.props.push("C35");
                    }
                }
            }
            StepR::New(c)
        }
    }
}

pub struct Found {
    pub scn: String,
    pub path: Vec<u16>,
    pub trace: Vec<String>,
    pub what: String,
    pub props: Vec<&'static str>,
}

pub struct RunOut {
    pub found: Vec<Found>,
    pub other: Vec<Found>,
    /// one complete history of the run
    pub sample: Option<Vec<String>>,
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
}

/// Runs the scenario's starting history.
pub fn prefix(scn: &Scn, v: &mut Viols, st: &Stats) -> Node {
    set_capture(scn.events);
    let mut n = scn.start.clone();
    refresh_offs(&scn.env, &mut n, &scn.ranges);
    compare(scn, &n, v);
    solvency(&scn.env, &n.bank, &scn.ranges, v);
    for (i, op) in scn.pre.iter().enumerate() {
        let mut w = Viols::default();
        match step(scn, &n, op, &mut w, st) {
            StepR::New(c) => n = c,
            _ => {
                if w.0.is_empty() && !scn.lenient {
                    panic!("scenario {}: starting history step {i} {op:?} is rejected by both", scn.name);
                }
            }
        }
        for x in w.0 {
            v.0.push(Viol { what: format!("starting history step {i} {op:?}: {}", x.what), props: x.props });
        }
    }
    n.path.clear();
    n.tainted = !v.0.is_empty();
    n
}

/// Breadth-first exploration. `target` = property whose violations count.
pub fn run(scn: &Scn, target: &str, st: &Stats) -> RunOut {
    let t0 = Instant::now();
    let seen: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let insert = |h: u128| seen[(h as usize) & 63].lock().unwrap().insert(h);
    let mut found: Vec<Found> = vec![];
    let mut other: Vec<Found> = vec![];
    let trace = |path: &[u16]| path.iter().map(|i| format!("{:?}", scn.ops[*i as usize])).collect::<Vec<_>>();
    let split = |v: Viols, path: &[u16], found: &mut Vec<Found>, other: &mut Vec<Found>| {
        for x in v.0 {
            let f = Found { scn: scn.name.clone(), path: path.to_vec(), trace: trace(path), what: x.what, props: x.props.clone() };
            if x.props.contains(&target) || target == "ANY" {
                found.push(f);
            } else if other.len() < 20 {
                other.push(f);
            }
        }
    };
    let mut v = Viols::default();
    let start = prefix(scn, &mut v, st);
    for p in &scn.probes {
        p(scn, &start, &mut v, st);
    }
    Stats::inc(&st.states);
    insert(node_hash(&start));
    split(v, &[], &mut found, &mut other);
    let mut frontier = vec![start];
    let mut sample = None;
    for d in 0..scn.depth {
        if !found.is_empty() {
            break;
        }
        let last = d + 1 == scn.depth;
        let idx = AtomicU64::new(0);
        let next = Mutex::new(Vec::new());
        let fo = Mutex::new((Vec::new(), Vec::new()));
        let stop = AtomicBool::new(false);
        std::thread::scope(|s| {
            for _ in 0..if scn.workers > 0 { scn.workers } else { threads() } {
                s.spawn(|| {
                    set_capture(scn.events);
                    let mut lnext = vec![];
                    loop {
                        let i = idx.fetch_add(1, Ordering::Relaxed) as usize;
                        if i >= frontier.len() {
                            break;
                        }
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > scn.budget_s || st.states.load(Ordering::Relaxed) > scn.max_states {
                            st.capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        let n = &frontier[i];
                        let mut fresh = 0;
                        for (oi, op) in scn.ops.iter().enumerate() {
                            let mut v = Viols::default();
                            let r = step(scn, n, op, &mut v, st);
                            let mut path = n.path.clone();
                            path.push(oi as u16);
                            if let StepR::New(mut c) = r {
                                c.path = path.clone();
                                if !v.0.is_empty() {
                                    c.tainted = true;
                                }
                                if insert(node_hash(&c)) {
                                    Stats::inc(&st.states);
                                    if d < scn.probe_depth {
                                        for p in &scn.probes {
                                            p(scn, &c, &mut v, st);
                                        }
                                    }
                                    fresh += 1;
                                    if last {
                                        Stats::inc(&st.leaves);
                                    } else {
                                        lnext.push(c);
                                    }
                                } else {
                                    Stats::inc(&st.dup);
                                }
                            }
                            if !v.0.is_empty() {
                                let mut g = fo.lock().unwrap();
                                let g = &mut *g;
                                split(v, &path, &mut g.0, &mut g.1);
                                if g.0.len() > 50 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        if fresh == 0 {
                            Stats::inc(&st.leaves);
                        }
                    }
                    next.lock().unwrap().append(&mut lnext);
                });
            }
        });
        let (f, o) = fo.into_inner().unwrap();
        found.extend(f);
        if other.len() < 20 {
            other.extend(o);
        }
        frontier = next.into_inner().unwrap();
        frontier.sort_by(|a, b| a.path.cmp(&b.path));
        if !frontier.is_empty() {
            sample = Some(trace(&frontier[frontier.len() * 2 / 3].path));
        }
        if st.capped.load(Ordering::Relaxed) {
            break;
        }
        st.depth_done.fetch_max(d as u64 + 1, Ordering::Relaxed);
    }
    found.sort_by(|a, b| (a.path.len(), &a.path).cmp(&(b.path.len(), &b.path)));
    RunOut { found, other, sample }
}

/// Re-executes a recorded path; returns the violations of the last step.
pub fn replay(scn: &Scn, path: &[u16], st: &Stats, say: &mut dyn FnMut(&str)) -> Vec<Viol> {
    let mut v = Viols::default();
    let mut n = prefix(scn, &mut v, st);
    if path.is_empty() {
        for p in &scn.probes {
            p(scn, &n, &mut v, st);
        }
    }
    for y in &v.0 {
        say(&format!("  {:?}: {}", y.props, y.what));
    }
    let mut all = v.0;
    for (k, i) in path.iter().enumerate() {
        let mut v = Viols::default();
        let op = &scn.ops[*i as usize];
        say(&format!("step {k}: {op:?}"));
        match step(scn, &n, op, &mut v, st) {
            StepR::New(mut c) => {
                c.path = path[..=k].to_vec();
                c.tainted = !v.0.is_empty();
                for p in &scn.probes {
                    p(scn, &c, &mut v, st);
                }
                n = c;
            }
            StepR::Rejected => say(&format!("  rejected")),
            StepR::Dead => say(&format!("  outcomes differ")),
        }
        for x in &v.0 {
            say(&format!("  {:?}: {}", x.props, x.what));
        }
        all = v.0;
    }
    all
}

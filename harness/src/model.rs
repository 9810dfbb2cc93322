//! The boring reference model: lists of positions, plain loops, wide integers. It never reads the
//! pool, tick, bitmap, position or observation accounts of the implementation.
use crate::refmath as rm;
use crate::world::{evdisc, nft_state, Env, PoolK};
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct MRange {
    pub lo: i32,
    pub up: i32,
    /// fee growth per unit of liquidity earned while the price was inside (wrapping counters)
    pub g: [u64; 2],
    pub secs: u32,
    pub tc: i64,
    pub spl: u64,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct MPos {
    pub owner: Pubkey,
    pub lo: i32,
    pub up: i32,
    pub liq: u64,
    pub last: [u64; 2],
    pub owed: [u64; 2],
}
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct MObs {
    pub ts: u32,
    pub tc: i64,
    pub spl: u64,
    pub init: bool,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct MPool {
    pub price: u64,
    pub tick: i32,
    pub fg: [u64; 2],
    pub pf: [u64; 2],
    pub positions: Vec<MPos>,
    pub ranges: Vec<MRange>,
    pub obs: Vec<MObs>,
    pub oi: u16,
    pub card: u16,
    pub card_next: u16,
    /// last accumulator values folded into the ranges
    pub seen: (u32, i64, u64),
    /// independent integral of tick over time since creation
    pub tick_seconds: i64,
    pub born: u32,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct MNft {
    pub id: usize,
    pub pool: usize,
    pub lo: i32,
    pub up: i32,
    pub liq: u64,
    pub last: [u64; 2],
    pub owed: [u64; 2],
    pub holder: usize,
    /// (holder, spender) approvals; they belong to the holder's token account and survive transfers
    pub approvals: Vec<(usize, usize)>,
    pub meta: bool,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Model {
    pub pools: Vec<MPool>,
    pub nfts: Vec<MNft>,
    pub fee_protocol: u8,
    pub factory: Pubkey,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Why {
    Limit,
    Zero,
    Math,
    Funds,
    Vault,
    Deadline,
    Slippage,
    NoLiquidity,
    Auth,
    Missing,
    InUse,
    Other,
}
pub type R<T> = Result<T, Why>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Path {
    Word(i16),
    Tick(i32),
}
#[derive(Clone, Debug)]
pub struct SwapOut {
    pub a0: i64,
    pub a1: i64,
    pub price: u64,
    pub tick: i32,
    pub liq: u64,
    pub path: Vec<Path>,
    pub pf: u64,
    pub fee_total: u64,
    pub fg: u64,
    pub steps: u32,
    pub crossed: u32,
    pub writes_obs: bool,
}

fn bump32(fee: u64, liq: u64) -> Option<u64> {
    rm::mul_div(fee, rm::Q32, liq)
}

impl MPool {
    pub fn new(price: u64, now: i64) -> MPool {
        MPool {
            price,
            tick: rm::tick_at(price),
            fg: [0; 2],
            pf: [0; 2],
            positions: vec![],
            ranges: vec![],
            obs: vec![MObs { ts: now as u32, tc: 0, spl: 0, init: true }],
            oi: 0,
            card: 1,
            card_next: 1,
            seen: (now as u32, 0, 0),
            tick_seconds: 0,
            born: now as u32,
        }
    }
    pub fn liq_at(&self, tick: i32) -> u128 {
        self.positions.iter().filter(|p| p.lo <= tick && tick < p.up).map(|p| p.liq as u128).sum()
    }
    pub fn liq(&self) -> u64 {
        self.liq_at(self.tick).min(u64::MAX as u128) as u64
    }
    pub fn gross(&self, tick: i32) -> u128 {
        self.positions.iter().filter(|p| p.lo == tick || p.up == tick).map(|p| p.liq as u128).sum()
    }
    pub fn net(&self, tick: i32) -> i128 {
        let a: i128 = self.positions.iter().filter(|p| p.lo == tick).map(|p| p.liq as i128).sum();
        let b: i128 = self.positions.iter().filter(|p| p.up == tick).map(|p| p.liq as i128).sum();
        a - b
    }
    pub fn ticks(&self) -> Vec<i32> {
        let mut v: Vec<i32> = self.positions.iter().filter(|p| p.liq > 0).flat_map(|p| [p.lo, p.up]).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn range(&mut self, lo: i32, up: i32) -> usize {
        if let Some(i) = self.ranges.iter().position(|r| r.lo == lo && r.up == up) {
            return i;
        }
        self.ranges.push(MRange { lo, up, g: [0; 2], secs: 0, tc: 0, spl: 0 });
        self.ranges.len() - 1
    }
    pub fn pos(&self, owner: &Pubkey, lo: i32, up: i32) -> Option<usize> {
        self.positions.iter().position(|p| p.owner == *owner && p.lo == lo && p.up == up)
    }
    pub fn pos_mut(&mut self, owner: &Pubkey, lo: i32, up: i32) -> usize {
        if let Some(i) = self.pos(owner, lo, up) {
            return i;
        }
        self.range(lo, up);
        self.positions.push(MPos { owner: *owner, lo, up, liq: 0, last: [0; 2], owed: [0; 2] });
        self.positions.len() - 1
    }
    /// (tick cumulative, seconds per liquidity) at `now`
    pub fn observe(&self, now: u32) -> (i64, u64) {
        let o = &self.obs[self.oi as usize];
        let dt = now.wrapping_sub(o.ts);
        (
            o.tc.wrapping_add(self.tick as i64 * dt as i64),
            o.spl.wrapping_add(((dt as u64) << 32) / self.liq().max(1)),
        )
    }
    /// folds elapsed time into the per-range counters
    pub fn advance(&mut self, now: u32) {
        let (tc, spl) = self.observe(now);
        let dt = now.wrapping_sub(self.seen.0);
        for r in self.ranges.iter_mut() {
            if r.lo <= self.tick && self.tick < r.up {
                r.secs = r.secs.wrapping_add(dt);
                r.tc = r.tc.wrapping_add(tc.wrapping_sub(self.seen.1));
                r.spl = r.spl.wrapping_add(spl.wrapping_sub(self.seen.2));
            }
        }
        self.tick_seconds = self.tick_seconds.wrapping_add(self.tick as i64 * dt as i64);
        self.seen = (now, tc, spl);
    }
    /// an observation of the state up to `now` is stored (tick and liquidity are still the old ones)
    pub fn write_obs(&mut self, now: u32) {
        let last = self.obs[self.oi as usize];
        if last.ts == now {
            return;
        }
        let (tc, spl) = self.observe(now);
        let mut i = self.oi;
        if now / 14 != last.ts / 14 {
            i = (self.oi + 1) % self.card_next;
        }
        self.obs[i as usize] = MObs { ts: now, tc, spl, init: true };
        if i == self.card && self.card_next > self.card {
            self.card = self.card_next;
        }
        self.oi = i;
    }
    pub fn needs_next_slot(&self, now: u32) -> bool {
        now / 14 != self.obs[self.oi as usize].ts / 14
    }

    /// The tick-by-tick swap. Does not change self; `dry` result can be applied with `apply_swap`.
    #[allow(clippy::too_many_arguments)]
    pub fn swap(&self, p: &PoolK, fee_protocol: u8, z: bool, amount: i64, limit: u64, has_word: &dyn Fn(i16) -> bool, ranges: Option<&mut Vec<MRange>>, path: &mut Vec<Path>) -> R<SwapOut> {
        path.clear();
        if amount == 0 || amount == i64::MIN {
            return Err(Why::Zero);
        }
        let ok = if z { limit < self.price && limit > rm::MIN_SQRT } else { limit > self.price && limit < rm::MAX_SQRT };
        if (z && limit >= self.price) || (!z && limit <= self.price) {
            return Err(Why::Limit);
        }
        let sp = p.spacing as i32;
        let ticks = self.ticks();
        let exact_in = amount > 0;
        let mut rem = amount as i128;
        let mut calc: i128 = 0;
        let mut price = self.price;
        let mut tick = self.tick;
        let mut liq = self.liq_at(tick);
        let tin = if z { 0 } else { 1 };
        let mut fg = self.fg[tin];
        let mut pf: u64 = 0;
        let mut fee_total: u64 = 0;
        let mut cached: Option<i16> = None;
        let mut steps = 0;
        let mut crossed = 0;
        let mut rg = self.ranges.clone();
        while rem != 0 && price != limit {
            steps += 1;
            if !ok && steps > 600 {
                return Err(Why::Limit);
            }
            let mut c = tick.div_euclid(sp);
            if !z {
                c += 1;
            }
            let word = c >> 8;
            if cached != Some(word as i16) {
                path.push(Path::Word(word as i16));
                cached = if has_word(word as i16) { Some(word as i16) } else { None };
            }
            let (wlo, whi) = (word << 8, (word << 8) + 255);
            let hit = if z {
                ticks.iter().rev().map(|t| t.div_euclid(sp)).find(|t| *t <= c && *t >= wlo)
            } else {
                ticks.iter().map(|t| t.div_euclid(sp)).find(|t| *t >= c && *t <= whi)
            };
            let initialized = hit.is_some();
            let next = (hit.unwrap_or(if z { wlo } else { whi }) * sp).clamp(rm::MIN_TICK, rm::MAX_TICK);
            let pnext = rm::sqrt_tab(next);
            let target = if z { pnext.max(limit) } else { pnext.min(limit) };
            if liq > u64::MAX as u128 {
                return Err(Why::Math);
            }
            let s = rm::step(price, target, liq as u64, rem as i64, p.fee).ok_or(Why::Math)?;
            let start = price;
            price = s.next;
            let paid = s.ain as u128 + s.fee as u128;
            if paid > i64::MAX as u128 || s.aout > i64::MAX as u64 {
                if initialized && s.next == pnext {
                    path.push(Path::Tick(next));
                }
                return Err(if ok { Why::Math } else { Why::Limit });
            }
            if exact_in {
                rem -= paid as i128;
                calc -= s.aout as i128;
            } else {
                rem += s.aout as i128;
                calc += paid as i128;
            }
            if calc.abs() > i64::MAX as i128 {
                return Err(Why::Math);
            }
            fee_total += s.fee;
            let mut fee = s.fee;
            if fee_protocol > 0 {
                let d = fee / fee_protocol as u64;
                fee -= d;
                pf += d;
            }
            if liq > 0 {
                let g = bump32(fee, liq as u64).ok_or(Why::Math)?;
                fg = fg.wrapping_add(g);
                for r in rg.iter_mut() {
                    if r.lo <= tick && tick < r.up {
                        r.g[tin] = r.g[tin].wrapping_add(g);
                    }
                }
            }
            if price == pnext {
                tick = if z { next - 1 } else { next };
                if initialized {
                    path.push(Path::Tick(next));
                    crossed += 1;
                    liq = self.liq_at(tick);
                    if liq > u64::MAX as u128 {
                        return Err(Why::Math);
                    }
                }
            } else if price != start {
                tick = rm::tick_at(price);
            }
        }
        if !ok {
            return Err(Why::Limit);
        }
        let spec = amount as i128 - rem;
        let (a0, a1) = if z == exact_in { (spec, calc) } else { (calc, spec) };
        if let Some(o) = ranges {
            *o = rg;
        }
        Ok(SwapOut {
            a0: a0 as i64,
            a1: a1 as i64,
            price,
            tick,
            liq: liq as u64,
            path: path.clone(),
            pf,
            fee_total,
            fg,
            steps,
            crossed,
            writes_obs: tick != self.tick,
        })
    }
    #[allow(clippy::too_many_arguments)]
    pub fn apply_swap(&mut self, p: &PoolK, fee_protocol: u8, z: bool, amount: i64, limit: u64, now: u32, has_word: &dyn Fn(i16) -> bool) -> R<SwapOut> {
        let mut rg = vec![];
        let mut path = vec![];
        let o = self.swap(p, fee_protocol, z, amount, limit, has_word, Some(&mut rg), &mut path)?;
        self.advance(now);
        // time counters were folded above; take fee counters from the swap
        for (a, b) in self.ranges.iter_mut().zip(rg) {
            a.g = b.g;
        }
        if o.writes_obs {
            self.write_obs(now);
        }
        let tin = if z { 0 } else { 1 };
        self.fg[tin] = o.fg;
        self.pf[tin] = self.pf[tin].wrapping_add(o.pf);
        self.price = o.price;
        self.tick = o.tick;
        Ok(o)
    }

    /// amounts for adding (+, rounded up) or removing (-, rounded down) liquidity
    pub fn amounts(&self, lo: i32, up: i32, liq: u64, add: bool) -> Option<(u64, u64)> {
        let (a, b) = (rm::sqrt_tab(lo), rm::sqrt_tab(up));
        if liq == 0 {
            return Some((0, 0));
        }
        Some(if self.tick < lo {
            (rm::amt0(a, b, liq, add)?, 0)
        } else if self.tick < up {
            (rm::amt0(self.price, b, liq, add)?, rm::amt1(a, self.price, liq, add)?)
        } else {
            (0, rm::amt1(a, b, liq, add)?)
        })
    }
    pub fn fees_due(&self, i: usize) -> Option<[u64; 2]> {
        let p = &self.positions[i];
        let r = self.ranges.iter().find(|r| r.lo == p.lo && r.up == p.up)?;
        Some([
            rm::mul_div(r.g[0].wrapping_sub(p.last[0]), p.liq, rm::Q32)?,
            rm::mul_div(r.g[1].wrapping_sub(p.last[1]), p.liq, rm::Q32)?,
        ])
    }
    /// liquidity change of one position; returns the principal amounts
    pub fn modify(&mut self, owner: &Pubkey, lo: i32, up: i32, delta: i128, now: u32) -> R<(u64, u64)> {
        if lo >= up {
            return Err(Why::Other);
        }
        if delta.abs() > i64::MAX as i128 {
            return Err(Why::Math);
        }
        let cur = self.pos(owner, lo, up).map(|i| self.positions[i].liq).unwrap_or(0);
        if delta == 0 && cur == 0 {
            return Err(Why::NoLiquidity);
        }
        let nl = cur as i128 + delta;
        if nl < 0 {
            return Err(Why::NoLiquidity);
        }
        if nl > u64::MAX as i128 {
            return Err(Why::Math);
        }
        for (t, s) in [(lo, 1i128), (up, -1i128)] {
            if self.gross(t) as i128 + delta > u64::MAX as i128 {
                return Err(Why::Math);
            }
            let n = self.net(t) + s * delta;
            if n > i64::MAX as i128 || n < i64::MIN as i128 {
                return Err(Why::Math);
            }
        }
        let inr = lo <= self.tick && self.tick < up;
        if inr && delta > 0 && self.liq_at(self.tick) as i128 + delta > u64::MAX as i128 {
            return Err(Why::Math);
        }
        let am = self.amounts(lo, up, delta.unsigned_abs() as u64, delta > 0).ok_or(Why::Math)?;
        self.advance(now);
        let i = self.pos_mut(owner, lo, up);
        let due = self.fees_due(i).ok_or(Why::Math)?;
        let r = self.ranges.iter().find(|r| r.lo == lo && r.up == up).unwrap().g;
        if inr && delta != 0 {
            self.write_obs(now);
        }
        let p = &mut self.positions[i];
        p.owed[0] = p.owed[0].wrapping_add(due[0]);
        p.owed[1] = p.owed[1].wrapping_add(due[1]);
        p.last = r;
        p.liq = nl as u64;
        // the accumulators restart from the same values with the new liquidity
        let (tc, spl) = self.observe(now);
        self.seen = (now, tc, spl);
        Ok(am)
    }
}

// ------------------------------------------------------------------ operations

pub const ALL: u64 = u64::MAX;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Wait(i64),
    Mint { u: usize, p: usize, lo: i32, up: i32, liq: u64 },
    Burn { u: usize, p: usize, lo: i32, up: i32, liq: u64 },
    Collect { u: usize, p: usize, lo: i32, up: i32, a0: u64, a1: u64 },
    Swap { u: usize, p: usize, z: bool, amt: i64, limit: u64 },
    ExactIn { u: usize, p: usize, z: bool, amt: u64, min: u64, limit: u64, dl: i64 },
    Route { u: usize, hops: Vec<(usize, bool)>, amt: u64, min: u64, dl: i64 },
    NftMint { u: usize, to: usize, id: usize, p: usize, lo: i32, up: i32, d: [u64; 2], m: [u64; 2], dl: i64 },
    NftInc { u: usize, id: usize, d: [u64; 2], m: [u64; 2], dl: i64 },
    NftDec { u: usize, id: usize, liq: u64, m: [u64; 2], dl: i64 },
    NftCollect { u: usize, id: usize, a: [u64; 2] },
    NftMeta { u: usize, id: usize },
    NftSend { id: usize, to: usize },
    NftApprove { id: usize, to: usize },
    FeeProtocol(u8),
    CollectProtocol { u: usize, p: usize, a: [u64; 2] },
    IncObs { u: usize, p: usize, n: u16 },
    InitTick { u: usize, p: usize, t: i32 },
    CloseTick { u: usize, p: usize, t: i32 },
    InitWord { u: usize, p: usize, w: i16 },
    /// u pays, o owns (users, or users.len() for the position manager)
    InitPos { u: usize, p: usize, o: usize, lo: i32, up: i32 },
}
/// default limit for a swap direction
pub fn lim(z: bool, limit: u64) -> u64 {
    if limit != 0 {
        limit
    } else if z {
        rm::MIN_SQRT + 1
    } else {
        rm::MAX_SQRT - 1
    }
}

#[derive(Clone, Debug, Default)]
pub struct Effect {
    /// (token account, delta)
    pub delta: Vec<(Pubkey, i128)>,
    pub events: Vec<Vec<u8>>,
    /// reference swap results, one per hop
    pub swaps: Vec<SwapOut>,
}
impl Effect {
    fn add(&mut self, k: Pubkey, d: i128) {
        if let Some(x) = self.delta.iter_mut().find(|x| x.0 == k) {
            x.1 += d;
        } else {
            self.delta.push((k, d));
        }
    }
    pub fn of(&self, k: &Pubkey) -> i128 {
        self.delta.iter().find(|x| x.0 == *k).map(|x| x.1).unwrap_or(0)
    }
}
pub struct Ev(Vec<u8>);
impl Ev {
    pub fn new(n: &str) -> Ev {
        Ev(evdisc(n).to_vec())
    }
    pub fn k(mut self, k: &Pubkey) -> Ev {
        self.0.extend_from_slice(k.as_ref());
        self
    }
    pub fn i32(mut self, v: i32) -> Ev {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> Ev {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u16(mut self, v: u16) -> Ev {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u8(mut self, v: u8) -> Ev {
        self.0.push(v);
        self
    }
    pub fn u64(mut self, v: u64) -> Ev {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i64(mut self, v: i64) -> Ev {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

/// What the model may ask about the surroundings: token balances and which bitmap words exist.
pub trait World {
    fn balance(&self, k: &Pubkey) -> u64;
    fn has_word(&self, p: &PoolK, w: i16) -> bool;
    fn exists(&self, k: &Pubkey) -> bool;
}

/// the accounts of a range must have been created
fn have_range(env: &Env, w: &dyn World, pi: usize, owner: &Pubkey, lo: i32, up: i32, words: bool) -> R<()> {
    let p = &env.pools[pi];
    let mut ks = vec![p.tick(lo), p.tick(up), p.pos(owner, lo, up)];
    if words {
        ks.push(p.bitmap_of_tick(lo));
        ks.push(p.bitmap_of_tick(up));
    }
    if ks.iter().all(|k| w.exists(k)) {
        Ok(())
    } else {
        Err(Why::Missing)
    }
}

impl Model {
    pub fn new(factory: Pubkey, fee_protocol: u8) -> Model {
        Model { pools: vec![], nfts: vec![], fee_protocol, factory }
    }
    pub fn nft(&self, id: usize) -> R<usize> {
        self.nfts.iter().position(|n| n.id == id).ok_or(Why::Other)
    }
    fn mint_core(&mut self, env: &Env, w: &dyn World, fx: &mut Effect, payer: usize, owner: Pubkey, pi: usize, lo: i32, up: i32, liq: u64, now: i64) -> R<(u64, u64)> {
        if liq == 0 {
            return Err(Why::Zero);
        }
        let p = &env.pools[pi];
        have_range(env, w, pi, &owner, lo, up, true)?;
        let am = self.pools[pi].modify(&owner, lo, up, liq as i128, now as u32)?;
        let (t0, t1) = (env.tok[payer][p.t0], env.tok[payer][p.t1]);
        if w.balance(&t0) < am.0 || w.balance(&t1) < am.1 {
            return Err(Why::Funds);
        }
        fx.add(t0, -(am.0 as i128));
        fx.add(t1, -(am.1 as i128));
        fx.add(p.v0, am.0 as i128);
        fx.add(p.v1, am.1 as i128);
        fx.events.push(Ev::new("MintEvent").k(&p.key).k(&env.users[payer]).k(&owner).i32(lo).i32(up).u64(liq).u64(am.0).u64(am.1).done());
        Ok(am)
    }
    fn burn_core(&mut self, env: &Env, w: &dyn World, fx: &mut Effect, owner: Pubkey, pi: usize, lo: i32, up: i32, liq: u64, now: i64) -> R<(u64, u64)> {
        have_range(env, w, pi, &owner, lo, up, true)?;
        let am = self.pools[pi].modify(&owner, lo, up, -(liq as i128), now as u32)?;
        let i = self.pools[pi].pos_mut(&owner, lo, up);
        let ps = &mut self.pools[pi].positions[i];
        ps.owed[0] = ps.owed[0].wrapping_add(am.0);
        ps.owed[1] = ps.owed[1].wrapping_add(am.1);
        fx.events.push(Ev::new("BurnEvent").k(&env.pools[pi].key).k(&owner).i32(lo).i32(up).u64(liq).u64(am.0).u64(am.1).done());
        Ok(am)
    }
    fn collect_core(&mut self, env: &Env, w: &dyn World, fx: &mut Effect, owner: Pubkey, to: usize, pi: usize, lo: i32, up: i32, a: [u64; 2]) -> R<(u64, u64)> {
        let p = &env.pools[pi];
        have_range(env, w, pi, &owner, lo, up, false)?;
        let i = self.pools[pi].pos(&owner, lo, up);
        let owed = i.map(|i| self.pools[pi].positions[i].owed).unwrap_or([0; 2]);
        let am = (a[0].min(owed[0]), a[1].min(owed[1]));
        if w.balance(&p.v0) < am.0 || w.balance(&p.v1) < am.1 {
            return Err(Why::Vault);
        }
        if let Some(i) = i {
            self.pools[pi].positions[i].owed[0] -= am.0;
            self.pools[pi].positions[i].owed[1] -= am.1;
        }
        fx.add(env.tok[to][p.t0], am.0 as i128);
        fx.add(env.tok[to][p.t1], am.1 as i128);
        fx.add(p.v0, -(am.0 as i128));
        fx.add(p.v1, -(am.1 as i128));
        fx.events.push(Ev::new("CollectEvent").k(&p.key).k(&owner).i32(lo).i32(up).u64(am.0).u64(am.1).done());
        Ok(am)
    }
    #[allow(clippy::too_many_arguments)]
    fn swap_core(&mut self, env: &Env, w: &dyn World, fx: &mut Effect, u: usize, pi: usize, z: bool, amt: i64, limit: u64, now: i64) -> R<SwapOut> {
        let p = &env.pools[pi];
        let fp = self.fee_protocol;
        let hw = |x: i16| w.has_word(p, x);
        let o = self.pools[pi].apply_swap(p, fp, z, amt, limit, now as u32, &hw)?;
        let (t0, t1) = (env.tok[u][p.t0], env.tok[u][p.t1]);
        // output is paid first, then the input is collected
        let (ti, to, vi, vo, ain, aout) = if z { (t0, t1, p.v0, p.v1, o.a0, -o.a1) } else { (t1, t0, p.v1, p.v0, o.a1, -o.a0) };
        if (w.balance(&vo) as i128 + fx.of(&vo)) < aout as i128 {
            return Err(Why::Vault);
        }
        fx.add(to, aout as i128);
        fx.add(vo, -(aout as i128));
        if (w.balance(&ti) as i128 + fx.of(&ti)) < ain as i128 {
            return Err(Why::Funds);
        }
        fx.add(ti, -(ain as i128));
        fx.add(vi, ain as i128);
        fx.events.push(
            Ev::new("SwapEvent").k(&p.key).k(&env.users[u]).k(&t0).k(&t1).i64(o.a0).i64(o.a1).u64(o.price).u64(o.liq).i32(o.tick).done(),
        );
        fx.swaps.push(o.clone());
        Ok(o)
    }

    /// The specified outcome of an operation. On Err nothing changes (self may be left dirty: clone first).
    pub fn apply(&mut self, env: &Env, w: &dyn World, now: i64, op: &Op) -> R<Effect> {
        let mut fx = Effect::default();
        match op {
            Op::Wait(_) => {}
            Op::Mint { u, p, lo, up, liq } => {
                self.mint_core(env, w, &mut fx, *u, env.users[*u], *p, *lo, *up, *liq, now)?;
            }
            Op::Burn { u, p, lo, up, liq } => {
                let o = env.users[*u];
                let l = if *liq == ALL { self.pools[*p].pos(&o, *lo, *up).map(|i| self.pools[*p].positions[i].liq).unwrap_or(0) } else { *liq };
                self.burn_core(env, w, &mut fx, o, *p, *lo, *up, l, now)?;
            }
            Op::Collect { u, p, lo, up, a0, a1 } => {
                self.collect_core(env, w, &mut fx, env.users[*u], *u, *p, *lo, *up, [*a0, *a1])?;
            }
            Op::Swap { u, p, z, amt, limit } => {
                self.swap_core(env, w, &mut fx, *u, *p, *z, *amt, lim(*z, *limit), now)?;
            }
            Op::ExactIn { u, p, z, amt, min, limit, dl } => {
                if now > *dl {
                    return Err(Why::Deadline);
                }
                if *amt > i64::MAX as u64 {
                    return Err(Why::Math);
                }
                let o = self.swap_core(env, w, &mut fx, *u, *p, *z, *amt as i64, lim(*z, *limit), now)?;
                let out = if *z { -o.a1 } else { -o.a0 } as u64;
                if out < *min {
                    return Err(Why::Slippage);
                }
            }
            Op::Route { u, hops, amt, min, dl } => {
                if now > *dl {
                    return Err(Why::Deadline);
                }
                let mut a = *amt;
                for (p, z) in hops {
                    if a > i64::MAX as u64 {
                        return Err(Why::Math);
                    }
                    let o = self.swap_core(env, w, &mut fx, *u, *p, *z, a as i64, lim(*z, 0), now)?;
                    a = if *z { -o.a1 } else { -o.a0 } as u64;
                }
                if a < *min {
                    return Err(Why::Slippage);
                }
            }
            Op::NftMint { u, to, id, p, lo, up, d, m, dl } => {
                if now > *dl {
                    return Err(Why::Deadline);
                }
                if self.nft(*id).is_ok() {
                    return Err(Why::Other);
                }
                let pk = &env.pools[*p];
                let liq = rm::liq_for(self.pools[*p].price, rm::sqrt_tab(*lo), rm::sqrt_tab(*up), d[0], d[1]).ok_or(Why::Math)?;
                let f = self.factory;
                let am = self.mint_core(env, w, &mut fx, *u, f, *p, *lo, *up, liq, now)?;
                if am.0 < m[0] || am.1 < m[1] {
                    return Err(Why::Slippage);
                }
                let g = self.pools[*p].ranges.iter().find(|r| r.lo == *lo && r.up == *up).unwrap().g;
                self.nfts.push(MNft { id: *id, pool: *p, lo: *lo, up: *up, liq, last: g, owed: [0; 2], holder: *to, approvals: vec![], meta: false });
                self.nfts.sort_by_key(|n| n.id);
                let mint = env.nft_mint_key(*id);
                fx.add(crate::world::ata(&env.users[*to], &mint), 1);
                fx.events.push(Ev::new("IncreaseLiquidityEvent").k(&mint).u64(liq).u64(am.0).u64(am.1).done());
                let _ = (pk, nft_state(&mint));
            }
            Op::NftInc { u, id, d, m, dl } => {
                if now > *dl {
                    return Err(Why::Deadline);
                }
                let i = self.nft(*id)?;
                let n = self.nfts[i].clone();
                let liq = rm::liq_for(self.pools[n.pool].price, rm::sqrt_tab(n.lo), rm::sqrt_tab(n.up), d[0], d[1]).ok_or(Why::Math)?;
                let f = self.factory;
                let am = self.mint_core(env, w, &mut fx, *u, f, n.pool, n.lo, n.up, liq, now)?;
                if am.0 < m[0] || am.1 < m[1] {
                    return Err(Why::Slippage);
                }
                self.nft_fees(i)?;
                self.nfts[i].liq += liq;
                fx.events.push(Ev::new("IncreaseLiquidityEvent").k(&env.nft_mint_key(*id)).u64(liq).u64(am.0).u64(am.1).done());
            }
            Op::NftDec { u, id, liq, m, dl } => {
                if now > *dl {
                    return Err(Why::Deadline);
                }
                let i = self.nft(*id)?;
                let n = self.nfts[i].clone();
                if n.holder != *u && !n.approvals.contains(&(n.holder, *u)) {
                    return Err(Why::Auth);
                }
                let l = if *liq == ALL { n.liq } else { *liq };
                if l == 0 {
                    return Err(Why::Zero);
                }
                if l > n.liq {
                    return Err(Why::NoLiquidity);
                }
                let f = self.factory;
                let am = self.burn_core(env, w, &mut fx, f, n.pool, n.lo, n.up, l, now)?;
                if am.0 < m[0] || am.1 < m[1] {
                    return Err(Why::Slippage);
                }
                self.nft_fees(i)?;
                let n = &mut self.nfts[i];
                n.owed[0] += am.0;
                n.owed[1] += am.1;
                n.liq -= l;
                fx.events.push(Ev::new("DecreaseLiquidityEvent").k(&env.nft_mint_key(*id)).u64(l).u64(am.0).u64(am.1).done());
            }
            Op::NftCollect { u, id, a } => {
                if a[0] == 0 && a[1] == 0 {
                    return Err(Why::Zero);
                }
                let i = self.nft(*id)?;
                let n = self.nfts[i].clone();
                if n.holder != *u && !n.approvals.contains(&(n.holder, *u)) {
                    return Err(Why::Auth);
                }
                let f = self.factory;
                if n.liq > 0 {
                    self.burn_core(env, w, &mut fx, f, n.pool, n.lo, n.up, 0, now)?;
                    self.nft_fees(i)?;
                }
                let owed = self.nfts[i].owed;
                let want = [a[0].min(owed[0]), a[1].min(owed[1])];
                self.collect_core(env, w, &mut fx, f, *u, n.pool, n.lo, n.up, want)?;
                let n = &mut self.nfts[i];
                n.owed[0] -= want[0];
                n.owed[1] -= want[1];
                let p = &env.pools[n.pool];
                fx.events.push(
                    Ev::new("CollectTokenizedEvent").k(&env.nft_mint_key(*id)).k(&env.tok[*u][p.t0]).k(&env.tok[*u][p.t1]).u64(want[0]).u64(want[1]).done(),
                );
            }
            Op::NftMeta { id, .. } => {
                let i = self.nft(*id)?;
                if self.nfts[i].meta {
                    return Err(Why::Other);
                }
                self.nfts[i].meta = true;
            }
            Op::NftSend { id, to } => {
                let i = self.nft(*id)?;
                let mint = env.nft_mint_key(*id);
                fx.add(crate::world::ata(&env.users[self.nfts[i].holder], &mint), -1);
                fx.add(crate::world::ata(&env.users[*to], &mint), 1);
                self.nfts[i].holder = *to;
            }
            Op::NftApprove { id, to } => {
                let i = self.nft(*id)?;
                let h = self.nfts[i].holder;
                self.nfts[i].approvals.retain(|a| a.0 != h);
                self.nfts[i].approvals.push((h, *to));
                self.nfts[i].approvals.sort();
            }
            Op::FeeProtocol(n) => {
                if *n < 2 || *n > 10 {
                    return Err(Why::Other);
                }
                fx.events.push(Ev::new("SetFeeProtocolEvent").u8(self.fee_protocol).u8(*n).done());
                self.fee_protocol = *n;
            }
            Op::CollectProtocol { u, p, a } => {
                let pk = &env.pools[*p];
                let pf = self.pools[*p].pf;
                let am = [a[0].min(pf[0]), a[1].min(pf[1])];
                if w.balance(&pk.v0) < am[0] || w.balance(&pk.v1) < am[1] {
                    return Err(Why::Vault);
                }
                self.pools[*p].pf[0] -= am[0];
                self.pools[*p].pf[1] -= am[1];
                let (r0, r1) = (env.tok[*u][pk.t0], env.tok[*u][pk.t1]);
                fx.add(r0, am[0] as i128);
                fx.add(r1, am[1] as i128);
                fx.add(pk.v0, -(am[0] as i128));
                fx.add(pk.v1, -(am[1] as i128));
                fx.events.push(Ev::new("CollectProtocolEvent").k(&pk.key).k(&env.admin).k(&r0).k(&r1).u64(am[0]).u64(am[1]).done());
            }
            Op::IncObs { p, n, .. } => {
                let m = &mut self.pools[*p];
                let old = m.card_next;
                m.card_next += n;
                for _ in 0..*n {
                    m.obs.push(MObs { ts: 1, tc: 0, spl: 0, init: false });
                }
                fx.events.push(Ev::new("IncreaseObservationCardinalityNext").u16(old).u16(m.card_next).done());
            }
            Op::InitTick { p, t, .. } => {
                let pk = &env.pools[*p];
                if *t < rm::MIN_TICK || *t > rm::MAX_TICK || t.rem_euclid(pk.spacing as i32) != 0 || w.exists(&pk.tick(*t)) {
                    return Err(Why::Other);
                }
            }
            Op::CloseTick { p, t, .. } => {
                if !w.exists(&env.pools[*p].tick(*t)) {
                    return Err(Why::Missing);
                }
                if self.pools[*p].gross(*t) > 0 {
                    return Err(Why::InUse);
                }
            }
            Op::InitWord { p, w: wp, .. } => {
                let pk = &env.pools[*p];
                // the words that hold a usable tick
                let s = pk.spacing as i32;
                let (a, z) = ((rm::MIN_TICK / s).div_euclid(256), (rm::MAX_TICK / s).div_euclid(256));
                if (*wp as i32) < a || (*wp as i32) > z || w.exists(&pk.word(*wp)) {
                    return Err(Why::Other);
                }
            }
            Op::InitPos { p, o, lo, up, .. } => {
                let pk = &env.pools[*p];
                let owner = env.users.get(*o).copied().unwrap_or(self.factory);
                if !w.exists(&pk.tick(*lo)) || !w.exists(&pk.tick(*up)) {
                    return Err(Why::Missing);
                }
                if lo >= up || w.exists(&pk.pos(&owner, *lo, *up)) {
                    return Err(Why::Other);
                }
            }
        }
        Ok(fx)
    }
    fn nft_fees(&mut self, i: usize) -> R<()> {
        let n = &self.nfts[i];
        let g = self.pools[n.pool].ranges.iter().find(|r| r.lo == n.lo && r.up == n.up).ok_or(Why::Other)?.g;
        let due = [
            rm::mul_div(g[0].wrapping_sub(n.last[0]), n.liq, rm::Q32).ok_or(Why::Math)?,
            rm::mul_div(g[1].wrapping_sub(n.last[1]), n.liq, rm::Q32).ok_or(Why::Math)?,
        ];
        let n = &mut self.nfts[i];
        n.owed[0] = n.owed[0].wrapping_add(due[0]);
        n.owed[1] = n.owed[1].wrapping_add(due[1]);
        n.last = g;
        Ok(())
    }
}

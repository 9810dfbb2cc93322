//! The closed systems that are explored: who takes part, which operations they may choose from, and
//! from which starting history.
use crate::explore::*;
use crate::model::*;
use crate::refmath as rm;
use crate::svm::*;
use crate::world::*;
use Op::*;

pub const DL: i64 = 1 << 40;
const Z: bool = true;
const O: bool = false;

pub struct B {
    pub name: String,
    pub env: Env,
    pub bank: Bank,
    pub model: Model,
    pub ranges: Vec<Vec<(i32, i32)>>,
    pub ops: Vec<Op>,
    pub pre: Vec<Op>,
    pub events: bool,
}
impl B {
    pub fn new(name: &str, users: usize, mints: usize, balance: u64, now: i64) -> B {
        let (env, bank) = Env::base(users, mints, balance, now);
        B {
            name: name.into(),
            env,
            bank,
            model: Model::new(factory_key(), 3),
            ranges: vec![],
            ops: vec![],
            pre: vec![],
            events: true,
        }
    }
    pub fn pool(&mut self, t0: usize, t1: usize, fee: u32, spacing: u16, price: u64) -> &mut B {
        self.env.add_pool(&mut self.bank, t0, t1, fee, spacing, price);
        self.model.pools.push(MPool::new(price, self.bank.now));
        self.ranges.push(vec![]);
        self
    }
    pub fn range(&mut self, p: usize, lo: i32, up: i32) -> &mut B {
        let owners: Vec<_> = self.env.users.iter().copied().chain([factory_key()]).collect();
        self.env.prep_range(&mut self.bank, p, lo, up, &owners);
        self.ranges[p].push((lo, up));
        self
    }
    /// a range that is known to the checker but whose accounts are left to the explored operations
    pub fn bare(&mut self, p: usize, lo: i32, up: i32) -> &mut B {
        self.ranges[p].push((lo, up));
        self
    }
    pub fn word(&mut self, p: usize, w: i16) -> &mut B {
        let pk = self.env.pools[p].clone();
        if self.bank.get(&pk.word(w)).is_none() {
            let u = self.env.users[0];
            let ix = self.env.ix_init_bitmap(u, &pk, w);
            self.env.clone().must(&mut self.bank, &[ix], &[u]);
        }
        self
    }
    pub fn op(&mut self, o: Op) -> &mut B {
        self.ops.push(o);
        self
    }
    pub fn ops(&mut self, o: Vec<Op>) -> &mut B {
        self.ops.extend(o);
        self
    }
    pub fn pre(&mut self, o: Vec<Op>) -> &mut B {
        self.pre.extend(o);
        self
    }
    pub fn fin(&mut self, depth: usize) -> Scn {
        Scn {
            labels: Default::default(),
            name: self.name.clone(),
            env: self.env.clone(),
            start: Node { bank: self.bank.clone(), model: self.model.clone(), offs: vec![], path: vec![], tainted: false },
            pre: self.pre.clone(),
            ops: self.ops.clone(),
            depth,
            probes: vec![],
            probe_depth: 99,
            events: self.events,
            ranges: self.ranges.clone(),
            max_states: 1 << 40,
            budget_s: 1e9,
            lenient: false,
            workers: 0,
        }
    }
}

fn mint(u: usize, lo: i32, up: i32, liq: u64) -> Op {
    Mint { u, p: 0, lo, up, liq }
}
fn burn(u: usize, lo: i32, up: i32, liq: u64) -> Op {
    Burn { u, p: 0, lo, up, liq }
}
fn coll(u: usize, lo: i32, up: i32, a: u64) -> Op {
    Collect { u, p: 0, lo, up, a0: a, a1: a }
}
fn swap(u: usize, z: bool, amt: i64) -> Op {
    Swap { u, p: 0, z, amt, limit: 0 }
}
fn swapl(u: usize, z: bool, amt: i64, limit: u64) -> Op {
    Swap { u, p: 0, z, amt, limit }
}
fn nmint(u: usize, id: usize, lo: i32, up: i32, d: u64) -> Op {
    NftMint { u, to: u, id, p: 0, lo, up, d: [d, d], m: [0, 0], dl: DL }
}
fn ninc(u: usize, id: usize, d: u64) -> Op {
    NftInc { u, id, d: [d, d], m: [0, 0], dl: DL }
}
fn ndec(u: usize, id: usize, liq: u64) -> Op {
    NftDec { u, id, liq, m: [0, 0], dl: DL }
}
fn ncol(u: usize, id: usize, a: u64) -> Op {
    NftCollect { u, id, a: [a, a] }
}

fn core_world(name: &str) -> B {
    let mut b = B::new(name, 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    for (lo, up) in [(-120, 120), (-60, 60), (0, 120), (-60, 0)] {
        b.range(0, lo, up);
    }
    b
}
fn core_ops() -> Vec<Op> {
    vec![
        Wait(1),
        Wait(14),
        mint(0, -120, 120, 1_000_000),
        mint(1, -120, 120, 500_000),
        mint(0, -60, 60, 777_777),
        mint(1, 0, 120, 2_000_000),
        mint(0, -60, 0, 1_000_000),
        burn(0, -120, 120, ALL),
        burn(0, -120, 120, 0),
        burn(0, -120, 120, 400_000),
        burn(1, 0, 120, ALL),
        burn(0, -60, 0, ALL),
        coll(0, -120, 120, ALL),
        coll(0, -120, 120, 3),
        coll(1, 0, 120, ALL),
        swap(1, Z, 1000),
        swap(1, Z, 6000),
        swap(1, O, 1000),
        swap(1, O, 6000),
        swap(1, Z, -1000),
        swap(1, O, -6000),
        CollectProtocol { u: 1, p: 0, a: [ALL, ALL] },
    ]
}
pub fn core(d: usize) -> Scn {
    core_world("core").ops(core_ops()).fin(d)
}
pub fn core_liquid(d: usize) -> Scn {
    core_world("core-liquid")
        .pre(vec![
            mint(0, -120, 120, 1_000_000),
            mint(1, 0, 120, 2_000_000),
            Wait(14),
            swap(1, O, 6000),
            swap(1, Z, 9000),
            mint(0, -60, 60, 777_777),
            Wait(3),
            swap(0, O, 2000),
        ])
        .ops(core_ops())
        .fin(d)
}
/// the price rests exactly on a tick reached from above (recorded tick one below the price's tick)
pub fn core_edge(d: usize) -> Scn {
    core_world("core-edge")
        .pre(vec![
            mint(0, -120, 120, 1_000_000),
            mint(1, 0, 120, 2_000_000),
            mint(0, -60, 0, 1_000_000),
            swap(1, O, 4000),
            Wait(20),
            swapl(1, Z, 1 << 30, rm::sqrt_tab(0)),
        ])
        .ops(core_ops())
        .op(swapl(1, Z, 1 << 30, rm::sqrt_tab(0) - 1))
        .op(swapl(1, O, 1 << 30, rm::sqrt_tab(60)))
        .op(swapl(1, Z, 1 << 30, rm::sqrt_tab(0)))
        .fin(d)
}
fn nft_ops() -> Vec<Op> {
    vec![
        Wait(15),
        nmint(0, 0, -120, 120, 10_000),
        nmint(1, 1, -120, 120, 20_000),
        nmint(1, 2, 0, 120, 5_000),
        NftMint { u: 0, to: 1, id: 3, p: 0, lo: -60, up: 0, d: [700, 900], m: [0, 0], dl: DL },
        ninc(0, 0, 4_000),
        ninc(1, 0, 2_500),
        ndec(0, 0, 300_000),
        ndec(0, 0, ALL),
        ndec(1, 1, ALL),
        ndec(1, 0, 1000),
        ndec(0, 0, 7),
        ndec(1, 1, 1 << 50),
        ncol(0, 0, ALL),
        ncol(1, 0, ALL),
        ncol(1, 1, ALL),
        NftCollect { u: 0, id: 0, a: [2, 0] },
        NftMeta { u: 0, id: 0 },
        NftSend { id: 0, to: 1 },
        NftSend { id: 0, to: 0 },
        NftApprove { id: 0, to: 1 },
        mint(0, -120, 120, 600_000),
        swap(1, Z, 5000),
        swap(0, O, 9000),
    ]
}
pub fn nft(d: usize) -> Scn {
    core_world("nft").ops(nft_ops()).fin(d)
}
pub fn nft_live(d: usize) -> Scn {
    core_world("nft-live")
        .pre(vec![
            nmint(0, 0, -120, 120, 10_000),
            nmint(1, 1, -120, 120, 20_000),
            nmint(1, 2, 0, 120, 5_000),
            mint(0, -120, 120, 600_000),
            Wait(15),
            swap(1, Z, 5000),
            swap(0, O, 9000),
        ])
        .ops(nft_ops())
        .fin(d)
}
pub fn words(d: usize) -> Scn {
    let mut b = B::new("words", 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 100, 1, rm::sqrt_tab(254) + 1);
    for (lo, up) in [(-257, 256), (255, 256), (0, 255), (254, 257), (-256, -1)] {
        b.range(0, lo, up);
    }
    let (lo, hi) = (rm::sqrt_tab(-700) + 3, rm::sqrt_tab(900) + 3);
    b.ops(vec![
        mint(0, -257, 256, 1_000_000),
        mint(1, 255, 256, 300_000_000),
        mint(0, 0, 255, 900_000),
        mint(1, 254, 257, 5_000_000),
        mint(0, -256, -1, 800_000),
        burn(0, -257, 256, ALL),
        burn(1, 255, 256, ALL),
        burn(1, 254, 257, ALL),
        coll(0, -257, 256, ALL),
        swapl(1, Z, 300, lo),
        swapl(1, Z, 10_000, lo),
        swapl(1, Z, 60_000, lo),
        swapl(1, O, 300, hi),
        swapl(1, O, 10_000, hi),
        swapl(1, O, -100, hi),
        swapl(1, Z, -7000, lo),
        swapl(1, Z, 1 << 30, rm::sqrt_tab(-600)),
        swapl(1, O, 1 << 30, rm::sqrt_tab(700)),
        swapl(1, Z, 1 << 30, rm::sqrt_tab(0)),
        Wait(14),
    ])
    .fin(d)
}
fn far(name: &str, tick: i32, liq: u64, amts: [i64; 4], d: usize) -> Scn {
    let mut b = B::new(name, 2, 2, 1 << 55, 1000);
    b.pool(0, 1, 500, 10, rm::sqrt_tab(tick + 3) + 5);
    let t = tick.div_euclid(10) * 10;
    let r = [(t - 30, t + 40), (t, t + 10), (t - 20, t), (t + 10, t + 40)];
    for (lo, up) in r {
        b.range(0, lo, up);
    }
    b.ops(vec![
        mint(0, r[0].0, r[0].1, liq),
        mint(1, r[1].0, r[1].1, liq * 3),
        mint(0, r[2].0, r[2].1, liq / 2),
        mint(1, r[3].0, r[3].1, liq + 7),
        burn(0, r[0].0, r[0].1, ALL),
        burn(0, r[0].0, r[0].1, liq / 3),
        burn(1, r[1].0, r[1].1, ALL),
        coll(0, r[0].0, r[0].1, ALL),
        coll(1, r[1].0, r[1].1, ALL),
        swap(1, Z, amts[0]),
        swap(1, Z, amts[0] * 5),
        swap(1, O, amts[1]),
        swap(1, O, amts[1] * 5),
        swap(1, Z, -amts[2]),
        swap(1, O, -amts[3]),
        nmint(0, 0, r[0].0, r[0].1, amts[0].max(amts[1]) as u64),
        ndec(0, 0, ALL),
        ncol(0, 0, ALL),
        Wait(16),
        Wait(30 * 86_400),
    ])
    .fin(d)
}
/// token_0 is worth very little / very much
pub fn far_neg(d: usize) -> Scn {
    far("far-negative", -92_110, 1_000_000_000, [150_000_000, 15_000, 10_000, 100_000_000], d)
}
pub fn far_pos(d: usize) -> Scn {
    far("far-positive", 92_110, 1_000_000_000, [15_000, 150_000_000, 100_000_000, 10_000], d)
}
/// the last usable ticks at either end of the price scale
fn ext(name: &str, low: bool, d: usize) -> Scn {
    let mut b = B::new(name, 2, 2, 1 << 58, 1000);
    let e = (rm::MAX_TICK / 200) * 200;
    let t = if low { -e } else { e - 400 };
    b.pool(0, 1, 10_000, 200, rm::sqrt_tab(t + 150));
    let r = [(t, t + 400), (t, t + 200), (t + 200, t + 400)];
    for (lo, up) in r {
        b.range(0, lo, up);
    }
    let w = b.env.pools[0].word_of_tick(if low { rm::MIN_TICK } else { rm::MAX_TICK });
    b.word(0, w);
    let (liq, x, y) = if low { (60_000_000u64, 40_000_000_000i64, 30i64) } else { (60_000_000, 30, 40_000_000_000) };
    b.ops(vec![
        mint(0, r[0].0, r[0].1, liq),
        mint(1, r[1].0, r[1].1, liq * 2),
        mint(0, r[2].0, r[2].1, liq),
        burn(0, r[0].0, r[0].1, ALL),
        burn(1, r[1].0, r[1].1, ALL),
        coll(0, r[0].0, r[0].1, ALL),
        swap(1, Z, x),
        swap(1, Z, x * 20),
        swap(1, O, y),
        swap(1, O, y * 20),
        swap(1, Z, -y),
        swap(1, O, -x),
        swapl(1, Z, i64::MAX / 4, rm::MIN_SQRT + 1),
        swapl(1, O, i64::MAX / 4, rm::MAX_SQRT - 1),
        swapl(1, Z, 1000, rm::MIN_SQRT),
        swapl(1, O, 1000, rm::MAX_SQRT),
        Wait(40_000_000),
    ])
    .fin(d)
}
pub fn ext_low(d: usize) -> Scn {
    ext("lowest-prices", true, d)
}
pub fn ext_high(d: usize) -> Scn {
    ext("highest-prices", false, d)
}
pub fn limits(d: usize) -> Scn {
    let mut b = core_world("limits");
    b.ops(vec![mint(0, -120, 120, 1_000_000), mint(1, -60, 0, 3_000_000), mint(1, -60, 60, 400_000), burn(1, -60, 0, ALL), Wait(14)]);
    for t in [-180, -60, 0, 60, 180] {
        for dx in [-1i64, 0, 1] {
            let l = (rm::sqrt_tab(t) as i64 + dx) as u64;
            b.op(swapl(1, t <= 0, 1 << 30, l));
            if t == 0 {
                b.op(swapl(1, O, 1 << 30, l));
            }
        }
    }
    let mid = rm::sqrt_tab(30) + 11;
    b.ops(vec![
        swapl(1, O, 500, mid),
        swapl(1, O, 1 << 30, mid),
        swapl(1, O, -500, mid),
        swapl(1, O, -(1 << 30), mid),
        swapl(1, O, 1 << 30, rm::sqrt_tab(30)),
        swapl(1, O, -(1 << 30), rm::sqrt_tab(31)),
        swapl(1, Z, -(1 << 30), rm::sqrt_tab(-30)),
        swapl(1, Z, 700, rm::sqrt_tab(-30)),
        ExactIn { u: 1, p: 0, z: Z, amt: 1 << 30, min: 1, limit: rm::sqrt_tab(-60), dl: DL },
        ExactIn { u: 1, p: 0, z: O, amt: 800, min: 1, limit: 0, dl: DL },
        swapl(1, O, 1 << 30, rm::sqrt_tab(240)),
        swapl(1, Z, 1 << 30, rm::sqrt_tab(-240)),
        swapl(0, Z, 0, 0),
        swapl(0, Z, 5, rm::MIN_SQRT),
        swapl(0, Z, 5, 1),
        swapl(0, O, 5, rm::MAX_SQRT),
        swapl(0, O, 5, u64::MAX),
    ])
    .fin(d)
}
/// a ring of more than 256 observations, about to pass slot 255 / about to start over
fn long_ring(name: &str, writes: usize, d: usize) -> Scn {
    let mut b = core_world(name);
    let mut pre = vec![mint(0, -120, 120, 100_000_000)];
    for _ in 0..13 {
        pre.push(IncObs { u: 1, p: 0, n: 20 });
    }
    for i in 0..writes {
        pre.push(Wait(14 + (i as i64 % 3)));
        pre.push(if i % 2 == 0 { swap(1, O, 100_000) } else { swap(1, Z, 100_000) });
    }
    b.pre(pre)
        .ops(vec![
            Wait(13),
            Wait(14),
            IncObs { u: 0, p: 0, n: 1 },
            IncObs { u: 0, p: 0, n: 9 },
            swap(1, O, 50_000),
            swap(1, Z, 50_000),
            mint(0, -60, 60, 1_000_000),
            burn(0, -120, 120, 1000),
        ])
        .fin(d)
}
pub fn oracle_256(d: usize) -> Scn {
    long_ring("oracle-256", 254, d)
}
/// the 32-bit clock of the observations wraps around
pub fn oracle_2106(d: usize) -> Scn {
    let mut b = B::new("oracle-2106", 2, 2, 1 << 50, (1 << 32) - 50);
    b.pool(0, 1, 3000, 60, 1 << 32);
    for (lo, up) in [(-120, 120), (-60, 60), (0, 120), (-60, 0)] {
        b.range(0, lo, up);
    }
    b.pre(vec![mint(0, -120, 120, 1_000_000), IncObs { u: 0, p: 0, n: 3 }, Wait(14), swap(1, O, 3000)])
        .ops(vec![
            Wait(1),
            Wait(5),
            Wait(14),
            Wait(31),
            IncObs { u: 1, p: 0, n: 1 },
            mint(0, 0, 120, 1_000_000),
            mint(1, -120, 120, 500_000),
            burn(0, -120, 120, ALL),
            burn(0, -120, 120, 0),
            swap(1, Z, 6000),
            swap(1, O, 6000),
            ExactIn { u: 1, p: 0, z: Z, amt: 700, min: 1, limit: 0, dl: DL },
        ])
        .fin(d)
}
pub fn oracle_restart(d: usize) -> Scn {
    long_ring("oracle-restart", 259, d)
}
pub fn oracle(d: usize) -> Scn {
    core_world("oracle")
        .ops(vec![
            Wait(1),
            Wait(13),
            Wait(14),
            Wait(15),
            IncObs { u: 0, p: 0, n: 1 },
            IncObs { u: 1, p: 0, n: 6 },
            mint(0, -120, 120, 1_000_000),
            mint(0, 0, 120, 1_000_000),
            burn(0, -120, 120, ALL),
            burn(0, -120, 120, 0),
            swap(1, Z, 6000),
            swap(1, Z, 1),
            swap(1, O, 6000),
        ])
        .fin(d)
}
pub fn oracle_ring(d: usize) -> Scn {
    let mut b = core_world("oracle-ring");
    b.pre(vec![
        mint(0, -120, 120, 1_000_000),
        IncObs { u: 0, p: 0, n: 2 },
        Wait(15),
        swap(1, O, 3000),
        Wait(29),
        swap(1, Z, 3000),
        Wait(15),
        swap(1, O, 6500),
        Wait(2),
    ])
    .ops(vec![
        Wait(1),
        Wait(14),
        Wait(300_000_000),
        IncObs { u: 0, p: 0, n: 1 },
        mint(0, -60, 60, 1_000_000),
        mint(0, 0, 120, 1_000_000),
        burn(0, -120, 120, 400_000),
        burn(0, -120, 120, 0),
        swap(1, Z, 3000),
        swap(1, Z, 9000),
        swap(1, O, 5),
        swap(1, O, 3000),
        nmint(0, 0, -120, 120, 10_000),
        ndec(0, 0, 1000),
        ExactIn { u: 1, p: 0, z: Z, amt: 7000, min: 1, limit: 0, dl: DL },
    ])
    .fin(d)
}
/// a full ring of four observations with two more waiting to be used
pub fn oracle_grow(d: usize) -> Scn {
    let mut b = core_world("oracle-grow");
    b.pre(vec![
        mint(0, -120, 120, 1_000_000),
        IncObs { u: 0, p: 0, n: 3 },
        Wait(15),
        swap(1, O, 3000),
        Wait(15),
        swap(1, Z, 6000),
        Wait(15),
        swap(1, O, 6000),
        IncObs { u: 1, p: 0, n: 2 },
        Wait(15),
    ])
    .ops(vec![
        Wait(15),
        Wait(14),
        IncObs { u: 0, p: 0, n: 1 },
        mint(0, 0, 120, 1_000_000),
        burn(0, -120, 120, 0),
        swap(1, Z, 6000),
        swap(1, O, 6000),
    ])
    .fin(d)
}
/// position NFTs over ranges so wide that single units of liquidity can be added and removed
pub fn nft_wide(d: usize) -> Scn {
    let mut b = B::new("nft-wide", 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.range(0, -120000, 120000);
    b.range(0, -13800, 13860);
    let nm = |u: usize, id: usize, lo: i32, up: i32, d: u64| NftMint { u, to: u, id, p: 0, lo, up, d: [d, d], m: [0, 0], dl: DL };
    b.pre(vec![nm(0, 0, -120000, 120000, 90_000), mint(1, -13800, 13860, 40_000), swap(1, Z, 30_000), swap(1, O, 30_000), ninc(0, 0, 500)]);
    b.ops(vec![
        nm(1, 1, -120000, 120000, 1),
        nm(1, 1, -13800, 13860, 3),
        ninc(0, 0, 2),
        ninc(1, 0, 9),
        ninc(1, 1, 2),
        ninc(1, 0, 300),
        ndec(0, 0, 1),
        ndec(0, 0, 9),
        ndec(1, 1, 1),
        ndec(1, 1, ALL),
        ncol(0, 0, 1),
        ncol(0, 0, ALL),
        ncol(1, 1, ALL),
        swap(1, Z, 5_000),
        swap(1, O, 5_000),
        swap(1, Z, 1),
        burn(1, -13800, 13860, 1),
        mint(1, -13800, 13860, 1),
    ])
    .fin(d)
}
/// position NFTs with one or two units of liquidity, alone in a pool: every fee is a whole token
pub fn nft_one(d: usize) -> Scn {
    let mut b = B::new("nft-one", 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    let far = rm::MAX_TICK / 60 * 60;
    b.range(0, -far, far);
    b.range(0, -far, 60);
    for w in -15..15 {
        b.word(0, w);
    }
    let nm = |u: usize, id: usize, lo: i32, up: i32, d: u64| NftMint { u, to: u, id, p: 0, lo, up, d: [d, d], m: [0, 0], dl: DL };
    b.pre(vec![nm(0, 0, -far, far, 1)]);
    b.ops(vec![
        nm(1, 1, -far, far, 2),
        nm(0, 2, -far, far, 1),
        mint(1, -far, far, 1),
        mint(1, -far, 60, 2),
        burn(1, -far, far, ALL),
        burn(1, -far, 60, 1),
        coll(1, -far, far, ALL),
        ninc(1, 0, 1),
        ndec(0, 0, 1),
        ndec(0, 0, ALL),
        ndec(1, 1, 1),
        ncol(0, 0, ALL),
        ncol(0, 0, 1),
        ncol(1, 1, ALL),
        swap(1, Z, 1),
        swap(1, Z, 3),
        swap(1, O, 2),
        swap(1, O, 5),
        swap(1, O, -1),
        swap(1, Z, -1),
        Wait(14),
    ])
    .fin(d)
}
/// accumulators start just below their wrap-around points
pub fn wrap(d: usize) -> Scn {
    let mut b = B::new("wrap", 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    for (lo, up) in [(-120, 120), (0, 120), (-60, 0)] {
        b.range(0, lo, up);
    }
    let k = b.env.pools[0].key;
    let g = [u64::MAX - 3000, u64::MAX - 5];
    zc_edit::<PoolState>(&mut b.bank, &k, |p| {
        p.fee_growth_global_0_x32 = g[0];
        p.fee_growth_global_1_x32 = g[1];
    });
    b.model.pools[0].fg = g;
    b.ops(vec![
        mint(0, -120, 120, 1_000_000),
        mint(1, 0, 120, 2_000_000),
        mint(1, -60, 0, 1_500_000),
        burn(0, -120, 120, ALL),
        burn(0, -120, 120, 0),
        burn(1, 0, 120, ALL),
        burn(1, -60, 0, 5),
        coll(0, -120, 120, ALL),
        coll(1, -60, 0, ALL),
        swap(1, Z, 6000),
        swap(1, O, 6000),
        swap(1, Z, -900),
        nmint(0, 0, -120, 120, 10_000),
        ncol(0, 0, ALL),
        ndec(0, 0, ALL),
        Wait(14),
    ])
    .fin(d)
}
/// liquidity and amounts far above 32 bits
pub fn big(d: usize) -> Scn {
    let mut b = B::new("big", 2, 2, u64::MAX >> 1, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    for (lo, up) in [(-120, 120), (0, 60), (-60, 0)] {
        b.range(0, lo, up);
    }
    b.ops(vec![
        mint(0, -120, 120, 1 << 61),
        mint(1, 0, 60, 1 << 60),
        mint(1, -60, 0, 1 << 40),
        burn(0, -120, 120, ALL),
        burn(0, -120, 120, 1 << 60),
        burn(1, 0, 60, ALL),
        coll(0, -120, 120, ALL),
        coll(0, -120, 120, 1 << 33),
        swap(1, Z, 1 << 50),
        swap(1, O, 1 << 53),
        swap(1, Z, -(1 << 51)),
        swap(1, O, -(1 << 34)),
        swapl(1, Z, i64::MAX, rm::sqrt_tab(-60)),
        swapl(1, O, -i64::MAX, rm::sqrt_tab(60)),
        nmint(0, 0, -120, 120, 1 << 54),
        ndec(0, 0, ALL),
        ncol(0, 0, ALL),
        CollectProtocol { u: 1, p: 0, a: [1 << 33, ALL] },
        ExactIn { u: 1, p: 0, z: O, amt: 1 << 52, min: 1, limit: 0, dl: DL },
        Wait(15),
    ])
    .fin(d)
}
/// single units of liquidity and tokens: every rounding decides
pub fn tiny(d: usize) -> Scn {
    let mut b = core_world("tiny");
    b.ops(vec![
        mint(0, -120, 120, 1),
        mint(0, -120, 120, 1000),
        mint(1, 0, 120, 3),
        mint(1, -60, 60, 450),
        burn(0, -120, 120, 1),
        burn(0, -120, 120, ALL),
        burn(1, -60, 60, ALL),
        coll(0, -120, 120, 1),
        coll(0, -120, 120, ALL),
        swap(1, Z, 1),
        swap(1, Z, 2),
        swap(1, O, 1),
        swap(1, O, 3),
        swap(1, Z, -1),
        swap(1, O, -1),
        swap(1, O, 9),
        nmint(0, 0, -120, 120, 3),
        ninc(1, 0, 1),
        ndec(0, 0, 1),
        ncol(0, 0, 1),
        Wait(14),
    ])
    .fin(d)
}
pub fn route(d: usize) -> Scn {
    let mut b = B::new("route", 2, 3, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.pool(1, 2, 500, 10, rm::sqrt_tab(5));
    b.pool(0, 2, 3000, 60, rm::sqrt_tab(-50));
    b.pool(0, 1, 500, 10, rm::sqrt_tab(10));
    for p in 0..4 {
        let s = if p % 2 == 0 { 120 } else { 20 };
        b.range(p, -s, s);
    }
    b.range(1, 0, 10);
    b.pre(vec![
        Mint { u: 0, p: 0, lo: -120, up: 120, liq: 1_000_000 },
        Mint { u: 0, p: 1, lo: -20, up: 20, liq: 8_000_000 },
        Mint { u: 1, p: 3, lo: -20, up: 20, liq: 3_000_000 },
    ]);
    let rt = |u: usize, hops: Vec<(usize, bool)>, amt: u64, min: u64| Route { u, hops, amt, min, dl: DL };
    b.ops(vec![
        rt(1, vec![(0, Z)], 2000, 1),
        rt(1, vec![(0, Z), (1, Z)], 2000, 1),
        rt(1, vec![(0, Z), (1, Z)], 9000, 1),
        rt(1, vec![(1, O), (0, O)], 3000, 0),
        rt(1, vec![(0, Z), (3, O)], 1500, 0),
        rt(1, vec![(0, Z), (1, Z), (2, O)], 1500, 0),
        rt(1, vec![(0, Z), (0, O)], 1500, 0),
        rt(1, vec![(2, Z), (1, O), (3, O)], 1200, 0),
        rt(1, vec![(0, Z), (1, Z)], 2000, 1990),
        rt(1, vec![(0, Z), (1, Z)], 0, 0),
        rt(0, vec![(3, O), (0, Z), (1, Z)], 77, 1),
        rt(1, vec![(0, Z), (1, Z), (2, O), (3, Z)], 5000, 0),
        rt(0, vec![(2, O), (0, Z), (1, Z), (2, O), (3, Z), (0, O)], 3000, 2000),
        Mint { u: 0, p: 2, lo: -120, up: 120, liq: 2_000_000 },
        Mint { u: 0, p: 1, lo: 0, up: 10, liq: 9_000_000 },
        Burn { u: 0, p: 1, lo: -20, up: 20, liq: 4_000_000 },
        Swap { u: 1, p: 1, z: O, amt: 4000, limit: 0 },
        ExactIn { u: 1, p: 0, z: Z, amt: 1000, min: 990, limit: 0, dl: DL },
        ExactIn { u: 1, p: 3, z: O, amt: 1000, min: 1, limit: 0, dl: DL },
        Wait(14),
    ])
    .fin(d)
}
/// two pools of the same tokens and spacing at different fees, a third sharing one token: the same owners,
/// ranges, ticks and observations in all of them
pub fn twins(d: usize) -> Scn {
    let mut b = B::new("twins", 2, 3, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.pool(0, 1, 2500, 60, rm::sqrt_tab(20) + 3);
    b.pool(1, 2, 3000, 60, rm::sqrt_tab(-20));
    for p in 0..3 {
        b.range(p, -60, 60);
        b.bare(p, -60, 120);
    }
    b.pre(vec![
        Mint { u: 0, p: 0, lo: -60, up: 60, liq: 1_000_000 },
        Mint { u: 0, p: 1, lo: -60, up: 60, liq: 2_000_000 },
        Mint { u: 1, p: 2, lo: -60, up: 60, liq: 1_500_000 },
        NftMint { u: 1, to: 1, id: 0, p: 1, lo: -60, up: 60, d: [4000, 4000], m: [0, 0], dl: DL },
        Wait(15),
    ]);
    for p in 0..3 {
        b.ops(vec![
            Mint { u: 1, p, lo: -60, up: 60, liq: 700_000 },
            Burn { u: 0, p, lo: -60, up: 60, liq: ALL },
            Collect { u: 0, p, lo: -60, up: 60, a0: ALL, a1: ALL },
            Swap { u: 1, p, z: Z, amt: 9000, limit: 0 },
            Swap { u: 1, p, z: O, amt: 1500, limit: 0 },
        ]);
    }
    for p in 0..2 {
        b.ops(vec![
            CollectProtocol { u: 0, p, a: [ALL, ALL] },
            IncObs { u: 1, p, n: 1 },
            InitTick { u: 0, p, t: 120 },
            CloseTick { u: 1, p, t: 120 },
            InitWord { u: 1, p, w: 1 },
            InitPos { u: 0, p, o: 0, lo: -60, up: 120 },
            NftMint { u: 0, to: 0, id: 1 + p, p, lo: -60, up: 60, d: [900, 900], m: [0, 0], dl: DL },
        ]);
    }
    b.ops(vec![
        ninc(0, 0, 800),
        ndec(1, 0, 30_000),
        ncol(1, 0, ALL),
        Route { u: 1, hops: vec![(0, Z), (2, Z)], amt: 1000, min: 1, dl: DL },
        Wait(14),
    ])
    .fin(d)
}
pub fn fees(d: usize) -> Scn {
    let mut b = core_world("fees");
    b.pre(vec![mint(0, -120, 120, 1_000_000), swap(1, Z, 3000)]);
    b.ops(vec![
        FeeProtocol(0),
        FeeProtocol(1),
        FeeProtocol(2),
        FeeProtocol(7),
        FeeProtocol(10),
        FeeProtocol(11),
        FeeProtocol(255),
        CollectProtocol { u: 1, p: 0, a: [ALL, ALL] },
        CollectProtocol { u: 0, p: 0, a: [1, 0] },
        CollectProtocol { u: 0, p: 0, a: [0, 2] },
        CollectProtocol { u: 0, p: 0, a: [ALL, 0] },
        swap(1, Z, 5000),
        swap(1, O, 9000),
        swap(1, O, 400),
        swap(1, Z, -1500),
        swap(1, Z, 1),
        mint(1, -60, 60, 900_000),
        burn(0, -120, 120, ALL),
        burn(0, -120, 120, 0),
        coll(0, -120, 120, ALL),
    ])
    .fin(d)
}
/// pools at the edges of the configuration space: no fee, 50% fee, 99.9999% fee
fn feepool(name: &str, fee: u32, spacing: u16, d: usize) -> Scn {
    let mut b = B::new(name, 2, 2, 1 << 50, 1000);
    let s = spacing as i32;
    b.pool(0, 1, fee, spacing, rm::sqrt_tab(s / 3) + 7);
    let r = [(-2 * s, 2 * s), (0, s), (-s, 0)];
    for (lo, up) in r {
        b.range(0, lo, up);
    }
    b.ops(vec![
        mint(0, r[0].0, r[0].1, 1_000_000),
        mint(1, r[1].0, r[1].1, 2_000_000),
        mint(1, r[2].0, r[2].1, 700_000),
        burn(0, r[0].0, r[0].1, ALL),
        burn(0, r[0].0, r[0].1, 0),
        burn(1, r[1].0, r[1].1, 500_000),
        coll(0, r[0].0, r[0].1, ALL),
        swap(1, Z, 3000),
        swap(1, Z, 40_000),
        swap(1, Z, 1),
        swap(1, O, 3000),
        swap(1, O, 40_000),
        swap(1, Z, -500),
        swap(1, O, -7000),
        CollectProtocol { u: 0, p: 0, a: [ALL, ALL] },
        FeeProtocol(2),
        nmint(1, 0, r[0].0, r[0].1, 9_000),
        ncol(1, 0, ALL),
        Wait(14),
    ])
    .fin(d)
}
pub fn fee_zero(d: usize) -> Scn {
    feepool("fee-0", 0, 10, d)
}
pub fn fee_half(d: usize) -> Scn {
    feepool("fee-50%", 500_000, 200, d)
}
pub fn fee_max(d: usize) -> Scn {
    feepool("fee-99.9999%", 999_999, 2000, d)
}
pub fn wide(d: usize) -> Scn {
    feepool("spacing-16383", 10_000, 16_383, d)
}
pub fn life(d: usize) -> Scn {
    let mut b = B::new("life", 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.range(0, -120, 120);
    b.bare(0, -60, 60).bare(0, 60, 120);
    b.pre(vec![mint(1, -120, 120, 1_000_000), Wait(14), swap(1, Z, 2000)]);
    b.ops(vec![
        InitTick { u: 0, p: 0, t: 60 },
        InitTick { u: 1, p: 0, t: -60 },
        InitTick { u: 0, p: 0, t: 61 },
        CloseTick { u: 1, p: 0, t: 60 },
        CloseTick { u: 0, p: 0, t: -60 },
        CloseTick { u: 0, p: 0, t: 120 },
        InitPos { u: 0, p: 0, o: 0, lo: -60, up: 60 },
        InitPos { u: 0, p: 0, o: 1, lo: 60, up: 120 },
        InitPos { u: 0, p: 0, o: 0, lo: 60, up: -60 },
        InitPos { u: 0, p: 0, o: 0, lo: 60, up: 60 },
        mint(0, -60, 60, 1_000_000),
        mint(1, 60, 120, 500_000),
        burn(0, -60, 60, ALL),
        burn(1, 60, 120, ALL),
        burn(1, -120, 120, ALL),
        coll(0, -60, 60, ALL),
        swap(1, O, 7000),
        swap(1, Z, 9000),
        Wait(14),
    ])
    .fin(d)
}
/// a closed tick comes back: same account, new history
pub fn life_again(d: usize) -> Scn {
    let mut b = B::new("life-again", 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    for (lo, up) in [(-120, 120), (-60, 60), (60, 120)] {
        b.range(0, lo, up);
    }
    b.pre(vec![
        mint(1, -120, 120, 1_000_000),
        mint(0, -60, 60, 1_000_000),
        Wait(14),
        swap(1, Z, 2000),
        swap(1, O, 9000),
        Wait(14),
        burn(0, -60, 60, ALL),
        CloseTick { u: 0, p: 0, t: -60 },
    ]);
    b.ops(vec![
        InitTick { u: 0, p: 0, t: -60 },
        InitTick { u: 0, p: 0, t: 60 },
        CloseTick { u: 0, p: 0, t: 60 },
        CloseTick { u: 0, p: 0, t: -120 },
        mint(0, -60, 60, 800_000),
        mint(1, 60, 120, 500_000),
        burn(0, -60, 60, ALL),
        burn(0, -60, 60, 0),
        burn(1, -120, 120, ALL),
        burn(1, 60, 120, ALL),
        coll(0, -60, 60, ALL),
        swap(1, O, 7000),
        swap(1, Z, 12000),
        Wait(14),
    ])
    .fin(d)
}
pub fn life_edges(d: usize) -> Scn {
    let mut b = B::new("life-edges", 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.range(0, -60, 60);
    let e = (rm::MAX_TICK / 60) * 60;
    for t in [e, -e, e + 60, -e - 60, 7, rm::MIN_TICK, rm::MAX_TICK, i32::MAX, i32::MIN] {
        b.op(InitTick { u: 0, p: 0, t });
    }
    let wm = (rm::MAX_TICK / 60) >> 8;
    let wn = rm::MIN_TICK.div_euclid(60) >> 8;
    for w in [wm, wm + 1, wn, wn - 1, 3, i16::MAX as i32, i16::MIN as i32] {
        b.op(InitWord { u: 1, p: 0, w: w as i16 });
    }
    b.op(CloseTick { u: 0, p: 0, t: e });
    b.op(mint(0, -60, 60, 1_000_000));
    b.fin(d)
}
/// tick and word numbers around every limit, for other spacings
fn edges(name: &'static str, fee: u32, sp: u16, d: usize) -> Scn {
    let s = sp as i32;
    let mut b = B::new(name, 2, 2, 1 << 50, 1000);
    b.pool(0, 1, fee, sp, 1 << 32);
    b.range(0, -s, s);
    let e = (rm::MAX_TICK / s) * s;
    let mut ts = vec![0, 2 * s, -2 * s, 1, -1, s + 1, -s - 1, 256 * s, 255 * s, -256 * s, -257 * s, rm::MIN_TICK, rm::MAX_TICK, i32::MAX, i32::MIN];
    // numbers that fit the grid only after truncation to 16 bits
    ts.extend([65536, 65536 + s, -65536, 65536 * 2, 65536 * 3 + s, -65536 - s, 32768, -32768]);
    for k in -1..=1 {
        ts.extend([e + k, -e + k, e + k * s, -e + k * s]);
    }
    ts.sort();
    ts.dedup();
    for t in ts {
        b.op(InitTick { u: 0, p: 0, t });
    }
    let wm = (rm::MAX_TICK / s) >> 8;
    let wn = (rm::MIN_TICK / s).div_euclid(256);
    let mut ws = vec![wm - 1, wm, wm + 1, wn + 1, wn, wn - 1, 1, -2, i16::MAX as i32, i16::MIN as i32];
    ws.sort();
    ws.dedup();
    for w in ws {
        b.op(InitWord { u: 1, p: 0, w: w as i16 });
    }
    b.op(CloseTick { u: 0, p: 0, t: e });
    b.op(CloseTick { u: 1, p: 0, t: 2 * s });
    b.op(InitPos { u: 0, p: 0, o: 1, lo: -s, up: s });
    b.op(InitPos { u: 0, p: 0, o: 0, lo: s, up: -s });
    b.op(InitPos { u: 0, p: 0, o: 0, lo: s, up: s });
    b.op(mint(0, -s, s, 1_000_000));
    b.fin(d)
}
pub fn life_edges_1(d: usize) -> Scn {
    edges("life-edges-1", 100, 1, d)
}
pub fn life_edges_10(d: usize) -> Scn {
    edges("life-edges-10", 500, 10, d)
}
pub fn life_edges_200(d: usize) -> Scn {
    edges("life-edges-200", 10000, 200, d)
}
pub fn life_edges_max(d: usize) -> Scn {
    edges("life-edges-max", 20000, 16383, d)
}
/// ticks where as much liquidity ends as begins, never crossed: nothing but the gross amount tells
/// that they are in use
pub fn life_shared(d: usize) -> Scn {
    let mut b = B::new("life-shared", 2, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    for (lo, up) in [(60, 120), (120, 180), (-120, -60), (-180, -120)] {
        b.range(0, lo, up);
    }
    b.pre(vec![mint(0, 60, 120, 1), mint(1, -120, -60, 70_000)]);
    b.ops(vec![
        mint(1, 120, 180, 1),
        mint(0, -180, -120, 70_000),
        burn(0, 60, 120, 0),
        burn(0, 60, 120, ALL),
        burn(1, 120, 180, ALL),
        burn(0, -180, -120, ALL),
        CloseTick { u: 1, p: 0, t: 120 },
        CloseTick { u: 1, p: 0, t: -120 },
        CloseTick { u: 0, p: 0, t: 180 },
        CloseTick { u: 0, p: 0, t: -180 },
        InitTick { u: 1, p: 0, t: 120 },
        swap(1, O, 1_000),
        swap(1, Z, 1_000),
    ])
    .fin(d)
}
/// three users, the last one a stranger who acts only through the probes
pub fn harm(d: usize) -> Scn {
    let mut b = B::new("harm", 3, 2, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    for (lo, up) in [(-120, 120), (0, 120), (-60, 0)] {
        b.range(0, lo, up);
    }
    b.pre(vec![mint(0, -120, 120, 1_000_000), swap(1, Z, 2000)]);
    b.ops(vec![
        Wait(15),
        mint(1, 0, 120, 2_000_000),
        mint(0, -60, 0, 500_000),
        burn(0, -120, 120, ALL),
        burn(0, -120, 120, 0),
        swap(1, Z, 5000),
        swap(1, O, 9000),
        nmint(0, 0, -120, 120, 10_000),
        ndec(0, 0, 200_000),
        ndec(0, 0, ALL),
        ncol(0, 0, ALL),
        IncObs { u: 0, p: 0, n: 1 },
    ])
    .fin(d)
}
/// position NFTs over two pools and several ranges
pub fn nft_pools(d: usize) -> Scn {
    let mut b = B::new("nft-pools", 2, 3, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.pool(0, 1, 500, 60, 1 << 32);
    b.pool(1, 2, 3000, 60, 1 << 32);
    for p in 0..3 {
        b.range(p, -120, 120);
        b.range(p, -60, 60);
    }
    b.range(0, -120, 60);
    b.range(0, -60, 120);
    let nm = |u: usize, id: usize, p: usize, lo: i32, up: i32| NftMint { u, to: u, id, p, lo, up, d: [6000, 6000], m: [0, 0], dl: DL };
    b.pre(vec![
        nmint(0, 0, -120, 120, 10_000),
        Mint { u: 1, p: 0, lo: -60, up: 60, liq: 900_000 },
        nm(1, 2, 1, -120, 120),
        ndec(1, 2, 100_000),
    ]);
    b.ops(vec![
        nm(1, 1, 0, -120, 120),
        nm(1, 3, 2, -60, 60),
        nm(0, 4, 0, -60, 60),
        nm(1, 5, 0, -120, 60),
        nm(1, 6, 0, -60, 120),
        ninc(1, 0, 500),
        ndec(0, 0, 100_000),
        ndec(0, 0, ALL),
        ndec(1, 1, ALL),
        ncol(0, 0, ALL),
        NftSend { id: 0, to: 1 },
        NftSend { id: 1, to: 0 },
        NftApprove { id: 0, to: 1 },
        NftApprove { id: 1, to: 0 },
        NftMeta { u: 1, id: 0 },
        swap(1, Z, 4000),
        Swap { u: 1, p: 1, z: O, amt: 2000, limit: 0 },
    ])
    .fin(d)
}
/// NFTs and trades with deadlines and minimums
pub fn slippage(d: usize) -> Scn {
    core_world("slippage")
        .pre(vec![mint(0, -120, 120, 1_000_000), nmint(0, 0, -120, 120, 8_000)])
        .ops(vec![
            Wait(15),
            nmint(1, 1, 0, 120, 5_000),
            nmint(1, 2, -60, 0, 5_000),
            ninc(1, 0, 2_500),
            ndec(0, 0, 300_000),
            ndec(0, 0, ALL),
            ndec(1, 1, ALL),
            swap(1, Z, 9000),
            swap(1, O, 9000),
            swapl(1, Z, 1 << 30, rm::sqrt_tab(0)),
            ExactIn { u: 1, p: 0, z: Z, amt: 700, min: 0, limit: 0, dl: DL },
            ExactIn { u: 1, p: 0, z: O, amt: 800, min: 0, limit: 0, dl: DL },
            Route { u: 1, hops: vec![(0, Z)], amt: 700, min: 0, dl: DL },
            Route { u: 1, hops: vec![(0, O), (0, Z)], amt: 600, min: 0, dl: DL },
        ])
        .fin(d)
}
/// position NFTs on two pools that share a token, with a stranger
pub fn harm_nft(d: usize) -> Scn {
    let mut b = B::new("harm-nft", 3, 3, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.pool(1, 2, 500, 60, 1 << 32);
    for (p, lo, up) in [(0, -120, 120), (0, -60, 60), (1, -60, 60)] {
        b.range(p, lo, up);
    }
    let nm = |u: usize, id: usize, p: usize, lo: i32, up: i32| NftMint { u, to: u, id, p, lo, up, d: [6000, 6000], m: [0, 0], dl: DL };
    b.pre(vec![nm(0, 0, 0, -120, 120), mint(1, -120, 120, 400_000), swap(1, Z, 900)]);
    b.ops(vec![
        nm(1, 1, 0, -120, 120),
        nm(1, 2, 1, -60, 60),
        nm(0, 3, 0, -60, 60),
        ninc(1, 0, 500),
        ndec(0, 0, 100_000),
        ndec(0, 0, ALL),
        ndec(1, 1, ALL),
        ncol(0, 0, ALL),
        NftApprove { id: 0, to: 1 },
        swap(1, O, 4000),
        Swap { u: 1, p: 1, z: O, amt: 2000, limit: 0 },
        Wait(20),
    ])
    .fin(d)
}

/// Magnitudes: one world per order of magnitude of liquidity and per configuration (fee, spacing, price
/// region, counters of the pool's past, clock). All quantities that could be truncated, rounded or wrapped
/// take values from one unit to beyond 2^60 somewhere in this family.
struct Cfg {
    fee: u32,
    sp: u16,
    /// in units of the spacing
    t: i32,
    /// distance of the price from that tick's, per mille of a tick's width
    at: u64,
    fg: [u64; 2],
    tc: i64,
    spl: u64,
    now: i64,
    wait: i64,
}
const CFGS: &[Cfg] = &[
    Cfg { fee: 3000, sp: 60, t: 0, at: 400, fg: [0, 0], tc: 0, spl: 0, now: 1000, wait: 1 << 16 },
    Cfg { fee: 500, sp: 10, t: -1, at: 0, fg: [1 << 31, (1 << 32) - 1], tc: -(1 << 31) - 5, spl: (1 << 32) + 5, now: (1 << 31) - 20, wait: 100 },
    Cfg { fee: 100, sp: 1, t: 1000, at: 900, fg: [(1 << 32) + 1, (1 << 63) - 1], tc: 1 << 40, spl: (1 << 63) + 1, now: (1 << 32) - 9, wait: 1 << 20 },
    Cfg { fee: 10_000, sp: 200, t: -7, at: 500, fg: [1 << 63, u64::MAX - (1 << 20)], tc: -(1 << 45), spl: u64::MAX - (1 << 33), now: (1 << 33) + 3, wait: 1 << 24 },
    Cfg { fee: 2500, sp: 5, t: 3999, at: 20, fg: [1 << 40, 1 << 48], tc: 1 << 52, spl: 1 << 40, now: 1_700_000_000, wait: 1 << 12 },
    Cfg { fee: 800, sp: 16, t: -1250, at: 999, fg: [u64::MAX, 1], tc: -1, spl: 7, now: 1_900_000_000, wait: 1 << 27 },
    Cfg { fee: 1, sp: 2, t: 29_998, at: 333, fg: [1 << 56, 3], tc: (1 << 31) - 1, spl: u64::MAX, now: 4_000_000_000, wait: 1 << 8 },
    Cfg { fee: 99_999, sp: 100, t: -600, at: 600, fg: [12345, 1 << 60], tc: 1 << 33, spl: 1 << 62, now: 86_400, wait: 60 },
    Cfg { fee: 3000, sp: 60, t: 1999, at: 1, fg: [u64::MAX >> 1, u64::MAX >> 2], tc: 1 << 32, spl: 1 << 32, now: 1_660_000_000, wait: 1 << 30 },
    Cfg { fee: 500, sp: 60, t: -1999, at: 777, fg: [1 << 33, 1 << 34], tc: -(1 << 32), spl: 1 << 33, now: 1_660_000_001, wait: 1 << 28 },
    Cfg { fee: 250_000, sp: 128, t: 2, at: 0, fg: [1 << 52, 1 << 16], tc: 1 << 16, spl: 1 << 16, now: 1_660_000_013, wait: 15 },
    Cfg { fee: 500, sp: 10, t: 18_400, at: 100, fg: [99, 1 << 59], tc: 1 << 50, spl: 1, now: 2_147_483_630, wait: 1 << 14 },
    Cfg { fee: 500, sp: 10, t: -18_400, at: 100, fg: [1 << 59, 99], tc: -(1 << 50), spl: 1 << 50, now: 2_147_483_640, wait: 1 << 10 },
    Cfg { fee: 30, sp: 3, t: 85, at: 700, fg: [5, 6], tc: 0, spl: 0, now: 1_660_000_000, wait: 3600 },
];
const LOGS: &[u32] = &[0, 3, 7, 8, 12, 15, 16, 20, 24, 28, 31, 32, 33, 36, 40, 44, 48, 52, 56, 60];
pub fn scales() -> usize {
    CFGS.len() * LOGS.len()
}
pub fn scale(k: usize, d: usize) -> Scn {
    let c = &CFGS[k / LOGS.len()];
    let e = LOGS[k % LOGS.len()];
    // not exactly powers of two
    let l = (1u64 << e) + if e > 8 { (1 << (e - 4)) + 5 } else { 0 };
    let s = c.sp as i32;
    let t = c.t * s;
    let (p0, p1) = (rm::sqrt_tab(t), rm::sqrt_tab(t + 1));
    let price = p0 + ((p1 - p0) as u128 * c.at as u128 / 1000) as u64;
    let mut b = B::new(&format!("magnitude-2^{e}-config-{}", k / LOGS.len()), 2, 2, u64::MAX >> 2, c.now);
    b.pool(0, 1, c.fee, c.sp, price);
    let (a, n) = ((t - 2 * s, t + 2 * s), (t, t + s));
    let g = (t - s, t);
    for r in [a, n, g] {
        b.range(0, r.0, r.1);
    }
    let k = b.env.pools[0].key;
    zc_edit::<PoolState>(&mut b.bank, &k, |p| {
        p.fee_growth_global_0_x32 = c.fg[0];
        p.fee_growth_global_1_x32 = c.fg[1];
    });
    let o = b.env.pools[0].obs(0);
    zc_edit::<cyclos_core::states::oracle::ObservationState>(&mut b.bank, &o, |o| {
        o.tick_cumulative = c.tc;
        o.seconds_per_liquidity_cumulative_x32 = c.spl;
    });
    let m = &mut b.model.pools[0];
    m.fg = c.fg;
    m.obs[0].tc = c.tc;
    m.obs[0].spl = c.spl;
    m.seen = (m.seen.0, c.tc, c.spl);
    m.tick_seconds = c.tc;
    // what this much liquidity is worth in either token within one range
    let v0 = rm::amt0(p0, rm::sqrt_tab(t + s), l, true).unwrap_or(u64::MAX >> 3).clamp(1, u64::MAX >> 3);
    let v1 = rm::amt1(rm::sqrt_tab(t - s), p0, l, true).unwrap_or(u64::MAX >> 3).clamp(1, u64::MAX >> 3);
    let (i0, i1) = (v0 as i64, v1 as i64);
    b.pre(vec![
        mint(0, a.0, a.1, l),
        Wait(14),
        IncObs { u: 1, p: 0, n: 2 },
        swap(1, Z, i0 / 3 + 1),
        swap(1, O, i1 / 3 + 1),
        mint(1, n.0, n.1, l / 2 + 1),
        nmint(1, 0, g.0, g.1, (v0.max(v1) / 2).max(9)),
        Wait(c.wait),
        swap(1, O, i1 / 2 + 2),
    ])
    .ops(vec![
        Wait(c.wait),
        mint(0, n.0, n.1, l),
        mint(1, a.0, a.1, l / 3 + 1),
        burn(0, a.0, a.1, ALL),
        burn(0, a.0, a.1, 0),
        burn(1, n.0, n.1, l / 2),
        coll(0, a.0, a.1, ALL),
        Collect { u: 0, p: 0, lo: a.0, up: a.1, a0: v0 / 1000 + 1, a1: 0 },
        swap(1, Z, i0 / 5 + 1),
        swap(1, Z, i0.saturating_mul(3)),
        swap(1, O, i1 / 5 + 1),
        swap(1, O, i1.saturating_mul(3)),
        swap(1, Z, -(i1 / 7 + 1)),
        swap(1, O, -(i0 / 7 + 1)),
        swapl(1, O, -i0, rm::sqrt_tab(t + s)),
        CollectProtocol { u: 0, p: 0, a: [ALL, ALL] },
        ninc(0, 0, v0.max(v1) / 3 + 2),
        ndec(1, 0, l / 4 + 1),
        ncol(1, 0, ALL),
    ]);
    let mut x = b.fin(d);
    x.lenient = true;
    x
}

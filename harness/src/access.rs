//! Exhaustive enumerations around single calls: account substitution, authority, creation,
//! payment callbacks and re-entrance.
use crate::checks::Matrix;
use crate::explore::*;
use crate::model::*;
use crate::out::Report;
use crate::refmath as rm;
use crate::scen::{self, DL};
use crate::svm::*;
use crate::world::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use spl_token::instruction as ti;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// runs f(0..n) on all cores and concatenates the results in order
pub fn par<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let idx = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, T)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| {
                set_capture(false);
                let mut l = vec![];
                loop {
                    let i = idx.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    l.push((i, f(i)));
                }
                out.lock().unwrap().extend(l);
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

// ------------------------------------------------------------------------------------ safety

/// Everything that must hold after any accepted transaction signed by `signers`, from accounts alone.
pub struct Judge<'a> {
    pub env: &'a Env,
    pub ranges: &'a [Vec<(i32, i32)>],
    pub nfts: Vec<Pubkey>,
}
impl<'a> Judge<'a> {
    pub fn new(scn: &'a Scn) -> Judge<'a> {
        Judge { env: &scn.env, ranges: &scn.ranges, nfts: (0..12).map(|i| scn.env.nft_mint_key(i)).collect() }
    }
    fn owners(&self) -> Vec<Pubkey> {
        let mut o = self.env.users.clone();
        o.push(self.env.admin);
        o.push(factory_key());
        o
    }
    /// pool, tick, bitmap, position and observation records agree with each other
    pub fn consistent(&self, b: &Bank, out: &mut Vec<String>) {
        let mut v = Viols::default();
        solvency(self.env, b, self.ranges, &mut v);
        out.extend(v.0.into_iter().filter(|x| x.props.contains(&"C01")).map(|x| x.what));
        for (pi, p) in self.env.pools.iter().enumerate() {
            let pv = match pool_v(b, &p.key) {
                Some(x) => x,
                None => {
                    out.push(format!("pool {pi} is gone"));
                    continue;
                }
            };
            if (pv.token_0, pv.token_1, pv.fee, pv.spacing) != (p.m0, p.m1, p.fee, p.spacing) {
                out.push(format!("pool {pi}: identity changed"));
            }
            if !pv.unlocked {
                out.push(format!("pool {pi}: left locked"));
            }
            let mut liq = 0u128;
            let mut ticks: std::collections::BTreeMap<i32, (u128, i128)> = Default::default();
            for (lo, up) in &self.ranges[pi] {
                let mut sum = 0u128;
                for o in self.owners() {
                    if let Some(x) = pos_v(b, &p.pos(&o, *lo, *up)) {
                        sum += x.liq as u128;
                    }
                }
                if pv.tick >= *lo && pv.tick < *up {
                    liq += sum;
                }
                let a = ticks.entry(*lo).or_default();
                *a = (a.0 + sum, a.1 + sum as i128);
                let a = ticks.entry(*up).or_default();
                *a = (a.0 + sum, a.1 - sum as i128);
                let nsum: u128 = self
                    .nfts
                    .iter()
                    .filter_map(|m| nft_v(b, &nft_state(m)))
                    .filter(|x| x.pool == p.key && x.lo == *lo && x.up == *up)
                    .map(|x| x.liq as u128)
                    .sum();
                let core = pos_v(b, &p.pos(&factory_key(), *lo, *up)).map(|x| x.liq as u128).unwrap_or(0);
                if nsum != core {
                    out.push(format!("pool {pi} {lo}..{up}: NFT records claim {nsum}, the manager holds {core}"));
                }
            }
            if liq != pv.liq as u128 {
                out.push(format!("pool {pi}: active liquidity {} but positions in range hold {liq}", pv.liq));
            }
            for (t, (g, n)) in &ticks {
                let (tg, tn) = tick_v(b, &p.tick(*t)).map(|x| (x.gross as u128, x.net as i128)).unwrap_or((0, 0));
                if (tg, tn) != (*g, *n) {
                    out.push(format!("pool {pi}: tick {t} records {tg}/{tn}, positions say {g}/{n}"));
                }
                let c = t.div_euclid(p.spacing as i32);
                let bit = (c & 255) as usize;
                let set = bitmap_v(b, &p.word((c >> 8) as i16)).is_some_and(|w| w.word[bit / 64] >> (bit % 64) & 1 == 1);
                if set != (*g > 0) {
                    out.push(format!("pool {pi}: tick {t} marked {set} while its positions hold {g}"));
                }
            }
            let latest = obs_v(b, &p.obs(pv.obs_index));
            match latest {
                Some(l) if l.init && l.index == pv.obs_index && l.ts as i64 <= b.now => {
                    for i in 0..pv.card {
                        if let Some(o) = obs_v(b, &p.obs(i)) {
                            if o.init && i != pv.obs_index && o.ts >= l.ts {
                                out.push(format!("pool {pi}: observation {i} is not older than the latest"));
                            }
                        }
                    }
                }
                o => out.push(format!("pool {pi}: latest observation is {o:?}")),
            }
        }
        for m in &self.nfts {
            if let (Some(a), Some(_)) = (b.get(m), nft_v(b, &nft_state(m))) {
                use solana_program::program_pack::Pack;
                match spl_token::state::Mint::unpack(&a.data) {
                    Ok(x) if x.supply == 1 && x.decimals == 0 => {}
                    x => out.push(format!("position NFT mint {m}: {x:?}")),
                }
            }
        }
    }
    /// nothing was taken from anybody who did not sign
    pub fn harm(&self, pre: &Bank, post: &Bank, signers: &[Pubkey], out: &mut Vec<String>) {
        let env = self.env;
        let fowner = factory_v(pre).map(|f| f.owner);
        let admin_signs = fowner.is_some_and(|o| signers.contains(&o));
        for (k, a) in pre.accs.iter() {
            let a = &a.acc;
            if a.owner == spl_token::id() && a.data.len() == 165 {
                let (x, y) = (tok_account(pre, k), tok_account(post, k));
                let x = match x {
                    Some(x) => x,
                    None => continue,
                };
                let delegated = Option::<Pubkey>::from(x.delegate).is_some_and(|d| signers.contains(&d));
                if signers.contains(&x.owner) || env.pools.iter().any(|p| p.key == x.owner) {
                    continue;
                }
                match y {
                    Some(y) if y.owner == x.owner && y.mint == x.mint && (y.amount >= x.amount || delegated) && y.delegate == x.delegate => {}
                    y => out.push(format!("token account {k} of {}: {} tokens became {:?}", x.owner, x.amount, y.map(|y| y.amount))),
                }
            } else if a.owner == system_id() && !signers.contains(k) && !a.executable {
                if post.get(k).map(|p| p.lamports).unwrap_or(0) < a.lamports {
                    out.push(format!("lamports of {k} decreased"));
                }
            } else if a.owner == core_id() {
                match post.get(k) {
                    None => {
                        if !tick_v(pre, k).is_some_and(|t| t.gross == 0) {
                            out.push(format!("program account {k} is gone"));
                        }
                    }
                    Some(p) => {
                        if p.owner != a.owner || p.data.len() != a.data.len() || p.data[..8] != a.data[..8] {
                            out.push(format!("program account {k} changed its kind"));
                        }
                    }
                }
            }
        }
        if let (Some(x), Some(y)) = (factory_v(pre), factory_v(post)) {
            if x != y && !admin_signs {
                out.push("factory settings changed without the owner".into());
            }
        }
        for fee in [0u32, 100, 500, 3000, 10000] {
            if fee_v(pre, fee).is_some() && fee_v(pre, fee) != fee_v(post, fee) {
                out.push(format!("fee tier {fee} changed"));
            }
        }
        for (pi, p) in env.pools.iter().enumerate() {
            if let (Some(x), Some(y)) = (pool_v(pre, &p.key), pool_v(post, &p.key)) {
                if (y.pf0 < x.pf0 || y.pf1 < x.pf1) && !admin_signs {
                    out.push(format!("pool {pi}: protocol fees withdrawn without the owner"));
                }
            }
            for (lo, up) in &self.ranges[pi] {
                for o in self.owners() {
                    if signers.contains(&o) || o == factory_key() {
                        continue;
                    }
                    let k = p.pos(&o, *lo, *up);
                    if let (Some(x), Some(y)) = (pos_v(pre, &k), pos_v(post, &k)) {
                        // anybody may add liquidity to anybody's position, and its fees are credited then
                        let gift = y.liq > x.liq && y.owed0 >= x.owed0 && y.owed1 >= x.owed1;
                        if x != y && !gift {
                            out.push(format!("pool {pi}: position {lo}..{up} of {o} changed from {x:?} to {y:?}"));
                        }
                    }
                }
            }
        }
        for m in &self.nfts {
            let k = nft_state(m);
            let x = match nft_v(pre, &k) {
                Some(x) => x,
                None => continue,
            };
            let auth = pre.accs.keys().filter_map(|a| tok_account(pre, a)).any(|t| {
                t.mint == *m
                    && t.amount == 1
                    && (signers.contains(&t.owner) || (t.delegated_amount > 0 && Option::<Pubkey>::from(t.delegate).is_some_and(|d| signers.contains(&d))))
            });
            match nft_v(post, &k) {
                None => out.push(format!("NFT record {m} is gone")),
                Some(y) => {
                    if (x.mint, x.pool, x.lo, x.up) != (y.mint, y.pool, y.lo, y.up) {
                        out.push(format!("NFT record {m} changed its pool or range"));
                    }
                    if !auth && (y.liq < x.liq || y.owed0 < x.owed0 || y.owed1 < x.owed1) {
                        out.push(format!("NFT record {m} reduced without its holder: {x:?} became {y:?}"));
                    }
                }
            }
        }
    }
    pub fn all(&self, pre: &Bank, post: &Bank, signers: &[Pubkey]) -> Vec<String> {
        let mut o = vec![];
        self.consistent(post, &mut o);
        self.harm(pre, post, signers, &mut o);
        o
    }
}

// ------------------------------------------------------------------------------------ C17 matrix

/// Three pools that share tokens, users with direct and NFT positions, fees, an attacker (user 2).
fn market(wait: i64) -> (Scn, Node) {
    let mut b = scen::B::new("market", 3, 3, 1 << 50, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.pool(0, 1, 500, 60, 1 << 32);
    b.pool(1, 2, 3000, 60, 1 << 32);
    for p in 0..3 {
        for (lo, up) in [(-120, 120), (-60, 60), (0, 120), (-120, -60), (-300, 300), (-360, 360), (-420, 420)] {
            b.range(p, lo, up);
        }
    }
    let m = |u: usize, p: usize, lo: i32, up: i32, liq: u64| Op::Mint { u, p, lo, up, liq };
    let nm = |u: usize, id: usize, p: usize, lo: i32, up: i32| Op::NftMint { u, to: u, id, p, lo, up, d: [9000, 9000], m: [0, 0], dl: DL };
    let sw = |p: usize, z: bool, amt: i64| Op::Swap { u: 1, p, z, amt, limit: 0 };
    b.pre(vec![
        m(0, 0, -120, 120, 2_000_000),
        m(2, 0, -120, 120, 1_500_000),
        m(1, 0, -60, 60, 1_000_000),
        m(2, 0, 0, 120, 300_000),
        m(2, 0, -120, -60, 300_000),
        m(0, 0, 0, 120, 300_000),
        m(2, 0, -360, 360, 400_000),
        nm(2, 6, 0, -420, 420),
        m(0, 1, -120, 120, 2_000_000),
        m(2, 1, -60, 60, 900_000),
        m(1, 2, -60, 60, 1_200_000),
        m(2, 2, -120, 120, 1_100_000),
        nm(0, 0, 0, -120, 120),
        nm(2, 1, 0, -120, 120),
        nm(2, 2, 1, -60, 60),
        nm(1, 3, 0, -60, 60),
        nm(2, 4, 0, -60, 60),
        nm(0, 5, 2, -60, 60),
        Op::NftApprove { id: 5, to: 1 },
        Op::IncObs { u: 0, p: 0, n: 2 },
        Op::IncObs { u: 0, p: 1, n: 2 },
        Op::Wait(40),
        sw(0, true, 9_000),
        sw(0, false, 12_000),
        sw(1, true, 3_000),
        sw(1, false, 2_000),
        sw(2, false, 5_000),
        sw(2, true, 3_000),
        Op::Burn { u: 0, p: 0, lo: -120, up: 120, liq: 300_000 },
        Op::Burn { u: 2, p: 0, lo: -120, up: 120, liq: 200_000 },
        Op::Burn { u: 2, p: 1, lo: -60, up: 60, liq: 100_000 },
        Op::NftDec { u: 0, id: 0, liq: 50_000, m: [0, 0], dl: DL },
        Op::NftDec { u: 2, id: 1, liq: 50_000, m: [0, 0], dl: DL },
        Op::NftDec { u: 2, id: 2, liq: 10_000, m: [0, 0], dl: DL },
        Op::InitTick { u: 0, p: 0, t: 180 },
        Op::InitTick { u: 0, p: 1, t: 180 },
        Op::Wait(wait),
    ]);
    let scn = b.fin(0);
    let st = Stats::default();
    let mut v = Viols::default();
    let mut n = prefix(&scn, &mut v, &st);
    // look-alikes owned by another program, with the attacker in control of the content
    let a = scn.env.users[2];
    let p0 = &scn.env.pools[0];
    let mut fake = |name: &str, k: Pubkey, patch: Option<(Pubkey, Pubkey)>| {
        if let Some(x) = n.bank.get(&k).cloned() {
            let mut data = x.data.clone();
            if let Some((from, to)) = patch {
                for i in 0..data.len().saturating_sub(31) {
                    if data[i..i + 32] == from.to_bytes() {
                        data[i..i + 32].copy_from_slice(to.as_ref());
                    }
                }
            }
            n.bank.set(key(&format!("fake-{name}")), Acc { data, owner: evil_program(0), ..x });
        }
    };
    fake("factory", factory_key(), Some((scn.env.admin, a)));
    fake("pool", p0.key, None);
    fake("tick-lo", p0.tick(-120), None);
    fake("tick-up", p0.tick(120), None);
    fake("word", p0.word(0), None);
    fake("position", p0.pos(&scn.env.users[0], -120, 120), None);
    fake("observation", p0.obs(0), None);
    fake("nft-record", nft_state(&scn.env.nft_mint_key(0)), None);
    fake("nft-token", ata(&scn.env.users[0], &scn.env.nft_mint_key(0)), Some((scn.env.users[0], a)));
    fake("fee", pda(&core_id(), &[b"f", &3000u32.to_be_bytes()]), None);
    fake("vault", p0.v0, None);
    fake("mint", scn.env.mints[0], None);
    // the same with figures that suit the attacker
    let mut bent = |name: &str, k: Pubkey, f: &dyn Fn(&mut Bank, &Pubkey)| {
        if let Some(x) = n.bank.get(&k).cloned() {
            let to = key(&format!("bent-{name}"));
            n.bank.set(to, x);
            f(&mut n.bank, &to);
            let x = n.bank.get(&to).cloned().unwrap();
            n.bank.set(to, Acc { owner: evil_program(0), ..x });
        }
    };
    use cyclos_core::states as cs;
    bent("factory", factory_key(), &|b, k| zc_edit::<cs::factory::FactoryState>(b, k, |s| s.fee_protocol = 9));
    bent("pool", p0.key, &|b, k| zc_edit::<PoolState>(b, k, |s| s.liquidity *= 3));
    bent("tick-lo", p0.tick(-120), &|b, k| zc_edit::<cs::tick::TickState>(b, k, |s| s.liquidity_net += 1000));
    bent("tick-up", p0.tick(120), &|b, k| zc_edit::<cs::tick::TickState>(b, k, |s| s.fee_growth_outside_0_x32 = s.fee_growth_outside_0_x32.wrapping_sub(1 << 33)));
    bent("word", p0.word(0), &|b, k| zc_edit::<cs::tick_bitmap::TickBitmapState>(b, k, |s| s.word = [0; 4]));
    bent("position", p0.pos(&a, -120, 120), &|b, k| zc_edit::<cs::position::PositionState>(b, k, |s| s.tokens_owed_0 += 77_777));
    bent("observation", p0.obs(0), &|b, k| zc_edit::<cs::oracle::ObservationState>(b, k, |s| s.tick_cumulative += 1 << 30));
    bent("nft-record", nft_state(&scn.env.nft_mint_key(1)), &|b, k| zc_edit::<cs::tokenized_position::TokenizedPositionState>(b, k, |s| s.tokens_owed_1 += 77_777));
    // genuine token accounts that are nobody's vault
    for (i, p) in scn.env.pools.iter().enumerate() {
        for (j, m) in [p.m0, p.m1].into_iter().enumerate() {
            put_tok(&mut n.bank, key(&format!("pool-owned-{i}-{j}")), m, p.key, 1 << 40);
            put_tok(&mut n.bank, key(&format!("attacker-owned-{i}-{j}")), m, a, 1 << 40);
        }
    }
    put_mint(&mut n.bank, key("fake-nft-mint"), 0, 1, solana_program::program_option::COption::Some(a));
    put_tok(&mut n.bank, key("fake-nft-holding"), key("fake-nft-mint"), a, 1);
    (scn, n)
}

struct Tpl {
    name: &'static str,
    props: &'static [&'static str],
    ix: Instruction,
    signers: Vec<Pubkey>,
    /// accounts the caller is free to choose
    choice: Vec<usize>,
    pool: Option<usize>,
}

fn templates(scn: &Scn, n: &Node) -> Vec<Tpl> {
    let env = &scn.env;
    let b = &n.bank;
    let a = 2usize;
    let ak = env.users[a];
    let p0 = &env.pools[0];
    let ta = env.ta(a, p0);
    let mut v: Vec<Tpl> = vec![];
    let mut add = |name: &'static str, props: &'static [&'static str], ix: Instruction, signers: Vec<Pubkey>, choice: Vec<usize>, pool: Option<usize>| {
        v.push(Tpl { name, props, ix, signers, choice, pool });
    };
    let of = |op: Op| tx_of(env, b, &n.model, &op).0.remove(0);
    add("set_owner", &["C16"], env.ix_set_owner(env.admin, env.users[1]), vec![env.admin], vec![1], None);
    add("enable_fee_amount", &["C16", "C18"], env.ix_enable_fee(env.admin, 10000, 200), vec![env.admin], vec![], None);
    add("set_fee_protocol", &["C16", "C27"], env.ix_set_fee_protocol(env.admin, 5), vec![env.admin], vec![], None);
    add("collect_protocol", &["C16", "C27"], env.ix_collect_protocol(env.admin, p0, ta.0, ta.1, 7, ALL), vec![env.admin], vec![5, 6], Some(0));
    let newp = env.pool_key(0, 2, 500, 60);
    add("create_and_init_pool", &["C18"], env.ix_create_pool(ak, &newp, 1 << 32), vec![ak], vec![0], None);
    add("increase_observation_cardinality_next", &["C14"], of(Op::IncObs { u: a, p: 0, n: 2 }), vec![ak], vec![0], Some(0));
    add("init_tick_account", &["C28"], env.ix_init_tick(ak, p0, 240), vec![ak], vec![0], Some(0));
    add("close_tick_account", &["C28"], env.ix_close_tick(p0, 180, ak), vec![ak], vec![0, 1], None);
    add("init_bitmap_account", &["C28"], env.ix_init_bitmap(ak, p0, 5), vec![ak], vec![0], Some(0));
    add("init_position_account", &["C28"], env.ix_init_position(ak, p0, &ak, -60, 120), vec![ak], vec![0], Some(0));
    for (name, lo, up) in [("mint in range", -120, 120), ("mint above the price", 0, 120), ("mint below the price", -120, -60)] {
        add(name, &["C07", "C26"], env.ix_mint(b, ak, ta, p0, ak, lo, up, 70_000, core_id()), vec![ak], vec![0, 1, 2, 14], Some(0));
    }
    add("mint between unused ticks", &["C07", "C26"], env.ix_mint(b, ak, ta, p0, ak, -300, 300, 70_000, core_id()), vec![ak], vec![0, 1, 2, 14], Some(0));
    add("burn the only position", &["C07"], env.ix_burn(b, ak, p0, -360, 360, 400_000), vec![ak], vec![], Some(0));
    add("burn in range", &["C07"], env.ix_burn(b, ak, p0, -120, 120, 100_000), vec![ak], vec![], Some(0));
    add("burn out of range", &["C07"], env.ix_burn(b, ak, p0, 0, 120, 100_000), vec![ak], vec![], Some(0));
    add("collect", &["C07"], env.ix_collect(ak, p0, -120, 120, ta.0, ta.1, ALL, 900), vec![ak], vec![7, 8], Some(0));
    for (name, z, amt) in [("swap down", true, 14_000i64), ("swap up", false, 15_000), ("swap down, exact output", true, -3_000), ("swap inside a tick", true, 10)] {
        add(name, &["C26"], of(Op::Swap { u: a, p: 0, z, amt, limit: 0 }), vec![ak], vec![0, 1, 2, 9], Some(0));
    }
    add("exact_input_single", &["C10"], of(Op::ExactIn { u: a, p: 0, z: true, amt: 12_000, min: 1, limit: 0, dl: DL }), vec![ak], vec![0, 3, 4], Some(0));
    {
        let ix = of(Op::Route { u: a, hops: vec![(0, true), (2, true)], amt: 12_000, min: 1, dl: DL });
        let mut ch = vec![0, 2];
        for (i, m) in ix.accounts.iter().enumerate() {
            if env.tok[a].contains(&m.pubkey) && i > 4 {
                ch.push(i);
            }
        }
        add("exact_input", &["C10"], ix, vec![ak], ch, None);
    }
    let mint9 = env.nft_mint_key(9);
    add(
        "mint_tokenized_position",
        &["C08"],
        of(Op::NftMint { u: a, to: a, id: 9, p: 0, lo: -120, up: 120, d: [5000, 5000], m: [0, 0], dl: DL }),
        vec![ak, mint9],
        vec![0, 12, 13],
        Some(0),
    );
    add(
        "mint_tokenized_position between unused ticks",
        &["C08"],
        of(Op::NftMint { u: a, to: a, id: 9, p: 0, lo: -300, up: 300, d: [5000, 5000], m: [0, 0], dl: DL }),
        vec![ak, mint9],
        vec![0, 12, 13],
        Some(0),
    );
    add("decrease_liquidity of the only position", &["C08"], of(Op::NftDec { u: a, id: 6, liq: ALL, m: [0, 0], dl: DL }), vec![ak], vec![], Some(0));
    add("increase_liquidity", &["C08"], of(Op::NftInc { u: a, id: 1, d: [5000, 5000], m: [0, 0], dl: DL }), vec![ak], vec![0, 2, 9, 10], Some(0));
    add("increase_liquidity of the only position", &["C08"], of(Op::NftInc { u: a, id: 6, d: [5000, 5000], m: [0, 0], dl: DL }), vec![ak], vec![0, 2, 9, 10], Some(0));
    add("decrease_liquidity", &["C08"], of(Op::NftDec { u: a, id: 1, liq: 10_000, m: [0, 0], dl: DL }), vec![ak], vec![], Some(0));
    add("collect_from_tokenized", &["C08"], of(Op::NftCollect { u: a, id: 1, a: [ALL, 500] }), vec![ak], vec![13, 14], Some(0));
    add("add_metaplex_metadata", &["C08", "C32"], env.ix_metadata(ak, env.nft_mint_key(1)), vec![ak], vec![0], None);
    let all = |k: usize| (0..k).collect::<Vec<_>>();
    let mc = Instruction {
        program_id: core_id(),
        accounts: vec![rs(ak), w(ta.0), w(ta.1), w(p0.v0), w(p0.v1), r(spl_token::id())],
        data: Args::new("mint_callback").u64(50).u64(60).0,
    };
    add("mint_callback", &["C26"], mc, vec![ak], all(6), None);
    let sc = Instruction {
        program_id: core_id(),
        accounts: vec![rs(ak), w(ta.0), w(ta.1), w(p0.v0), w(p0.v1), r(spl_token::id())],
        data: Args::new("swap_callback").i64(50).i64(-40).0,
    };
    add("swap_callback", &["C26"], sc, vec![ak], all(6), None);
    v
}

/// the kind of an account: what a careless type check could confuse
fn kind(b: &Bank, k: &Pubkey) -> (Pubkey, usize, u64, bool) {
    match b.get(k) {
        None => (Pubkey::default(), 0, 0, false),
        Some(a) => (a.owner, a.data.len(), if a.owner == core_id() { u64::from_le_bytes(a.data[..8].try_into().unwrap()) } else { 0 }, a.executable),
    }
}

fn candidates(scn: &Scn, n: &Node) -> Vec<Pubkey> {
    let env = &scn.env;
    let mut c: Vec<Pubkey> = n.bank.accs.keys().copied().collect();
    let a = env.users[2];
    for p in &env.pools {
        c.extend([p.tick(240), p.word(5), p.word(-5), p.obs(3), p.obs(4), p.pos(&a, -60, 120), p.pos(&env.users[0], -60, 120)]);
    }
    c.extend([env.nft_mint_key(9), nft_state(&env.nft_mint_key(9)), ata(&a, &env.nft_mint_key(9)), ata(&env.users[0], &env.nft_mint_key(9)), key("nobody")]);
    c.sort();
    c.dedup();
    c
}

fn name_of(scn: &Scn, k: &Pubkey) -> String {
    let env = &scn.env;
    let mut m: Vec<(Pubkey, String)> = vec![(core_id(), "core program".into()), (factory_key(), "factory".into()), (env.admin, "admin".into())];
    for (i, u) in env.users.iter().enumerate() {
        m.push((*u, format!("user {i}")));
        for (j, t) in env.tok[i].iter().enumerate() {
            m.push((*t, format!("token {j} of user {i}")));
        }
        for id in 0..10 {
            m.push((ata(u, &env.nft_mint_key(id)), format!("NFT {id} account of user {i}")));
        }
    }
    for id in 0..10 {
        m.push((env.nft_mint_key(id), format!("mint of NFT {id}")));
        m.push((nft_state(&env.nft_mint_key(id)), format!("record of NFT {id}")));
    }
    for (i, x) in env.mints.iter().enumerate() {
        m.push((*x, format!("mint {i}")));
    }
    for (pi, p) in env.pools.iter().enumerate() {
        m.push((p.key, format!("pool {pi}")));
        m.push((p.v0, format!("vault 0 of pool {pi}")));
        m.push((p.v1, format!("vault 1 of pool {pi}")));
        for t in [-120, -60, 0, 60, 120, 180, 240] {
            m.push((p.tick(t), format!("tick {t} of pool {pi}")));
        }
        for x in [-5i16, -1, 0, 1, 5] {
            m.push((p.word(x), format!("word {x} of pool {pi}")));
        }
        for x in 0..5 {
            m.push((p.obs(x), format!("observation {x} of pool {pi}")));
        }
        for (lo, up) in &scn.ranges[pi] {
            for (i, u) in env.users.iter().enumerate() {
                m.push((p.pos(u, *lo, *up), format!("position {lo}..{up} of user {i} in pool {pi}")));
            }
            m.push((p.pos(&factory_key(), *lo, *up), format!("manager position {lo}..{up} in pool {pi}")));
        }
    }
    for f in ["factory", "pool", "tick-lo", "tick-up", "word", "position", "observation", "nft-record", "nft-token", "fee", "vault", "mint", "nft-mint", "nft-holding"] {
        m.push((key(&format!("fake-{f}")), format!("fake {f}")));
    }
    m.into_iter().find(|x| x.0 == *k).map(|x| x.1).unwrap_or_else(|| k.to_string())
}

/// is every change between the two confined to the given pool's accounts?
fn pool_keys(scn: &Scn, pi: usize) -> HashSet<Pubkey> {
    let p = &scn.env.pools[pi];
    let mut s: HashSet<Pubkey> = [p.key, p.v0, p.v1].into();
    for t in (-4..=4).map(|x| x * 60) {
        s.insert(p.tick(t));
    }
    for x in -6i16..=6 {
        s.insert(p.word(x));
    }
    for x in 0..8 {
        s.insert(p.obs(x));
    }
    for (lo, up) in &scn.ranges[pi] {
        for u in scn.env.users.iter().chain([&factory_key()]) {
            s.insert(p.pos(u, *lo, *up));
        }
    }
    s
}

struct Case {
    what: String,
    trace: Vec<String>,
}

/// one substituted transaction
#[allow(clippy::too_many_arguments)]
fn judge_case(id: &str, scn: &Scn, n: &Node, t: &Tpl, plain: &Bank, ix: Instruction, strict: bool, slots: &[usize], extra_signer: Option<Pubkey>, desc: &dyn Fn() -> Vec<String>, out: &mut Vec<Case>, acc: &mut u64) {
    let mut b = n.bank.clone();
    let mut signers = t.signers.clone();
    signers.extend(extra_signer);
    let ixs = [ix];
    if process(&mut b, &ixs, &signers).is_err() {
        return;
    }
    *acc += 1;
    if b.hash() == plain.hash() {
        return;
    }
    // who really consented: the keys that the transaction marks as signers
    let signed: Vec<Pubkey> = ixs[0].accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    let j = Judge::new(scn);
    let mut bad = j.all(&n.bank, &b, &signed);
    // a plain callback is a transfer: everything about it is the caller's choice
    let free = t.choice.len() == t.ix.accounts.len();
    if strict && !free && !slots.iter().all(|s| t.choice.contains(s)) {
        bad.push("the result depends on an account that must be fixed by the call".into());
    }
    if let Some(pi) = t.pool {
        if strict {
            for (qi, _) in scn.env.pools.iter().enumerate().filter(|x| x.0 != pi) {
                let keys = pool_keys(scn, qi);
                if changed_keys(&n.bank, &b).iter().any(|k| keys.contains(k) && scn.env.pools.iter().all(|p| *k != p.v0 && *k != p.v1)) {
                    bad.push(format!("an account of pool {qi} changed"));
                }
            }
        }
    }
    let vault = |s: &usize| t.ix.accounts.get(*s).is_some_and(|m| scn.env.pools.iter().any(|p| m.pubkey == p.v0 || m.pubkey == p.v1));
    let relevant = |w: &String| match id {
        // only what concerns the payment
        "C26" => w.contains("owed") || w.contains("vault") || slots.iter().any(vault),
        // only what concerns other pools than the one named
        "C35" => w.starts_with("an account of pool"),
        "C07" => !t.name.starts_with("mint") || w.contains("position") || w.contains("token account"),
        _ => true,
    };
    if let Some(x) = bad.into_iter().find(relevant) {
        out.push(Case { what: format!("{} accepted with substituted accounts: {x}", t.name), trace: desc() });
    }
}

/// foreign programs accept any call and do nothing
fn idle_callbacks() {
    for i in 0..2 {
        set_handler(evil_program(i), Some(Rc::new(|_, _, _| Ok(()))));
    }
}

pub fn substitution(id: &str, x: &mut Matrix) {
    for wait in [0i64, 20] {
        let (scn, n) = market(wait);
        let ts: Vec<Tpl> = templates(&scn, &n).into_iter().filter(|t| id == "C17" || (id == "C35" && t.pool.is_some()) || t.props.contains(&id)).collect();
        let cand = candidates(&scn, &n);
        let plains: Vec<Option<Bank>> = ts
            .iter()
            .map(|t| {
                let mut b = n.bank.clone();
                process(&mut b, &[t.ix.clone()], &t.signers).ok().map(|_| b)
            })
            .collect();
        let group = format!("accounts-{wait}s");
        for (t, p) in ts.iter().zip(&plains) {
            match p {
                None => {
                    if id == "C17" {
                        let mut b = n.bank.clone();
                        let e = process(&mut b, &[t.ix.clone()], &t.signers).err().map(|e| e.text()).unwrap_or_default();
                        x.notes.push(format!("{}: the unchanged call is rejected ({e})", t.name));
                    }
                }
                Some(b) => {
                    let j = Judge::new(&scn);
                    let signed: Vec<Pubkey> = t.ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
                    for y in j.all(&n.bank, b, &signed) {
                        x.found.push(Report { group: group.clone(), path: vec![], trace: vec![t.name.into()], what: format!("{}: {y}", t.name) });
                    }
                }
            }
        }
        // single replacements, privileges and omissions
        let mut jobs: Vec<(usize, usize)> = vec![];
        for (ti, t) in ts.iter().enumerate() {
            if plains[ti].is_some() {
                for s in 0..t.ix.accounts.len() {
                    jobs.push((ti, s));
                }
            }
        }
        let nm = |k: &Pubkey| name_of(&scn, k);
        let res = par(jobs.len(), |ji| {
            let (ti, s) = jobs[ji];
            let t = &ts[ti];
            let plain = plains[ti].as_ref().unwrap();
            idle_callbacks();
            let mut out = vec![];
            let (mut tx, mut acc) = (0u64, 0u64);
            let old = t.ix.accounts[s].clone();
            for c in &cand {
                if *c == old.pubkey {
                    continue;
                }
                for (signer, writable) in [(old.is_signer, old.is_writable), (old.is_signer, true)] {
                    if (signer, writable) == (old.is_signer, old.is_writable) || !old.is_writable {
                        let mut ix = t.ix.clone();
                        ix.accounts[s] = AccountMeta { pubkey: *c, is_signer: signer, is_writable: writable };
                        tx += 1;
                        // a replaced signer signs for itself
                        let extra = if signer { Some(*c) } else { None };
                        judge_case(id, &scn, &n, t, plain, ix, true, &[s], extra, &|| vec![t.name.into(), format!("account {s} ({}) is {}", nm(&old.pubkey), nm(c))], &mut out, &mut acc);
                    }
                }
                if old.is_signer {
                    // named but not signing
                    let mut ix = t.ix.clone();
                    ix.accounts[s] = AccountMeta { pubkey: *c, is_signer: false, is_writable: old.is_writable };
                    tx += 1;
                    judge_case(id, &scn, &n, t, plain, ix, true, &[s], None, &|| vec![t.name.into(), format!("account {s} ({}) is {}, unsigned", nm(&old.pubkey), nm(c))], &mut out, &mut acc);
                }
            }
            let mut change = |what: String, f: &dyn Fn(&mut Instruction)| {
                let mut ix = t.ix.clone();
                f(&mut ix);
                tx += 1;
                judge_case(id, &scn, &n, t, plain, ix, true, &[usize::MAX], None, &|| vec![t.name.into(), what.clone()], &mut out, &mut acc);
            };
            if old.is_signer {
                change(format!("account {s} ({}) does not sign", nm(&old.pubkey)), &|ix| ix.accounts[s].is_signer = false);
            }
            if old.is_writable {
                change(format!("account {s} ({}) is read-only", nm(&old.pubkey)), &|ix| ix.accounts[s].is_writable = false);
            }
            change(format!("account {s} ({}) left out", nm(&old.pubkey)), &|ix| {
                ix.accounts.remove(s);
            });
            change(format!("account {s} ({}) given twice", nm(&old.pubkey)), &|ix| {
                let m = ix.accounts[s].clone();
                ix.accounts.insert(s, m);
            });
            if s + 1 < t.ix.accounts.len() {
                change(format!("accounts {s} and {} swapped", s + 1), &|ix| ix.accounts.swap(s, s + 1));
            }
            if s + 1 == t.ix.accounts.len() {
                change("no accounts after the first".into(), &|ix| ix.accounts.truncate(1));
            }
            (out, tx, acc)
        });
        let mut acc = 0;
        for (o, tx, a) in res {
            x.transitions += tx;
            acc += a;
            for c in o {
                x.found.push(Report { group: group.clone(), path: vec![], trace: c.trace, what: c.what });
            }
        }
        x.states += jobs.len() as u64;
        x.validated += acc;
        let singles = x.transitions;
        // combinations of replacements by accounts of the same kind
        let same: Vec<Vec<Vec<Pubkey>>> = ts
            .iter()
            .map(|t| t.ix.accounts.iter().map(|m| cand.iter().filter(|c| **c != m.pubkey && kind(&n.bank, c) == kind(&n.bank, &m.pubkey) && !kind(&n.bank, c).3).copied().collect()).collect())
            .collect();
        let mut jobs: Vec<(usize, usize, usize)> = vec![];
        for (ti, t) in ts.iter().enumerate() {
            if plains[ti].is_none() || id == "C35" {
                continue;
            }
            for s in 0..t.ix.accounts.len() {
                for r in s + 1..t.ix.accounts.len() {
                    jobs.push((ti, s, r));
                }
            }
        }
        let deep = x.thorough;
        let late = std::sync::atomic::AtomicBool::new(false);
        let limit = x.deadline;
        let res = par(jobs.len(), |ji| {
            let (ti, s, r) = jobs[ji];
            let t = &ts[ti];
            let plain = plains[ti].as_ref().unwrap();
            idle_callbacks();
            let mut out = vec![];
            let (mut tx, mut acc) = (0u64, 0u64);
            let set = |ix: &mut Instruction, s: usize, c: &Pubkey, extra: &mut Option<Pubkey>| {
                ix.accounts[s].pubkey = *c;
                // only the attacker signs for somebody else's place
                if ix.accounts[s].is_signer {
                    if *c == scn.env.users[2] {
                        *extra = Some(*c);
                    } else {
                        ix.accounts[s].is_signer = false;
                    }
                }
            };
            for c in &same[ti][s] {
                for d in &same[ti][r] {
                    let mut ix = t.ix.clone();
                    let mut extra = None;
                    set(&mut ix, s, c, &mut extra);
                    set(&mut ix, r, d, &mut extra);
                    tx += 1;
                    let base = ix.clone();
                    judge_case(
                        id,
                        &scn,
                        &n,
                        t,
                        plain,
                        ix,
                        false,
                        &[],
                        extra,
                        &|| vec![t.name.into(), format!("account {s} is {}", nm(c)), format!("account {r} is {}", nm(d))],
                        &mut out,
                        &mut acc,
                    );
                    if deep && limit.is_some_and(|d| std::time::Instant::now() > d) {
                        late.store(true, Ordering::Relaxed);
                    } else if deep {
                        for q in r + 1..t.ix.accounts.len() {
                            for e in &same[ti][q] {
                                let mut ix = base.clone();
                                let mut extra = extra;
                                set(&mut ix, q, e, &mut extra);
                                tx += 1;
                                judge_case(
                                    id,
                                    &scn,
                                    &n,
                                    t,
                                    plain,
                                    ix,
                                    false,
                                    &[],
                                    extra,
                                    &|| vec![t.name.into(), format!("account {s} is {}", nm(c)), format!("account {r} is {}", nm(d)), format!("account {q} is {}", nm(e))],
                                    &mut out,
                                    &mut acc,
                                );
                            }
                        }
                    }
                }
            }
            (out, tx, acc)
        });
        for (o, tx, a) in res {
            x.transitions += tx;
            acc += a;
            for c in o {
                x.found.push(Report { group: group.clone(), path: vec![], trace: c.trace, what: c.what });
            }
        }
        x.capped |= late.load(Ordering::Relaxed);
        x.states += jobs.len() as u64;
        x.notes.push(format!(
            "{} calls, {} candidate accounts, {wait} s after the last observation: {} single changes, {} transactions in all, {acc} accepted and judged",
            ts.len(),
            cand.len(),
            singles,
            x.transitions
        ));
        if x.samples.len() < 6 {
            for t in ts.iter().take(2) {
                x.samples.push(format!("{} with account 1 replaced by each of {} candidates", t.name, cand.len()));
            }
        }
    }
}

// ------------------------------------------------------------------------------------ C16

pub fn ownership(_id: &str, x: &mut Matrix) {
    let depth = if x.thorough { 6 } else { 4 };
    let (mut env, mut b0) = Env::base(3, 2, 1 << 40, 1000);
    // accrue protocol fees in a live pool first
    env.add_pool(&mut b0, 0, 1, 3000, 60, 1 << 32);
    let p = env.pools[0].clone();
    zc_edit::<PoolState>(&mut b0, &p.key, |s| {
        s.protocol_fees_token_0 = 500;
        s.protocol_fees_token_1 = 700;
    });
    for v in [p.v0, p.v1] {
        tok_set(&mut b0, &v, 10_000);
    }
    let admin = factory_v(&b0).map(|f| f.owner);
    if admin != Some(env.admin) {
        x.found.push(Report { group: "ownership".into(), path: vec![], trace: vec!["init_factory".into()], what: format!("the initialiser is not the owner: {admin:?}") });
    }
    // the last two can never sign: the null address and one that holds nothing
    let people: Vec<Pubkey> = vec![env.admin, env.users[0], env.users[1], Pubkey::default(), key("nobody")];
    // (description, instruction, signers, named owner, properly signed)
    #[derive(Clone)]
    struct Call {
        name: String,
        ix: Instruction,
        signers: Vec<Pubkey>,
        named: Pubkey,
        signed: bool,
        new_owner: Option<Pubkey>,
        init: bool,
    }
    let mut calls: Vec<Call> = vec![];
    for (i, o) in people.iter().enumerate() {
        for signed in [true, false] {
            for (si, s) in people.iter().enumerate().take(3) {
                if signed && s != o {
                    continue;
                }
                let mut ixs: Vec<(String, Instruction, Option<Pubkey>, bool)> = vec![];
                for (k, nw) in people.iter().enumerate() {
                    ixs.push((format!("set_owner -> {k}"), env.ix_set_owner(*o, *nw), Some(*nw), false));
                }
                ixs.push(("enable_fee_amount 700/7".into(), env.ix_enable_fee(*o, 700, 7), None, false));
                ixs.push(("enable_fee_amount 800/8".into(), env.ix_enable_fee(*o, 800, 8), None, false));
                ixs.push(("set_fee_protocol 7".into(), env.ix_set_fee_protocol(*o, 7), None, false));
                ixs.push(("collect_protocol".into(), env.ix_collect_protocol(*o, &p, env.tok[2][0], env.tok[2][1], 100, 100), None, false));
                ixs.push(("init_factory".into(), env.ix_init_factory(*o), None, true));
                for (name, mut ix, no, init) in ixs {
                    if !signed {
                        ix.accounts[0].is_signer = false;
                    }
                    calls.push(Call { name: format!("{name} as {i}{}", if signed { String::new() } else { format!(" unsigned (sent by {si})") }), ix, signers: vec![*s], named: *o, signed, new_owner: no, init });
                }
            }
        }
    }
    let mut seen = HashSet::new();
    seen.insert(b0.hash());
    let mut frontier: Vec<(Bank, Pubkey, Vec<String>)> = vec![(b0.clone(), env.admin, vec![])];
    for _ in 0..depth {
        let res = par(frontier.len(), |fi| {
            let (b, owner, path) = &frontier[fi];
            let mut next = vec![];
            let mut bad = vec![];
            let mut tx = 0u64;
            for c in &calls {
                let mut nb = b.clone();
                tx += 1;
                let ok = process(&mut nb, &[c.ix.clone()], &c.signers).is_ok();
                let mut path = path.clone();
                path.push(c.name.clone());
                let may = !c.init && c.signed && c.named == *owner;
                let mut rep = |what: String| bad.push(Report { group: "ownership".into(), path: vec![], trace: path.clone(), what });
                if ok && !may {
                    rep(format!("{} accepted without the current owner's authority", c.name));
                }
                let fee_exists = (c.name.starts_with("enable_fee_amount 700") && fee_v(b, 700).is_some()) || (c.name.starts_with("enable_fee_amount 800") && fee_v(b, 800).is_some());
                if !ok && may && !fee_exists {
                    rep(format!("{} rejected although the current owner signed", c.name));
                }
                let f = factory_v(&nb);
                let want_owner = if ok && c.new_owner.is_some() && may { c.new_owner.unwrap() } else { *owner };
                if f.as_ref().map(|f| f.owner) != Some(want_owner) {
                    rep(format!("owner is {:?}, expected {want_owner}", f.as_ref().map(|f| f.owner)));
                }
                if !ok && nb.hash() != b.hash() {
                    rep("a rejected call had an effect".into());
                }
                if ok {
                    let fp = if c.name.starts_with("set_fee_protocol") { 7 } else { factory_v(b).unwrap().fee_protocol };
                    if f.map(|f| f.fee_protocol) != Some(fp) {
                        rep(format!("{} changed the protocol fee", c.name));
                    }
                    if seen_new(&nb, b) {
                        next.push((nb, want_owner, path));
                    }
                }
            }
            (next, bad, tx)
        });
        let mut nf = vec![];
        for (nx, bad, tx) in res {
            x.transitions += tx;
            x.found.extend(bad);
            for (b, o, p) in nx {
                if seen.insert(b.hash()) {
                    nf.push((b, o, p));
                }
            }
        }
        x.states += nf.len() as u64;
        x.validated += nf.len() as u64;
        if x.samples.len() < 6 {
            if let Some(z) = nf.last() {
                x.samples.push(z.2.join(" ; "));
            }
        }
        frontier = nf;
    }
    // every parameter value a stranger could try, under the first owner and after a transfer
    let mut moved = b0.clone();
    process(&mut moved, &[env.ix_set_owner(env.admin, env.users[1])], &[env.admin]).unwrap();
    for (b, strangers, owner) in [(&b0, vec![0usize, 1, 2], env.admin), (&moved, vec![0, 2, 9], env.users[1])] {
        let mut cases: Vec<(Pubkey, Instruction, String)> = vec![];
        for si in strangers {
            let s = if si == 9 { env.admin } else { env.users[si] };
            for fee in [0u32, 1, 100, 500, 701, 10_000, 999_999, 1_000_000, u32::MAX] {
                for sp in [0u16, 1, 2, 5, 10, 60, 200, 255, 256, 16_383, 16_384, u16::MAX] {
                    cases.push((s, env.ix_enable_fee(s, fee, sp), format!("enable_fee_amount {fee}/{sp}")));
                }
            }
            for n in 0..=255u8 {
                cases.push((s, env.ix_set_fee_protocol(s, n), format!("set_fee_protocol {n}")));
            }
            for a0 in [0u64, 1, 499, 500, 501, u64::MAX] {
                for a1 in [0u64, 1, 699, 700, 701, u64::MAX] {
                    for r in 0..3 {
                        cases.push((s, env.ix_collect_protocol(s, &p, env.tok[r][0], env.tok[r][1], a0, a1), format!("collect_protocol {a0}/{a1} to user {r}")));
                    }
                }
            }
            for to in people.iter().chain([&s, &factory_key(), &p.key, &system_id(), &core_id()]) {
                cases.push((s, env.ix_set_owner(s, *to), format!("set_owner {to}")));
            }
        }
        let res = par(cases.len(), |i| {
            let (s, ix, d) = &cases[i];
            let mut out = vec![];
            let mut c = b.clone();
            if process(&mut c, &[ix.clone()], &[*s]).is_ok() {
                out.push(format!("{d} accepted from {s} while {owner} is the owner"));
            }
            // naming the owner without the owner's signature
            let mut un = ix.clone();
            un.accounts[0].pubkey = owner;
            un.accounts[0].is_signer = false;
            let mut c = b.clone();
            if process(&mut c, &[un], &[*s]).is_ok() {
                out.push(format!("{d} accepted without the owner's signature"));
            }
            out
        });
        x.transitions += 2 * cases.len() as u64;
        for w in res.into_iter().flatten() {
            x.found.push(Report { group: "ownership".into(), path: vec![], trace: vec![w.clone()], what: w });
        }
    }
    // before initialisation nobody owns the protocol: nothing privileged works, anybody may initialise once
    let (env2, full) = Env::base(2, 2, 1 << 40, 1000);
    let mut empty = full.clone();
    empty.remove(&factory_key());
    for o in [env2.admin, env2.users[0], env2.users[1]] {
        for ix in [env2.ix_set_owner(o, o), env2.ix_enable_fee(o, 700, 7), env2.ix_set_fee_protocol(o, 7)] {
            let mut b = empty.clone();
            x.transitions += 1;
            if process(&mut b, &[ix], &[o]).is_ok() {
                x.found.push(Report { group: "ownership".into(), path: vec![], trace: vec!["before init_factory".into()], what: "a privileged call works before initialisation".into() });
            }
        }
        let mut b = empty.clone();
        x.transitions += 2;
        let mut un = env2.ix_init_factory(o);
        un.accounts[0].is_signer = false;
        if process(&mut b, &[un], &[]).is_ok() {
            x.found.push(Report { group: "ownership".into(), path: vec![], trace: vec!["init_factory".into()], what: "init_factory works without a signature".into() });
        }
        let mut b = empty.clone();
        if process(&mut b, &[env2.ix_init_factory(o)], &[o]).is_err() || factory_v(&b) != Some(FactoryV { owner: o, fee_protocol: 3 }) {
            x.found.push(Report { group: "ownership".into(), path: vec![], trace: vec!["init_factory".into()], what: format!("after initialisation by {o} the factory is {:?}", factory_v(&b)) });
        }
        for q in [env2.admin, env2.users[0], env2.users[1]] {
            let mut c = b.clone();
            x.transitions += 1;
            if process(&mut c, &[env2.ix_init_factory(q)], &[q]).is_ok() {
                x.found.push(Report { group: "ownership".into(), path: vec![], trace: vec!["init_factory twice".into()], what: "the factory can be initialised twice".into() });
            }
        }
    }
    x.notes.push(format!("administrative calls: {} calls by {} identities (signed, unsigned, signed by somebody else), all sequences to depth {depth}: {} states, {} transactions", calls.len(), people.len(), x.states, x.transitions));
}
fn seen_new(a: &Bank, b: &Bank) -> bool {
    a.hash() != b.hash()
}

// ------------------------------------------------------------------------------------ C18

pub fn creation(_id: &str, x: &mut Matrix) {
    let (env, b0) = Env::base(2, 3, 1 << 40, 1234);
    let mut b = b0.clone();
    env.enable_fee(&mut b, 500, 10);
    env.enable_fee(&mut b, 3000, 60);
    let rep = |x: &mut Matrix, trace: Vec<String>, what: String| x.found.push(Report { group: "creation".into(), path: vec![], trace, what });
    // fee-tier parameters
    for fee in [0u32, 1, 100, 499, 500, 3000, 999_998, 999_999, 1_000_000, 1_000_001, 1 << 24, u32::MAX] {
        for sp in [0u16, 1, 2, 10, 60, 16382, 16383, 16384, 16385, 32767, 32768, 65535] {
            let mut c = b.clone();
            x.transitions += 1;
            let ok = process(&mut c, &[env.ix_enable_fee(env.admin, fee, sp)], &[env.admin]).is_ok();
            let want = fee < 1_000_000 && sp > 0 && sp < 16384 && fee != 500 && fee != 3000;
            if ok != want {
                rep(x, vec![format!("enable_fee_amount {fee}/{sp}")], format!("fee tier {fee}/{sp} accepted: {ok}, expected {want}"));
            }
            if ok && fee_v(&c, fee) != Some((fee, sp)) {
                rep(x, vec![format!("enable_fee_amount {fee}/{sp}")], format!("fee tier is {:?}", fee_v(&c, fee)));
            }
            if ok {
                // once only
                x.transitions += 1;
                let before = c.hash();
                if process(&mut c, &[env.ix_enable_fee(env.admin, fee, if sp == 1 { 2 } else { 1 })], &[env.admin]).is_ok() || c.hash() != before {
                    rep(x, vec![format!("enable_fee_amount {fee}/{sp} twice")], "a fee tier can be enabled twice".into());
                }
            }
        }
    }
    // creations: sequences of up to two (thorough: three) over all pairs, tiers, creators and prices
    let mut prices = vec![0u64, 1, rm::MIN_SQRT - 1, rm::MIN_SQRT, rm::MIN_SQRT + 1, rm::MIN_SQRT + 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, rm::MAX_SQRT - 2, rm::MAX_SQRT - 1, rm::MAX_SQRT, rm::MAX_SQRT + 1, 1 << 48, 1 << 63, u64::MAX];
    let step = if x.thorough { 97 } else { 1009 };
    let mut t = rm::MIN_TICK;
    while t <= rm::MAX_TICK {
        let s = rm::sqrt_tab(t);
        prices.extend([s - 1, s, s + 1]);
        t += step;
    }
    for k in 17..48 {
        prices.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    prices.sort();
    prices.dedup();
    let one = |c: &mut Bank, m0: usize, m1: usize, fee: u32, price: u64, u: usize| -> bool {
        let (a, z) = (env.mints[m0], env.mints[m1]);
        let mut pk = env.pool_key(m0, m1, fee, 1);
        pk.m0 = a;
        pk.m1 = z;
        process(c, &[env.ix_create_pool(env.users[u], &pk, price)], &[env.users[u]]).is_ok()
    };
    let pricejobs = prices.clone();
    let res = par(pricejobs.len(), |i| {
        let price = pricejobs[i];
        let mut bad: Vec<(Vec<String>, String)> = vec![];
        let mut c = b.clone();
        let ok = one(&mut c, 0, 1, 3000, price, 0);
        let want = (rm::MIN_SQRT..rm::MAX_SQRT).contains(&price);
        let tr = vec![format!("create_and_init_pool at price {price}")];
        if ok != want {
            bad.push((tr.clone(), format!("a pool at price {price} is accepted: {ok}, expected {want}")));
        }
        if ok {
            let pk = env.pool_key(0, 1, 3000, 60);
            let v = pool_v(&c, &pk.key);
            let w = PoolV {
                token_0: env.mints[0],
                token_1: env.mints[1],
                fee: 3000,
                spacing: 60,
                liq: 0,
                sqrt_p: price,
                tick: rm::tick_at(price),
                obs_index: 0,
                card: 1,
                card_next: 1,
                fg0: 0,
                fg1: 0,
                pf0: 0,
                pf1: 0,
                unlocked: true,
            };
            if want && v.as_ref() != Some(&w) {
                bad.push((tr.clone(), format!("the new pool is {v:?}")));
            }
            let o = obs_v(&c, &pk.obs(0));
            if o != Some(ObsV { index: 0, ts: 1234, tc: 0, spl: 0, init: true }) {
                bad.push((tr, format!("the first observation is {o:?}")));
            }
        }
        bad
    });
    x.transitions += prices.len() as u64;
    for (tr, what) in res.into_iter().flatten() {
        rep(x, tr, what);
    }
    // identities
    #[derive(Clone, Debug)]
    enum C {
        Pool(usize, usize, u32, u64, usize),
        Tier(u32, u16),
    }
    let mut calls = vec![];
    for m0 in 0..3 {
        for m1 in 0..3 {
            for fee in [500u32, 3000, 10000] {
                for (price, u) in [(1u64 << 32, 0), ((1 << 32) + 5, 1)] {
                    calls.push(C::Pool(m0, m1, fee, price, u));
                }
            }
        }
    }
    calls.push(C::Tier(10000, 200));
    calls.push(C::Tier(10000, 100));
    calls.push(C::Tier(500, 100));
    let depth = if x.thorough { 3 } else { 2 };
    let ascending = |m0: usize, m1: usize| env.mints[m0] < env.mints[m1];
    let mut frontier: Vec<(Bank, Vec<C>)> = vec![(b.clone(), vec![])];
    let mut seen = HashSet::new();
    for _ in 0..depth {
        let res = par(frontier.len(), |fi| {
            let (b, path) = &frontier[fi];
            let mut next = vec![];
            let mut bad = vec![];
            for c in &calls {
                let mut nb = b.clone();
                let mut np = path.clone();
                np.push(c.clone());
                let tr: Vec<String> = np.iter().map(|c| format!("{c:?}")).collect();
                let (ok, want) = match c {
                    C::Pool(m0, m1, fee, price, u) => {
                        let exists = path.iter().any(|q| matches!(q, C::Pool(a, z, f, _, _) if a == m0 && z == m1 && f == fee));
                        let tier = *fee != 10000 || path.iter().any(|q| matches!(q, C::Tier(10000, _)));
                        (one(&mut nb, *m0, *m1, *fee, *price, *u), ascending(*m0, *m1) && tier && !exists)
                    }
                    C::Tier(f, s) => {
                        let exists = *f == 500 || path.iter().any(|q| matches!(q, C::Tier(g, _) if g == f));
                        (process(&mut nb, &[env.ix_enable_fee(env.admin, *f, *s)], &[env.admin]).is_ok(), !exists)
                    }
                };
                if ok != want {
                    bad.push((tr.clone(), format!("{c:?} accepted: {ok}, expected {want}")));
                }
                if ok {
                    // what was created before stays as it was
                    for k in b.accs.keys() {
                        if b.get(k).is_some_and(|a| a.owner == core_id() && *k != factory_key()) && nb.data(k) != b.data(k) {
                            bad.push((tr.clone(), format!("existing account {k} changed")));
                        }
                    }
                    if let C::Pool(m0, m1, fee, price, _) = c {
                        let sp = if *fee == 500 { 10 } else if *fee == 3000 { 60 } else { path.iter().find_map(|q| if let C::Tier(10000, s) = q { Some(*s) } else { None }).unwrap_or(0) };
                        let k = env.pool_key(*m0, *m1, *fee, sp);
                        let v = pool_v(&nb, &k.key);
                        if !v.as_ref().is_some_and(|v| v.token_0 == env.mints[*m0] && v.token_1 == env.mints[*m1] && v.fee == *fee && v.spacing == sp && v.sqrt_p == *price) {
                            bad.push((tr.clone(), format!("the new pool is {v:?}")));
                        }
                    }
                    next.push((nb, np));
                } else if nb.hash() != b.hash() {
                    bad.push((tr, "a rejected creation had an effect".into()));
                }
            }
            (next, bad)
        });
        x.transitions += (frontier.len() * calls.len()) as u64;
        let mut nf = vec![];
        for (nx, bad) in res {
            for (tr, what) in bad {
                rep(x, tr, what);
            }
            for (b, p) in nx {
                if seen.insert(b.hash()) {
                    nf.push((b, p));
                }
            }
        }
        x.states += nf.len() as u64;
        x.validated += nf.len() as u64;
        if let Some(l) = nf.last() {
            x.samples.push(l.1.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(" ; "));
        }
        frontier = nf;
    }
    x.notes.push(format!("creation: {} prices, fee-tier grid of 144, all sequences to depth {depth} over {} creations: {} transactions", prices.len(), calls.len(), x.transitions));
}

// ------------------------------------------------------------------------------------ callbacks

fn amounts_of(data: &[u8]) -> (i128, i128) {
    let g = |a: usize| i64::from_le_bytes(data[a..a + 8].try_into().unwrap());
    if data[..8] == sighash("swap_callback") {
        (g(8) as i128, g(16) as i128)
    } else {
        (g(8) as u64 as i128, g(16) as u64 as i128)
    }
}
/// transfers made by the callback program with the caller's signature
fn pay(from: &Pubkey, to: &Pubkey, auth: &Pubkey, amt: u64) {
    let ix = ti::transfer(&spl_token::id(), from, to, auth, &[], amt).unwrap();
    let _ = solana_program::program::invoke(&ix, &[]);
}

/// A world for callbacks: two pools over the same tokens, the attacker is user 1.
fn cb_world() -> (Scn, Node) {
    let mut b = scen::B::new("callbacks", 2, 2, 1 << 62, 1000);
    b.pool(0, 1, 3000, 60, 1 << 32);
    b.pool(0, 1, 500, 60, 1 << 32);
    for p in 0..2 {
        for (lo, up) in [(-120, 120), (60, 120), (-120, -60)] {
            b.range(p, lo, up);
        }
    }
    b.pre(vec![
        Op::Mint { u: 0, p: 0, lo: -120, up: 120, liq: 3_000_000 },
        Op::Mint { u: 1, p: 0, lo: -120, up: 120, liq: 2_000_000 },
        Op::Mint { u: 0, p: 1, lo: -120, up: 120, liq: 3_000_000 },
        Op::Swap { u: 0, p: 0, z: true, amt: 5000, limit: 0 },
        Op::Swap { u: 0, p: 0, z: false, amt: 6000, limit: 0 },
        Op::NftMint { u: 1, to: 1, id: 0, p: 0, lo: -120, up: 120, d: [9000, 9000], m: [0, 0], dl: DL },
        Op::Burn { u: 1, p: 0, lo: -120, up: 120, liq: 500_000 },
        Op::IncObs { u: 0, p: 0, n: 1 },
        Op::Wait(20),
    ]);
    let scn = b.fin(0);
    let mut v = Viols::default();
    let n = prefix(&scn, &mut v, &Stats::default());
    (scn, n)
}

/// outer operations with a foreign callback program
fn outers(scn: &Scn, n: &Node, big: bool) -> Vec<(String, Instruction)> {
    let env = &scn.env;
    let p = &env.pools[0];
    let a = env.users[1];
    let t = env.ta(1, p);
    let ev = evil_program(0);
    let mut v = vec![];
    let liqs: Vec<u64> = if big { vec![1, 2, 999, 70_000, 1 << 40, 1 << 60, (1 << 62) - 1] } else { vec![70_000] };
    for (name, lo, up) in [("in range", -120, 120), ("above the price", 60, 120), ("below the price", -120, -60)] {
        for liq in &liqs {
            v.push((format!("mint {liq} {name}"), env.ix_mint(&n.bank, a, t, p, a, lo, up, *liq, ev)));
        }
    }
    let amts: Vec<i64> = if big { vec![1, 2, 3, 700, 9_000, 1 << 40, i64::MAX, -1, -700, -1_000_000_000] } else { vec![9_000, -700] };
    for z in [true, false] {
        for amt in &amts {
            let mut m = n.model.clone();
            let (extra, _) = swap_extra(env, &n.bank, &mut m, 0, z, *amt, 0);
            let (i, o) = if z { t } else { (t.1, t.0) };
            v.push((format!("swap {amt} {}", if z { "down" } else { "up" }), env.ix_swap(&n.bank, a, i, o, p, z, *amt, lim(z, 0), ev, extra)));
        }
    }
    v
}

pub fn payment(_id: &str, x: &mut Matrix) {
    let (scn, n0) = cb_world();
    let env = &scn.env;
    let p = env.pools[0].clone();
    let q = env.pools[1].clone();
    let a = env.users[1];
    let t = env.ta(1, &p);
    // vault balances as they are, and near the top of the type
    let mut worlds = vec![("", n0.clone())];
    let mut hi = n0.clone();
    tok_set(&mut hi.bank, &p.v0, u64::MAX - (1 << 62));
    tok_set(&mut hi.bank, &p.v1, u64::MAX - 4_000);
    worlds.push((" (vaults nearly full)", hi));
    let mut poor = n0.clone();
    tok_set(&mut poor.bank, &t.0, 10);
    tok_set(&mut poor.bank, &t.1, 10);
    worlds.push((" (payer nearly empty)", poor));
    // one vault much fuller than the other
    for (k, v) in [p.v0, p.v1].iter().enumerate() {
        let mut un = n0.clone();
        let have = tok_amount(&un.bank, v);
        tok_set(&mut un.bank, v, have + (1 << 45));
        worlds.push(([" (vault 0 fuller)", " (vault 1 fuller)"][k], un));
    }
    for (wn, n) in &worlds {
        let os = outers(&scn, n, true);
        #[derive(Clone, Copy, Debug, PartialEq)]
        enum To {
            Right,
            Cross,
            Other,
            Own,
        }
        // per token: offset to the exact amount (None = nothing), and the destination
        let offs: Vec<(Option<i64>, To)> = {
            let mut o = vec![(None, To::Right), (Some(0), To::Right), (Some(-1), To::Right), (Some(1), To::Right), (Some(5000), To::Right)];
            for d in [To::Cross, To::Other, To::Own] {
                o.push((Some(0), d));
                o.push((Some(1), d));
            }
            o
        };
        let mut jobs = vec![];
        for oi in 0..os.len() {
            for i in 0..offs.len() {
                for j in 0..offs.len() {
                    jobs.push((oi, i, j));
                }
            }
        }
        let res = par(jobs.len(), |ji| {
            let (oi, i, j) = jobs[ji];
            let (name, ix) = &os[oi];
            let pre = &n.bank;
            let mut b = pre.clone();
            let plan = [offs[i], offs[j]];
            let (v, vq, tt) = ([p.v0, p.v1], [q.v0, q.v1], [t.0, t.1]);
            let asked = Rc::new(std::cell::Cell::new(None));
            let asked2 = asked.clone();
            let ak = a;
            set_reentry(Reentry::Any);
            set_handler(
                evil_program(0),
                Some(Rc::new(move |_, _, data| {
                    let am = amounts_of(data);
                    asked2.set(Some(am));
                    for k in 0..2 {
                        let due = if k == 0 { am.0 } else { am.1 };
                        let (off, to) = plan[k];
                        let off = match off {
                            None => continue,
                            Some(o) => o,
                        };
                        if due <= 0 && off == 0 {
                            continue;
                        }
                        let amt = (due.max(0) + off as i128).clamp(0, u64::MAX as i128) as u64;
                        let dst = match to {
                            To::Right => v[k],
                            To::Cross => v[1 - k],
                            To::Other => vq[k],
                            To::Own => tt[k],
                        };
                        if dst != tt[k] {
                            pay(&tt[k], &dst, &ak, amt);
                        }
                    }
                    Ok(())
                })),
            );
            let ok = process(&mut b, &[ix.clone()], &[a]).is_ok();
            set_handler(evil_program(0), None);
            set_reentry(Reentry::Solana);
            let mut bad = vec![];
            let am = match asked.get() {
                Some(a) => a,
                // rejected before payment was asked for
                None => {
                    if ok {
                        bad.push("accepted without asking for payment".to_string());
                    }
                    return (bad.into_iter().map(|w| (name.clone(), plan_text(&format!("{plan:?}")), w)).collect::<Vec<_>>(), 0u64);
                }
            };
            let due = [am.0, am.1];
            let mut paid = true;
            let mut possible = true;
            for k in 0..2 {
                let (off, to) = plan[k];
                if due[k] > 0 {
                    let full = matches!(off, Some(o) if o >= 0) && to == To::Right;
                    paid &= full;
                }
                // can the payer afford it and does it fit?
                let amt = match off {
                    Some(o) if !(due[k] <= 0 && o == 0) => (due[k].max(0) + o as i128).max(0),
                    _ => 0,
                };
                let have = tok_amount(pre, &tt[k]) as i128 + (-due[k]).max(0);
                if to != To::Own && amt > have {
                    possible = false;
                }
                let dst = match to {
                    To::Right => tok_amount(pre, &v[k]) as i128 - (-due[k]).max(0),
                    To::Other => tok_amount(pre, &vq[k]) as i128,
                    // a vault of the other token cannot take it
                    To::Cross => {
                        if amt > 0 {
                            possible = false;
                        }
                        0
                    }
                    To::Own => 0,
                };
                if dst + amt > u64::MAX as i128 {
                    possible = false;
                }
            }
            if ok && !paid {
                bad.push(format!("accepted although {due:?} was owed"));
            }
            if !ok && paid && possible {
                bad.push(format!("rejected although all of {due:?} was paid"));
            }
            if ok {
                for k in 0..2 {
                    let d = tok_amount(&b, &v[k]) as i128 - tok_amount(pre, &v[k]) as i128;
                    if d < due[k] {
                        bad.push(format!("vault {k} received {d}, owed {}", due[k]));
                    }
                }
            }
            (bad.into_iter().map(|w| (name.clone(), plan_text(&format!("{plan:?}")), w)).collect::<Vec<_>>(), ok as u64)
        });
        let mut acc = 0;
        for (bad, ok) in res {
            acc += ok;
            for (name, plan, what) in bad {
                x.found.push(Report { group: "payment".into(), path: vec![], trace: vec![format!("{name}{wn}"), plan], what });
            }
        }
        x.transitions += jobs.len() as u64;
        x.states += os.len() as u64;
        x.validated += acc;
        x.notes.push(format!("payment callbacks{wn}: {} operations, {} ways to pay, {} transactions, {acc} accepted", os.len(), offs.len() * offs.len(), jobs.len()));
        x.samples.push(format!("{}{wn}: callback pays {:?}", os[0].0, offs[2]));
    }
}
fn plan_text(s: &str) -> String {
    format!("callback pays {s}")
}

/// Operations on the locked pool from inside the payment callback.
pub fn reentrance(_id: &str, x: &mut Matrix) {
    let (scn, n) = cb_world();
    let env = &scn.env;
    let p = env.pools[0].clone();
    let a = env.users[1];
    let t = env.ta(1, &p);
    let os = outers(&scn, &n, false);
    let of = |op: Op| tx_of(env, &n.bank, &n.model, &op).0.remove(0);
    let mint9 = env.nft_mint_key(9);
    let mut inner: Vec<(String, Instruction)> = vec![];
    for u in 0..2usize {
        let uk = env.users[u];
        let tu = env.ta(u, &p);
        for (lo, up) in [(-120, 120), (60, 120), (-120, -60)] {
            inner.push((format!("mint {lo}..{up} by {u}"), env.ix_mint(&n.bank, uk, tu, &p, uk, lo, up, 1000, core_id())));
        }
        inner.push((format!("burn by {u}"), env.ix_burn(&n.bank, uk, &p, -120, 120, 1000)));
        inner.push((format!("poke by {u}"), env.ix_burn(&n.bank, uk, &p, -120, 120, 0)));
        inner.push((format!("collect by {u}"), env.ix_collect(uk, &p, -120, 120, tu.0, tu.1, ALL, ALL)));
        inner.push((format!("collect nothing by {u}"), env.ix_collect(uk, &p, -120, 120, tu.0, tu.1, 0, 0)));
        for z in [true, false] {
            for amt in [500i64, 20_000, -300] {
                inner.push((format!("swap {amt} {z} by {u}"), of(Op::Swap { u, p: 0, z, amt, limit: 0 })));
            }
            inner.push((format!("exact_input_single {z} by {u}"), of(Op::ExactIn { u, p: 0, z, amt: 500, min: 0, limit: 0, dl: DL })));
            inner.push((format!("exact_input {z} by {u}"), of(Op::Route { u, hops: vec![(0, z)], amt: 500, min: 0, dl: DL })));
        }
        inner.push((format!("increase_observation_cardinality_next by {u}"), of(Op::IncObs { u, p: 0, n: 1 })));
        inner.push((format!("increase_observation_cardinality_next by none by {u}"), env.ix_inc_obs(uk, &p, 2, 0)));
        inner.push((format!("mint_tokenized_position by {u}"), of(Op::NftMint { u, to: u, id: 9, p: 0, lo: -120, up: 120, d: [500, 500], m: [0, 0], dl: DL })));
        inner.push((format!("increase_liquidity by {u}"), of(Op::NftInc { u, id: 0, d: [500, 500], m: [0, 0], dl: DL })));
    }
    inner.push(("decrease_liquidity".into(), of(Op::NftDec { u: 1, id: 0, liq: 1000, m: [0, 0], dl: DL })));
    inner.push(("collect_from_tokenized".into(), of(Op::NftCollect { u: 1, id: 0, a: [ALL, ALL] })));
    inner.push(("collect_protocol".into(), env.ix_collect_protocol(env.admin, &p, t.0, t.1, ALL, ALL)));
    inner.push(("collect_protocol of nothing".into(), env.ix_collect_protocol(env.admin, &p, t.0, t.1, 0, 0)));
    let everybody = [env.users[0], env.users[1], env.admin, mint9];
    // the same call, alone, is valid
    let mut usable = vec![];
    for (name, ix) in inner {
        let mut b = n.bank.clone();
        x.transitions += 1;
        match process(&mut b, &[ix.clone()], &everybody) {
            Ok(_) => usable.push((name, ix)),
            Err(e) => x.notes.push(format!("not usable as inner call: {name}: {}", e.text())),
        }
    }
    let mut jobs = vec![];
    for o in 0..os.len() {
        for i in 0..usable.len() {
            for before in [true, false] {
                jobs.push((o, i, before));
            }
        }
    }
    let (v, tt) = ([p.v0, p.v1], [t.0, t.1]);
    let plain = par(os.len(), |oi| {
        let mut b = n.bank.clone();
        set_reentry(Reentry::Any);
        set_handler(
            evil_program(0),
            Some(Rc::new(move |_, _, data| {
                let am = amounts_of(data);
                for k in 0..2 {
                    let due = if k == 0 { am.0 } else { am.1 };
                    if due > 0 {
                        pay(&tt[k], &v[k], &a, due as u64);
                    }
                }
                Ok(())
            })),
        );
        let r = process(&mut b, &[os[oi].1.clone()], &everybody);
        set_handler(evil_program(0), None);
        set_reentry(Reentry::Solana);
        (r.map(|_| ()).map_err(|e| e.text()), b)
    });
    for (oi, (r, b)) in plain.iter().enumerate() {
        x.transitions += 1;
        if let Err(e) = r {
            x.found.push(Report { group: "reentrance".into(), path: vec![], trace: vec![os[oi].0.clone(), "callback only pays".into()], what: format!("rejected: {e}") });
        } else if !pool_v(b, &p.key).is_some_and(|v| v.unlocked) {
            x.found.push(Report { group: "reentrance".into(), path: vec![], trace: vec![os[oi].0.clone(), "callback only pays".into()], what: "the pool stays locked".into() });
        }
    }
    let res = par(jobs.len(), |ji| {
        let (oi, ii, before) = jobs[ji];
        let mut b = n.bank.clone();
        let ix = usable[ii].1.clone();
        let reached = Rc::new(std::cell::Cell::new(0u8));
        let r2 = reached.clone();
        set_reentry(Reentry::Any);
        set_handler(
            evil_program(0),
            Some(Rc::new(move |_, _, data| {
                let am = amounts_of(data);
                let go = || {
                    r2.set(1);
                    let _ = solana_program::program::invoke(&ix, &[]);
                    r2.set(2);
                };
                if before {
                    go();
                }
                for k in 0..2 {
                    let due = if k == 0 { am.0 } else { am.1 };
                    if due > 0 {
                        pay(&tt[k], &v[k], &a, due as u64);
                    }
                }
                if !before {
                    go();
                }
                Ok(())
            })),
        );
        let r = process(&mut b, &[os[oi].1.clone()], &everybody);
        set_handler(evil_program(0), None);
        set_reentry(Reentry::Solana);
        let trace = vec![os[oi].0.clone(), format!("callback calls {} {} paying", usable[ii].0, if before { "before" } else { "after" })];
        let mut out = vec![];
        // 2: the inner call came back successfully; a later failure of the outer call does not excuse it,
        // because the callback could pay differently
        if reached.get() == 2 {
            out.push(Report { group: "reentrance".into(), path: vec![], trace: trace.clone(), what: format!("{} succeeds while the pool is in use (outer call {})", usable[ii].0, if r.is_ok() { "accepted" } else { "rejected" }) });
        }
        if r.is_ok() && b.hash() != plain[oi].1.hash() && reached.get() != 2 {
            out.push(Report { group: "reentrance".into(), path: vec![], trace, what: "the rejected inner call left a trace".into() });
        }
        (out, reached.get() > 0)
    });
    for (o, hit) in res {
        x.validated += hit as u64;
        x.found.extend(o);
    }
    x.transitions += jobs.len() as u64;
    x.states += os.len() as u64;
    x.notes.push(format!("re-entrance: {} outer operations x {} inner calls x before/after paying, runtime re-entry rules lifted; {} inner calls were reached", os.len(), usable.len(), x.validated));
    x.samples.push(format!("{} whose callback calls {}", os[0].0, usable[0].0));
}

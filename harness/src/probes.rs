//! Differential questions asked in every explored state.
use crate::explore::*;
use crate::model::*;
use crate::refmath as rm;
use crate::scen::DL;
use crate::svm::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

/// Executes one derived operation from the state without keeping the result.
fn ask(scn: &Scn, n: &Node, op: &Op, v: &mut Viols, st: &Stats) -> Option<Node> {
    Stats::inc(&st.probes);
    let mut w = Viols::default();
    let r = step(scn, n, op, &mut w, st);
    for x in w.0 {
        v.0.push(Viol { props: x.props, what: format!("then {op:?}: {}", x.what) });
    }
    match r {
        StepR::New(c) => Some(c),
        _ => None,
    }
}
/// applies the operation to a copy of the model
fn wish(scn: &Scn, n: &Node, op: &Op) -> R<Effect> {
    n.model.clone().apply(&scn.env, &BankWorld(&n.bank), n.bank.now, op)
}

/// Everybody leaves, in several orders; every withdrawal must succeed and pay in full.
pub fn full_exit(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    if n.tainted {
        return;
    }
    let mut exits: Vec<Vec<Op>> = vec![];
    for (pi, p) in n.model.pools.iter().enumerate() {
        for x in &p.positions {
            if let Some(u) = scn.env.users.iter().position(|k| *k == x.owner) {
                exits.push(vec![
                    Op::InitTick { u, p: pi, t: x.lo },
                    Op::InitTick { u, p: pi, t: x.up },
                    Op::Burn { u, p: pi, lo: x.lo, up: x.up, liq: ALL },
                    Op::Collect { u, p: pi, lo: x.lo, up: x.up, a0: ALL, a1: ALL },
                ]);
            }
        }
    }
    for x in &n.model.nfts {
        exits.push(vec![
            Op::InitTick { u: x.holder, p: x.pool, t: x.lo },
            Op::InitTick { u: x.holder, p: x.pool, t: x.up },
            Op::NftDec { u: x.holder, id: x.id, liq: ALL, m: [0, 0], dl: DL },
            Op::NftCollect { u: x.holder, id: x.id, a: [ALL, ALL] },
        ]);
    }
    for pi in 0..n.model.pools.len() {
        exits.push(vec![Op::CollectProtocol { u: 0, p: pi, a: [ALL, ALL] }]);
    }
    let mut orders = vec![exits.clone()];
    if exits.len() > 2 {
        let mut r = exits.clone();
        r.reverse();
        orders.push(r);
        let mut r = exits.clone();
        r.rotate_left(1);
        orders.push(r);
    }
    for o in orders {
        let mut cur = n.clone();
        let mut w = Viols::default();
        for op in o.iter().flatten() {
            // nothing left to take is not a failure
            let due = match op {
                Op::Burn { u, p, lo, up, .. } => cur.model.pools[*p].pos(&scn.env.users[*u], *lo, *up).map(|i| cur.model.pools[*p].positions[i].liq).unwrap_or(0) > 0,
                // an end that was closed while unused is simply created again
                Op::InitTick { p, t, .. } => !BankWorld(&cur.bank).exists(&scn.env.pools[*p].tick(*t)),
                Op::NftDec { id, .. } => cur.model.nfts.iter().any(|x| x.id == *id && x.liq > 0),
                _ => true,
            };
            if !due {
                continue;
            }
            if wish(scn, &cur, op).is_err() {
                if matches!(op, Op::Burn { .. } | Op::Collect { .. } | Op::NftDec { .. } | Op::NftCollect { .. } | Op::CollectProtocol { .. }) {
                    w.add(&["C01"], format!("exit: {op:?} cannot be honoured: {:?}", wish(scn, &cur, op).err()));
                }
                break;
            }
            match ask(scn, &cur, op, &mut w, st) {
                Some(c) => cur = c,
                None => break,
            }
        }
        for mut x in w.0 {
            if !x.props.contains(&"C01") && x.props.iter().any(|p| ["C31", "C06", "C07", "C09", "C27"].contains(p)) {
                x.props.push("C01");
            }
            v.0.push(Viol { what: format!("full exit: {}", x.what), ..x });
        }
    }
}

fn raw(scn: &Scn, b: &mut Bank, m: &Model, op: &Op, st: &Stats) -> bool {
    Stats::inc(&st.probes);
    let (ix, s) = tx_of(&scn.env, b, m, op);
    process(b, &ix, &s).is_ok()
}

/// Mint, then burn and collect in the same instant: never a gain, in either token.
pub fn mint_burn(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    for (pi, pk) in env.pools.iter().enumerate() {
        for (k, (lo, up)) in scn.ranges[pi].iter().enumerate() {
            for liq in [1u64, 997, 1_000_003, 1 << 44] {
                let u = k % env.users.len();
                let t = env.ta(u, pk);
                let mut b = n.bank.clone();
                let cur = n.model.pools[pi].pos(&env.users[u], *lo, *up).map(|i| n.model.pools[pi].positions[i].liq).unwrap_or(0);
                if cur > 0 {
                    raw(scn, &mut b, &n.model, &Op::Burn { u, p: pi, lo: *lo, up: *up, liq: 0 }, st);
                }
                raw(scn, &mut b, &n.model, &Op::Collect { u, p: pi, lo: *lo, up: *up, a0: ALL, a1: ALL }, st);
                let b0 = (tok_amount(&b, &t.0) as i128, tok_amount(&b, &t.1) as i128);
                if !raw(scn, &mut b, &n.model, &Op::Mint { u, p: pi, lo: *lo, up: *up, liq }, st) {
                    continue;
                }
                let b1 = (tok_amount(&b, &t.0) as i128, tok_amount(&b, &t.1) as i128);
                let x = raw(scn, &mut b, &n.model, &Op::Burn { u, p: pi, lo: *lo, up: *up, liq }, st);
                let y = raw(scn, &mut b, &n.model, &Op::Collect { u, p: pi, lo: *lo, up: *up, a0: ALL, a1: ALL }, st);
                if !x || !y {
                    v.add(&["C31", "C02"], format!("pool {pi} {lo}..{up}: liquidity {liq} cannot be withdrawn right after minting"));
                    continue;
                }
                let b2 = (tok_amount(&b, &t.0) as i128, tok_amount(&b, &t.1) as i128);
                if b2.0 > b0.0 || b2.1 > b0.1 {
                    v.add(
                        &["C02"],
                        format!("pool {pi} {lo}..{up}: minting {liq} cost {:?}, burning it paid {:?}", (b0.0 - b1.0, b0.1 - b1.1), (b2.0 - b1.0, b2.1 - b1.1)),
                    );
                }
                if let Some(am) = n.model.pools[pi].amounts(*lo, *up, liq, true) {
                    if (b0.0 - b1.0, b0.1 - b1.1) != (am.0 as i128, am.1 as i128) {
                        v.add(&["C02"], format!("pool {pi} {lo}..{up}: minting {liq} cost {:?}, expected {am:?}", (b0.0 - b1.0, b0.1 - b1.1)));
                    }
                }
                if let Some(am) = n.model.pools[pi].amounts(*lo, *up, liq, false) {
                    if (b2.0 - b1.0, b2.1 - b1.1) != (am.0 as i128, am.1 as i128) {
                        v.add(&["C02"], format!("pool {pi} {lo}..{up}: burning {liq} paid {:?}, expected {am:?}", (b2.0 - b1.0, b2.1 - b1.1)));
                    }
                }
            }
        }
    }
}

/// Swap forth and back: never a profit.
pub fn round_trip(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    let u = env.users.len() - 1;
    for (pi, pk) in env.pools.iter().enumerate() {
        let t = env.ta(u, pk);
        for z in [true, false] {
            for amt in [1i64, 2, 57, 3000, 100_000, -1, -700] {
                let op = Op::Swap { u, p: pi, z, amt, limit: 0 };
                let mut m = n.model.clone();
                if m.apply(env, &BankWorld(&n.bank), n.bank.now, &op).is_err() {
                    continue;
                }
                let mut b = n.bank.clone();
                if !raw(scn, &mut b, &n.model, &op, st) {
                    continue;
                }
                let got = tok_amount(&b, if z { &t.1 } else { &t.0 }) - tok_amount(&n.bank, if z { &t.1 } else { &t.0 });
                if got > 0 {
                    raw(scn, &mut b, &m, &Op::Swap { u, p: pi, z: !z, amt: got as i64, limit: 0 }, st);
                }
                let d0 = tok_amount(&b, &t.0) as i128 - tok_amount(&n.bank, &t.0) as i128;
                let d1 = tok_amount(&b, &t.1) as i128 - tok_amount(&n.bank, &t.1) as i128;
                if d0 >= 0 && d1 >= 0 && (d0 > 0 || d1 > 0) {
                    v.add(&["C04"], format!("pool {pi}: swapping {amt} {} and back yields {d0} / {d1}", if z { "down" } else { "up" }));
                }
            }
        }
    }
}

/// Minimum output exactly met, missed by one, and not set; single pools and routes.
pub fn min_out(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    let u = env.users.len() - 1;
    let out_of = |op: &Op| -> Option<u64> {
        let mut m = n.model.clone();
        let fx = m.apply(env, &BankWorld(&n.bank), n.bank.now, op).ok()?;
        let l = fx.swaps.last()?;
        Some(if l.a0 < 0 || l.a1 > 0 { -l.a0 } else { -l.a1 } as u64)
    };
    let mut base: Vec<Op> = vec![];
    for pi in 0..env.pools.len() {
        for z in [true, false] {
            for amt in [1u64, 900, 20_000] {
                base.push(Op::ExactIn { u, p: pi, z, amt, min: 0, limit: 0, dl: DL });
                base.push(Op::Route { u, hops: vec![(pi, z)], amt, min: 0, dl: DL });
            }
            let m = &n.model.pools[pi];
            let near = if z { m.price - m.price / 400 } else { m.price + m.price / 400 };
            if near > rm::MIN_SQRT && near < rm::MAX_SQRT {
                base.push(Op::ExactIn { u, p: pi, z, amt: 50_000, min: 0, limit: near, dl: DL });
            }
            for pj in 0..env.pools.len() {
                for y in [true, false] {
                    let (a, c) = (&env.pools[pi], &env.pools[pj]);
                    let mid = if z { a.t1 } else { a.t0 };
                    let start = if y { c.t0 } else { c.t1 };
                    if mid == start {
                        base.push(Op::Route { u, hops: vec![(pi, z), (pj, y)], amt: 1500, min: 0, dl: DL });
                        let end = if y { c.t1 } else { c.t0 };
                        for (pk, e) in env.pools.iter().enumerate() {
                            for x in [true, false] {
                                if end == if x { e.t0 } else { e.t1 } {
                                    base.push(Op::Route { u, hops: vec![(pi, z), (pj, y), (pk, x)], amt: 700, min: 0, dl: DL });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for op in base {
        let got = match out_of(&op) {
            Some(g) => g,
            None => continue,
        };
        // the wire format counts a hop's accounts in one byte
        if tx_of(env, &n.bank, &n.model, &op).0[0].accounts.len() > 250 {
            continue;
        }
        for m in [got, got + 1] {
            let o = match &op {
                Op::ExactIn { u, p, z, amt, limit, dl, .. } => Op::ExactIn { u: *u, p: *p, z: *z, amt: *amt, min: m, limit: *limit, dl: *dl },
                Op::Route { u, hops, amt, dl, .. } => Op::Route { u: *u, hops: hops.clone(), amt: *amt, min: m, dl: *dl },
                _ => unreachable!(),
            };
            ask(scn, n, &o, v, st);
        }
    }
}

/// Minimum amounts of liquidity operations exactly met and missed by one.
pub fn min_liq(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    let mut base: Vec<Op> = vec![];
    for (pi, rs) in scn.ranges.iter().enumerate() {
        for (lo, up) in rs {
            for d in [[1000u64, 1000], [50_000, 700], [3, 90_000]] {
                base.push(Op::NftMint { u: 0, to: 1, id: 9, p: pi, lo: *lo, up: *up, d, m: [0, 0], dl: DL });
            }
        }
    }
    for x in &n.model.nfts {
        for d in [[1234u64, 5], [2, 4000]] {
            base.push(Op::NftInc { u: 1, id: x.id, d, m: [0, 0], dl: DL });
        }
        for liq in [ALL, x.liq / 2 + 1, 1] {
            base.push(Op::NftDec { u: x.holder, id: x.id, liq, m: [0, 0], dl: DL });
        }
    }
    for op in base {
        let fx = match wish(scn, n, &op) {
            Ok(f) => f,
            Err(_) => continue,
        };
        // the amounts of the operation as the specification computes them
        let am: [u64; 2] = {
            let e = fx.events.last().unwrap();
            let k = e.len();
            let g = |a: usize| u64::from_le_bytes(e[a..a + 8].try_into().unwrap());
            [g(k - 16), g(k - 8)]
        };
        if let Op::NftMint { d, .. } | Op::NftInc { d, .. } = &op {
            if am[0] > d[0] || am[1] > d[1] {
                v.add(&["C11"], format!("{op:?} would spend {am:?}, more than desired"));
            }
        }
        for m in [am, [am[0] + 1, am[1]], [am[0], am[1] + 1], [am[0] + 1, am[1] + 1], [ALL, 0], [0, ALL]] {
            let mut o = op.clone();
            match &mut o {
                Op::NftMint { m: x, .. } | Op::NftInc { m: x, .. } | Op::NftDec { m: x, .. } => *x = m,
                _ => unreachable!(),
            }
            ask(scn, n, &o, v, st);
        }
    }
}

/// Deadlines around the present and at the ends of the type.
pub fn deadlines(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let now = n.bank.now;
    let mut base: Vec<Op> = vec![];
    for op in &scn.ops {
        match op {
            Op::ExactIn { .. } | Op::Route { .. } | Op::NftMint { .. } | Op::NftInc { .. } | Op::NftDec { .. } => base.push(op.clone()),
            _ => {}
        }
    }
    for op in base {
        if wish(scn, n, &op).is_err() {
            continue;
        }
        for d in [i64::MIN, i64::MIN + now + 1, -(1 << 32) + now, -1, 0, now % 256, (1 << 31) + now, (1 << 32) + now - 1, now - 14, now - 1, now, now + 1, now + 14, i64::MAX] {
            let mut o = op.clone();
            match &mut o {
                Op::ExactIn { dl, .. } | Op::Route { dl, .. } | Op::NftMint { dl, .. } | Op::NftInc { dl, .. } | Op::NftDec { dl, .. } => *dl = d,
                _ => unreachable!(),
            }
            ask(scn, n, &o, v, st);
        }
        // every residue of the time, from the starting state
        if n.path.is_empty() {
            for k in (1..=128).chain([(1i64 << 31) - now, (1 << 32) - now - 1]) {
                let mut late = n.clone();
                late.bank.now += k;
                for d in [now + k - 1, now + k] {
                    let mut o = op.clone();
                    match &mut o {
                        Op::ExactIn { dl, .. } | Op::Route { dl, .. } | Op::NftMint { dl, .. } | Op::NftInc { dl, .. } | Op::NftDec { dl, .. } => *dl = d,
                        _ => unreachable!(),
                    }
                    ask(scn, &late, &o, v, st);
                }
            }
        }
    }
}

/// What every user can take out right now: (per user, per mint) and whether every withdrawal worked.
fn exit_value(scn: &Scn, n: &Node, users: usize, st: &Stats) -> (Vec<Vec<i128>>, Vec<String>) {
    let env = &scn.env;
    let mut b = n.bank.clone();
    let mut bad = vec![];
    let before: Vec<Vec<i128>> = env.tok.iter().take(users).map(|t| t.iter().map(|k| tok_amount(&b, k) as i128).collect()).collect();
    let mut go = |b: &mut Bank, op: Op| {
        Stats::inc(&st.probes);
        let (ix, s) = tx_of(env, b, &n.model, &op);
        if let Err(e) = process(b, &ix, &s) {
            bad.push(format!("{op:?}: {}", e.text()));
        }
    };
    for (pi, p) in env.pools.iter().enumerate() {
        for (lo, up) in &scn.ranges[pi] {
            for u in 0..users {
                if let Some(x) = pos_v(&b, &p.pos(&env.users[u], *lo, *up)) {
                    if x.liq > 0 {
                        go(&mut b, Op::Burn { u, p: pi, lo: *lo, up: *up, liq: x.liq });
                    }
                    if x != PosV::default() {
                        // an end that was closed while unused is simply created again
                        for t in [*lo, *up] {
                            if tick_v(&b, &p.tick(t)).is_none() {
                                go(&mut b, Op::InitTick { u, p: pi, t });
                            }
                        }
                        go(&mut b, Op::Collect { u, p: pi, lo: *lo, up: *up, a0: ALL, a1: ALL });
                    }
                }
            }
        }
    }
    for x in &n.model.nfts {
        if x.holder < users {
            if let Some(s) = nft_v(&b, &nft_state(&env.nft_mint_key(x.id))) {
                if s.liq > 0 {
                    go(&mut b, Op::NftDec { u: x.holder, id: x.id, liq: s.liq, m: [0, 0], dl: DL });
                }
                for t in [s.lo, s.up] {
                    if tick_v(&b, &env.pools[x.pool].tick(t)).is_none() {
                        go(&mut b, Op::InitTick { u: x.holder, p: x.pool, t });
                    }
                }
                go(&mut b, Op::NftCollect { u: x.holder, id: x.id, a: [ALL, ALL] });
            }
        }
    }
    let after: Vec<Vec<i128>> = env.tok.iter().take(users).map(|t| t.iter().map(|k| tok_amount(&b, k) as i128).collect()).collect();
    let gain = before.iter().zip(after).map(|(a, c)| a.iter().zip(c).map(|(x, y)| y - x).collect()).collect();
    (gain, bad)
}

/// A stranger (the last user) does everything that needs no authority; nobody else may be worse off.
pub fn stranger(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    use spl_token::instruction as ti;
    if n.tainted {
        return;
    }
    let env = &scn.env;
    let s = env.users.len() - 1;
    let sk = env.users[s];
    let (base, bad) = exit_value(scn, n, s, st);
    for b in bad {
        v.add(&["C31", "C01"], format!("exit: {b}"));
    }
    let mut acts: Vec<(String, Node)> = vec![];
    let mut model_act = |op: Op, v: &mut Viols| {
        if wish(scn, n, &op).is_ok() {
            if let Some(c) = ask(scn, n, &op, v, st) {
                acts.push((format!("{op:?}"), c));
            }
        } else {
            ask(scn, n, &op, v, st);
        }
    };
    for (pi, pk) in env.pools.iter().enumerate() {
        let sp = pk.spacing as i32;
        let mut ts: Vec<i32> = scn.ranges[pi].iter().flat_map(|r| [r.0, r.1]).collect();
        ts.sort();
        ts.dedup();
        for t in &ts {
            model_act(Op::CloseTick { u: s, p: pi, t: *t }, v);
            model_act(Op::InitTick { u: s, p: pi, t: *t }, v);
        }
        model_act(Op::InitTick { u: s, p: pi, t: ts[ts.len() - 1] + 7 * sp }, v);
        model_act(Op::InitWord { u: s, p: pi, w: 2 }, v);
        model_act(Op::IncObs { u: s, p: pi, n: 1 }, v);
        for (lo, up) in &scn.ranges[pi] {
            model_act(Op::Mint { u: s, p: pi, lo: *lo, up: *up, liq: 12_345 }, v);
            for o in 0..=env.users.len() {
                model_act(Op::InitPos { u: s, p: pi, o, lo: *lo, up: *up }, v);
            }
        }
    }
    for x in &n.model.nfts {
        model_act(Op::NftInc { u: s, id: x.id, d: [700, 900], m: [0, 0], dl: DL }, v);
        model_act(Op::NftInc { u: s, id: x.id, d: [3, 2], m: [0, 0], dl: DL }, v);
        model_act(Op::NftDec { u: s, id: x.id, liq: 1, m: [0, 0], dl: DL }, v);
        model_act(Op::NftCollect { u: s, id: x.id, a: [ALL, ALL] }, v);
        model_act(Op::NftMeta { u: s, id: x.id }, v);
    }
    // things outside the program: donations and lamports sent to program addresses
    let mut raw_act = |name: String, ixs: Vec<solana_program::instruction::Instruction>| {
        let mut c = n.clone();
        Stats::inc(&st.probes);
        if process(&mut c.bank, &ixs, &[sk]).is_ok() {
            acts.push((name, c));
        }
    };
    for (pi, pk) in env.pools.iter().enumerate() {
        let t = env.ta(s, pk);
        for (a, b, i) in [(t.0, pk.v0, 0), (t.1, pk.v1, 1)] {
            raw_act(format!("donate token {i} to pool {pi}"), vec![ti::transfer(&spl_token::id(), &a, &b, &sk, &[], 5).unwrap()]);
        }
        let next = n.model.pools[pi].card_next;
        let mut addrs = vec![pk.obs(next), pk.obs(next + 1), pk.key, pk.v0, pk.word(3)];
        for (lo, up) in &scn.ranges[pi] {
            addrs.extend([pk.tick(*lo), pk.tick(*up), pk.pos(&env.users[0], *lo, *up)]);
        }
        for k in addrs {
            raw_act(format!("send lamports to {k}"), vec![solana_program::system_instruction::transfer(&sk, &k, 1)]);
        }
    }
    let mint9 = env.nft_mint_key(9);
    for k in [nft_state(&mint9), nft_meta(&mint9), ata(&env.users[1], &mint9), mint9] {
        raw_act(format!("send lamports to {k}"), vec![solana_program::system_instruction::transfer(&sk, &k, 1)]);
    }
    // what the others want to do next
    let mut next: Vec<Op> = scn.ops.iter().filter(|o| !matches!(o, Op::Wait(_) | Op::InitTick { .. } | Op::InitWord { .. } | Op::InitPos { .. } | Op::CloseTick { .. })).cloned().collect();
    next.push(Op::NftMint { u: 0, to: 1, id: 9, p: 0, lo: scn.ranges[0][0].0, up: scn.ranges[0][0].1, d: [500, 500], m: [0, 0], dl: DL });
    next.push(Op::IncObs { u: 0, p: 0, n: 2 });
    next.retain(|o| wish(scn, n, o).is_ok());
    for (name, c) in acts {
        let (val, bad) = exit_value(scn, &c, s, st);
        for b in bad {
            v.add(&["C30"], format!("after a stranger's {name}: exit failed: {b}"));
        }
        for (u, (x, y)) in base.iter().zip(val.iter()).enumerate() {
            for (t, (a, b)) in x.iter().zip(y.iter()).enumerate() {
                if b < a {
                    v.add(&["C30"], format!("after a stranger's {name}: user {u} can withdraw {b} of token {t}, {a} before"));
                }
            }
        }
        let closes = name.starts_with("CloseTick") || name.starts_with("NftMeta");
        for o in &next {
            if closes || name.starts_with("Mint") && wish(scn, &c, o).is_err() {
                // closing a tick makes the next user create it again first: nothing is lost
                continue;
            }
            let mut w = Viols::default();
            if wish(scn, &c, o).is_ok() {
                ask(scn, &c, o, &mut w, st);
                for x in w.0 {
                    if x.what.contains("rejected although") {
                        v.add(&["C30"], format!("after a stranger's {name}: {}", x.what));
                    } else {
                        v.0.push(x);
                    }
                }
            } else {
                v.add(&["C30"], format!("after a stranger's {name}: {o:?} is no longer possible"));
            }
        }
    }
}

/// Authority over direct positions: every other user tries to burn and collect.
pub fn thieves(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    for (pi, pk) in env.pools.iter().enumerate() {
        for x in &n.model.pools[pi].positions {
            for (u, uk) in env.users.iter().enumerate() {
                if *uk == x.owner {
                    continue;
                }
                let t = env.ta(u, pk);
                let target = pk.pos(&x.owner, x.lo, x.up);
                let own = pk.pos(uk, x.lo, x.up);
                let mut burn = env.ix_burn(&n.bank, *uk, pk, x.lo, x.up, x.liq.max(1));
                let mut col = env.ix_collect(*uk, pk, x.lo, x.up, t.0, t.1, ALL, ALL);
                for ix in [&mut burn, &mut col] {
                    for a in ix.accounts.iter_mut() {
                        if a.pubkey == own {
                            a.pubkey = target;
                        }
                    }
                }
                // with the thief's signature, and naming the owner without a signature
                for (name, ix) in [("burn", burn), ("collect", col)] {
                    let mut named = ix.clone();
                    named.accounts[0].pubkey = x.owner;
                    named.accounts[0].is_signer = false;
                    for i in [ix, named] {
                        Stats::inc(&st.probes);
                        let mut b = n.bank.clone();
                        if process(&mut b, &[i], &[*uk]).is_ok() {
                            let lost = pos_v(&b, &target) != pos_v(&n.bank, &target);
                            if lost {
                                v.add(&["C07", "C17"], format!("user {u} can {name} from another owner's position {}..{} of pool {pi}", x.lo, x.up));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Authority over position NFTs: users, NFT token accounts and records in every combination.
pub fn nft_thieves(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    let nf = &n.model.nfts;
    if nf.is_empty() {
        return;
    }
    let mut accts: Vec<Pubkey> = vec![];
    for x in nf {
        for u in &env.users {
            accts.push(ata(u, &env.nft_mint_key(x.id)));
        }
    }
    accts.retain(|k| n.bank.get(k).is_some());
    accts.extend(env.tok.iter().flatten());
    for x in nf {
        let mint = env.nft_mint_key(x.id);
        // the range and pool of every NFT combined with the record of this one
        for y in nf {
            let pk = &env.pools[y.pool];
            for a in &accts {
                for (u, uk) in env.users.iter().enumerate() {
                    let t = env.ta(u, pk);
                    let dec = env.ix_nft_decrease(&n.bank, *uk, *a, mint, pk, y.lo, y.up, 1, 0, 0, DL);
                    let col = env.ix_nft_collect(&n.bank, *uk, *a, mint, pk, y.lo, y.up, t.0, t.1, ALL, ALL);
                    let right = *a == ata(&env.users[x.holder], &mint) && (u == x.holder || x.approvals.contains(&(x.holder, u)));
                    let same = (x.pool, x.lo, x.up) == (y.pool, y.lo, y.up);
                    for (name, ix) in [("decrease", dec), ("collect", col)] {
                        Stats::inc(&st.probes);
                        let mut b = n.bank.clone();
                        let ok = process(&mut b, &[ix.clone()], &[*uk]).is_ok();
                        if ok && !(right && same) {
                            v.add(
                                &["C08"],
                                format!("user {u} can {name} NFT {} (held by {}) with token account {a} on the pool and range of NFT {}", x.id, x.holder, y.id),
                            );
                        }
                        // the signature is what gives the authority
                        let mut un = ix;
                        un.accounts[0].is_signer = false;
                        let mut b = n.bank.clone();
                        if process(&mut b, &[un], &[]).is_ok() {
                            v.add(&["C08"], format!("{name} of NFT {} works without a signature", x.id));
                        }
                    }
                }
            }
            // increase: anybody may pay, but only into the NFT's own pool and range
            if (x.pool, x.lo, x.up) != (y.pool, y.lo, y.up) {
                let ix = env.ix_nft_increase(&n.bank, env.users[0], mint, env.ta(0, pk), pk, y.lo, y.up, 500, 500, 0, 0, DL);
                Stats::inc(&st.probes);
                let mut b = n.bank.clone();
                if process(&mut b, &[ix], &[env.users[0]]).is_ok() {
                    v.add(&["C08"], format!("NFT {} can be increased on the pool and range of NFT {}", x.id, y.id));
                }
            }
        }
        // half-way authority: token account states that are not an approval of one NFT
        let pk = &env.pools[x.pool];
        let hk = env.users[x.holder];
        let acc = ata(&hk, &mint);
        let tp = spl_token::id();
        for (u, uk) in env.users.iter().enumerate() {
            if u == x.holder || x.approvals.contains(&(x.holder, u)) {
                continue;
            }
            use spl_token::instruction as ti;
            let mut cases: Vec<(&str, Bank, Pubkey)> = vec![];
            let mut add = |d: &'static str, ixs: Vec<solana_program::instruction::Instruction>, who: &[Pubkey], a: Pubkey, pre: Option<Bank>| {
                let mut b = pre.unwrap_or_else(|| n.bank.clone());
                match process(&mut b, &ixs, who) {
                    Ok(_) => cases.push((d, b, a)),
                    Err(e) => panic!("nft_thieves set-up {d}: {}", e.text()),
                }
            };
            if !x.approvals.iter().any(|(h, _)| *h == x.holder) {
                let approve = |k: u64| ti::approve(&tp, &acc, uk, &hk, &[], k).unwrap();
                add("an approval for zero tokens", vec![approve(0)], &[hk], acc, None);
                add("a revoked approval", vec![approve(1), ti::revoke(&tp, &acc, &hk, &[]).unwrap()], &[hk], acc, None);
                add("the right to close the holder's account", vec![ti::set_authority(&tp, &acc, Some(uk), ti::AuthorityType::CloseAccount, &hk, &[]).unwrap()], &[hk], acc, None);
            }
            // decoys the thief can make: one wrapped lamport, one token of a mint of its own
            let decoy = key("decoy");
            let mut b = n.bank.clone();
            put_tok(&mut b, decoy, spl_token::native_mint::id(), *uk, 1);
            if let Some(a) = b.get(&decoy).cloned() {
                let mut t = <spl_token::state::Account as solana_program::program_pack::Pack>::unpack_unchecked(&a.data).unwrap();
                t.is_native = solana_program::program_option::COption::Some(a.lamports - 1);
                let mut d = a.data.clone();
                solana_program::program_pack::Pack::pack_into_slice(&t, &mut d);
                b.set(decoy, Acc { data: d, ..a });
            }
            add("one wrapped lamport", vec![], &[], decoy, Some(b));
            let mut b = n.bank.clone();
            put_mint(&mut b, key("decoy-mint"), 0, 1, solana_program::program_option::COption::None);
            put_tok(&mut b, decoy, key("decoy-mint"), *uk, 1);
            add("a one-of-one token of another mint", vec![], &[], decoy, Some(b));
            // an empty account of the right mint
            let mut b = n.bank.clone();
            put_tok(&mut b, decoy, mint, *uk, 0);
            add("an empty account of the NFT's mint", vec![], &[], decoy, Some(b));
            let t = env.ta(u, pk);
            for (d, bank, a) in &cases {
                let dec = env.ix_nft_decrease(bank, *uk, *a, mint, pk, x.lo, x.up, 1, 0, 0, DL);
                let col = env.ix_nft_collect(bank, *uk, *a, mint, pk, x.lo, x.up, t.0, t.1, ALL, ALL);
                for (name, ix) in [("decrease", dec), ("collect", col)] {
                    Stats::inc(&st.probes);
                    let mut b = bank.clone();
                    if process(&mut b, &[ix], &[*uk]).is_ok() {
                        v.add(&["C08"], format!("user {u} can {name} NFT {} (held by {}) with {d}", x.id, x.holder));
                    }
                }
            }
        }
        // the mint cannot be re-used for another position
        let ix = env.ix_nft_mint(&n.bank, env.users[0], env.users[0], mint, env.ta(0, pk), pk, x.lo, x.up, 500, 500, 0, 0, DL);
        Stats::inc(&st.probes);
        let mut b = n.bank.clone();
        if process(&mut b, &[ix], &[env.users[0], mint]).is_ok() {
            v.add(&["C08"], format!("the mint of NFT {} can be used for a second position", x.id));
        }
    }
}

/// Every amount from nothing to too much, for burns and for each kind of withdrawal.
pub fn amounts(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    for pi in 0..env.pools.len() {
        for x in &n.model.pools[pi].positions {
            let u = match env.users.iter().position(|k| *k == x.owner) {
                Some(u) => u,
                None => continue,
            };
            let (lo, up) = (x.lo, x.up);
            for liq in [1, x.liq.saturating_sub(1), x.liq, x.liq + 1, 2 * x.liq + 3, i64::MAX as u64, 1 << 63, (1 << 63) + 1, ALL - 1] {
                ask(scn, n, &Op::Burn { u, p: pi, lo, up, liq }, v, st);
            }
            for a0 in [0, 1, x.owed[0], ALL] {
                for a1 in [0, x.owed[1].saturating_sub(1), x.owed[1].saturating_add(1), ALL] {
                    ask(scn, n, &Op::Collect { u, p: pi, lo, up, a0, a1 }, v, st);
                }
            }
        }
        let pf = n.model.pools[pi].pf;
        for a0 in [0, pf[0].saturating_sub(1), pf[0] + 1, ALL] {
            for a1 in [0, 1, pf[1], ALL] {
                ask(scn, n, &Op::CollectProtocol { u: 0, p: pi, a: [a0, a1] }, v, st);
            }
        }
    }
    for x in &n.model.nfts {
        let u = x.holder;
        for liq in [0, 1, x.liq.saturating_sub(1), x.liq, x.liq + 1, i64::MAX as u64, 1 << 63, ALL - 1] {
            ask(scn, n, &Op::NftDec { u, id: x.id, liq, m: [0, 0], dl: DL }, v, st);
        }
        for a0 in [0, 1, x.owed[0], ALL] {
            for a1 in [0, x.owed[1].saturating_sub(1), x.owed[1].saturating_add(1), ALL] {
                ask(scn, n, &Op::NftCollect { u, id: x.id, a: [a0, a1] }, v, st);
            }
        }
    }
}

/// Swaps of small and large amounts against limits on either side of the price, next to it and
/// exactly on tick boundaries.
pub fn swaps(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    let u = env.users.len() - 1;
    for (pi, pk) in env.pools.iter().enumerate() {
        let m = &n.model.pools[pi];
        let sp = pk.spacing as i32;
        let base = m.tick.div_euclid(sp) * sp;
        let mut lims = vec![m.price, m.price - 1, m.price + 1, m.price - m.price / 700, m.price + m.price / 700, 1, rm::MIN_SQRT, rm::MAX_SQRT, u64::MAX];
        for t in [base - sp, base, base + sp, m.tick, m.tick + 1] {
            if (rm::MIN_TICK..=rm::MAX_TICK).contains(&t) {
                lims.push(rm::sqrt_tab(t));
            }
        }
        lims.sort();
        lims.dedup();
        for z in [true, false] {
            for amt in [1i64, 777, 30_000, -1, -777, -30_000] {
                for limit in &lims {
                    ask(scn, n, &Op::Swap { u, p: pi, z, amt, limit: *limit }, v, st);
                }
            }
            ask(scn, n, &Op::Swap { u, p: pi, z, amt: 0, limit: 0 }, v, st);
        }
    }
}

/// What the user holds (and is credited by the pool) after a sequence of operations, or nothing if one of
/// them is refused.
fn outcome(scn: &Scn, n: &Node, u: usize, pi: usize, ops: &[Op], st: &Stats) -> Option<(i128, i128)> {
    let (env, pk) = (&scn.env, &scn.env.pools[pi]);
    let mut b = n.bank.clone();
    let mut m = n.model.clone();
    for op in ops {
        let before = b.clone();
        if !raw(scn, &mut b, &m, op, st) {
            return None;
        }
        if m.apply(env, &BankWorld(&before), before.now, op).is_err() {
            return None;
        }
    }
    let t = env.ta(u, pk);
    let mut r = (tok_amount(&b, &t.0) as i128, tok_amount(&b, &t.1) as i128);
    for (lo, up) in &scn.ranges[pi] {
        if let Some(p) = pos_v(&b, &pk.pos(&env.users[u], *lo, *up)) {
            r.0 += p.owed0 as i128;
            r.1 += p.owed1 as i128;
        }
    }
    Some(r)
}

/// Doing something in several parts is never better than doing it at once.
pub fn split(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    if n.tainted {
        return;
    }
    let env = &scn.env;
    let u = env.users.len() - 1;
    let parts = |a: i64| -> Vec<Vec<i64>> {
        let (s, x) = (a.signum(), a.abs());
        let mut r = vec![];
        if x >= 2 {
            r.push(vec![x / 2, x - x / 2]);
        }
        if x >= 3 {
            r.push(vec![1, x - 2, 1]);
        }
        if x >= 1000 {
            r.push(vec![x / 4, x / 4 + 1, x / 4 + 3, x - 3 * (x / 4) - 4]);
        }
        r.into_iter().map(|p| p.into_iter().map(|y| y * s).collect()).collect()
    };
    for pi in 0..env.pools.len() {
        let l = n.model.pools[pi].liq();
        let unit = (l / 500).clamp(40, 1 << 58) as i64;
        for z in [true, false] {
            for a in [3, unit, unit * 9, -2, -unit] {
                let sw = |amt: i64| Op::Swap { u, p: pi, z, amt, limit: 0 };
                let one = match outcome(scn, n, u, pi, &[sw(a)], st) {
                    Some(x) => x,
                    None => continue,
                };
                for p in parts(a) {
                    let ops: Vec<Op> = p.iter().map(|x| sw(*x)).collect();
                    if let Some(many) = outcome(scn, n, u, pi, &ops, st) {
                        if many.0 >= one.0 && many.1 >= one.1 && many != one {
                            v.add(
                                &["C34"],
                                format!("pool {pi}: swapping {p:?} {} one after another leaves {} / {} more than {a} at once", if z { "down" } else { "up" }, many.0 - one.0, many.1 - one.1),
                            );
                        }
                    }
                }
            }
        }
        for (lo, up) in &scn.ranges[pi] {
            for liq in [3u64, 1001, (l / 3 + 7).min(1 << 55)] {
                let mi = |liq: u64| Op::Mint { u, p: pi, lo: *lo, up: *up, liq };
                let bu = |liq: u64| Op::Burn { u, p: pi, lo: *lo, up: *up, liq };
                let cut = [liq / 3, 1, liq - liq / 3 - 1];
                if let Some(one) = outcome(scn, n, u, pi, &[mi(liq)], st) {
                    if let Some(many) = outcome(scn, n, u, pi, &cut.map(mi), st) {
                        if many.0 > one.0 || many.1 > one.1 {
                            v.add(&["C34"], format!("pool {pi} {lo}..{up}: minting {cut:?} one after another costs {} / {} less than {liq} at once", many.0 - one.0, many.1 - one.1));
                        }
                    }
                }
                let has = n.model.pools[pi].pos(&env.users[u], *lo, *up).map(|i| n.model.pools[pi].positions[i].liq).unwrap_or(0);
                if has < liq {
                    continue;
                }
                if let Some(one) = outcome(scn, n, u, pi, &[bu(liq)], st) {
                    if let Some(many) = outcome(scn, n, u, pi, &cut.map(bu), st) {
                        if many.0 > one.0 || many.1 > one.1 {
                            v.add(&["C34"], format!("pool {pi} {lo}..{up}: burning {cut:?} one after another credits {} / {} more than {liq} at once", many.0 - one.0, many.1 - one.1));
                        }
                    }
                }
            }
        }
    }
}

/// Operations on different pools do not see each other: either order gives the same result.
pub fn commute(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    if n.tainted || scn.env.pools.len() < 2 {
        return;
    }
    let env = &scn.env;
    let pools: Vec<Vec<usize>> = scn.ops.iter().map(|o| touched(&n.model, o)).collect();
    // the result of one operation, on its own
    let first: Vec<Option<(Bank, Model)>> = scn
        .ops
        .iter()
        .map(|op| {
            let mut m = n.model.clone();
            m.apply(env, &BankWorld(&n.bank), n.bank.now, op).ok()?;
            let mut b = n.bank.clone();
            raw(scn, &mut b, &n.model, op, st).then_some((b, m))
        })
        .collect();
    let follow = |s: &(Bank, Model), op: &Op| -> Option<Option<Bank>> {
        // none: not possible even in the specification
        s.1.clone().apply(env, &BankWorld(&s.0), s.0.now, op).ok()?;
        let mut b = s.0.clone();
        Some(raw(scn, &mut b, &s.1, op, st).then_some(b))
    };
    for (i, a) in scn.ops.iter().enumerate() {
        for (j, c) in scn.ops.iter().enumerate().skip(i + 1) {
            if pools[i].is_empty() || pools[j].is_empty() || pools[i].iter().any(|p| pools[j].contains(p)) {
                continue;
            }
            let (x, y) = match (&first[i], &first[j]) {
                (Some(x), Some(y)) => (x, y),
                _ => continue,
            };
            let (ac, ca) = match (follow(x, c), follow(y, a)) {
                (Some(p), Some(q)) => (p, q),
                _ => continue,
            };
            match (ac, ca) {
                (Some(p), Some(q)) => {
                    if let Some(k) = changed_keys(&p, &q).first() {
                        v.add(&["C35"], format!("{a:?} and {c:?} leave account {k} in different states depending on their order"));
                    }
                }
                (p, _) => {
                    let (s, t) = if p.is_none() { (a, c) } else { (c, a) };
                    v.add(&["C35"], format!("{t:?} succeeds, but not after {s:?}"));
                }
            }
        }
    }
}

/// All ways to do the same thing have the same result: the core instruction, the single-pool trade and the
/// route of one pool; liquidity added or removed directly and through a position NFT.
pub fn agree(scn: &Scn, n: &Node, v: &mut Viols, st: &Stats) {
    if n.tainted {
        return;
    }
    agree_at(scn, (&n.bank, &n.model), "", v, st);
    if n.model.nfts.is_empty() {
        return;
    }
    // in a new window, with as much liquidity of the user next to every NFT
    let (mut b, mut m) = (n.bank.clone(), n.model.clone());
    let u = scn.env.users.len() - 1;
    for x in &n.model.nfts {
        let op = Op::Mint { u, p: x.pool, lo: x.lo, up: x.up, liq: x.liq.max(1) };
        let mut m2 = m.clone();
        if m2.apply(&scn.env, &BankWorld(&b), b.now, &op).is_ok() && raw(scn, &mut b, &m, &op, st) {
            m = m2;
        }
    }
    b.now += 15;
    agree_at(scn, (&b, &m), "after minting next to every NFT and 15 seconds, ", v, st);
}
fn agree_at(scn: &Scn, (bank, model): (&Bank, &Model), when: &str, v: &mut Viols, st: &Stats) {
    let env = &scn.env;
    let u = env.users.len() - 1;
    // state after the operation, if the specification allows it: Some(None) when the program refuses
    let after = |op: &Op| -> Option<Option<(Bank, Model)>> {
        let mut m = model.clone();
        m.apply(env, &BankWorld(bank), bank.now, op).ok()?;
        let mut b = bank.clone();
        Some(raw(scn, &mut b, model, op, st).then_some((b, m)))
    };
    let differ = |a: &Bank, b: &Bank, pi: usize, all: bool| -> Option<Pubkey> {
        let k = changed_keys(a, b);
        if all {
            return k.first().copied();
        }
        // what both ways have in common: the pool's own records, its vaults and the user's tokens
        let p = &env.pools[pi];
        let t = env.ta(u, p);
        let mut own = vec![p.key, p.v0, p.v1, t.0, t.1];
        own.extend((0..4).map(|i| p.obs(i)));
        for (lo, up) in &scn.ranges[pi] {
            own.extend([p.tick(*lo), p.tick(*up), p.bitmap_of_tick(*lo), p.bitmap_of_tick(*up)]);
        }
        k.into_iter().find(|k| own.contains(k))
    };
    let mut cmp = |x: &Op, y: &Op, pi: usize, all: bool| {
        let (a, b) = match (after(x), after(y)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        match (a, b) {
            (Some(a), Some(b)) => {
                if let Some(k) = differ(&a.0, &b.0, pi, all) {
                    v.add(&["C36"], format!("{when}pool {pi}: {x:?} and {y:?} leave account {k} in different states"));
                }
            }
            (None, None) => {}
            (a, _) => {
                let (s, t) = if a.is_some() { (x, y) } else { (y, x) };
                v.add(&["C36"], format!("{when}pool {pi}: {s:?} succeeds but {t:?} does not"));
            }
        }
    };
    for pi in 0..env.pools.len() {
        let l = model.pools[pi].liq();
        let unit = (l / 500).clamp(40, 1 << 58);
        for z in [true, false] {
            for amt in [1, 2, unit, unit * 11, l.max(1 << 10).min(1 << 58) * 2] {
                let core = Op::Swap { u, p: pi, z, amt: amt as i64, limit: 0 };
                cmp(&core, &Op::ExactIn { u, p: pi, z, amt, min: 0, limit: 0, dl: DL }, pi, true);
                cmp(&core, &Op::Route { u, hops: vec![(pi, z)], amt, min: 0, dl: DL }, pi, true);
            }
            let price = model.pools[pi].price;
            let limit = if z { price - price / 5000 } else { price + price / 5000 };
            if limit > rm::MIN_SQRT && limit < rm::MAX_SQRT {
                let core = Op::Swap { u, p: pi, z, amt: (unit * 11) as i64, limit };
                cmp(&core, &Op::ExactIn { u, p: pi, z, amt: unit * 11, min: 0, limit, dl: DL }, pi, true);
            }
        }
    }
    for x in &model.nfts {
        let (pi, lo, up) = (x.pool, x.lo, x.up);
        for d in [[700u64, 700], [1 << 20, 1 << 20]] {
            let inc = Op::NftInc { u, id: x.id, d, m: [0, 0], dl: DL };
            let mut m = model.clone();
            if m.apply(env, &BankWorld(bank), bank.now, &inc).is_err() {
                continue;
            }
            let liq = m.nfts.iter().find(|y| y.id == x.id).map_or(0, |y| y.liq) - x.liq;
            cmp(&inc, &Op::Mint { u, p: pi, lo, up, liq }, pi, false);
        }
        let mine = model.pools[pi].pos(&env.users[u], lo, up).map_or(0, |i| model.pools[pi].positions[i].liq);
        for liq in [1, x.liq / 2, x.liq] {
            if liq > 0 && liq <= mine {
                cmp(&Op::NftDec { u: x.holder, id: x.id, liq, m: [0, 0], dl: DL }, &Op::Burn { u, p: pi, lo, up, liq }, pi, false);
            }
        }
    }
}

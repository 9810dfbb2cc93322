//! Events of the administrative calls, which the searches over histories do not contain.
use crate::access::par;
use crate::checks::Matrix;
use crate::explore::events_of;
use crate::model::Ev;
use crate::out::Report;
use crate::refmath as rm;
use crate::svm::*;
use crate::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

/// C29: init_factory, set_owner, enable_fee_amount, set_fee_protocol and create_and_init_pool
pub fn admin_events(_id: &str, x: &mut Matrix) {
    let (env, b0) = Env::base(2, 3, 1 << 40, 1234);
    let people = [env.admin, env.users[0], env.users[1]];
    let mut jobs: Vec<(String, Bank, Instruction, Pubkey, Vec<u8>)> = vec![];
    // initialisation
    let mut empty = b0.clone();
    empty.remove(&factory_key());
    for o in people {
        jobs.push(("init_factory".into(), empty.clone(), env.ix_init_factory(o), o, Ev::new("OwnerChanged").k(&Pubkey::default()).k(&o).done()));
    }
    // every succession of owners and shares up to three steps
    let mut states = vec![(vec![String::from("start")], b0.clone(), env.admin, 3u8)];
    let mut level = 0;
    while level < states.len() {
        let (tr, b, owner, share) = states[level].clone();
        level += 1;
        for n in people {
            let ix = env.ix_set_owner(owner, n);
            let t = format!("{} ; set_owner {n}", tr.join(" ; "));
            jobs.push((t.clone(), b.clone(), ix.clone(), owner, Ev::new("OwnerChanged").k(&owner).k(&n).done()));
            if tr.len() < 3 {
                let mut c = b.clone();
                if process(&mut c, &[ix], &[owner]).is_ok() {
                    let mut tr = tr.clone();
                    tr.push(format!("set_owner {n}"));
                    states.push((tr, c, n, share));
                }
            }
        }
        for s in 2..=10u8 {
            let ix = env.ix_set_fee_protocol(owner, s);
            let t = format!("{} ; set_fee_protocol {s}", tr.join(" ; "));
            jobs.push((t, b.clone(), ix.clone(), owner, Ev::new("SetFeeProtocolEvent").u8(share).u8(s).done()));
            if tr.len() < 3 && (s == 2 || s == 7 || s == 10) {
                let mut c = b.clone();
                if process(&mut c, &[ix], &[owner]).is_ok() {
                    let mut tr = tr.clone();
                    tr.push(format!("set_fee_protocol {s}"));
                    states.push((tr, c, owner, s));
                }
            }
        }
        for fee in [0u32, 1, 100, 500, 3000, 65_536, 999_999] {
            for sp in [1u16, 10, 60, 256, 16383] {
                let t = format!("{} ; enable_fee_amount {fee}/{sp}", tr.join(" ; "));
                jobs.push((t, b.clone(), env.ix_enable_fee(owner, fee, sp), owner, Ev::new("FeeAmountEnabled").u32(fee).u16(sp).done()));
            }
        }
    }
    x.states += states.len() as u64;
    // creations
    let mut prices = vec![rm::MIN_SQRT, rm::MIN_SQRT + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, rm::MAX_SQRT - 1];
    let mut t = rm::MIN_TICK;
    while t < rm::MAX_TICK {
        let s = rm::sqrt_tab(t);
        prices.extend([s, s + 1]);
        t += if x.thorough { 997 } else { 9973 };
    }
    prices.sort();
    prices.dedup();
    for (fee, sp) in [(0u32, 1u16), (100, 1), (500, 10), (3000, 60), (999_999, 16383)] {
        let mut b = b0.clone();
        env.enable_fee(&mut b, fee, sp);
        for (m0, m1) in [(0usize, 1usize), (0, 2), (1, 2)] {
            for (i, u) in env.users.iter().enumerate() {
                let p = env.pool_key(m0, m1, fee, sp);
                for &price in &prices {
                    if (i == 1 || m1 == 2) && price != 1 << 32 {
                        continue;
                    }
                    let e = Ev::new("PoolCreatedAndInitialized").k(&p.m0).k(&p.m1).u32(fee).u16(sp).k(&p.key).u64(price).i32(rm::tick_at(price)).done();
                    jobs.push((format!("create_and_init_pool {m0}/{m1} fee {fee} price {price}"), b.clone(), env.ix_create_pool(*u, &p, price), *u, e));
                }
            }
        }
    }
    let n = jobs.len();
    let res = par(n, |i| {
        let (t, b, ix, s, want) = &jobs[i];
        set_capture(true);
        let mut c = b.clone();
        let r = process(&mut c, &[ix.clone()], &[*s]);
        set_capture(false);
        match r {
            Err(e) => Some((t.clone(), format!("refused: {}", e.text()))),
            Ok(o) => {
                let got = events_of(&o.logs);
                (got != vec![want.clone()]).then(|| (t.clone(), format!("events {got:?}, expected one: {want:?}")))
            }
        }
    });
    for (t, w) in res.into_iter().flatten() {
        x.found.push(Report { group: "administrative events".into(), path: vec![], trace: vec![t], what: w });
    }
    x.transitions += n as u64;
    x.validated += n as u64;
    x.notes.push(format!("administrative events: {} reachable settings, {n} calls whose events were compared", states.len()));
}

/// C32: creation and registration of position NFTs over many mint addresses, minters, recipients
/// and registrants, and everything anybody could try with the mint and its metadata
pub fn nft_identity(_id: &str, x: &mut Matrix) {
    use crate::explore::{changed_keys, tx_of};
    use crate::model::Op;
    use spl_token::instruction as ti;
    let k = if x.thorough { 1500 } else { 150 };
    let mut s = crate::scen::B::new("identity", 3, 2, 1 << 50, 1000);
    s.pool(0, 1, 3000, 60, 1 << 32);
    s.range(0, -120, 120);
    s.range(0, -60, 60);
    let scn = s.fin(0);
    let env = &scn.env;
    let tp = spl_token::id();
    let everybody: Vec<Pubkey> = env.users.iter().copied().chain([env.admin]).collect();
    let counts = std::sync::atomic::AtomicU64::new(0);
    let run = |b: &Bank, ix: Instruction, who: &[Pubkey]| -> Option<Bank> {
        counts.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut c = b.clone();
        process(&mut c, &[ix], who).ok().map(|_| c)
    };
    let res = par(k, |i| {
        let mut bad: Vec<String> = vec![];
        let (u, to) = (i % 3, (i / 3) % 3);
        let mint = env.nft_mint_key(i);
        let (lo, up) = if i % 2 == 0 { (-120, 120) } else { (-60, 60) };
        let pool = &env.pools[0];
        let b0 = &scn.start.bank;
        if run(b0, env.ix_metadata(everybody[0], mint), &[everybody[0]]).is_some() {
            bad.push("registered before it exists".into());
        }
        let op = Op::NftMint { u, to, id: i, p: 0, lo, up, d: [9000, 9000], m: [0, 0], dl: crate::scen::DL };
        let (ixs, signers) = tx_of(env, b0, &scn.start.model, &op);
        let mut b1 = b0.clone();
        if let Err(e) = process(&mut b1, &ixs, &signers) {
            return vec![format!("minting refused: {}", e.text())];
        }
        if let Some(w) = nft_mint_fault(&b1, &mint, false) {
            bad.push(format!("after minting: {w}"));
        }
        if tok_amount(&b1, &ata(&env.users[to], &mint)) != 1 {
            bad.push("the recipient did not receive it".into());
        }
        match nft_v(&b1, &nft_state(&mint)) {
            Some(r) if (r.mint, r.pool, r.lo, r.up) == (mint, pool.key, lo, up) && r.liq > 0 && (r.owed0, r.owed1) == (0, 0) => {}
            r => bad.push(format!("record {r:?}")),
        }
        let holder = ata(&env.users[to], &mint);
        // nobody can make more of it, take over its mint or freeze it
        let tries = |b: &Bank, bad: &mut Vec<String>, when: &str| {
            for a in &everybody {
                let own = ata(a, &mint);
                let mut b = b.clone();
                if b.get(&own).is_none() {
                    put_tok(&mut b, own, mint, *a, 0);
                }
                let mut t = vec![("mint more", ti::mint_to(&tp, &mint, &own, a, &[], 1).unwrap())];
                for (n, kind) in [("take over the mint", ti::AuthorityType::MintTokens), ("take over freezing", ti::AuthorityType::FreezeAccount)] {
                    t.push((n, ti::set_authority(&tp, &mint, Some(a), kind, a, &[]).unwrap()));
                }
                t.push(("freeze", ti::freeze_account(&tp, &holder, &mint, a, &[]).unwrap()));
                t.push((
                    "rewrite the metadata",
                    metaplex_token_metadata::instruction::update_metadata_accounts(metaplex_token_metadata::id(), nft_meta(&mint), *a, Some(*a), None, Some(true)),
                ));
                // once more through the program
                t.push(("mint it again", env.ix_nft_mint(&b, *a, *a, mint, (env.tok[u][0], env.tok[u][1]), pool, lo, up, 9000, 9000, 0, 0, crate::scen::DL)));
                for (n, ix) in t {
                    if run(&b, ix, &[*a, mint]).is_some() {
                        bad.push(format!("{when}: {a} can {n}"));
                    }
                }
            }
        };
        tries(&b1, &mut bad, "before registration");
        let mut last = None;
        for a in &everybody {
            match run(&b1, env.ix_metadata(*a, mint), &[*a]) {
                None => bad.push(format!("{a} cannot register it")),
                Some(b2) => {
                    if let Some(w) = meta_fault(&b2, &mint).or_else(|| nft_mint_fault(&b2, &mint, true)) {
                        bad.push(format!("registered by {a}: {w}"));
                    }
                    for c in changed_keys(&b1, &b2) {
                        if c != mint && c != nft_meta(&mint) && c != *a {
                            bad.push(format!("registration changed {c}"));
                        }
                    }
                    for a in &everybody {
                        if run(&b2, env.ix_metadata(*a, mint), &[*a]).is_some() {
                            bad.push(format!("registered a second time by {a}"));
                        }
                    }
                    last = Some(b2);
                }
            }
        }
        if let Some(b2) = last {
            tries(&b2, &mut bad, "after registration");
        }
        // mints that are no position NFT
        for (n, auth) in [("of a user", env.users[u]), ("of the protocol", factory_key())] {
            let other = key(&format!("no-position-{i}"));
            let mut b = b1.clone();
            put_mint(&mut b, other, 0, 1, solana_program::program_option::COption::Some(auth));
            let plain = env.ix_metadata(env.users[u], other);
            let mut lent = plain.clone();
            lent.accounts[3].pubkey = nft_state(&mint);
            for ix in [plain, lent] {
                if run(&b, ix, &[env.users[u]]).is_some() {
                    bad.push(format!("metadata for a mint {n} that is no position"));
                }
            }
        }
        bad
    });
    for (i, w) in res.into_iter().enumerate() {
        if let Some(w) = w.into_iter().next() {
            x.found.push(Report { group: "position NFTs".into(), path: vec![], trace: vec![format!("mint {i}: NftMint by user {} to user {}", i % 3, (i / 3) % 3)], what: w });
        }
    }
    let n = counts.load(std::sync::atomic::Ordering::Relaxed) + k as u64;
    x.states += 2 * k as u64;
    x.transitions += n;
    x.validated += n;
    x.notes.push(format!("position NFTs: {k} mint addresses, {n} calls"));
}

/// C33: every call that creates accounts, with every subset of the new addresses holding lamports
/// already, with payers that can just pay and that cannot; and every closing
pub fn deposits(_id: &str, x: &mut Matrix) {
    use crate::explore::{changed_keys, deposit_faults, rent_min, tx_of};
    use crate::model::Op;
    use crate::scen::DL;
    let mut s = crate::scen::B::new("deposits", 3, 3, 1 << 50, 1000);
    s.pool(0, 1, 3000, 60, 1 << 32);
    s.pool(0, 1, 500, 10, 1 << 32);
    for (lo, up) in [(-120, 120), (-60, 60)] {
        s.range(0, lo, up);
    }
    let scn = s.fin(0);
    let env = &scn.env;
    let nm = |id: usize| Op::NftMint { u: 1, to: 1, id, p: 0, lo: -120, up: 120, d: [9000, 9000], m: [0, 0], dl: DL };
    let mut start = scn.start.clone();
    for id in [0, 1] {
        let (ixs, sg) = tx_of(env, &start.bank, &start.model, &nm(id));
        process(&mut start.bank, &ixs, &sg).ok().expect("NFT");
    }
    let b0 = start.bank.clone();
    let (p, a) = (&env.pools[0], env.users[0]);
    // (name, call, signers)
    let mut calls: Vec<(String, Instruction, Vec<Pubkey>)> = vec![];
    let mut fresh = b0.clone();
    fresh.remove(&factory_key());
    for (i, u) in [a, env.admin].into_iter().enumerate() {
        for t in [-240, 0, 180, 60 * 256, rm::MIN_TICK / 60 * 60, rm::MAX_TICK / 60 * 60] {
            calls.push((format!("InitTick {t}"), env.ix_init_tick(u, p, t), vec![u]));
        }
        for w in [-15, -2, 3, 14] {
            calls.push((format!("InitWord {w}"), env.ix_init_bitmap(u, p, w), vec![u]));
        }
        for o in [a, env.users[2]] {
            calls.push((format!("InitPos of {o}"), env.ix_init_position(u, p, &o, -60, 120), vec![u]));
        }
        for n in 1..=if x.thorough { 6 } else { 4 } {
            let op = Op::IncObs { u: 0, p: i, n };
            let (mut ixs, _) = tx_of(env, &b0, &start.model, &op);
            let mut ix = ixs.remove(0);
            for m in &mut ix.accounts {
                if m.pubkey == a {
                    m.pubkey = u;
                }
            }
            calls.push((format!("IncObs by {n}"), ix, vec![u]));
        }
        for id in [0, 1] {
            calls.push((format!("NftMeta {id}"), env.ix_metadata(u, env.nft_mint_key(id)), vec![u]));
        }
        for (m0, m1, fee, sp) in [(0usize, 2usize, 3000u32, 60u16), (1, 2, 500, 10)] {
            calls.push((format!("create_and_init_pool {m0}/{m1}"), env.ix_create_pool(u, &env.pool_key(m0, m1, fee, sp), 1 << 32), vec![u]));
        }
    }
    calls.push(("enable_fee_amount".into(), env.ix_enable_fee(env.admin, 10_000, 200), vec![env.admin]));
    for to in [0usize, 2] {
        let mint = env.nft_mint_key(7);
        let ix = env.ix_nft_mint(&b0, a, env.users[to], mint, (env.tok[0][0], env.tok[0][1]), p, -120, 120, 5000, 5000, 0, 0, DL);
        calls.push((format!("NftMint to user {to}"), ix, vec![a, mint]));
    }
    let res = par(calls.len() + 1, |ci| {
        let mut bad: Vec<(String, String)> = vec![];
        let mut n = 0u64;
        if ci == calls.len() {
            // closing: anybody, to any recipient, with more lamports on the tick than it was created with
            for t in [-240, 180] {
                for extra in [0u64, 1, 1 << 30] {
                    for to in env.users.iter().copied().chain([env.admin, key("somebody new")]) {
                        let mut b = b0.clone();
                        if process(&mut b, &[env.ix_init_tick(a, p, t)], &[a]).is_err() {
                            bad.push((format!("InitTick {t}"), "refused".into()));
                            continue;
                        }
                        let k = p.tick(t);
                        let mut acc = b.get(&k).cloned().unwrap();
                        acc.lamports += extra;
                        b.set(k, acc.clone());
                        let had = b.get(&to).map(|q| q.lamports).unwrap_or(0);
                        let mut c = b.clone();
                        n += 1;
                        let tr = format!("CloseTick {t} with {extra} lamports on top, to {to}");
                        match process(&mut c, &[env.ix_close_tick(p, t, to)], &[a]) {
                            Err(e) => bad.push((tr, format!("refused: {}", e.text()))),
                            Ok(_) => {
                                let got = c.get(&to).map(|q| q.lamports).unwrap_or(0);
                                if got != had + acc.lamports || c.get(&k).is_some_and(|q| q.lamports > 0 || !q.data.is_empty()) {
                                    bad.push((tr, format!("the recipient got {} of {}", got - had, acc.lamports)));
                                }
                            }
                        }
                    }
                }
            }
            return (bad, n);
        }
        let (name, ix, sg) = &calls[ci];
        let payer = sg[0];
        let mut plain = b0.clone();
        n += 1;
        if let Err(e) = process(&mut plain, &[ix.clone()], sg) {
            return (vec![(name.clone(), format!("refused: {}", e.text()))], n);
        }
        let new: Vec<Pubkey> = changed_keys(&b0, &plain).into_iter().filter(|k| b0.get(k).is_none()).collect();
        let full: u64 = new.iter().map(|k| rent_min(plain.get(k).unwrap().data.len())).sum();
        for w in deposit_faults(env, &b0, &plain, sg, None) {
            bad.push((name.clone(), w));
        }
        if plain.get(&payer).map(|q| q.lamports).unwrap_or(0) + full != b0.get(&payer).unwrap().lamports {
            bad.push((name.clone(), "the payer did not pay exactly the deposits".into()));
        }
        // lamports already there, on every subset of the new addresses
        let pre: [fn(u64) -> u64; 5] = [|_| 1, |m| m - 1, |m| m, |m| m + 1, |_| 1 << 30];
        for set in 1u32..1 << new.len() {
            for (fi, f) in pre.iter().enumerate() {
                let mut b = b0.clone();
                for (i, k) in new.iter().enumerate() {
                    if set >> i & 1 == 1 {
                        b.fund(*k, f(rent_min(plain.get(k).unwrap().data.len())));
                    }
                }
                let mut c = b.clone();
                n += 1;
                let tr = format!("{name} with lamports (kind {fi}) on the new addresses {set:b}");
                match process(&mut c, &[ix.clone()], sg) {
                    Err(e) => bad.push((tr, format!("refused: {}", e.text()))),
                    Ok(_) => {
                        for w in deposit_faults(env, &b, &c, sg, None) {
                            bad.push((tr.clone(), w));
                        }
                        // what is created is the same
                        for k in &new {
                            let (q, z) = (plain.get(k).unwrap(), c.get(k));
                            if z.map(|z| (&z.data, z.owner)) != Some((&q.data, q.owner)) {
                                bad.push((tr.clone(), format!("{k} is created differently")));
                            }
                        }
                    }
                }
            }
        }
        // a payer that can just pay, and one that is a lamport short
        for (short, fine) in [(0u64, true), (1, false)] {
            let mut b = b0.clone();
            b.fund(payer, full - short);
            let mut c = b.clone();
            n += 1;
            if process(&mut c, &[ix.clone()], sg).is_ok() != fine {
                bad.push((format!("{name} by a payer with {} of {full} lamports", full - short), if fine { "refused".into() } else { "accepted".into() }));
            }
        }
        (bad, n)
    });
    for (bad, n) in res {
        x.transitions += n;
        x.validated += n;
        if let Some((t, w)) = bad.into_iter().next() {
            x.found.push(Report { group: "deposits".into(), path: vec![], trace: vec![t], what: w });
        }
    }
    x.states += calls.len() as u64;
    x.notes.push(format!("deposits: {} creating calls, {} calls in all", calls.len(), x.transitions));
}

/// C05: no liquidity on ranges whose lower end is not below the upper one, at any price, by any route
pub fn bad_ranges(_id: &str, x: &mut Matrix) {
    use crate::explore::tx_of;
    use crate::model::Op;
    use crate::scen::DL;
    let ticks: Vec<i32> = if x.thorough { vec![-15360, -180, -120, -60, 0, 60, 120, 180, 15360] } else { vec![-120, -60, 0, 60, 120] };
    let mut cases = vec![];
    for at in 0..=ticks.len() {
        for &lo in &ticks {
            for &up in ticks.iter().filter(|&&u| u <= lo) {
                cases.push((at, lo, up));
            }
        }
    }
    let counts = std::sync::atomic::AtomicU64::new(0);
    let res = par(cases.len(), |i| {
        let (at, lo, up) = cases[i];
        // a price below, between or above the ticks
        let t = if at == 0 { ticks[0] - 30 } else { ticks[at - 1] + 30 };
        let mut s = crate::scen::B::new("bad ranges", 2, 2, 1 << 50, 1000);
        s.pool(0, 1, 3000, 60, rm::sqrt_at(t));
        s.range(0, -240, 240);
        let mut scn = s.fin(0);
        let env = scn.env.clone();
        let (u, p) = (env.users[0], env.pools[0].clone());
        let mut bad = vec![];
        for op in [Op::Mint { u: 1, p: 0, lo: -240, up: 240, liq: 1_000_000 }] {
            let (ixs, sg) = tx_of(&env, &scn.start.bank, &scn.start.model, &op);
            if let Err(e) = process(&mut scn.start.bank, &ixs, &sg) {
                return vec![format!("mint refused: {}", e.text())];
            }
        }
        let mut b = scn.start.bank.clone();
        for k in [lo, up] {
            let _ = process(&mut b, &[env.ix_init_tick(u, &p, k)], &[u]);
            let _ = process(&mut b, &[env.ix_init_bitmap(u, &p, p.word_of_tick(k))], &[u]);
        }
        for o in [u, factory_key()] {
            let _ = process(&mut b, &[env.ix_init_position(u, &p, &o, up, lo)], &[u]);
            // whether such an account can be created does not matter
            let _ = process(&mut b, &[env.ix_init_position(u, &p, &o, lo, up)], &[u]);
        }
        let mut calls: Vec<(String, Instruction, Vec<Pubkey>)> = vec![];
        for l in [1u64, 1000, 1_000_000, 1 << 40] {
            calls.push((format!("Mint {l}"), env.ix_mint(&b, u, (env.tok[0][0], env.tok[0][1]), &p, u, lo, up, l, core_id()), vec![u]));
            let m = env.nft_mint_key(i);
            calls.push((format!("NftMint {l}"), env.ix_nft_mint(&b, u, u, m, (env.tok[0][0], env.tok[0][1]), &p, lo, up, l, l, 0, 0, DL), vec![u, m]));
        }
        if lo != up {
            // the same the right way round
            for ix in [env.ix_mint(&b, u, (env.tok[0][0], env.tok[0][1]), &p, u, up, lo, 1000, core_id())] {
                if let Err(e) = process(&mut b.clone(), &[ix], &[u]) {
                    bad.push(format!("mint on [{up}, {lo}] refused at tick {t}: {}", e.text()));
                }
            }
        }
        for (n, ix, sg) in calls {
            counts.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let mut c = b.clone();
            if process(&mut c, &[ix], &sg).is_ok() {
                bad.push(format!("{n} on [{lo}, {up}] accepted at tick {t}"));
            }
        }
        bad
    });
    for (i, w) in res.into_iter().enumerate() {
        if let Some(w) = w.into_iter().next() {
            x.found.push(Report { group: "ranges that are none".into(), path: vec![], trace: vec![format!("case {:?}", cases[i])], what: w });
        }
    }
    let n = counts.load(std::sync::atomic::Ordering::Relaxed);
    x.states += cases.len() as u64;
    x.transitions += n;
    x.validated += n;
    x.notes.push(format!("empty and inverted ranges: {} ranges and prices, {n} calls", cases.len()));
}

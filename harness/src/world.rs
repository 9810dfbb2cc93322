//! Addresses, instruction builders (the public ABI, written out by hand) and account parsing.
use crate::svm::*;
use solana_program::hash::hash;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::sysvar;
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static PDA: RefCell<HashMap<Vec<u8>, Pubkey>> = RefCell::new(HashMap::new());
}
pub fn pda(program: &Pubkey, seeds: &[&[u8]]) -> Pubkey {
    let mut k = program.as_ref().to_vec();
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    if let Some(p) = PDA.with(|m| m.borrow().get(&k).copied()) {
        return p;
    }
    let p = Pubkey::find_program_address(seeds, program).0;
    PDA.with(|m| m.borrow_mut().insert(k, p));
    p
}
pub fn key(name: &str) -> Pubkey {
    Pubkey::new(hash(name.as_bytes()).as_ref())
}
pub fn ata(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(&spl_associated_token_account::id(), &[owner.as_ref(), spl_token::id().as_ref(), mint.as_ref()])
}
pub fn sighash(name: &str) -> [u8; 8] {
    let h = hash(format!("global:{name}").as_bytes());
    let mut r = [0u8; 8];
    r.copy_from_slice(&h.as_ref()[..8]);
    r
}
pub fn disc(name: &str) -> [u8; 8] {
    let h = hash(format!("account:{name}").as_bytes());
    let mut r = [0u8; 8];
    r.copy_from_slice(&h.as_ref()[..8]);
    r
}
pub fn evdisc(name: &str) -> [u8; 8] {
    let h = hash(format!("event:{name}").as_bytes());
    let mut r = [0u8; 8];
    r.copy_from_slice(&h.as_ref()[..8]);
    r
}

/// borsh-style little-endian argument encoder
pub struct Args(pub Vec<u8>);
impl Args {
    pub fn new(name: &str) -> Args {
        Args(sighash(name).to_vec())
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i16(mut self, v: i16) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i32(mut self, v: i32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i64(mut self, v: i64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn bytes(mut self, v: &[u8]) -> Self {
        self.0.extend_from_slice(&(v.len() as u32).to_le_bytes());
        self.0.extend_from_slice(v);
        self
    }
}

pub fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
pub fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}

// ---------------------------------------------------------------- account layouts (on-chain ABI)

use anchor_lang::Discriminator;
use cyclos_core::states as cs;
pub use cs::{
    factory::FactoryState, fee::FeeState, oracle::ObservationState, pool::PoolState, position::PositionState, tick::TickState,
    tick_bitmap::TickBitmapState, tokenized_position::TokenizedPositionState,
};
/// Reads a program account through the program's own (packed, plain-data) account type.
pub fn zc<T: Copy + Discriminator>(b: &Bank, k: &Pubkey) -> Option<T> {
    let a = b.get(k)?;
    if a.owner != core_id() || a.data.len() != 8 + std::mem::size_of::<T>() || a.data[..8] != T::discriminator() {
        return None;
    }
    Some(unsafe { std::ptr::read_unaligned(a.data[8..].as_ptr() as *const T) })
}
/// Overwrites a program account (only used to build start states).
pub fn zc_edit<T: Copy + Discriminator>(b: &mut Bank, k: &Pubkey, f: impl FnOnce(&mut T)) {
    let mut t: T = zc(b, k).expect("account to edit");
    f(&mut t);
    let mut a = b.get(k).unwrap().clone();
    unsafe { std::ptr::write_unaligned(a.data[8..].as_mut_ptr() as *mut T, t) };
    b.set(*k, a);
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolV {
    pub token_0: Pubkey,
    pub token_1: Pubkey,
    pub fee: u32,
    pub spacing: u16,
    pub liq: u64,
    pub sqrt_p: u64,
    pub tick: i32,
    pub obs_index: u16,
    pub card: u16,
    pub card_next: u16,
    pub fg0: u64,
    pub fg1: u64,
    pub pf0: u64,
    pub pf1: u64,
    pub unlocked: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct TickV {
    pub tick: i32,
    pub net: i64,
    pub gross: u64,
    pub fgo0: u64,
    pub fgo1: u64,
    pub tc: i64,
    pub spl: u64,
    pub secs: u32,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BitmapV {
    pub word_pos: i16,
    pub word: [u64; 4],
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PosV {
    pub liq: u64,
    pub fgi0: u64,
    pub fgi1: u64,
    pub owed0: u64,
    pub owed1: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NftV {
    pub mint: Pubkey,
    pub pool: Pubkey,
    pub lo: i32,
    pub up: i32,
    pub liq: u64,
    pub fgi0: u64,
    pub fgi1: u64,
    pub owed0: u64,
    pub owed1: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ObsV {
    pub index: u16,
    pub ts: u32,
    pub tc: i64,
    pub spl: u64,
    pub init: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FactoryV {
    pub owner: Pubkey,
    pub fee_protocol: u8,
}

pub fn pool_v(b: &Bank, k: &Pubkey) -> Option<PoolV> {
    let d: PoolState = zc(b, k)?;
    Some(PoolV {
        token_0: d.token_0,
        token_1: d.token_1,
        fee: d.fee,
        spacing: d.tick_spacing,
        liq: d.liquidity,
        sqrt_p: d.sqrt_price_x32,
        tick: d.tick,
        obs_index: d.observation_index,
        card: d.observation_cardinality,
        card_next: d.observation_cardinality_next,
        fg0: d.fee_growth_global_0_x32,
        fg1: d.fee_growth_global_1_x32,
        pf0: d.protocol_fees_token_0,
        pf1: d.protocol_fees_token_1,
        unlocked: d.unlocked,
    })
}
pub fn tick_v(b: &Bank, k: &Pubkey) -> Option<TickV> {
    let d: TickState = zc(b, k)?;
    Some(TickV {
        tick: d.tick,
        net: d.liquidity_net,
        gross: d.liquidity_gross,
        fgo0: d.fee_growth_outside_0_x32,
        fgo1: d.fee_growth_outside_1_x32,
        tc: d.tick_cumulative_outside,
        spl: d.seconds_per_liquidity_outside_x32,
        secs: d.seconds_outside,
    })
}
pub fn bitmap_v(b: &Bank, k: &Pubkey) -> Option<BitmapV> {
    let d: TickBitmapState = zc(b, k)?;
    Some(BitmapV { word_pos: d.word_pos, word: d.word })
}
pub fn pos_v(b: &Bank, k: &Pubkey) -> Option<PosV> {
    let d: PositionState = zc(b, k)?;
    Some(PosV {
        liq: d.liquidity,
        fgi0: d.fee_growth_inside_0_last_x32,
        fgi1: d.fee_growth_inside_1_last_x32,
        owed0: d.tokens_owed_0,
        owed1: d.tokens_owed_1,
    })
}
pub fn nft_v(b: &Bank, k: &Pubkey) -> Option<NftV> {
    let d: TokenizedPositionState = zc(b, k)?;
    Some(NftV {
        mint: d.mint,
        pool: d.pool_id,
        lo: d.tick_lower,
        up: d.tick_upper,
        liq: d.liquidity,
        fgi0: d.fee_growth_inside_0_last_x32,
        fgi1: d.fee_growth_inside_1_last_x32,
        owed0: d.tokens_owed_0,
        owed1: d.tokens_owed_1,
    })
}
pub fn obs_v(b: &Bank, k: &Pubkey) -> Option<ObsV> {
    let d: ObservationState = zc(b, k)?;
    Some(ObsV {
        index: d.index,
        ts: d.block_timestamp,
        tc: d.tick_cumulative,
        spl: d.seconds_per_liquidity_cumulative_x32,
        init: d.initialized,
    })
}
pub fn factory_v(b: &Bank) -> Option<FactoryV> {
    let d: FactoryState = zc(b, &factory_key())?;
    Some(FactoryV { owner: d.owner, fee_protocol: d.fee_protocol })
}
pub fn fee_v(b: &Bank, fee: u32) -> Option<(u32, u16)> {
    let d: FeeState = zc(b, &pda(&core_id(), &[b"f", &fee.to_be_bytes()]))?;
    Some((d.fee, d.tick_spacing))
}
pub fn tok_amount(b: &Bank, k: &Pubkey) -> u64 {
    match b.get(k) {
        Some(a) if a.data.len() == 165 => {
            let mut x = [0u8; 8];
            x.copy_from_slice(&a.data[64..72]);
            u64::from_le_bytes(x)
        }
        _ => 0,
    }
}
pub fn tok_account(b: &Bank, k: &Pubkey) -> Option<spl_token::state::Account> {
    b.get(k).and_then(|a| spl_token::state::Account::unpack(&a.data).ok())
}
pub fn tok_set(b: &mut Bank, k: &Pubkey, amount: u64) {
    let mut a = b.get(k).unwrap().clone();
    a.data[64..72].copy_from_slice(&amount.to_le_bytes());
    b.set(*k, a);
}

pub fn factory_key() -> Pubkey {
    pda(&core_id(), &[])
}

// ---------------------------------------------------------------- environment

#[derive(Clone, Debug)]
pub struct PoolK {
    pub t0: usize,
    pub t1: usize,
    pub m0: Pubkey,
    pub m1: Pubkey,
    pub fee: u32,
    pub spacing: u16,
    pub key: Pubkey,
    pub v0: Pubkey,
    pub v1: Pubkey,
}
impl PoolK {
    pub fn tick(&self, t: i32) -> Pubkey {
        pda(&core_id(), &[b"t", self.m0.as_ref(), self.m1.as_ref(), &self.fee.to_be_bytes(), &t.to_be_bytes()])
    }
    pub fn word(&self, w: i16) -> Pubkey {
        pda(&core_id(), &[b"b", self.m0.as_ref(), self.m1.as_ref(), &self.fee.to_be_bytes(), &w.to_be_bytes()])
    }
    pub fn word_of_tick(&self, t: i32) -> i16 {
        (t.div_euclid(self.spacing as i32) >> 8) as i16
    }
    pub fn bitmap_of_tick(&self, t: i32) -> Pubkey {
        self.word(self.word_of_tick(t))
    }
    pub fn pos(&self, owner: &Pubkey, lo: i32, up: i32) -> Pubkey {
        pda(
            &core_id(),
            &[b"ps", self.m0.as_ref(), self.m1.as_ref(), &self.fee.to_be_bytes(), owner.as_ref(), &lo.to_be_bytes(), &up.to_be_bytes()],
        )
    }
    pub fn obs(&self, i: u16) -> Pubkey {
        pda(&core_id(), &[b"o", self.m0.as_ref(), self.m1.as_ref(), &self.fee.to_be_bytes(), &i.to_be_bytes()])
    }
}

/// what is wrong with the metadata of a position NFT that has been registered
pub fn meta_fault(b: &Bank, mint: &Pubkey) -> Option<String> {
    use metaplex_token_metadata::state::{Key, Metadata, MAX_METADATA_LEN};
    let a = match b.get(&nft_meta(mint)) {
        None => return Some("no metadata".into()),
        Some(a) => a,
    };
    if a.owner != metaplex_token_metadata::id() {
        return Some(format!("metadata account owned by {}", a.owner));
    }
    let m: Metadata = match metaplex_token_metadata::utils::try_from_slice_checked(&a.data, Key::MetadataV1, MAX_METADATA_LEN) {
        Ok(m) => m,
        Err(e) => return Some(format!("unreadable metadata: {e:?}")),
    };
    let text = |s: &str| s.trim_end_matches('\0').to_string();
    let (name, symbol, uri) = (text(&m.data.name), text(&m.data.symbol), text(&m.data.uri));
    let f = factory_key();
    if m.mint != *mint {
        return Some(format!("metadata of {}", m.mint));
    }
    if name != "Cyclos Positions NFT-V1" || symbol != "CYS-POS" {
        return Some(format!("named {name:?} ({symbol:?})"));
    }
    if uri != format!("https://asia-south1-cyclos-finance.cloudfunctions.net/nft?mint={mint}") {
        return Some(format!("link {uri:?}"));
    }
    if m.update_authority != f || m.is_mutable || m.primary_sale_happened {
        return Some(format!("update authority {}, mutable {}, sold {}", m.update_authority, m.is_mutable, m.primary_sale_happened));
    }
    if m.data.seller_fee_basis_points != 0 {
        return Some(format!("a seller fee of {}", m.data.seller_fee_basis_points));
    }
    match m.data.creators.as_deref() {
        Some([c]) if c.address == f && c.verified && c.share == 100 => None,
        c => Some(format!("creators {c:?}")),
    }
}
/// the mint of a position NFT: one of a kind, with nobody but the protocol in control of it
pub fn nft_mint_fault(b: &Bank, mint: &Pubkey, registered: bool) -> Option<String> {
    use solana_program::program_pack::Pack;
    let mi = match b.get(mint).map(|a| (a.owner, spl_token::state::Mint::unpack(&a.data))) {
        Some((o, Ok(m))) if o == spl_token::id() => m,
        _ => return Some("no mint".into()),
    };
    let auth: Option<Pubkey> = mi.mint_authority.into();
    let fr: Option<Pubkey> = mi.freeze_authority.into();
    let want = if registered { None } else { Some(factory_key()) };
    (mi.supply != 1 || mi.decimals != 0 || auth != want || fr.is_some_and(|f| f != factory_key())).then(|| format!("{mi:?}"))
}
#[derive(Clone)]
pub struct Env {
    pub admin: Pubkey,
    pub users: Vec<Pubkey>,
    pub mints: Vec<Pubkey>,
    /// token account of user u for mint m
    pub tok: Vec<Vec<Pubkey>>,
    pub pools: Vec<PoolK>,
}

pub fn nft_state(mint: &Pubkey) -> Pubkey {
    pda(&core_id(), &[b"ps", mint.as_ref()])
}
pub fn nft_meta(mint: &Pubkey) -> Pubkey {
    pda(&metaplex_token_metadata::id(), &[b"metadata", metaplex_token_metadata::id().as_ref(), mint.as_ref()])
}

pub fn put_mint(b: &mut Bank, k: Pubkey, decimals: u8, supply: u64, auth: COption<Pubkey>) {
    let mut data = vec![0u8; 82];
    spl_token::state::Mint {
        mint_authority: auth,
        supply,
        decimals,
        is_initialized: true,
        freeze_authority: COption::None,
    }
    .pack_into_slice(&mut data);
    b.set(k, Acc { lamports: 1_461_600, owner: spl_token::id(), executable: false, data });
}
pub fn put_tok(b: &mut Bank, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
    let mut data = vec![0u8; 165];
    spl_token::state::Account {
        mint,
        owner,
        amount,
        delegate: COption::None,
        state: spl_token::state::AccountState::Initialized,
        is_native: COption::None,
        delegated_amount: 0,
        close_authority: COption::None,
    }
    .pack_into_slice(&mut data);
    b.set(k, Acc { lamports: 2_039_280, owner: spl_token::id(), executable: false, data });
}
fn prog(b: &mut Bank, k: Pubkey) {
    b.set(k, Acc { lamports: 1, owner: loader_id(), executable: true, data: vec![0; 4] });
}

pub fn evil_program(i: u8) -> Pubkey {
    key(&format!("evil-program-{i}"))
}

impl Env {
    /// Programs, sysvars, mints, users with token accounts, factory. No pool yet.
    pub fn base(n_users: usize, n_mints: usize, balance: u64, now: i64) -> (Env, Bank) {
        let mut b = Bank::new(now);
        for p in [
            core_id(),
            spl_token::id(),
            spl_associated_token_account::id(),
            metaplex_token_metadata::id(),
            evil_program(0),
            evil_program(1),
        ] {
            prog(&mut b, p);
        }
        b.set(system_id(), Acc { lamports: 1, owner: key("native_loader"), executable: true, data: vec![0; 4] });
        b.set(
            sysvar::rent::id(),
            Acc {
                lamports: 1,
                owner: key("sysvar"),
                executable: false,
                data: bincode::serialize(&solana_program::rent::Rent::default()).unwrap(),
            },
        );
        let admin = key("admin");
        b.fund(admin, 1 << 50);
        let users: Vec<Pubkey> = (0..n_users).map(|i| key(&format!("user{i}"))).collect();
        for u in &users {
            b.fund(*u, 1 << 50);
        }
        let mut mints: Vec<Pubkey> = (0..n_mints).map(|i| key(&format!("mint{i}"))).collect();
        mints.sort();
        let mut tok = vec![];
        for m in &mints {
            put_mint(&mut b, *m, 6, u64::MAX, COption::None);
        }
        for (i, u) in users.iter().enumerate() {
            let mut t = vec![];
            for (j, m) in mints.iter().enumerate() {
                let k = key(&format!("tok{i}-{j}"));
                put_tok(&mut b, k, *m, *u, balance);
                t.push(k);
            }
            tok.push(t);
        }
        let env = Env { admin, users, mints, tok, pools: vec![] };
        env.must(&mut b, &[env.ix_init_factory(admin)], &[admin]);
        (env, b)
    }

    pub fn must(&self, b: &mut Bank, ixs: &[Instruction], signers: &[Pubkey]) {
        if let Err(e) = process(b, ixs, signers) {
            panic!("setup step failed: {}", e.text());
        }
    }

    pub fn enable_fee(&self, b: &mut Bank, fee: u32, spacing: u16) {
        self.must(b, &[self.ix_enable_fee(self.admin, fee, spacing)], &[self.admin]);
    }

    pub fn pool_key(&self, t0: usize, t1: usize, fee: u32, spacing: u16) -> PoolK {
        let (m0, m1) = (self.mints[t0], self.mints[t1]);
        let key = pda(&core_id(), &[b"p", m0.as_ref(), m1.as_ref(), &fee.to_be_bytes()]);
        PoolK { t0, t1, m0, m1, fee, spacing, key, v0: ata(&key, &m0), v1: ata(&key, &m1) }
    }

    /// Creates a pool through the real instruction plus its two vaults through the real ATA program.
    pub fn add_pool(&mut self, b: &mut Bank, t0: usize, t1: usize, fee: u32, spacing: u16, sqrt_p: u64) -> usize {
        let p = self.pool_key(t0, t1, fee, spacing);
        if fee_v(b, fee).is_none() {
            self.enable_fee(b, fee, spacing);
        }
        let c = self.users[0];
        let ixs = vec![
            self.ix_create_pool(c, &p, sqrt_p),
            spl_associated_token_account::create_associated_token_account(&c, &p.key, &p.m0),
            spl_associated_token_account::create_associated_token_account(&c, &p.key, &p.m1),
        ];
        self.must(b, &ixs, &[c]);
        self.pools.push(p);
        self.pools.len() - 1
    }

    pub fn prep_range(&self, b: &mut Bank, pool: usize, lo: i32, up: i32, owners: &[Pubkey]) {
        let p = &self.pools[pool];
        let u = self.users[0];
        for t in [lo, up] {
            if b.get(&p.tick(t)).is_none() {
                self.must(b, &[self.ix_init_tick(u, p, t)], &[u]);
            }
            if b.get(&p.bitmap_of_tick(t)).is_none() {
                self.must(b, &[self.ix_init_bitmap(u, p, p.word_of_tick(t))], &[u]);
            }
        }
        for o in owners {
            if b.get(&p.pos(o, lo, up)).is_none() {
                self.must(b, &[self.ix_init_position(u, p, o, lo, up)], &[u]);
            }
        }
    }

    // ------------------------------------------------------------ instructions
    fn ix(&self, accounts: Vec<AccountMeta>, a: Args) -> Instruction {
        Instruction { program_id: core_id(), accounts, data: a.0 }
    }
    pub fn ix_init_factory(&self, owner: Pubkey) -> Instruction {
        self.ix(vec![ws(owner), w(factory_key()), r(system_id())], Args::new("init_factory"))
    }
    pub fn ix_set_owner(&self, owner: Pubkey, new: Pubkey) -> Instruction {
        self.ix(vec![rs(owner), r(new), w(factory_key())], Args::new("set_owner"))
    }
    pub fn ix_enable_fee(&self, owner: Pubkey, fee: u32, spacing: u16) -> Instruction {
        let k = pda(&core_id(), &[b"f", &fee.to_be_bytes()]);
        self.ix(
            vec![ws(owner), w(factory_key()), w(k), r(system_id())],
            Args::new("enable_fee_amount").u32(fee).u16(spacing),
        )
    }
    pub fn ix_set_fee_protocol(&self, owner: Pubkey, n: u8) -> Instruction {
        self.ix(vec![rs(owner), w(factory_key())], Args::new("set_fee_protocol").u8(n))
    }
    pub fn ix_collect_protocol(&self, owner: Pubkey, p: &PoolK, r0: Pubkey, r1: Pubkey, a0: u64, a1: u64) -> Instruction {
        self.ix(
            vec![rs(owner), w(factory_key()), w(p.key), w(p.v0), w(p.v1), w(r0), w(r1), r(spl_token::id())],
            Args::new("collect_protocol").u64(a0).u64(a1),
        )
    }
    pub fn ix_create_pool(&self, creator: Pubkey, p: &PoolK, sqrt_p: u64) -> Instruction {
        let f = pda(&core_id(), &[b"f", &p.fee.to_be_bytes()]);
        self.ix(
            vec![
                ws(creator),
                r(p.m0),
                r(p.m1),
                r(f),
                w(p.key),
                w(p.obs(0)),
                r(system_id()),
                r(sysvar::rent::id()),
            ],
            Args::new("create_and_init_pool").u64(sqrt_p),
        )
    }
    pub fn ix_inc_obs(&self, payer: Pubkey, p: &PoolK, start: u16, n: u16) -> Instruction {
        let mut m = vec![ws(payer), w(p.key), r(system_id())];
        let mut bumps = vec![];
        for i in start..start + n {
            let (k, bump) = Pubkey::find_program_address(
                &[b"o", p.m0.as_ref(), p.m1.as_ref(), &p.fee.to_be_bytes(), &i.to_be_bytes()],
                &core_id(),
            );
            m.push(w(k));
            bumps.push(bump);
        }
        self.ix(m, Args::new("increase_observation_cardinality_next").bytes(&bumps))
    }
    pub fn ix_init_tick(&self, signer: Pubkey, p: &PoolK, t: i32) -> Instruction {
        self.ix(
            vec![ws(signer), r(p.key), w(p.tick(t)), r(system_id())],
            Args::new("init_tick_account").i32(t),
        )
    }
    pub fn ix_close_tick(&self, p: &PoolK, t: i32, to: Pubkey) -> Instruction {
        self.ix(vec![w(p.tick(t)), w(to)], Args::new("close_tick_account"))
    }
    pub fn ix_init_bitmap(&self, signer: Pubkey, p: &PoolK, wp: i16) -> Instruction {
        self.ix(
            vec![ws(signer), r(p.key), w(p.word(wp)), r(system_id())],
            Args::new("init_bitmap_account").i16(wp),
        )
    }
    pub fn ix_init_position(&self, signer: Pubkey, p: &PoolK, owner: &Pubkey, lo: i32, up: i32) -> Instruction {
        self.ix(
            vec![ws(signer), r(*owner), r(p.key), r(p.tick(lo)), r(p.tick(up)), w(p.pos(owner, lo, up)), r(system_id())],
            Args::new("init_position_account"),
        )
    }
    pub fn last_obs(&self, b: &Bank, p: &PoolK) -> Pubkey {
        p.obs(pool_v(b, &p.key).map(|v| v.obs_index).unwrap_or(0))
    }
    pub fn next_obs(&self, b: &Bank, p: &PoolK) -> Pubkey {
        let v = match pool_v(b, &p.key) {
            Some(v) => v,
            None => return p.obs(0),
        };
        p.obs(((v.obs_index as u32 + 1) % (v.card_next.max(1) as u32)) as u16)
    }
    pub fn ix_mint(&self, b: &Bank, minter: Pubkey, ta: (Pubkey, Pubkey), p: &PoolK, recipient: Pubkey, lo: i32, up: i32, liq: u64, cb: Pubkey) -> Instruction {
        self.ix(
            vec![
                rs(minter),
                w(ta.0),
                w(ta.1),
                w(p.v0),
                w(p.v1),
                r(recipient),
                w(p.key),
                w(p.tick(lo)),
                w(p.tick(up)),
                w(p.bitmap_of_tick(lo)),
                w(p.bitmap_of_tick(up)),
                w(p.pos(&recipient, lo, up)),
                w(self.last_obs(b, p)),
                r(spl_token::id()),
                r(cb),
                w(self.next_obs(b, p)),
            ],
            Args::new("mint").u64(liq),
        )
    }
    pub fn ix_burn(&self, b: &Bank, owner: Pubkey, p: &PoolK, lo: i32, up: i32, liq: u64) -> Instruction {
        self.ix(
            vec![
                rs(owner),
                w(p.key),
                w(p.tick(lo)),
                w(p.tick(up)),
                w(p.bitmap_of_tick(lo)),
                w(p.bitmap_of_tick(up)),
                w(p.pos(&owner, lo, up)),
                w(self.last_obs(b, p)),
                w(self.next_obs(b, p)),
            ],
            Args::new("burn").u64(liq),
        )
    }
    pub fn ix_collect(&self, owner: Pubkey, p: &PoolK, lo: i32, up: i32, r0: Pubkey, r1: Pubkey, a0: u64, a1: u64) -> Instruction {
        self.ix(
            vec![
                rs(owner),
                w(p.key),
                r(p.tick(lo)),
                r(p.tick(up)),
                w(p.pos(&owner, lo, up)),
                w(p.v0),
                w(p.v1),
                w(r0),
                w(r1),
                r(spl_token::id()),
            ],
            Args::new("collect").u64(a0).u64(a1),
        )
    }
    /// `extra` = bitmap, tick and observation accounts in the order the swap consumes them
    pub fn ix_swap(&self, b: &Bank, signer: Pubkey, ta_in: Pubkey, ta_out: Pubkey, p: &PoolK, z4o: bool, amount: i64, limit: u64, cb: Pubkey, extra: Vec<AccountMeta>) -> Instruction {
        let (vi, vo) = if z4o { (p.v0, p.v1) } else { (p.v1, p.v0) };
        let mut m = vec![
            rs(signer),
            w(ta_in),
            w(ta_out),
            w(vi),
            w(vo),
            r(spl_token::id()),
            r(factory_key()),
            w(p.key),
            w(self.last_obs(b, p)),
            r(cb),
        ];
        m.extend(extra);
        self.ix(m, Args::new("swap").i64(amount).u64(limit))
    }
    pub fn ix_exact_input_single(&self, b: &Bank, signer: Pubkey, ta_in: Pubkey, ta_out: Pubkey, p: &PoolK, z4o: bool, deadline: i64, amount_in: u64, min_out: u64, limit: u64, extra: Vec<AccountMeta>) -> Instruction {
        let (vi, vo) = if z4o { (p.v0, p.v1) } else { (p.v1, p.v0) };
        let mut m = vec![
            rs(signer),
            r(factory_key()),
            w(p.key),
            w(ta_in),
            w(ta_out),
            w(vi),
            w(vo),
            w(self.last_obs(b, p)),
            r(core_id()),
            r(spl_token::id()),
        ];
        m.extend(extra);
        self.ix(m, Args::new("exact_input_single").i64(deadline).u64(amount_in).u64(min_out).u64(limit))
    }
    /// hops: (pool, zero_for_one, output token account, extra accounts)
    pub fn ix_exact_input(&self, signer: Pubkey, ta_in: Pubkey, hops: &[(PoolK, bool, Pubkey, Pubkey, Vec<AccountMeta>)], deadline: i64, amount_in: u64, min_out: u64) -> Instruction {
        let mut m = vec![rs(signer), r(factory_key()), w(ta_in), r(core_id()), r(spl_token::id())];
        let mut counts = vec![];
        for (p, z4o, out, last, extra) in hops {
            let (vi, vo) = if *z4o { (p.v0, p.v1) } else { (p.v1, p.v0) };
            m.push(w(p.key));
            m.push(w(*out));
            m.push(w(vi));
            m.push(w(vo));
            m.push(w(*last));
            m.extend(extra.iter().cloned());
            counts.push(extra.len() as u8);
        }
        self.ix(m, Args::new("exact_input").i64(deadline).u64(amount_in).u64(min_out).bytes(&counts))
    }
    pub fn nft_mint_key(&self, i: usize) -> Pubkey {
        key(&format!("nft-mint-{i}"))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn ix_nft_mint(&self, b: &Bank, minter: Pubkey, recipient: Pubkey, mint: Pubkey, ta: (Pubkey, Pubkey), p: &PoolK, lo: i32, up: i32, d0: u64, d1: u64, m0: u64, m1: u64, deadline: i64) -> Instruction {
        let f = factory_key();
        self.ix(
            vec![
                ws(minter),
                r(recipient),
                r(f),
                ws(mint),
                w(ata(&recipient, &mint)),
                w(p.key),
                w(p.pos(&f, lo, up)),
                w(p.tick(lo)),
                w(p.tick(up)),
                w(p.bitmap_of_tick(lo)),
                w(p.bitmap_of_tick(up)),
                w(nft_state(&mint)),
                w(ta.0),
                w(ta.1),
                w(p.v0),
                w(p.v1),
                w(self.last_obs(b, p)),
                r(sysvar::rent::id()),
                r(core_id()),
                r(system_id()),
                r(spl_token::id()),
                r(spl_associated_token_account::id()),
                w(self.next_obs(b, p)),
            ],
            Args::new("mint_tokenized_position").u64(d0).u64(d1).u64(m0).u64(m1).i64(deadline),
        )
    }
    #[allow(clippy::too_many_arguments)]
    pub fn ix_nft_increase(&self, b: &Bank, payer: Pubkey, mint: Pubkey, ta: (Pubkey, Pubkey), p: &PoolK, lo: i32, up: i32, d0: u64, d1: u64, m0: u64, m1: u64, deadline: i64) -> Instruction {
        let f = factory_key();
        self.ix(
            vec![
                rs(payer),
                r(f),
                w(nft_state(&mint)),
                w(p.key),
                w(p.pos(&f, lo, up)),
                w(p.tick(lo)),
                w(p.tick(up)),
                w(p.bitmap_of_tick(lo)),
                w(p.bitmap_of_tick(up)),
                w(ta.0),
                w(ta.1),
                w(p.v0),
                w(p.v1),
                w(self.last_obs(b, p)),
                r(core_id()),
                r(spl_token::id()),
                w(self.next_obs(b, p)),
            ],
            Args::new("increase_liquidity").u64(d0).u64(d1).u64(m0).u64(m1).i64(deadline),
        )
    }
    #[allow(clippy::too_many_arguments)]
    pub fn ix_nft_decrease(&self, b: &Bank, signer: Pubkey, nft_account: Pubkey, mint: Pubkey, p: &PoolK, lo: i32, up: i32, liq: u64, m0: u64, m1: u64, deadline: i64) -> Instruction {
        let f = factory_key();
        self.ix(
            vec![
                rs(signer),
                r(nft_account),
                w(nft_state(&mint)),
                r(f),
                w(p.key),
                w(p.pos(&f, lo, up)),
                w(p.tick(lo)),
                w(p.tick(up)),
                w(p.bitmap_of_tick(lo)),
                w(p.bitmap_of_tick(up)),
                w(self.last_obs(b, p)),
                r(core_id()),
                w(self.next_obs(b, p)),
            ],
            Args::new("decrease_liquidity").u64(liq).u64(m0).u64(m1).i64(deadline),
        )
    }
    #[allow(clippy::too_many_arguments)]
    pub fn ix_nft_collect(&self, b: &Bank, signer: Pubkey, nft_account: Pubkey, mint: Pubkey, p: &PoolK, lo: i32, up: i32, r0: Pubkey, r1: Pubkey, a0: u64, a1: u64) -> Instruction {
        let f = factory_key();
        self.ix(
            vec![
                rs(signer),
                r(nft_account),
                w(nft_state(&mint)),
                r(f),
                w(p.key),
                w(p.pos(&f, lo, up)),
                w(p.tick(lo)),
                w(p.tick(up)),
                w(p.bitmap_of_tick(lo)),
                w(p.bitmap_of_tick(up)),
                w(self.last_obs(b, p)),
                w(p.v0),
                w(p.v1),
                w(r0),
                w(r1),
                r(core_id()),
                r(spl_token::id()),
                w(self.next_obs(b, p)),
            ],
            Args::new("collect_from_tokenized").u64(a0).u64(a1),
        )
    }
    pub fn ix_metadata(&self, payer: Pubkey, mint: Pubkey) -> Instruction {
        self.ix(
            vec![
                ws(payer),
                r(factory_key()),
                w(mint),
                r(nft_state(&mint)),
                w(nft_meta(&mint)),
                r(sysvar::rent::id()),
                r(metaplex_token_metadata::id()),
                r(spl_token::id()),
                r(system_id()),
            ],
            Args::new("add_metaplex_metadata"),
        )
    }
    pub fn ta(&self, u: usize, p: &PoolK) -> (Pubkey, Pubkey) {
        (self.tok[u][p.t0], self.tok[u][p.t1])
    }
}

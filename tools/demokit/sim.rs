//! A small driver for demonstrations: real program, real token program, in-process runtime.
use crate::model::*;
use crate::svm::*;
use crate::txs::*;
use crate::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
pub const DL: i64 = 1 << 40;

pub struct Sim {
    pub env: Env,
    pub bank: Bank,
    /// only used to work out which tick accounts a swap needs
    pub model: Model,
}
pub fn fail(s: &str) -> ! {
    eprintln!("BROKEN: {s}");
    std::process::exit(1)
}
pub fn ensure(c: bool, s: &str) {
    if !c {
        fail(s)
    }
}
impl Sim {
    pub fn new(users: usize, mints: usize) -> Sim {
        install();
        let (env, bank) = Env::base(users, mints, 1 << 50, 1000);
        Sim { env, bank, model: Model::new(factory_key(), 3) }
    }
    /// two users, one pool at price 1
    pub fn simple(fee: u32, spacing: u16) -> Sim {
        let mut s = Sim::new(3, 2);
        s.pool(0, 1, fee, spacing, 1 << 32);
        s
    }
    pub fn pool(&mut self, t0: usize, t1: usize, fee: u32, spacing: u16, price: u64) {
        self.env.add_pool(&mut self.bank, t0, t1, fee, spacing, price);
        self.model.pools.push(MPool::new(price, self.bank.now));
    }
    pub fn range(&mut self, p: usize, lo: i32, up: i32) {
        let owners: Vec<_> = self.env.users.iter().copied().chain([factory_key()]).collect();
        self.env.prep_range(&mut self.bank, p, lo, up, &owners);
    }
    pub fn word(&mut self, p: usize, w: i16) {
        let u = self.env.users[0];
        let ix = self.env.ix_init_bitmap(u, &self.env.pools[p], w);
        let _ = process(&mut self.bank, &[ix], &[u]);
    }
    pub fn send(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> Result<TxOut, Fail> {
        process(&mut self.bank, ixs, signers)
    }
    pub fn op(&mut self, o: &Op) -> Result<TxOut, Fail> {
        if let Op::Wait(s) = o {
            self.bank.now += s;
            let now = self.bank.now as u32;
            for p in &mut self.model.pools {
                p.advance(now);
            }
            return Ok(TxOut::default());
        }
        let (ixs, signers) = tx_of(&self.env, &self.bank, &self.model, o);
        let mut m = self.model.clone();
        let ok = m.apply(&self.env, &BankWorld(&self.bank), self.bank.now, o).is_ok();
        let r = process(&mut self.bank, &ixs, &signers);
        if r.is_ok() && ok {
            self.model = m;
        }
        r
    }
    pub fn must(&mut self, o: &Op) {
        if let Err(e) = self.op(o) {
            fail(&format!("{o:?} failed: {}", e.text()));
        }
    }
    pub fn all(&mut self, os: &[Op]) {
        for o in os {
            self.must(o);
        }
    }
    pub fn pv(&self, p: usize) -> PoolV {
        pool_v(&self.bank, &self.env.pools[p].key).unwrap()
    }
    pub fn pos(&self, u: usize, p: usize, lo: i32, up: i32) -> PosV {
        pos_v(&self.bank, &self.env.pools[p].pos(&self.env.users[u], lo, up)).unwrap()
    }
    pub fn core_pos(&self, p: usize, lo: i32, up: i32) -> PosV {
        pos_v(&self.bank, &self.env.pools[p].pos(&factory_key(), lo, up)).unwrap()
    }
    pub fn tick(&self, p: usize, t: i32) -> TickV {
        tick_v(&self.bank, &self.env.pools[p].tick(t)).unwrap()
    }
    pub fn nft(&self, id: usize) -> NftV {
        nft_v(&self.bank, &nft_state(&self.env.nft_mint_key(id))).unwrap()
    }
    pub fn bal(&self, u: usize, m: usize) -> u64 {
        tok_amount(&self.bank, &self.env.tok[u][m])
    }
    pub fn vaults(&self, p: usize) -> (u64, u64) {
        (tok_amount(&self.bank, &self.env.pools[p].v0), tok_amount(&self.bank, &self.env.pools[p].v1))
    }
}
pub fn mint(u: usize, lo: i32, up: i32, liq: u64) -> Op {
    Op::Mint { u, p: 0, lo, up, liq }
}
pub fn burn(u: usize, lo: i32, up: i32, liq: u64) -> Op {
    Op::Burn { u, p: 0, lo, up, liq }
}
pub fn coll(u: usize, lo: i32, up: i32, a0: u64, a1: u64) -> Op {
    Op::Collect { u, p: 0, lo, up, a0, a1 }
}
pub fn swap(u: usize, z: bool, amt: i64) -> Op {
    Op::Swap { u, p: 0, z, amt, limit: 0 }
}
pub fn swapl(u: usize, z: bool, amt: i64, limit: u64) -> Op {
    Op::Swap { u, p: 0, z, amt, limit }
}
pub fn nmint(u: usize, id: usize, lo: i32, up: i32, d: u64) -> Op {
    Op::NftMint { u, to: u, id, p: 0, lo, up, d: [d, d], m: [0, 0], dl: DL }
}
pub fn ninc(u: usize, id: usize, d: u64) -> Op {
    Op::NftInc { u, id, d: [d, d], m: [0, 0], dl: DL }
}
pub fn ndec(u: usize, id: usize, liq: u64) -> Op {
    Op::NftDec { u, id, liq, m: [0, 0], dl: DL }
}
pub fn ncol(u: usize, id: usize, a: u64) -> Op {
    Op::NftCollect { u, id, a: [a, a] }
}
impl Sim {
    /// Sets the protocol's share of swap fees.
    pub fn share(&mut self, n: u8) {
        self.must(&Op::FeeProtocol(n));
    }
    /// Every listed position is burned and collected and the protocol's fees are withdrawn;
    /// each payment must succeed and be made in full.
    pub fn exit_all(&mut self, ps: &[(usize, i32, i32)]) {
        for &(u, lo, up) in ps {
            let l = self.pos(u, 0, lo, up).liq;
            if l > 0 {
                self.must(&burn(u, lo, up, l));
            }
            let q = self.pos(u, 0, lo, up);
            let (b0, b1) = (self.bal(u, 0), self.bal(u, 1));
            if let Err(e) = self.op(&coll(u, lo, up, u64::MAX, u64::MAX)) {
                fail(&format!("owner {u} of {lo}..{up} is owed {}/{} and cannot be paid: {}", q.owed0, q.owed1, e.text()));
            }
            ensure((self.bal(u, 0) - b0, self.bal(u, 1) - b1) == (q.owed0, q.owed1), "not paid in full");
        }
        let v = self.pv(0);
        if let Err(e) = self.op(&Op::CollectProtocol { u: 0, p: 0, a: [u64::MAX, u64::MAX] }) {
            fail(&format!("protocol fees {}/{} cannot be paid: {}", v.pf0, v.pf1, e.text()));
        }
    }
}

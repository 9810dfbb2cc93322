//! A small in-process Solana runtime: real program code (core, SPL token, ATA, token-metadata) is
//! executed natively under syscall stubs; this module owns accounts, privileges, CPI, clock and logs.
use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

pub fn system_id() -> Pubkey {
    solana_program::system_program::id()
}
pub fn core_id() -> Pubkey {
    cyclos_core::ID
}
pub fn loader_id() -> Pubkey {
    solana_program::bpf_loader::id()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acc {
    pub lamports: u64,
    pub owner: Pubkey,
    pub executable: bool,
    pub data: Vec<u8>,
}

/// Account plus a cached 128-bit content hash.
#[derive(Debug)]
pub struct HAcc {
    pub acc: Acc,
    pub h: u128,
}

fn hash_one(key: &Pubkey, a: &Acc) -> u128 {
    let mut out = [0u64; 2];
    for (i, o) in out.iter_mut().enumerate() {
        let mut h = DefaultHasher::new();
        (i as u8 ^ 0x5a).hash(&mut h);
        key.as_ref().hash(&mut h);
        a.lamports.hash(&mut h);
        a.owner.as_ref().hash(&mut h);
        a.data.hash(&mut h);
        *o = h.finish();
    }
    ((out[0] as u128) << 64) | out[1] as u128
}

/// All accounts plus the clock: one state of the explored system.
#[derive(Clone)]
pub struct Bank {
    pub accs: BTreeMap<Pubkey, Arc<HAcc>>,
    pub now: i64,
    h: u128,
}

impl Bank {
    pub fn new(now: i64) -> Bank {
        Bank { accs: BTreeMap::new(), now, h: 0 }
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acc> {
        self.accs.get(k).map(|a| &a.acc)
    }
    pub fn data(&self, k: &Pubkey) -> Option<&[u8]> {
        self.accs.get(k).map(|a| &a.acc.data[..])
    }
    pub fn set(&mut self, k: Pubkey, a: Acc) {
        let h = hash_one(&k, &a);
        if let Some(old) = self.accs.insert(k, Arc::new(HAcc { acc: a, h })) {
            self.h = self.h.wrapping_sub(old.h);
        }
        self.h = self.h.wrapping_add(h);
    }
    pub fn remove(&mut self, k: &Pubkey) {
        if let Some(old) = self.accs.remove(k) {
            self.h = self.h.wrapping_sub(old.h);
        }
    }
    /// Hash of every account (key, lamports, owner, data) and the clock.
    pub fn hash(&self) -> u128 {
        self.h ^ ((self.now as u128) << 17).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835)
    }
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        self.set(k, Acc { lamports, owner: system_id(), executable: false, data: vec![] });
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// the program returned an error
    Err(String),
    /// the program panicked
    Panic(String),
    /// the runtime rejected the transaction (privilege, ownership, balance rule ...)
    Rule(String),
}
impl Fail {
    pub fn text(&self) -> String {
        match self {
            Fail::Err(s) => format!("error {s}"),
            Fail::Panic(s) => format!("panic {s}"),
            Fail::Rule(s) => format!("runtime {s}"),
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct TxOut {
    pub logs: Vec<String>,
}

enum Abort {
    Err(String),
    Rule(String),
}

struct Buf {
    lamports: u64,
    owner: Pubkey,
    data: Vec<u8>,
}

struct FAcc {
    key: Pubkey,
    signer: bool,
    writable: bool,
    executable: bool,
    info: AccountInfo<'static>,
    buf: *mut Buf,
    /// the account's true data; programs may move the slice inside `info.data` (io::Write on it)
    cur: *mut [u8],
    pre_lamports: u64,
    pre_owner: Pubkey,
    pre_data: Vec<u8>,
}

struct Frame {
    program: Pubkey,
    accs: Vec<FAcc>,
    bufs: Vec<*mut Buf>,
    extra: Vec<*mut [u8]>,
    #[allow(dead_code)]
    keys: Vec<Box<Pubkey>>,
}
impl Drop for Frame {
    fn drop(&mut self) {
        self.accs.clear();
        unsafe {
            for b in self.bufs.drain(..) {
                drop(Box::from_raw(b));
            }
            for e in self.extra.drain(..) {
                drop(Box::from_raw(e));
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Reentry {
    /// Solana's rule: only direct self-recursion
    Solana,
    /// allow any re-entrance (used to test the program's own lock)
    Any,
}

pub type Handler = Rc<dyn Fn(&Pubkey, &[AccountInfo<'static>], &[u8]) -> ProgramResult>;

struct Ctx {
    frames: Vec<Frame>,
    logs: Vec<String>,
    capture: bool,
    reentry: Reentry,
    handlers: Vec<(Pubkey, Handler)>,
    /// transaction signers and accounts outside every frame (only used when re-entry rules are lifted)
    signers: Vec<Pubkey>,
    outside: BTreeMap<Pubkey, Acc>,
    bank: Option<Bank>,
}
thread_local! {
    static CTX: UnsafeCell<Ctx> = UnsafeCell::new(Ctx{frames:vec![],logs:vec![],capture:false,reentry:Reentry::Solana,handlers:vec![],signers:vec![],outside:BTreeMap::new(),bank:None});
    static NOW: Cell<i64> = Cell::new(0);
    static LOGGED: Cell<u32> = Cell::new(0);
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}
fn ctx() -> &'static mut Ctx {
    CTX.with(|c| unsafe { &mut *c.get() })
}
const LOG_BUDGET: u32 = 100_000;
static WATCH: std::sync::OnceLock<(fn(), fn())> = std::sync::OnceLock::new();
/// called around every run of the program
pub fn set_watch(busy: fn(), idle: fn()) {
    let _ = WATCH.set((busy, idle));
}
fn watch_busy() {
    if let Some(w) = WATCH.get() {
        w.0()
    }
}
fn watch_idle() {
    if let Some(w) = WATCH.get() {
        w.1()
    }
}
pub fn set_reentry(r: Reentry) {
    ctx().reentry = r;
}
pub fn set_capture(c: bool) {
    ctx().capture = c;
}
pub fn set_handler(k: Pubkey, h: Option<Handler>) {
    let c = ctx();
    c.handlers.retain(|x| x.0 != k);
    if let Some(h) = h {
        c.handlers.push((k, h));
    }
}
pub fn set_now(t: i64) {
    NOW.with(|n| n.set(t));
}

fn abort_rule<T>(s: impl Into<String>) -> T {
    panic_any(Abort::Rule(s.into()))
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        // a log costs 100 of at most 1,400,000 compute units
        let n = LOGGED.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        if n > LOG_BUDGET {
            abort_rule::<()>("ComputationalBudgetExceeded");
        }
        let c = ctx();
        if c.capture {
            c.logs.push(message.to_string());
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let now = NOW.with(|n| n.get());
        let c = Clock {
            slot: 1000,
            epoch_start_timestamp: 0,
            epoch: 1,
            leader_schedule_epoch: 2,
            unix_timestamp: now,
        };
        unsafe { std::ptr::write_unaligned(var_addr as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(var_addr as *mut Rent, Rent::default()) };
        0
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let infos: &[AccountInfo<'static>] = unsafe { std::mem::transmute(account_infos) };
        cpi(instruction, infos, signers_seeds);
        Ok(())
    }
}

fn cur_data(a: &FAcc) -> &'static [u8] {
    unsafe { &*a.cur }
}
fn cur_lamports(i: &AccountInfo<'static>) -> u64 {
    unsafe { **(*i.lamports).as_ptr() }
}

/// The per-program rules Solana enforces on what an instruction may change.
fn verify_frame(f: &mut Frame) {
    let mut pre_sum: u128 = 0;
    let mut post_sum: u128 = 0;
    for a in f.accs.iter_mut() {
        let l = cur_lamports(&a.info);
        let d = cur_data(a);
        let owner = unsafe { std::ptr::read_volatile(&(*a.buf).owner) };
        pre_sum += a.pre_lamports as u128;
        post_sum += l as u128;
        if owner != a.pre_owner {
            if !(a.writable && !a.executable && a.pre_owner == f.program && d.iter().all(|b| *b == 0)) {
                abort_rule::<()>(format!("ModifiedProgramId {}", a.key));
            }
        }
        if l != a.pre_lamports {
            if !a.writable {
                abort_rule::<()>(format!("ReadonlyLamportChange {}", a.key));
            }
            if l < a.pre_lamports && a.pre_owner != f.program {
                abort_rule::<()>(format!("ExternalAccountLamportSpend {}", a.key));
            }
        }
        if d.len() != a.pre_data.len() && !(f.program == system_id() && a.pre_owner == f.program) {
            abort_rule::<()>(format!("AccountDataSizeChanged {}", a.key));
        }
        if d != &a.pre_data[..] {
            if !a.writable {
                abort_rule::<()>(format!("ReadonlyDataModified {}", a.key));
            }
            if a.pre_owner != f.program || a.executable {
                abort_rule::<()>(format!("ExternalAccountDataModified {}", a.key));
            }
            a.pre_data.clear();
            a.pre_data.extend_from_slice(d);
        }
        a.pre_lamports = l;
        a.pre_owner = owner;
    }
    if pre_sum != post_sum {
        abort_rule::<()>("UnbalancedInstruction");
    }
}

struct MetaIn {
    key: Pubkey,
    signer: bool,
    writable: bool,
}

/// Builds a frame and the instruction's account list (duplicates share cells).
fn build_frame(
    program: Pubkey,
    metas: &[MetaIn],
    mut load: impl FnMut(&Pubkey) -> (u64, Pubkey, bool, Vec<u8>),
) -> (Frame, Vec<AccountInfo<'static>>) {
    let mut f = Frame { program, accs: Vec::with_capacity(metas.len()), bufs: vec![], extra: vec![], keys: vec![] };
    let mut list = Vec::with_capacity(metas.len());
    // privileges are the union over duplicates
    for m in metas {
        if let Some(a) = f.accs.iter_mut().find(|a| a.key == m.key) {
            a.signer |= m.signer;
            a.writable |= m.writable;
            continue;
        }
        let (lamports, owner, executable, data) = load(&m.key);
        let buf = Box::into_raw(Box::new(Buf { lamports, owner, data }));
        f.bufs.push(buf);
        let kb = Box::new(m.key);
        let info = unsafe {
            let kref: &'static Pubkey = &*(&*kb as *const Pubkey);
            AccountInfo {
                key: kref,
                is_signer: false,
                is_writable: false,
                lamports: Rc::new(RefCell::new(&mut *std::ptr::addr_of_mut!((*buf).lamports))),
                data: Rc::new(RefCell::new(&mut (&mut (*buf).data)[..])),
                owner: &*std::ptr::addr_of!((*buf).owner),
                executable,
                rent_epoch: 0,
            }
        };
        f.keys.push(kb);
        let (pl, po, pd) = unsafe { ((*buf).lamports, (*buf).owner, (&(*buf).data).clone()) };
        f.accs.push(FAcc {
            key: m.key,
            signer: m.signer,
            writable: m.writable,
            executable,
            info,
            buf,
            cur: unsafe { &mut (&mut (*buf).data)[..] as *mut [u8] },
            pre_lamports: pl,
            pre_owner: po,
            pre_data: pd,
        });
    }
    for a in f.accs.iter_mut() {
        a.info.is_signer = a.signer;
        a.info.is_writable = a.writable;
    }
    for m in metas {
        let a = f.accs.iter().find(|a| a.key == m.key).unwrap();
        list.push(a.info.clone());
    }
    (f, list)
}

fn cpi(ix: &Instruction, infos: &[AccountInfo<'static>], seeds: &[&[&[u8]]]) {
    let c = ctx();
    if c.frames.len() >= 5 {
        abort_rule::<()>("CallDepth");
    }
    let caller = c.frames.last().unwrap().program;
    let pdas: Vec<Pubkey> = seeds
        .iter()
        .map(|s| match Pubkey::create_program_address(s, &caller) {
            Ok(k) => k,
            Err(_) => abort_rule("InvalidSeeds"),
        })
        .collect();
    {
        let cf = c.frames.last_mut().unwrap();
        verify_frame(cf);
    }
    let free = c.reentry == Reentry::Any;
    let cf = c.frames.last().unwrap();
    let mut metas = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        if free && caller != core_id() {
            if m.is_signer && !c.signers.contains(&m.pubkey) {
                abort_rule::<()>(format!("PrivilegeEscalation signer {}", m.pubkey));
            }
            metas.push(MetaIn { key: m.pubkey, signer: m.is_signer, writable: m.is_writable });
            continue;
        }
        let a = match cf.accs.iter().find(|a| a.key == m.pubkey) {
            Some(a) => a,
            None => abort_rule(format!("MissingAccount {}", m.pubkey)),
        };
        if !infos.iter().any(|i| *i.key == m.pubkey) {
            abort_rule::<()>(format!("MissingAccountInfo {}", m.pubkey));
        }
        if m.is_writable && !a.writable {
            abort_rule::<()>(format!("PrivilegeEscalation writable {}", m.pubkey));
        }
        if m.is_signer && !a.signer && !pdas.contains(&m.pubkey) {
            abort_rule::<()>(format!("PrivilegeEscalation signer {}", m.pubkey));
        }
        metas.push(MetaIn { key: m.pubkey, signer: m.is_signer, writable: m.is_writable });
    }
    match cf.accs.iter().find(|a| a.key == ix.program_id) {
        Some(a) if a.executable => {}
        _ if free && caller != core_id() => {}
        _ => abort_rule(format!("ProgramNotFound {}", ix.program_id)),
    }
    if c.reentry == Reentry::Solana && caller != ix.program_id && c.frames.iter().any(|f| f.program == ix.program_id) {
        abort_rule::<()>("ReentrancyNotAllowed");
    }
    let (frames, outside, bank) = (&c.frames, &c.outside, &c.bank);
    let (f, list) = build_frame(ix.program_id, &metas, |k| {
        let a = match frames.iter().rev().find_map(|f| f.accs.iter().find(|a| a.key == *k)) {
            Some(a) => a,
            None => {
                return match outside.get(k).or_else(|| bank.as_ref().and_then(|b| b.get(k))) {
                    Some(a) => (a.lamports, a.owner, a.executable, a.data.clone()),
                    None => (0, system_id(), false, vec![]),
                }
            }
        };
        (
            cur_lamports(&a.info),
            unsafe { std::ptr::read_volatile(&(*a.buf).owner) },
            a.executable,
            cur_data(a).to_vec(),
        )
    });
    c.frames.push(f);
    let prog = ix.program_id;
    let r = run_program(&prog, &list, &ix.data);
    drop(list);
    let c = ctx();
    if let Err(e) = r {
        panic_any(Abort::Err(format!("{:?}", e)));
    }
    let mut f = c.frames.pop().unwrap();
    verify_frame(&mut f);
    // copy back
    for a in f.accs.iter() {
        if !a.writable {
            continue;
        }
        let fi = match c.frames.iter().rposition(|f| f.accs.iter().any(|t| t.key == a.key)) {
            Some(i) => i,
            None => {
                let acc = Acc { lamports: a.pre_lamports, owner: a.pre_owner, executable: a.executable, data: a.pre_data.clone() };
                c.outside.insert(a.key, acc);
                continue;
            }
        };
        let cf = &mut c.frames[fi];
        let t = cf.accs.iter_mut().find(|t| t.key == a.key).unwrap();
        unsafe {
            **(*t.info.lamports).as_ptr() = a.pre_lamports;
            std::ptr::write_volatile(&mut (*t.buf).owner, a.pre_owner);
            let slot: *mut &'static mut [u8] = (*t.info.data).as_ptr();
            if cur_data(t).len() == a.pre_data.len() {
                (*t.cur).copy_from_slice(&a.pre_data);
            } else {
                let b = Box::into_raw(a.pre_data.clone().into_boxed_slice());
                cf.extra.push(b);
                *slot = &mut *b;
                t.cur = b;
            }
        }
        t.pre_lamports = a.pre_lamports;
        t.pre_owner = a.pre_owner;
        t.pre_data.clear();
        t.pre_data.extend_from_slice(&a.pre_data);
    }
    drop(f);
}

fn run_program(prog: &Pubkey, list: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    // the frame that owns these buffers outlives the call
    let prog: &'static Pubkey = unsafe { &*(prog as *const Pubkey) };
    let list: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(list) };
    if *prog == core_id() {
        cyclos_core::entry(prog, list, data)
    } else if *prog == spl_token::id() {
        spl_token::processor::Processor::process(prog, list, data)
    } else if *prog == spl_associated_token_account::id() {
        spl_associated_token_account::processor::process_instruction(prog, list, data)
    } else if *prog == system_id() {
        system_program(list, data)
    } else if *prog == metaplex_token_metadata::id() {
        metaplex_token_metadata::processor::process_instruction(prog, list, data)
    } else {
        let h = ctx().handlers.iter().find(|h| h.0 == *prog).map(|h| h.1.clone());
        match h {
            Some(h) => h(prog, list, data),
            None => abort_rule("UnknownProgram"),
        }
    }
}

fn system_program(accs: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction =
        bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)?;
    fn set_owner(a: &AccountInfo<'static>, o: &Pubkey) {
        let c = ctx();
        let f = c.frames.last_mut().unwrap();
        let t = f.accs.iter_mut().find(|t| t.key == *a.key).unwrap();
        unsafe { std::ptr::write_volatile(&mut (*t.buf).owner, *o) };
    }
    fn own(a: &AccountInfo<'static>) -> Pubkey {
        let c = ctx();
        let f = c.frames.last_mut().unwrap();
        let t = f.accs.iter_mut().find(|t| t.key == *a.key).unwrap();
        unsafe { std::ptr::read_volatile(&(*t.buf).owner) }
    }
    fn grow(a: &AccountInfo<'static>, n: usize) {
        let c = ctx();
        let f = c.frames.last_mut().unwrap();
        let b = Box::into_raw(vec![0u8; n].into_boxed_slice());
        f.extra.push(b);
        f.accs.iter_mut().find(|t| t.key == *a.key).unwrap().cur = b;
        unsafe {
            let slot: *mut &'static mut [u8] = (*a.data).as_ptr();
            *slot = &mut *b;
        }
    }
    fn allocate(a: &AccountInfo<'static>, space: u64) -> ProgramResult {
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if a.data_len() != 0 || own(a) != system_id() {
            return Err(ProgramError::Custom(0));
        }
        if space > 10 * 1024 * 1024 {
            return Err(ProgramError::Custom(3));
        }
        grow(a, space as usize);
        Ok(())
    }
    fn assign(a: &AccountInfo<'static>, o: &Pubkey) -> ProgramResult {
        if own(a) == *o {
            return Ok(());
        }
        if !a.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        set_owner(a, o);
        Ok(())
    }
    fn transfer(from: &AccountInfo<'static>, to: &AccountInfo<'static>, l: u64) -> ProgramResult {
        if l == 0 {
            return Ok(());
        }
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if from.data_len() != 0 {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < l {
            return Err(ProgramError::Custom(1));
        }
        **from.try_borrow_mut_lamports()? -= l;
        **to.try_borrow_mut_lamports()? += l;
        Ok(())
    }
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            if accs[1].lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            allocate(&accs[1], space)?;
            assign(&accs[1], &owner)?;
            transfer(&accs[0], &accs[1], lamports)
        }
        SystemInstruction::Assign { owner } => assign(&accs[0], &owner),
        SystemInstruction::Transfer { lamports } => transfer(&accs[0], &accs[1], lamports),
        SystemInstruction::Allocate { space } => allocate(&accs[0], space),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// Executes a transaction atomically: on any failure the bank is unchanged.
pub fn process(bank: &mut Bank, ixs: &[Instruction], signers: &[Pubkey]) -> Result<TxOut, Fail> {
    let mut work = bank.clone();
    NOW.with(|n| n.set(bank.now));
    let c = ctx();
    c.frames.clear();
    c.logs.clear();
    for ix in ixs {
        QUIET.with(|q| q.set(true));
        LOGGED.with(|n| n.set(0));
        watch_busy();
        let r = catch_unwind(AssertUnwindSafe(|| top(&mut work, ix, signers)));
        watch_idle();
        QUIET.with(|q| q.set(false));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                ctx().frames.clear();
                return Err(Fail::Err(format!("{:?}", e)));
            }
            Err(p) => {
                ctx().frames.clear();
                if let Some(a) = p.downcast_ref::<Abort>() {
                    return Err(match a {
                        Abort::Err(s) => Fail::Err(s.clone()),
                        Abort::Rule(s) => Fail::Rule(s.clone()),
                    });
                }
                let msg = LAST_PANIC.with(|l| l.borrow().clone());
                return Err(Fail::Panic(msg));
            }
        }
    }
    *bank = work;
    Ok(TxOut { logs: std::mem::take(&mut ctx().logs) })
}

fn top(work: &mut Bank, ix: &Instruction, signers: &[Pubkey]) -> ProgramResult {
    let metas: Vec<MetaIn> = ix
        .accounts
        .iter()
        .map(|m| MetaIn { key: m.pubkey, signer: m.is_signer, writable: m.is_writable })
        .collect();
    for m in &metas {
        if m.signer && !signers.contains(&m.key) {
            abort_rule::<()>(format!("MissingSignature {}", m.key));
        }
    }
    match work.get(&ix.program_id) {
        Some(a) if a.executable => {}
        _ => abort_rule("ProgramNotFound"),
    }
    let (f, list) = build_frame(ix.program_id, &metas, |k| match work.get(k) {
        Some(a) => (a.lamports, a.owner, a.executable, a.data.clone()),
        None => (0, system_id(), false, vec![]),
    });
    let c = ctx();
    c.frames.push(f);
    c.outside.clear();
    if c.reentry == Reentry::Any {
        c.signers = signers.to_vec();
        c.bank = Some(work.clone());
    }
    let prog = ix.program_id;
    run_program(&prog, &list, &ix.data)?;
    drop(list);
    let mut f = ctx().frames.pop().unwrap();
    verify_frame(&mut f);
    for (k, a) in std::mem::take(&mut ctx().outside) {
        if a.lamports == 0 {
            work.remove(&k);
        } else {
            work.set(k, a);
        }
    }
    for a in f.accs.iter() {
        if !a.writable {
            continue;
        }
        let changed = match work.get(&a.key) {
            None => a.pre_lamports > 0,
            Some(o) => {
                o.lamports != a.pre_lamports || o.owner != a.pre_owner || o.data != a.pre_data
            }
        };
        if changed {
            if a.pre_lamports == 0 {
                work.remove(&a.key);
            } else {
                work.set(
                    a.key,
                    Acc {
                        lamports: a.pre_lamports,
                        owner: a.pre_owner,
                        executable: a.executable,
                        data: a.pre_data.clone(),
                    },
                );
            }
        }
    }
    Ok(())
}

/// Runs a single call of library code that may panic; Err holds the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    caught(|| {
        watch_busy();
        let r = f();
        watch_idle();
        r
    })
}
/// The same for work of any length (a whole matrix): its single calls are watched, not the whole.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    watch_idle();
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let quiet = QUIET.with(|q| q.get());
        if quiet {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            LAST_PANIC.with(|l| *l.borrow_mut() = format!("{msg} @ {loc}"));
        } else {
            def(i);
        }
    }));
}

//! A single-process Solana runtime: account database, transaction execution, cross-program
//! invocation, sysvars, and the fault points. Everything the programs under test can observe
//! (accounts, clock, rent, stack height, processed siblings, return data) comes from here.

use anchor_lang::prelude::*;
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    pubkey::Pubkey,
    rent::Rent,
};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

pub type Db = BTreeMap<Pubkey, Rc<Acct>>;

pub const SYSTEM: Pubkey = solana_program::system_program::ID;
pub const IX_SYSVAR: Pubkey = solana_program::sysvar::instructions::ID;
pub const NATIVE_LOADER: Pubkey =
    anchor_lang::solana_program::pubkey!("NativeLoader1111111111111111111111111111111");
const SLACK: usize = 10_240;
const MAX_DEPTH: usize = 5;

// ---- error codes of the runtime itself (outside anchor's ranges) ----
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxErr {
    /// An instruction returned an error; u32 custom code when it was one.
    Program(usize, Pubkey, ProgramError),
    /// Runtime rule broken (privileges, lamport sums, rent ...).
    Runtime(usize, &'static str),
    /// Program panicked.
    Panic(usize, String),
    /// Injected: the validator ran out of compute / crashed at the n-th syscall.
    Aborted(usize),
}

impl TxErr {
    pub fn code(&self) -> u32 {
        match self {
            TxErr::Program(_, _, ProgramError::Custom(c)) => *c,
            TxErr::Program(..) => 1,
            TxErr::Runtime(..) => 2,
            TxErr::Panic(..) => 3,
            TxErr::Aborted(_) => 4,
        }
    }
    pub fn injected(&self) -> bool {
        matches!(self, TxErr::Aborted(_))
    }
    pub fn short(&self) -> String {
        match self {
            TxErr::Program(i, p, e) => match e {
                ProgramError::Custom(c) => format!("ix{} {} custom {}", i, crate::abi::name_of(p), c),
                e => format!("ix{} {} {:?}", i, crate::abi::name_of(p), e),
            },
            TxErr::Runtime(i, s) => format!("ix{} runtime {}", i, s),
            TxErr::Panic(i, s) => format!("ix{} panic {}", i, s),
            TxErr::Aborted(i) => format!("ix{} aborted(injected)", i),
        }
    }
}

enum Unwind {
    Err(TxErrKind),
}
#[derive(Clone, Debug)]
enum TxErrKind {
    Program(Pubkey, ProgramError),
    Runtime(&'static str),
    Aborted,
}

/// One processed instruction of a transaction (top level or CPI), in order of invocation.
#[derive(Clone, Debug)]
pub struct TraceIx {
    pub height: usize,
    pub top: usize,
    pub parent: Option<usize>,
    pub ix: Instruction,
    /// database at entry / exit, recorded for instructions of the program under test
    pub pre: Option<Db>,
    pub post: Option<Db>,
}

struct Frame {
    program: Pubkey,
    /// merged privileges of the accounts this frame was invoked with
    privs: BTreeMap<Pubkey, (bool, bool)>,
}

#[derive(Default)]
pub struct Exec {
    pub db: Db,
    pub slot: u64,
    pub ts: i64,
    frames: Vec<Frame>,
    pub trace: Vec<TraceIx>,
    trace_stack: Vec<usize>,
    pub top: usize,
    pub logs_data: Vec<Vec<u8>>,
    ret: Option<(Pubkey, Vec<u8>)>,
    pub syscalls: u64,
    abort_at: Option<u64>,
    pub stub_fault: StubFault,
    pub notes: Vec<String>,
    pub want_logs: bool,
    pub logs: Vec<String>,
}

/// Faults and choices the stubbed third-party programs may exhibit in one transaction.
#[derive(Clone, Debug, Default)]
pub struct StubFault {
    /// n-th stub invocation fails (1-based), 0 = never
    pub fail_nth: u32,
    pub count: u32,
    /// AMM takes this many base units less than offered (rounding of the real AMM)
    pub amm_take_less: u64,
    /// third-party AMM / locker abuses the authority it was lent: 1 drains lamports,
    /// 2 re-assigns the authority account, 3 allocates data in it
    pub misbehave: u8,
    pub fired: u32,
    pub misbehaved: u32,
}

thread_local! {
    static EXEC: RefCell<Exec> = RefCell::new(Exec::default());
    static IN_TX: Cell<bool> = const { Cell::new(false) };
}

pub fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
    EXEC.with(|e| f(&mut e.borrow_mut()))
}

pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_TX.with(|c| c.get()) {
            old(i)
        }
    }));
}

pub fn rent_min(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

fn bail(k: TxErrKind) -> ! {
    resume_unwind(Box::new(Unwind::Err(k)))
}

fn tick() {
    let abort = with(|e| {
        e.syscalls += 1;
        e.abort_at == Some(e.syscalls)
    });
    if abort {
        bail(TxErrKind::Aborted)
    }
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if !IN_TX.with(|c| c.get()) {
            return;
        }
        tick();
        with(|e| {
            if e.want_logs {
                e.logs.push(m.to_string())
            }
        });
    }
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_log_data(&self, f: &[&[u8]]) {
        if !IN_TX.with(|c| c.get()) {
            return;
        }
        tick();
        with(|e| e.logs_data.push(f.concat()));
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        tick();
        let c = with(|e| clock_of(e.slot, e.ts));
        unsafe { std::ptr::write_unaligned(p as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        with(|e| e.ret.clone())
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        with(|e| {
            let p = e.frames.last().map(|f| f.program).unwrap_or_default();
            e.ret = Some((p, d.to_vec()))
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        with(|e| e.frames.len() as u64)
    }
    fn sol_get_processed_sibling_instruction(&self, index: usize) -> Option<Instruction> {
        tick();
        with(|e| {
            let h = e.frames.len();
            let mut rev = 0usize;
            for t in e.trace.iter().rev() {
                if t.height < h {
                    break;
                }
                if t.height == h {
                    if index.saturating_add(1) == rev {
                        return Some(t.ix.clone());
                    }
                    rev += 1;
                }
            }
            None
        })
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        tick();
        cpi(ix, infos, seeds);
        Ok(())
    }
}

pub fn clock_of(slot: u64, ts: i64) -> Clock {
    Clock {
        slot,
        epoch_start_timestamp: 0,
        epoch: slot / 432_000,
        leader_schedule_epoch: slot / 432_000 + 1,
        unix_timestamp: ts,
    }
}

/// The BPF input-buffer image of one account (data pointer = 8 mod 16 so zero-copy structs with
/// u128 are aligned after the discriminator; original length 4 bytes before the key).
struct Buf {
    mem: Vec<u128>,
}
impl Buf {
    fn new(key: &Pubkey, a: &Acct) -> Buf {
        let n = 88 + a.data.len() + SLACK + 16;
        let mut mem = vec![0u128; n.div_ceil(16)];
        let p = mem.as_mut_ptr() as *mut u8;
        unsafe {
            *(p.add(4) as *mut u32) = a.data.len() as u32;
            std::ptr::copy_nonoverlapping(key.as_ref().as_ptr(), p.add(8), 32);
            std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(40), 32);
            *(p.add(72) as *mut u64) = a.lamports;
            *(p.add(80) as *mut u64) = a.data.len() as u64;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), a.data.len());
        }
        Buf { mem }
    }
    fn info(&mut self, signer: bool, writable: bool, executable: bool) -> AccountInfo<'static> {
        let p = self.mem.as_mut_ptr() as *mut u8;
        unsafe {
            let len = *(p.add(80) as *const u64) as usize;
            AccountInfo {
                key: &*(p.add(8) as *const Pubkey),
                lamports: Rc::new(RefCell::new(&mut *(p.add(72) as *mut u64))),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(p.add(88), len))),
                owner: &*(p.add(40) as *const Pubkey),
                rent_epoch: u64::MAX,
                is_signer: signer,
                is_writable: writable,
                executable,
            }
        }
    }
}

/// Write the caller's view of an account back to the database, applying the runtime's rules.
fn flush(info: &AccountInfo, program: &Pubkey, writable: bool) {
    let lam = match info.lamports.try_borrow() {
        Ok(l) => **l,
        Err(_) => bail(TxErrKind::Runtime("AccountBorrowFailed")),
    };
    let data = match info.data.try_borrow() {
        Ok(d) => d,
        Err(_) => bail(TxErrKind::Runtime("AccountBorrowFailed")),
    };
    let owner = unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) };
    let res = with(|e| -> std::result::Result<(), &'static str> {
        let cur = e.db.get(info.key).cloned().unwrap_or_default();
        let data_changed = cur.data[..] != data[..];
        if cur.lamports == lam && !data_changed && cur.owner == owner {
            return Ok(());
        }
        if !writable {
            return Err("ReadonlyModified");
        }
        if cur.executable {
            return Err("ExecutableModified");
        }
        if lam < cur.lamports && cur.owner != *program {
            return Err("ExternalAccountLamportSpend");
        }
        if data_changed && cur.owner != *program {
            return Err("ExternalAccountDataModified");
        }
        if owner != cur.owner && (cur.owner != *program || data.iter().any(|b| *b != 0)) {
            return Err("ModifiedProgramId");
        }
        e.db.insert(
            *info.key,
            Rc::new(Acct { lamports: lam, data: data.to_vec(), owner, executable: false }),
        );
        Ok(())
    });
    if let Err(s) = res {
        bail(TxErrKind::Runtime(s))
    }
}

fn refresh(info: &AccountInfo) {
    let a = with(|e| e.db.get(info.key).cloned()).unwrap_or_default();
    unsafe {
        **info.lamports.borrow_mut() = a.lamports;
        let mut d = info.data.borrow_mut();
        let p = d.as_mut_ptr();
        if d.len() != a.data.len() {
            *(p.offset(-8) as *mut u64) = a.data.len() as u64;
            *d = std::slice::from_raw_parts_mut(p, a.data.len());
        }
        d.copy_from_slice(&a.data);
        // same technique as AccountInfo::assign: the owner field lives 32 bytes after the key
        let op = (p as usize - 48) as *mut Pubkey;
        debug_assert_eq!(op as usize, info.owner as *const Pubkey as usize);
        std::ptr::write_volatile(op, a.owner);
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) {
    let (caller, privs) = with(|e| {
        let f = e.frames.last().expect("cpi outside a frame");
        (f.program, f.privs.clone())
    });
    let mut signers: Vec<Pubkey> = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => signers.push(k),
            Err(_) => bail(TxErrKind::Runtime("InvalidSeeds")),
        }
    }
    // privilege checks
    for m in &ix.accounts {
        let Some(info) = infos.iter().find(|i| *i.key == m.pubkey) else {
            bail(TxErrKind::Runtime("MissingAccount"))
        };
        let (s, w) = privs.get(&m.pubkey).copied().unwrap_or((false, false));
        let _ = info;
        if m.is_writable && !w {
            bail(TxErrKind::Runtime("PrivilegeEscalation(writable)"))
        }
        if m.is_signer && !s && !signers.contains(&m.pubkey) {
            bail(TxErrKind::Runtime("PrivilegeEscalation(signer)"))
        }
    }
    if with(|e| !e.db.get(&ix.program_id).map(|a| a.executable).unwrap_or(false)) {
        bail(TxErrKind::Runtime("UnsupportedProgramId"))
    }
    // the program account must be reachable by the caller
    if !privs.contains_key(&ix.program_id) && ix.program_id != caller {
        bail(TxErrKind::Runtime("MissingProgramAccount"))
    }
    let mut seen: Vec<Pubkey> = vec![];
    for m in &ix.accounts {
        if seen.contains(&m.pubkey) {
            continue;
        }
        seen.push(m.pubkey);
        let info = infos.iter().find(|i| *i.key == m.pubkey).unwrap();
        let (_, w) = privs[&m.pubkey];
        flush(info, &caller, w);
    }
    run(ix);
    for k in &seen {
        for info in infos.iter().filter(|i| i.key == k) {
            if info.data.try_borrow_mut().is_err() {
                continue; // shared handle of a read-only account
            }
            refresh(info);
            break;
        }
    }
}

/// CPI issued by a stub program written directly against the database.
pub fn stub_invoke(ix: &Instruction, pda_signers: &[Pubkey]) {
    let privs = with(|e| e.frames.last().unwrap().privs.clone());
    for m in &ix.accounts {
        let (s, w) = privs.get(&m.pubkey).copied().unwrap_or((false, false));
        if m.is_writable && !w {
            bail(TxErrKind::Runtime("PrivilegeEscalation(writable)"))
        }
        if m.is_signer && !s && !pda_signers.contains(&m.pubkey) {
            bail(TxErrKind::Runtime("PrivilegeEscalation(signer)"))
        }
    }
    run(ix);
}

pub fn stub_fail(program: Pubkey, e: ProgramError) -> ! {
    bail(TxErrKind::Program(program, e))
}

/// Run one instruction (any level) on the working database.
fn run(ix: &Instruction) {
    let too_deep = with(|e| {
        e.frames.len() >= MAX_DEPTH
            || (e.frames.iter().rev().skip(1).any(|f| f.program == ix.program_id)
                && e.frames.last().map(|f| f.program) != Some(ix.program_id))
    });
    if too_deep {
        bail(TxErrKind::Runtime("CallDepth/ReentrancyNotAllowed"))
    }
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        let p = privs.entry(m.pubkey).or_insert((false, false));
        p.0 |= m.is_signer;
        p.1 |= m.is_writable;
    }
    with(|e| {
        let parent = e.trace_stack.last().copied();
        let snap = ix.program_id == crate::abi::DBC && !crate::abi::is_event_ix(&ix.data);
        let pre = if snap { Some(e.db.clone()) } else { None };
        e.trace.push(TraceIx { height: e.frames.len() + 1, top: e.top, parent, ix: ix.clone(), pre, post: None });
        let id = e.trace.len() - 1;
        e.trace_stack.push(id);
        e.ret = None;
        e.frames.push(Frame { program: ix.program_id, privs: privs.clone() });
    });
    if let Some(stub) = crate::progs::stub_of(&ix.program_id) {
        tick();
        let fault = with(|e| {
            if e.frames.len() > 1 && crate::progs::faultable(&ix.program_id) {
                e.stub_fault.count += 1;
                if e.stub_fault.fail_nth == e.stub_fault.count {
                    e.stub_fault.fired += 1;
                    return true;
                }
            }
            false
        });
        if fault {
            bail(TxErrKind::Aborted)
        }
        if let Err(er) = stub(ix) {
            bail(TxErrKind::Program(ix.program_id, er))
        }
    } else if let Some(real) = crate::progs::real_of(&ix.program_id) {
        let mut bufs: Vec<Buf> = vec![];
        let mut index: BTreeMap<Pubkey, AccountInfo<'static>> = BTreeMap::new();
        let mut infos: Vec<AccountInfo<'static>> = vec![];
        for m in &ix.accounts {
            let info = match index.get(&m.pubkey) {
                Some(i) => i.clone(),
                None => {
                    let a = with(|e| e.db.get(&m.pubkey).cloned()).unwrap_or_default();
                    let mut b = Buf::new(&m.pubkey, &a);
                    let (s, w) = privs[&m.pubkey];
                    let i = b.info(s, w, a.executable);
                    bufs.push(b);
                    index.insert(m.pubkey, i.clone());
                    i
                }
            };
            infos.push(info);
        }
        // SAFETY: `infos` borrows the heap memory of `bufs`, both outlive the call.
        let slice: &'static [AccountInfo<'static>] =
            unsafe { std::slice::from_raw_parts(infos.as_ptr(), infos.len()) };
        if let Err(er) = real(&ix.program_id, slice, &ix.data) {
            bail(TxErrKind::Program(ix.program_id, er))
        }
        for (k, info) in &index {
            flush(info, &ix.program_id, privs[k].1);
        }
        drop(index);
        drop(infos);
        drop(bufs);
    } else {
        bail(TxErrKind::Runtime("UnsupportedProgramId"))
    }
    with(|e| {
        e.frames.pop();
        let id = e.trace_stack.pop().unwrap();
        if e.trace[id].pre.is_some() {
            e.trace[id].post = Some(e.db.clone());
        }
    });
}

pub fn is_signer(k: &Pubkey) -> bool {
    with(|e| e.frames.last().and_then(|f| f.privs.get(k).map(|p| p.0)).unwrap_or(false))
}
pub fn is_writable(k: &Pubkey) -> bool {
    with(|e| e.frames.last().and_then(|f| f.privs.get(k).map(|p| p.1)).unwrap_or(false))
}
pub fn get(k: &Pubkey) -> Acct {
    with(|e| e.db.get(k).map(|a| (**a).clone()).unwrap_or_default())
}
pub fn put(k: &Pubkey, a: Acct) {
    with(|e| {
        e.db.insert(*k, Rc::new(a));
    })
}
/// Take (and consume) the requested third-party misbehaviour.
pub fn take_misbehave() -> u8 {
    with(|e| {
        // low nibble: what it does; high nibble: how many opportunities it lets pass first
        let m = e.stub_fault.misbehave;
        if m >= 16 {
            e.stub_fault.misbehave -= 16;
            return 0;
        }
        if m != 0 {
            e.stub_fault.misbehave = 0;
            e.stub_fault.misbehaved += 1;
        }
        m
    })
}
pub fn take_less() -> u64 {
    with(|e| e.stub_fault.amm_take_less)
}

// ------------------------------------------------------------------ transactions

#[derive(Clone, Debug, Default)]
pub struct TxIn {
    pub ixs: Vec<Instruction>,
    /// keys whose owners actually signed
    pub signers: Vec<Pubkey>,
    pub abort_at: Option<u64>,
    pub stub_fault: StubFault,
}

pub struct TxOut {
    pub err: Option<TxErr>,
    pub pre: Db,
    pub post: Db,
    pub trace: Vec<TraceIx>,
    pub syscalls: u64,
    pub stub_faults_fired: u32,
    pub misbehaved: u32,
    pub slot: u64,
    pub ts: i64,
    pub logs: Vec<String>,
}

impl TxOut {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
}

pub fn execute(db: &Db, slot: u64, ts: i64, tx: &TxIn, want_logs: bool) -> TxOut {
    let pre = db.clone();
    // signature verification: an account marked signer must have signed
    for (i, ix) in tx.ixs.iter().enumerate() {
        for m in &ix.accounts {
            if m.is_signer && !tx.signers.contains(&m.pubkey) {
                return TxOut {
                    err: Some(TxErr::Runtime(i, "SignatureFailure")),
                    post: pre.clone(),
                    pre,
                    trace: vec![],
                    syscalls: 0,
                    stub_faults_fired: 0,
                    misbehaved: 0,
                    slot,
                    ts,
                    logs: vec![],
                };
            }
        }
    }
    // transaction-level privileges are merged over all instructions (as in a message header)
    let borrowed: Vec<solana_program::sysvar::instructions::BorrowedInstruction> = tx
        .ixs
        .iter()
        .map(|ix| solana_program::sysvar::instructions::BorrowedInstruction {
            program_id: &ix.program_id,
            accounts: ix
                .accounts
                .iter()
                .map(|m| solana_program::sysvar::instructions::BorrowedAccountMeta {
                    pubkey: &m.pubkey,
                    is_signer: m.is_signer,
                    is_writable: m.is_writable,
                })
                .collect(),
            data: &ix.data,
        })
        .collect();
    let mut sysvar = solana_program::sysvar::instructions::construct_instructions_data(&borrowed);
    with(|e| {
        *e = Exec {
            db: db.clone(),
            slot,
            ts,
            abort_at: tx.abort_at,
            stub_fault: tx.stub_fault.clone(),
            want_logs,
            ..Exec::default()
        };
    });
    let mut err: Option<TxErr> = None;
    IN_TX.with(|c| c.set(true));
    for (i, ix) in tx.ixs.iter().enumerate() {
        solana_program::sysvar::instructions::store_current_index(&mut sysvar, i as u16);
        with(|e| {
            e.top = i;
            e.frames.clear();
            e.trace_stack.clear();
            e.db.insert(
                IX_SYSVAR,
                Rc::new(Acct {
                    lamports: 1,
                    data: sysvar.clone(),
                    owner: anchor_lang::solana_program::sysvar::ID,
                    executable: false,
                }),
            );
        });
        let r = catch_unwind(AssertUnwindSafe(|| {
            if with(|e| !e.db.get(&ix.program_id).map(|a| a.executable).unwrap_or(false)) {
                bail(TxErrKind::Runtime("UnsupportedProgramId"))
            }
            run(ix)
        }));
        if let Err(p) = r {
            err = Some(match p.downcast::<Unwind>() {
                Ok(u) => match *u {
                    Unwind::Err(TxErrKind::Program(k, e)) => TxErr::Program(i, k, e),
                    Unwind::Err(TxErrKind::Runtime(s)) => TxErr::Runtime(i, s),
                    Unwind::Err(TxErrKind::Aborted) => TxErr::Aborted(i),
                },
                Err(p) => {
                    let m = if let Some(s) = p.downcast_ref::<String>() {
                        s.clone()
                    } else if let Some(s) = p.downcast_ref::<&str>() {
                        s.to_string()
                    } else {
                        "?".into()
                    };
                    TxErr::Panic(i, m)
                }
            });
            break;
        }
    }
    IN_TX.with(|c| c.set(false));
    let mut ex = with(std::mem::take);
    ex.db.remove(&IX_SYSVAR);
    if err.is_none() {
        // lamports are conserved and accounts stay rent exempt
        let sum = |d: &Db| d.values().map(|a| a.lamports as u128).sum::<u128>();
        let last = tx.ixs.len().saturating_sub(1);
        if sum(&pre) != sum(&ex.db) {
            err = Some(TxErr::Runtime(last, "UnbalancedInstruction"));
        } else {
            for (k, a) in ex.db.iter() {
                let before = pre.get(k);
                if before.map(|b| Rc::ptr_eq(b, a)).unwrap_or(false) {
                    continue;
                }
                if a.lamports == 0 {
                    continue;
                }
                let min = rent_min(a.data.len());
                let ok_before = before.map(|b| b.lamports >= rent_min(b.data.len()) || b.lamports == 0).unwrap_or(true);
                if a.lamports < min && ok_before {
                    err = Some(TxErr::Runtime(last, "InsufficientFundsForRent"));
                    break;
                }
            }
        }
    }
    let post = if err.is_none() {
        ex.db.retain(|_, a| a.lamports > 0);
        ex.db
    } else {
        pre.clone()
    };
    TxOut {
        err,
        pre,
        post,
        trace: ex.trace,
        syscalls: ex.syscalls,
        stub_faults_fired: ex.stub_fault.fired,
        misbehaved: ex.stub_fault.misbehaved,
        slot,
        ts,
        logs: ex.logs,
    }
}

#[allow(dead_code)]
pub fn meta(k: Pubkey, s: bool, w: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: s, is_writable: w }
}

//! A small model of the Solana runtime around the real program entry code.
//!
//! The VRF program runs natively: accounts are serialized in the loader's aligned input
//! format, deserialized with the real `entrypoint::deserialize`, and CPIs / sysvars reach
//! this model through the SDK's syscall stubs. Account rules (ownership, writability,
//! signer privileges, realloc limit, lamport balance, rent state, atomic rollback) are
//! enforced as the runtime does.
use solana_program::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::sysvar::clock::Clock;
use solana_system_interface::instruction::SystemInstruction;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Once;

pub const SYS: Pubkey = Pubkey::new_from_array([0; 32]);
pub const MAX_INC: usize = 10_240;

pub fn vrf() -> Pubkey {
    ephemeral_vrf_api::ID
}
pub fn dlp() -> Pubkey {
    solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh")
}
pub fn magic() -> Pubkey {
    solana_program::pubkey!("Magic11111111111111111111111111111111111111")
}
pub fn magic_ctx() -> Pubkey {
    solana_program::pubkey!("MagicContext1111111111111111111111111111111")
}
pub fn rent_min(len: usize) -> u64 {
    (128 + len as u64) * 6960
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Bank {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub slot: u64,
    pub ts: i64,
    /// reserved keys can never be write-locked
    pub reserved: BTreeSet<Pubkey>,
    /// inside a transaction of several instructions: the state it started from
    pub open: Option<BTreeMap<Pubkey, Acct>>,
}

/// What a CPI callee received.
#[derive(Clone, Debug)]
pub struct Call {
    pub program: Pubkey,
    pub metas: Vec<AccountMeta>,
    /// flags as the callee sees them (duplicates merged)
    pub eff: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Program(ProgramError),
    Runtime(String),
    Panic(String),
}

#[derive(Clone, Debug, Default)]
pub struct TxOpts {
    /// callback programs that fail
    pub failing: BTreeSet<Pubkey>,
    /// the instruction is issued by the delegation program through CPI
    pub by_dlp: bool,
    /// addresses that count as signers
    pub signers: BTreeSet<Pubkey>,
}

#[derive(Debug)]
pub struct TxResult {
    pub res: Result<(), Fail>,
    pub calls: Vec<Call>,
}

struct Frame {
    metas: BTreeMap<Pubkey, (bool, bool)>,
    sum: u128,
    orig_len: BTreeMap<Pubkey, usize>,
}

struct Ctx {
    work: BTreeMap<Pubkey, Acct>,
    frame: Frame,
    calls: Vec<Call>,
    failing: BTreeSet<Pubkey>,
    fatal: Option<String>,
    slot: u64,
    ts: i64,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), ProgramError> {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let ctx = c.as_mut().expect("cpi outside of a transaction");
            match cpi(ctx, ix, infos, seeds) {
                Ok(()) => Ok(()),
                Err(e) => {
                    // a failed CPI aborts the whole transaction
                    ctx.fatal.get_or_insert(e);
                    Err(ProgramError::Custom(0xdead))
                }
            }
        })
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        CTX.with(|c| {
            let c = c.borrow();
            let ctx = c.as_ref().expect("clock outside of a transaction");
            let clock = Clock { slot: ctx.slot, epoch_start_timestamp: 0, epoch: ctx.slot / 432_000, leader_schedule_epoch: ctx.slot / 432_000 + 1, unix_timestamp: ctx.ts };
            unsafe { std::ptr::write_unaligned(p as *mut Clock, clock) };
            0
        })
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) };
        0
    }
    fn sol_get_sysvar(&self, _id: *const u8, _var: *mut u8, _off: u64, _len: u64) -> u64 {
        1
    }
}

pub fn init() {
    static O: Once = Once::new();
    O.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    });
}

/// The runtime's rules for a program changing one account.
fn check_change(old: &Acct, new: &Acct, writable: bool, program: &Pubkey, orig_len: usize) -> Result<(), String> {
    if old.lamports != new.lamports {
        if !writable {
            return Err("ReadonlyLamportChange".into());
        }
        if new.lamports < old.lamports && old.owner != *program {
            return Err("ExternalAccountLamportSpend".into());
        }
    }
    if old.data != new.data {
        if !writable {
            return Err("ReadonlyDataModified".into());
        }
        if old.owner != *program {
            return Err("ExternalAccountDataModified".into());
        }
        if new.data.len() > orig_len + MAX_INC {
            return Err("InvalidRealloc".into());
        }
    }
    if old.owner != new.owner {
        if old.owner != *program || !writable || new.data.iter().any(|b| *b != 0) {
            return Err("ModifiedProgramId".into());
        }
    }
    Ok(())
}

/// A change that leaves an account below the rent-exempt minimum although it was not before.
fn rent_broken(pre: &Acct, a: &Acct) -> bool {
    let paying = |x: &Acct| x.lamports > 0 && x.lamports < rent_min(x.data.len());
    paying(a) && !(paying(pre) && a.data.len() == pre.data.len() && a.lamports <= pre.lamports)
}

fn info_state(info: &AccountInfo, executable: bool) -> Acct {
    Acct { lamports: **info.lamports.borrow(), data: info.data.borrow().to_vec(), owner: unsafe { std::ptr::read_volatile(info.owner) }, executable }
}

fn lamport_sum(ctx: &Ctx) -> u128 {
    ctx.frame.metas.keys().map(|k| ctx.work[k].lamports as u128).sum()
}

fn cpi(ctx: &mut Ctx, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
    if ctx.fatal.is_some() {
        return Err("already failed".into());
    }
    let mut pdas = BTreeSet::new();
    for s in seeds {
        pdas.insert(Pubkey::create_program_address(s, &vrf()).map_err(|e| format!("bad signer seeds {e:?}"))?);
    }
    // merge duplicate callee accounts, check privileges
    let mut eff: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        let e = eff.entry(m.pubkey).or_default();
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    for (k, (s, w)) in &eff {
        let Some((cs, cw)) = ctx.frame.metas.get(k) else { return Err(format!("MissingAccount {k}")) };
        if *w && !*cw {
            return Err(format!("PrivilegeEscalation writable {k}"));
        }
        if *s && !*cs && !pdas.contains(k) {
            return Err(format!("PrivilegeEscalation signer {k}"));
        }
    }
    if !ctx.frame.metas.contains_key(&ix.program_id) {
        return Err(format!("MissingAccount program {}", ix.program_id));
    }
    if !ctx.work[&ix.program_id].executable {
        return Err("AccountNotExecutable".into());
    }
    // caller -> transaction context
    for k in eff.keys() {
        if ctx.work[k].executable {
            continue;
        }
        let Some(info) = infos.iter().find(|i| i.key == k) else { return Err(format!("MissingAccount info {k}")) };
        let new = info_state(info, false);
        let old = &ctx.work[k];
        check_change(old, &new, ctx.frame.metas[k].1, &vrf(), ctx.frame.orig_len[k])?;
        ctx.work.insert(*k, new);
    }
    if lamport_sum(ctx) != ctx.frame.sum {
        return Err("UnbalancedInstruction".into());
    }
    let before: u128 = eff.keys().map(|k| ctx.work[k].lamports as u128).sum();
    if ix.program_id == SYS {
        system(&mut ctx.work, ix, &eff)?;
    } else {
        ctx.calls.push(Call {
            program: ix.program_id,
            metas: ix.accounts.clone(),
            eff: ix.accounts.iter().map(|m| (m.pubkey, eff[&m.pubkey].0, eff[&m.pubkey].1)).collect(),
            data: ix.data.clone(),
        });
        if ix.program_id == vrf() {
            return Err("ReentrancyNotAllowed".into());
        } else if ix.program_id == dlp() {
            dlp_delegate(&mut ctx.work, ix, &eff)?;
        } else if ix.program_id == magic() {
            let ok = ix.accounts.first().is_some_and(|m| eff[&m.pubkey].0) && ix.accounts.get(1).is_some_and(|m| m.pubkey == magic_ctx() && m.is_writable);
            if !ok {
                return Err("magic program: bad accounts".into());
            }
        } else if ctx.failing.contains(&ix.program_id) {
            return Err("callback failed".into());
        }
    }
    let after: u128 = eff.keys().map(|k| ctx.work[k].lamports as u128).sum();
    assert_eq!(before, after, "model error: callee created lamports");
    // transaction context -> caller
    for (k, (_, w)) in &eff {
        if !*w {
            continue;
        }
        let Some(info) = infos.iter().find(|i| i.key == k) else { continue };
        let a = &ctx.work[k];
        if a.executable {
            continue;
        }
        if a.data.len() > ctx.frame.orig_len[k] + MAX_INC {
            return Err("InvalidRealloc".into());
        }
        **info.lamports.borrow_mut() = a.lamports;
        info.assign(&a.owner);
        let mut d = info.data.borrow_mut();
        unsafe {
            let p = d.as_mut_ptr();
            *(p.offset(-8) as *mut u64) = a.data.len() as u64;
            *d = std::slice::from_raw_parts_mut(p, a.data.len());
        }
        d.copy_from_slice(&a.data);
    }
    Ok(())
}

fn system(work: &mut BTreeMap<Pubkey, Acct>, ix: &Instruction, eff: &BTreeMap<Pubkey, (bool, bool)>) -> Result<(), String> {
    let sysix: SystemInstruction = bincode::deserialize(&ix.data).map_err(|e| e.to_string())?;
    let key = |i: usize| ix.accounts.get(i).map(|m| m.pubkey).ok_or_else(|| "NotEnoughAccountKeys".to_string());
    let signer = |k: &Pubkey| if eff[k].0 { Ok(()) } else { Err(format!("MissingRequiredSignature {k}")) };
    let writable = |k: &Pubkey| if eff[k].1 { Ok(()) } else { Err(format!("readonly {k}")) };
    fn allocate(a: &mut Acct, space: u64) -> Result<(), String> {
        if !a.data.is_empty() || a.owner != SYS {
            return Err("AccountAlreadyInUse".into());
        }
        if space > 10 * 1024 * 1024 {
            return Err("InvalidAccountDataLength".into());
        }
        a.data = vec![0; space as usize];
        Ok(())
    }
    let transfer = |work: &mut BTreeMap<Pubkey, Acct>, from: Pubkey, to: Pubkey, n: u64| -> Result<(), String> {
        signer(&from)?;
        let f = work.get_mut(&from).unwrap();
        if !f.data.is_empty() {
            return Err("transfer: from must not carry data".into());
        }
        if f.lamports < n {
            return Err("ResultWithNegativeLamports".into());
        }
        if n > 0 {
            writable(&from)?;
            writable(&to)?;
            if f.owner != SYS {
                return Err("ExternalAccountLamportSpend".into());
            }
        }
        f.lamports -= n;
        work.get_mut(&to).unwrap().lamports += n;
        Ok(())
    };
    match sysix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (from, to) = (key(0)?, key(1)?);
            signer(&to)?;
            writable(&to)?;
            let a = work.get_mut(&to).unwrap();
            if a.lamports > 0 {
                return Err("AccountAlreadyInUse".into());
            }
            allocate(a, space)?;
            a.owner = owner;
            transfer(work, from, to, lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(work, key(0)?, key(1)?, lamports),
        SystemInstruction::Assign { owner } => {
            let k = key(0)?;
            let a = work.get_mut(&k).unwrap();
            if a.owner == owner {
                return Ok(());
            }
            signer(&k)?;
            writable(&k)?;
            if a.owner != SYS || a.data.iter().any(|b| *b != 0) {
                return Err("ModifiedProgramId".into());
            }
            a.owner = owner;
            Ok(())
        }
        SystemInstruction::Allocate { space } => {
            let k = key(0)?;
            signer(&k)?;
            writable(&k)?;
            allocate(work.get_mut(&k).unwrap(), space)
        }
        _ => Err("system instruction not modelled".into()),
    }
}

pub fn dlp_record(q: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"delegation", q.as_ref()], &dlp()).0
}
pub fn dlp_metadata(q: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"delegation-metadata", q.as_ref()], &dlp()).0
}
pub fn delegate_buffer(q: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"buffer", q.as_ref()], &vrf()).0
}
pub fn undelegate_buffer(q: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"undelegate-buffer", q.as_ref()], &dlp()).0
}

/// The delegation program's Delegate instruction.
fn dlp_delegate(work: &mut BTreeMap<Pubkey, Acct>, ix: &Instruction, eff: &BTreeMap<Pubkey, (bool, bool)>) -> Result<(), String> {
    if ix.data.len() < 8 || ix.data[..8] != [0u8; 8] || ix.accounts.len() < 7 {
        return Err("dlp: unknown instruction".into());
    }
    let k: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
    let (payer, del, owner_prog, buffer, record, metadata) = (k[0], k[1], k[2], k[3], k[4], k[5]);
    if !eff[&payer].0 || !eff[&del].0 {
        return Err("dlp: missing signature".into());
    }
    if work[&del].owner != dlp() {
        return Err("dlp: account not owned by the delegation program".into());
    }
    if buffer != Pubkey::find_program_address(&[b"buffer", del.as_ref()], &owner_prog).0 {
        return Err("dlp: buffer seeds".into());
    }
    if record != dlp_record(&del) || metadata != dlp_metadata(&del) {
        return Err("dlp: record seeds".into());
    }
    let mut body = &ix.data[8..];
    let (_freq, seeds, _validator): (u32, Vec<Vec<u8>>, Option<[u8; 32]>) = borsh::BorshDeserialize::deserialize(&mut body).map_err(|e| format!("dlp: {e}"))?;
    let sl: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
    if Pubkey::find_program_address(&sl, &owner_prog).0 != del {
        return Err("dlp: delegated account seeds".into());
    }
    for (key, data) in [(record, owner_prog.to_bytes().to_vec()), (metadata, borsh::to_vec(&seeds).unwrap())] {
        let a = work.get_mut(&key).unwrap();
        if a.owner != SYS || !a.data.is_empty() {
            return Err("dlp: already delegated".into());
        }
        if !eff[&key].1 {
            return Err("dlp: readonly record".into());
        }
        a.owner = dlp();
        let need = rent_min(data.len()).saturating_sub(a.lamports);
        a.lamports += need;
        a.data = data;
        let p = work.get_mut(&payer).unwrap();
        if p.lamports < need || !eff[&payer].1 {
            return Err("dlp: payer".into());
        }
        p.lamports -= need;
    }
    let buf = work[&buffer].data.clone();
    let d = work.get_mut(&del).unwrap();
    if buf.len() != d.data.len() {
        return Err("dlp: buffer length".into());
    }
    if !eff[&del].1 {
        return Err("dlp: readonly delegated account".into());
    }
    d.data = buf;
    Ok(())
}

/// Run one top-level (or delegation-program issued) VRF instruction inside `ctx`.
fn run_vrf(ctx: &mut Option<Ctx>, ix: &Instruction, flags: &BTreeMap<Pubkey, (bool, bool)>) -> Result<(), Fail> {
    let program_id = ix.program_id;
    let c = ctx.as_mut().unwrap();
    let mut metas: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        metas.insert(m.pubkey, flags[&m.pubkey]);
    }
    c.frame = Frame {
        orig_len: metas.keys().map(|k| (*k, c.work[k].data.len())).collect(),
        metas,
        sum: 0,
    };
    c.frame.sum = lamport_sum(c);
    // serialize
    let mut size = 8;
    for m in &ix.accounts {
        size += 8 + 32 + 32 + 8 + 8 + c.work[&m.pubkey].data.len() + MAX_INC + 8 + 8 + 8;
    }
    size += 8 + ix.data.len() + 32 + 64;
    let mut store: Vec<u64> = vec![0; size / 8 + 2];
    let base = store.as_mut_ptr() as *mut u8;
    let buf = unsafe { std::slice::from_raw_parts_mut(base, store.len() * 8) };
    let mut o = 0;
    let mut put = |o: &mut usize, b: &[u8]| {
        buf[*o..*o + b.len()].copy_from_slice(b);
        *o += b.len();
    };
    put(&mut o, &(ix.accounts.len() as u64).to_le_bytes());
    let mut seen: Vec<Pubkey> = vec![];
    for m in &ix.accounts {
        if let Some(p) = seen.iter().position(|k| *k == m.pubkey) {
            put(&mut o, &[p as u8, 0, 0, 0, 0, 0, 0, 0]);
            seen.push(Pubkey::new_from_array([0xfe; 32])); // keep positions aligned
            continue;
        }
        seen.push(m.pubkey);
        let a = &c.work[&m.pubkey];
        let (s, w) = c.frame.metas[&m.pubkey];
        put(&mut o, &[0xff, s as u8, w as u8, a.executable as u8]);
        put(&mut o, &[0; 4]);
        put(&mut o, m.pubkey.as_ref());
        put(&mut o, a.owner.as_ref());
        put(&mut o, &a.lamports.to_le_bytes());
        put(&mut o, &(a.data.len() as u64).to_le_bytes());
        put(&mut o, &a.data);
        o += MAX_INC;
        o = (o + 7) & !7;
        put(&mut o, &u64::MAX.to_le_bytes());
    }
    put(&mut o, &(ix.data.len() as u64).to_le_bytes());
    put(&mut o, &ix.data);
    put(&mut o, program_id.as_ref());

    let (pid, infos, data) = unsafe { solana_program::entrypoint::deserialize(base) };
    CTX.with(|t| *t.borrow_mut() = ctx.take());
    let r = vcore::guard(|| ephemeral_vrf_program::process_instruction(pid, &infos, data));
    *ctx = CTX.with(|t| t.borrow_mut().take());
    let c = ctx.as_mut().unwrap();
    match r {
        Err(p) => return Err(Fail::Panic(p)),
        Ok(r) => {
            if let Some(f) = c.fatal.take() {
                return Err(Fail::Runtime(f));
            }
            r.map_err(Fail::Program)?;
        }
    }
    // read the frame back, enforcing the account rules
    for info in &infos {
        let k = *info.key;
        let old = &c.work[&k];
        if old.executable {
            continue;
        }
        let new = info_state(info, false);
        check_change(old, &new, c.frame.metas[&k].1, &program_id, c.frame.orig_len[&k]).map_err(Fail::Runtime)?;
        c.work.insert(k, new);
    }
    if lamport_sum(c) != c.frame.sum {
        return Err(Fail::Runtime("UnbalancedInstruction".into()));
    }
    drop(infos);
    drop(store);
    Ok(())
}

impl Bank {
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or_default()
    }

    /// Execute instructions atomically. Every instruction must target the VRF program or the
    /// system program.
    pub fn exec(&mut self, ixs: &[Instruction], opts: &TxOpts) -> TxResult {
        init();
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for ix in ixs {
            for m in &ix.accounts {
                let e = flags.entry(m.pubkey).or_default();
                e.0 |= m.is_signer && opts.signers.contains(&m.pubkey);
                e.1 |= m.is_writable && !self.reserved.contains(&m.pubkey);
            }
            flags.entry(ix.program_id).or_default();
        }
        // a program invoked at top level cannot be write-locked
        for ix in ixs {
            flags.get_mut(&ix.program_id).unwrap().1 = false;
        }
        let mut ctx = Some(Ctx {
            work: flags.keys().map(|k| (*k, self.get(k))).collect(),
            frame: Frame { metas: BTreeMap::new(), sum: 0, orig_len: BTreeMap::new() },
            calls: vec![],
            failing: opts.failing.clone(),
            fatal: None,
            slot: self.slot,
            ts: self.ts,
        });
        let mut res = Ok(());
        for ix in ixs {
            if ix.program_id == SYS {
                let c = ctx.as_mut().unwrap();
                res = system(&mut c.work, ix, &flags).map_err(Fail::Runtime);
            } else {
                res = run_vrf(&mut ctx, ix, &flags);
            }
            if res.is_err() {
                break;
            }
        }
        let c = ctx.unwrap();
        if res.is_ok() && self.open.is_none() {
            // rent state transitions
            for (k, a) in &c.work {
                if flags[k].1 && rent_broken(&self.get(k), a) {
                    res = Err(Fail::Runtime(format!("InsufficientFundsForRent {k}")));
                }
            }
        }
        if res.is_ok() {
            for (k, a) in c.work {
                let gone = if self.open.is_some() { a == Acct::default() } else { a.lamports == 0 };
                if gone {
                    self.accts.remove(&k);
                } else {
                    self.accts.insert(k, a);
                }
            }
            TxResult { res, calls: c.calls }
        } else {
            TxResult { res, calls: vec![] }
        }
    }

    /// The following calls of `exec` are instructions of one transaction.
    pub fn begin(&mut self) {
        self.open = Some(self.accts.clone());
    }
    /// End of the transaction: rent state transitions, accounts without lamports disappear.
    pub fn commit(&mut self) -> Result<(), Fail> {
        let start = self.open.take().expect("no open transaction");
        let broken = self.accts.iter().find(|(k, a)| start.get(k) != Some(a) && rent_broken(&start.get(k).cloned().unwrap_or_default(), a)).map(|(k, _)| *k);
        if let Some(k) = broken {
            self.accts = start;
            return Err(Fail::Runtime(format!("InsufficientFundsForRent {k}")));
        }
        self.accts.retain(|_, a| a.lamports > 0);
        Ok(())
    }
    /// An account that still means something inside a transaction.
    pub fn alive(&self, k: &Pubkey) -> bool {
        self.accts.get(k).is_some_and(|a| a.lamports > 0 || !a.data.is_empty())
    }

    pub fn total(&self) -> u128 {
        self.accts.values().map(|a| a.lamports as u128).sum()
    }
}

/// The compute unit limit a transaction asks for with its compute-budget instructions `data`, for
/// `n` other instructions; an error if the runtime refuses them.
pub fn compute_limit<'a>(data: impl Iterator<Item = &'a [u8]>, n: u32) -> Result<u32, String> {
    let mut seen = BTreeSet::new();
    let mut limit = 200_000u32.saturating_mul(n);
    for d in data {
        let len = match d.first() {
            Some(1 | 2 | 4) => 5,
            Some(3) => 9,
            _ => return Err(format!("unknown compute-budget instruction {d:?}")),
        };
        if d.len() < len {
            return Err(format!("malformed compute-budget instruction {d:?}"));
        }
        if !seen.insert(d[0]) {
            return Err("the same compute-budget instruction twice".into());
        }
        if d[0] == 2 {
            limit = u32::from_le_bytes(d[1..5].try_into().unwrap());
        }
    }
    Ok(limit.min(1_400_000))
}

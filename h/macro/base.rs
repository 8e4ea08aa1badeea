//! What the generated programs of C33 share: accounts by role, the observations of one struct,
//! and the recorder that stands for the runtime's invoke call. Prints one line per problem.
pub use anchor_lang;
pub use ephemeral_vrf_sdk;
pub use vdump;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::solana_program::program_error::ProgramError;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

type ProgramResult = std::result::Result<(), ProgramError>;
pub type Infos = &'static [AccountInfo<'static>];
pub type Keys = Vec<(&'static str, Pubkey)>;
pub type Dump = (&'static str, &'static [&'static str], &'static [(&'static str, &'static str, &'static str, &'static [&'static str])]);

#[derive(Clone)]
struct Call {
    ix: Instruction,
    infos: Vec<(Pubkey, bool, bool)>,
    seeds: Vec<Vec<Vec<u8>>>,
}
thread_local! {
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    static REFUSE: Cell<Option<u32>> = const { Cell::new(None) };
}
fn record(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    CALLS.with(|c| {
        c.borrow_mut().push(Call {
            ix: ix.clone(),
            infos: infos.iter().map(|i| (*i.key, i.is_signer, i.is_writable)).collect(),
            seeds: seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect(),
        })
    });
    match REFUSE.with(|r| r.get()) {
        Some(e) => Err(ProgramError::Custom(e)),
        None => Ok(()),
    }
}
#[cfg(feature = "modern")]
fn install() {
    *solana_invoke::RECORDER.lock().unwrap() = Some(record);
    *solana_cpi::RECORDER.lock().unwrap() = Some(record);
}
#[cfg(feature = "compat")]
fn install() {
    use anchor_lang::solana_program::program_stubs::*;
    struct S;
    impl SyscallStubs for S {
        fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
            record(ix, infos, seeds)
        }
        fn sol_log(&self, _: &str) {}
    }
    set_syscall_stubs(Box::new(S));
}

fn hash(parts: &[&[u8]]) -> [u8; 32] {
    // FNV-like expansion: only has to be distinct and fixed
    let mut out = [0u8; 32];
    for (k, o) in out.chunks_mut(8).enumerate() {
        let mut h = 0xcbf29ce484222325u64 ^ (k as u64).wrapping_mul(0x9E3779B97F4A7C15);
        for p in parts {
            for b in p.iter().chain([&0xffu8, &(p.len() as u8)]) {
                h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
                h ^= h >> 29;
            }
        }
        o.copy_from_slice(&h.to_le_bytes());
    }
    out
}

/// A user account type of the generated programs.
#[derive(Clone)]
struct Acc {
    key: Pubkey,
    signer: bool,
    writable: bool,
    owner: Pubkey,
    exec: bool,
    data: Vec<u8>,
}
impl Acc {
    fn info(&self) -> AccountInfo<'static> {
        let key: &'static Pubkey = Box::leak(Box::new(self.key));
        let owner: &'static Pubkey = Box::leak(Box::new(self.owner));
        let lam: &'static mut u64 = Box::leak(Box::new(10_000_000_000));
        let data: &'static mut [u8] = Box::leak(self.data.clone().into_boxed_slice());
        #[cfg(feature = "modern")]
        return AccountInfo::new(key, self.signer, self.writable, lam, data, owner, self.exec);
        #[cfg(feature = "compat")]
        return AccountInfo::new(key, self.signer, self.writable, lam, data, owner, self.exec, 0);
    }
}
fn pk(b: impl AsRef<[u8]>) -> Pubkey {
    let a: [u8; 32] = b.as_ref().try_into().unwrap();
    Pubkey::new_from_array(a)
}
pub const SLOT_HASHES: Pubkey = Pubkey::new_from_array([6, 167, 213, 23, 25, 47, 10, 175, 198, 242, 101, 227, 251, 119, 204, 122, 218, 130, 197, 41, 208, 190, 59, 19, 110, 45, 0, 85, 32, 0, 0, 0]);
fn recent_blockhashes() -> Pubkey {
    let mut b = SLOT_HASHES.to_bytes();
    b[31] = 1;
    pk(b)
}
fn system() -> Pubkey {
    Pubkey::default()
}
fn vrf() -> Pubkey {
    pk(ephemeral_vrf_sdk::consts::VRF_PROGRAM_ID.to_bytes())
}
fn loader() -> Pubkey {
    pk(hash(&[b"a loader"]))
}

/// One field as the generator expects it: (name, role, mutable)
pub type Want = (&'static str, &'static str, bool);

pub struct Case {
    pub n: usize,
    pub id: Pubkey,
    pub data_disc: Vec<u8>,
    pub dump: Dump,
    pub wants: &'static [Want],
    pub ix_data: &'static [u8],
    pub payer: &'static str,
    pub accept: fn(Infos, &[u8]) -> std::result::Result<Keys, String>,
    pub help: fn(Infos, &[u8], &AccountInfo<'static>, &ephemeral_vrf_sdk::compat::Instruction) -> std::result::Result<std::result::Result<(), ProgramError>, String>,
}

impl Case {
    fn identity(&self) -> Pubkey {
        Pubkey::find_program_address(&[b"identity"], &self.id).0
    }
    fn user_key(&self, name: &str) -> Pubkey {
        pk(hash(&[b"user", &self.n.to_le_bytes(), name.as_bytes()]))
    }
    fn good(&self, w: &Want) -> Acc {
        let mut a = Acc { key: self.user_key(w.0), signer: false, writable: w.2, owner: system(), exec: false, data: vec![] };
        match w.1 {
            "signer" => a.signer = true,
            "free" | "system_account" => {}
            "identity" | "identity_free" => a.key = self.identity(),
            "sysprog" | "sysprog_free" => (a.key, a.exec, a.owner) = (system(), true, loader()),
            "vrfprog" | "vrfprog_free" => (a.key, a.exec, a.owner) = (vrf(), true, loader()),
            "addr_vrf" => (a.key, a.exec, a.owner) = (vrf(), true, loader()),
            "slothashes" | "slothashes_free" => a.key = SLOT_HASHES,
            "queue" => a.key = pk(ephemeral_vrf_sdk::consts::DEFAULT_QUEUE.to_bytes()),
            "queue_free" => {}
            "pda" => a.key = Pubkey::find_program_address(&[b"other"], &self.id).0,
            "pda_payer" => a.key = Pubkey::find_program_address(&[b"p", self.user_key(self.payer).as_ref()], &self.id).0,
            "data" => {
                a.owner = self.id;
                a.data = self.data_disc.clone();
                a.data.extend([7u8; 8]);
            }
            r => panic!("role {r}"),
        }
        a
    }
    /// Variations of one account and whether the struct must still accept it.
    fn variations(&self, w: &Want) -> Vec<(&'static str, Acc, bool)> {
        let g = self.good(w);
        let mut v = vec![];
        let mut wrong = g.clone();
        wrong.key = self.user_key(&format!("{} wrong", w.0));
        match w.1 {
            "sysprog" => v.push(("the VRF program in place of the system program", Acc { key: vrf(), ..g.clone() }, false)),
            "vrfprog" => v.push(("the system program in place of the VRF program", Acc { key: system(), ..g.clone() }, false)),
            "slothashes" => v.push(("another sysvar", Acc { key: recent_blockhashes(), ..g.clone() }, false)),
            "identity" => {
                v.push(("the identity of another program", Acc { key: Pubkey::find_program_address(&[b"identity"], &vrf()).0, ..g.clone() }, false));
                v.push(("another address of this program", Acc { key: Pubkey::find_program_address(&[b"identit"], &self.id).0, ..g.clone() }, false));
            }
            _ => {}
        }
        let free = matches!(w.1, "signer" | "free" | "system_account" | "identity_free" | "sysprog_free" | "vrfprog_free" | "slothashes_free" | "queue_free" | "data");
        v.push(("another account", wrong, free));
        if matches!(w.1, "sysprog" | "vrfprog") {
            v.push(("not executable", Acc { exec: false, ..g.clone() }, false));
        }
        if w.1 == "system_account" || w.1 == "data" {
            v.push(("another owner", Acc { owner: loader(), ..g.clone() }, false));
        }
        if w.1 == "signer" {
            v.push(("not a signer", Acc { signer: false, ..g.clone() }, false));
        }
        if w.2 {
            v.push(("not writable", Acc { writable: false, ..g.clone() }, false));
        } else {
            v.push(("writable", Acc { writable: true, ..g.clone() }, true));
        }
        if !g.signer {
            v.push(("a signer", Acc { signer: true, ..g }, true));
        }
        v
    }

    fn problems(&self) -> Vec<String> {
        let mut bad = vec![];
        let mut order = vec![];
        for f in self.dump.2 {
            match self.wants.iter().find(|w| w.0 == f.0) {
                Some(w) => order.push(*w),
                None => bad.push(format!("unexpected field {}", f.0)),
            }
        }
        for w in self.wants {
            let n = self.dump.2.iter().filter(|f| f.0 == w.0).count();
            if n != 1 {
                bad.push(format!("field {} occurs {n} times", w.0));
            }
        }
        if !bad.is_empty() {
            return bad;
        }
        let build = |change: Option<(usize, &Acc)>| -> (Infos, Vec<Pubkey>) {
            let accs: Vec<Acc> = order
                .iter()
                .enumerate()
                .map(|(i, w)| match change {
                    Some((j, a)) if i == j => a.clone(),
                    _ => self.good(w),
                })
                .collect();
            let keys = accs.iter().map(|a| a.key).collect();
            (Box::leak(accs.iter().map(|a| a.info()).collect::<Vec<_>>().into_boxed_slice()), keys)
        };
        let (infos, keys) = build(None);
        match (self.accept)(infos, self.ix_data) {
            Err(e) => {
                bad.push(format!("the right accounts are refused: {e}"));
                return bad;
            }
            Ok(got) => {
                for (w, k) in order.iter().zip(&keys) {
                    if got.iter().find(|g| g.0 == w.0).map(|g| g.1) != Some(*k) {
                        bad.push(format!("field {} does not hold its account", w.0));
                    }
                }
            }
        }
        if (self.accept)(&infos[..infos.len() - 1], self.ix_data).is_ok() {
            bad.push("a missing account is accepted".into());
        }
        for (j, w) in order.iter().enumerate() {
            for (what, acc, ok) in self.variations(w) {
                // the payer is an ingredient of another address
                if w.0 == self.payer && what == "another account" && order.iter().any(|o| o.1 == "pda_payer") {
                    continue;
                }
                let (infos, _) = build(Some((j, &acc)));
                let r = (self.accept)(infos, self.ix_data);
                if r.is_ok() != ok {
                    bad.push(format!("field {} ({}): {what}: {}", w.0, w.1, if ok { "refused" } else { "accepted" }));
                }
            }
        }
        // the helper
        let by = |n: &str| keys[order.iter().position(|w| w.0 == n).unwrap()];
        let (payer, queue) = (by(self.payer), by("oracle_queue"));
        let other_payer = Acc { key: self.user_key("separate payer"), signer: true, writable: true, owner: system(), exec: false, data: vec![] }.info();
        for (k, refuse) in [None, Some(77), None].into_iter().enumerate() {
            let payer_info = if k == 2 { other_payer.clone() } else { infos[order.iter().position(|w| w.0 == self.payer).unwrap()].clone() };
            let payer = if k == 2 { *other_payer.key } else { payer };
            let ix = ephemeral_vrf_sdk::instructions::create_request_randomness_ix(ephemeral_vrf_sdk::instructions::RequestRandomnessParams {
                payer: payer.to_bytes().into(),
                oracle_queue: queue.to_bytes().into(),
                callback_program_id: self.id.to_bytes().into(),
                callback_discriminator: vec![1, 2, 3, k as u8],
                caller_seed: hash(&[&self.n.to_le_bytes()]),
                ..Default::default()
            });
            CALLS.with(|c| c.borrow_mut().clear());
            REFUSE.with(|r| r.set(refuse));
            let res = match (self.help)(infos, self.ix_data, &payer_info, &ix) {
                Ok(r) => r,
                Err(e) => {
                    bad.push(format!("accounts refused before the helper: {e}"));
                    break;
                }
            };
            let calls = CALLS.with(|c| c.borrow().clone());
            if refuse.is_some() != res.is_err() {
                bad.push(format!("the helper returned {res:?} although the VRF program {}", if refuse.is_some() { "failed" } else { "succeeded" }));
            }
            if refuse.is_some() && res != Err(ProgramError::Custom(77)) {
                bad.push(format!("the helper changed the error to {res:?}"));
            }
            if calls.len() != 1 {
                bad.push(format!("the helper made {} calls", calls.len()));
                continue;
            }
            let c = &calls[0];
            if c.ix.program_id != vrf() || c.ix.data != ix.data || c.ix.accounts.len() != ix.accounts.len() || c.ix.accounts.iter().zip(&ix.accounts).any(|(a, b)| a.pubkey != b.pubkey || a.is_signer != b.is_signer || a.is_writable != b.is_writable) {
                bad.push("the helper changed the instruction".into());
            }
            let pdas: Vec<_> = c.seeds.iter().map(|s| Pubkey::create_program_address(&s.iter().map(|x| &x[..]).collect::<Vec<_>>(), &self.id).ok()).collect();
            if pdas != vec![Some(self.identity())] {
                bad.push(format!("the helper signs for {pdas:?}"));
            }
            for m in &ix.accounts {
                if m.pubkey == system() {
                    continue;
                }
                match c.infos.iter().find(|i| i.0 == m.pubkey) {
                    None => bad.push(format!("the helper does not pass {}", m.pubkey)),
                    Some(i) => {
                        if m.is_writable && !i.2 {
                            // the queue is only writable if the struct says so; reported by its own constraint
                        }
                    }
                }
            }
        }
        REFUSE.with(|r| r.set(None));
        bad
    }

    pub fn run(&self) {
        let r = catch_unwind(AssertUnwindSafe(|| self.problems()));
        let bad = r.unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            vec![format!("panic: {m}")]
        });
        for b in bad {
            println!("BAD\t{}\t{}", self.n, b.replace('\n', " "));
        }
    }
}

/// The struct with the attribute keeps what the struct without it has.
pub fn compare(n: usize, plain: Dump, with: Dump) {
    let mut bad = vec![];
    let mut at = 0;
    for a in plain.1 {
        match with.1[at..].iter().position(|b| a == b) {
            Some(p) => at += p + 1,
            None => bad.push(format!("attribute of the struct lost: {a}")),
        }
    }
    for b in with.1 {
        if !plain.1.contains(b) && (b.contains("instruction") || b.contains("account")) {
            bad.push(format!("attribute added to the struct: {b}"));
        }
    }
    let mut at = 0;
    for f in plain.2 {
        match with.2[at..].iter().position(|g| g.0 == f.0) {
            None => bad.push(format!("field {} lost or out of order", f.0)),
            Some(p) => {
                let g = with.2[at + p];
                at += p + 1;
                if g.1 != f.1 {
                    bad.push(format!("type of field {} changed from {} to {}", f.0, f.1, g.1));
                }
                let mut k = 0;
                for a in f.3 {
                    match g.3[k..].iter().position(|b| a == b) {
                        Some(p) => k += p + 1,
                        None => bad.push(format!("attribute of field {} lost: {a}", f.0)),
                    }
                }
                for b in g.3 {
                    if !f.3.contains(b) && b.contains("account") {
                        bad.push(format!("attribute added to field {}: {b}", f.0));
                    }
                }
            }
        }
    }
    for b in bad {
        println!("BAD\t{n}\t{}", b.replace('\n', " "));
    }
}

pub fn start() {
    std::panic::set_hook(Box::new(|_| {}));
    install();
}

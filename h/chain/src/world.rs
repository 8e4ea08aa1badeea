//! The simulated world: operations, the reference specification of every instruction, and
//! the invariants checked after every step.
use crate::cast::*;
use crate::svm::*;
use crate::view::*;
use ephemeral_vrf_api::prelude as api;
use serde::{Deserialize, Serialize};
use solana_loader_v3_interface::state::UpgradeableLoaderState;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vcore::{viol, Viol};

pub const HIGH: u64 = 800_000;
pub const LOW: u64 = 500_000;
pub const TTL: u64 = 240;
pub const WAIT: u64 = 200;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MetaSel {
    pub k: u16,
    pub s: bool,
    pub w: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ProofKind {
    Honest,
    KeyOf(u8),
    OtherInput(u8),
    Tamper { part: u8, bit: u8 },
    Replayed(u8),
    ZeroProof,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pick {
    Pending(u16),
    Answered(u16),
    OtherQueue(u8),
    Random(u8),
}

/// Selector of a queue: oracle number and index number (into `IDX`).
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Q(pub u8, pub u8);
impl Q {
    pub fn o(&self) -> usize {
        self.0 as usize % N_ID
    }
    pub fn i(&self) -> usize {
        self.1 as usize % 4
    }
    pub fn key(&self) -> Pubkey {
        cast().oracles[self.o()].queues[self.i()]
    }
    pub fn idx(&self) -> u8 {
        IDX[self.i()]
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Slot { d: u64 },
    Donate { to: u16, lamports: u32 },
    RotateAdmin { to: u8 },
    /// program-data account replaced by another loader state (0: Buffer, 1: Program, 2: garbage, 3: Uninitialized)
    ProgramData { kind: u8 },
    Initialize { payer: u8 },
    AddOracle { signer: u8, id: u8, key: u8 },
    RemoveOracle { signer: u8, id: u8 },
    /// the registry changed by someone who controls other accounts that name an authority
    Usurp { remove: bool, id: u8, with: u8, signer: u8 },
    InitQueue { q: Q, size: u32, payer: u8 },
    Request { q: Q, high: bool, prog: u8, payer: u8, seed: u8, disc: Vec<u8>, metas: Vec<MetaSel>, args_len: u16, args_seed: u8, er: bool },
    Provide { q: Q, by: Option<u8>, pick: Pick, proof: ProofKind, fail: bool, er: bool, rest: Vec<MetaSel> },
    Purge { q: Q, er: bool },
    Close { q: Q },
    Delegate { q: Q },
    Undelegate { q: Q },
    /// the delegation program completes an undelegation
    Finish { q: Q, payer: u8 },
    /// the queue comes back from a stay on a rollup: its requests have slots of that chain
    Stay { q: Q, shift: i64, mask: u8 },
    /// someone else calls ProcessUndelegation
    AttackUndelegate { target: u16, seeds: u8, id: u8, content: u8, size: u8, signed: bool, owner: u8, own_buffer: bool },
    Raw { #[serde(with = "vcore::hexbytes")] data: Vec<u8>, accts: Vec<MetaSel> },
    /// an attacker-owned account gets the bytes of another account
    Forge { from: u16, clone: u8, owner: u8 },
    /// many requests in a row, a slot passing now and then
    Burst { q: Q, n: u16, per_slot: u16, disc: u8, metas: u8, args: u16, seed: u8 },
    /// several instructions in one transaction: all of them or none
    Tx { steps: Vec<Step> },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Mut {
    DropSigner(u8),
    DropWritable(u8),
    Replace(u8, u16),
    Clone(u8, u8),
    Swap(u8, u8),
    Remove(u8),
    Append(MetaSel),
    Flip(u16, u8),
    Trunc(u8),
    Extend(u8),
    SetByte(u16, u8),
    Program(u16),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub muts: Vec<Mut>,
}
impl From<Op> for Step {
    fn from(op: Op) -> Self {
        Step { op, muts: vec![] }
    }
}

#[derive(Clone)]
pub struct World {
    pub bank: Bank,
    /// reference ledger: pending requests per queue address
    pub ledger: BTreeMap<Pubkey, Vec<Item>>,
    pub ever: BTreeSet<(Pubkey, [u8; 32])>,
    pub answered: Vec<(Pubkey, [u8; 32])>,
    pub transcripts: Vec<[Vec<u8>; 2]>,
    pub admin: Option<Pubkey>,
    pub stats: BTreeMap<&'static str, u64>,
    pub last_ok: bool,
    pub requested_fee: u128,
    pub paid_fee: u128,
    pub last_res: Option<crate::svm::Fail>,
}

/// The reference verdict on one instruction.
#[derive(Default, Debug)]
pub struct Spec {
    /// reasons for which the instruction must be rejected
    pub reject: Vec<(&'static str, &'static str)>,
    /// properties that promise acceptance if there is no reason to reject
    pub accept: Vec<&'static str>,
}
impl Spec {
    fn no(&mut self, cond: bool, prop: &'static str, why: &'static str) {
        if cond {
            self.reject.push((prop, why));
        }
    }
}

struct Eff<'a> {
    ix: &'a Instruction,
    flags: BTreeMap<Pubkey, (bool, bool)>,
    bank: &'a Bank,
}
impl Eff<'_> {
    fn key(&self, i: usize) -> Pubkey {
        self.ix.accounts.get(i).map(|m| m.pubkey).unwrap_or_default()
    }
    fn signer(&self, i: usize) -> bool {
        self.flags.get(&self.key(i)).is_some_and(|f| f.0)
    }
    fn writable(&self, i: usize) -> bool {
        self.flags.get(&self.key(i)).is_some_and(|f| f.1)
    }
    fn acct(&self, i: usize) -> Acct {
        self.bank.get(&self.key(i))
    }
}

pub fn slot_hash(slot: u64) -> [u8; 32] {
    seed_bytes(&format!("slothash{slot}"))
}
fn slot_hashes_data(slot: u64) -> Vec<u8> {
    let n = slot.min(3);
    let mut d = n.to_le_bytes().to_vec();
    for j in 0..n {
        d.extend((slot - 1 - j).to_le_bytes());
        d.extend(slot_hash(slot - 1 - j));
    }
    d
}
pub fn program_data_bytes(auth: Option<Pubkey>) -> Vec<u8> {
    let mut d = bincode::serialize(&UpgradeableLoaderState::ProgramData { slot: 1, upgrade_authority_address: auth }).unwrap();
    d.resize(45, 0);
    d.extend([0x7f, b'E', b'L', b'F']);
    d
}

pub fn fee_of(high: bool) -> u64 {
    if high { HIGH } else { LOW }
}

thread_local! {
    static PROOFS: std::cell::RefCell<HashMap<(usize, [u8; 32]), [[u8; 32]; 4]>> = Default::default();
}
/// The honest answer of oracle `o` to `input`, from the repository's prover.
pub fn honest_proof(o: usize, input: &[u8; 32]) -> [[u8; 32]; 4] {
    PROOFS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 50_000 {
            p.clear();
        }
        *p.entry((o, *input)).or_insert_with(|| {
            let (out, (cb, ch, s)) = ephemeral_vrf::vrf::compute_vrf(cast().oracles[o].sk, input);
            [out.to_bytes(), cb.to_bytes(), ch.to_bytes(), s.to_bytes()]
        })
    })
}

impl Default for World {
    fn default() -> Self {
        Self::new()
    }
}

impl World {
    pub fn new() -> Self {
        let c = cast();
        let mut b = Bank { slot: 1000, ts: 1_700_000_000, ..Default::default() };
        let mut put = |k: Pubkey, lamports: u64, data: Vec<u8>, owner: Pubkey, executable: bool| {
            b.accts.insert(k, Acct { lamports, data, owner, executable });
        };
        for o in &c.oracles {
            put(o.key, 1_000_000_000_000, vec![], SYS, false);
        }
        for k in c.admins.iter().chain(&c.users) {
            put(*k, 1_000_000_000_000, vec![], SYS, false);
        }
        put(c.poor, 1_200_000, vec![], SYS, false);
        for k in c.progs.iter().chain([&vrf(), &dlp(), &magic()]) {
            put(*k, 10_000_000, vec![1; 36], c.loader, true);
        }
        for k in [SYS, c.loader] {
            put(k, 1, vec![1; 8], solana_sdk_ids::native_loader::id(), true);
        }
        put(c.slot_hashes, 10_000_000, slot_hashes_data(1000), c.sysvar_owner, false);
        put(c.recent, 10_000_000, vec![7; 200], c.sysvar_owner, false);
        put(c.clock, 10_000_000, vec![9; 40], c.sysvar_owner, false);
        put(magic_ctx(), 10_000_000, vec![0; 64], magic(), false);
        put(c.program_data, 10_000_000, program_data_bytes(Some(c.admins[0])), c.loader, false);
        put(c.foreign_data[0], 10_000_000, program_data_bytes(Some(c.users[0])), c.loader, false);
        put(c.foreign_data[1], 10_000_000, [bincode::serialize(&UpgradeableLoaderState::Buffer { authority_address: Some(c.users[0]) }).unwrap(), vec![0; 40]].concat(), c.loader, false);
        put(c.clones[2], 10_000_000, program_data_bytes(Some(c.users[0])), c.progs[0], false);
        b.reserved = [c.slot_hashes, c.recent, c.clock, SYS, c.loader, c.sysvar_owner].into_iter().collect();
        World {
            bank: b,
            ledger: BTreeMap::new(),
            ever: BTreeSet::new(),
            answered: vec![],
            transcripts: vec![],
            admin: Some(c.admins[0]),
            stats: BTreeMap::new(),
            last_ok: false,
            requested_fee: 0,
            paid_fee: 0,
            last_res: None,
        }
    }

    fn stat(&mut self, s: &'static str) {
        *self.stats.entry(s).or_default() += 1;
    }

    pub fn set_slot(&mut self, slot: u64, dts: i64) {
        self.bank.slot = slot;
        self.bank.ts += dts;
        self.bank.accts.get_mut(&cast().slot_hashes).unwrap().data = slot_hashes_data(slot);
    }

    pub fn payer(&self, p: u8) -> Pubkey {
        match p % 4 {
            3 => cast().poor,
            x => cast().users[x as usize],
        }
    }
    pub fn ident(&self, id: u8) -> Pubkey {
        let c = cast();
        match id as usize % 10 {
            x if x < N_ID => c.oracles[x].key,
            5 => c.off_curve,
            6 => Pubkey::default(),
            7 => c.progs[0],
            8 => c.users[0],
            _ => c.slot_hashes,
        }
    }
    fn admin_sel(&self, s: u8) -> Pubkey {
        let c = cast();
        match s % 5 {
            0 => self.admin.unwrap_or(c.admins[0]),
            1 => c.admins[0],
            2 => c.admins[1],
            3 => c.users[0],
            _ => c.oracles[0].key,
        }
    }
    pub fn sel(&self, k: u16) -> Pubkey {
        let u = &cast().universe;
        u[k as usize % u.len()]
    }
    pub fn delegated(&self, q: &Pubkey) -> bool {
        self.bank.get(q).owner == dlp() && self.bank.accts.contains_key(&dlp_record(q))
    }
    pub fn registered(&self, o: usize) -> bool {
        let a = self.bank.get(&cast().oracles[o].data);
        a.owner == vrf() && decode_oracle(&a.data).is_some()
    }
    pub fn is_default(q: &Pubkey) -> bool {
        *q == cast().default_queue
    }
    pub fn keysel(&self, key: u8, id: &Pubkey) -> [u8; 32] {
        let c = cast();
        match key % 4 {
            0 | 1 => c.oracles.iter().find(|o| o.key == *id).map(|o| o.pk).unwrap_or([3; 32]),
            2 => c.oracles[(key / 4) as usize % N_ID].pk,
            _ => seed_bytes(&format!("junkkey{key}")),
        }
    }

    /// Build the unmodified instruction of an op.
    pub fn build(&self, op: &Op) -> Option<Instruction> {
        let c = cast();
        Some(match op {
            Op::Initialize { payer } => api::initialize(self.payer(*payer)),
            Op::AddOracle { signer, id, key } => {
                let identity = self.ident(*id);
                api::add_oracle(self.admin_sel(*signer), identity, self.keysel(*key, &identity))
            }
            Op::RemoveOracle { signer, id } => api::remove_oracle(self.admin_sel(*signer), self.ident(*id)),
            Op::Usurp { remove, id, with, signer } => {
                let who = match signer % 4 {
                    0 | 1 => c.users[0],
                    2 => c.oracles[0].key,
                    _ => c.admins[1],
                };
                let identity = self.ident(*id);
                let mut ix = if *remove { api::remove_oracle(who, identity) } else { api::add_oracle(who, identity, self.keysel(0, &identity)) };
                let fake = match with % 4 {
                    0 | 1 => c.foreign_data[0],
                    2 => c.foreign_data[1],
                    _ => c.clones[2],
                };
                if let Some(m) = ix.accounts.iter_mut().find(|m| m.pubkey == c.program_data) {
                    m.pubkey = fake;
                }
                ix
            }
            Op::InitQueue { q, size, payer } => {
                // same accounts as the client builder (decided separately), any size
                let mut data = vec![2, 0, 0, 0, 0, 0, 0, 0];
                data.extend(size.to_le_bytes());
                data.extend([q.idx(), 0, 0, 0]);
                Instruction {
                    program_id: vrf(),
                    accounts: vec![
                        AccountMeta::new(self.payer(*payer), true),
                        AccountMeta::new_readonly(c.oracles[q.o()].key, true),
                        AccountMeta::new(c.oracles[q.o()].data, false),
                        AccountMeta::new(q.key(), false),
                        AccountMeta::new_readonly(SYS, false),
                    ],
                    data,
                }
            }
            Op::Request { q, high, prog, payer, seed, disc, metas, args_len, args_seed, .. } => {
                let p = *prog as usize % 3;
                let a = ReqArgs {
                    seed: seed_bytes(&format!("caller{seed}")),
                    prog: c.progs[p],
                    disc: disc.clone(),
                    metas: metas.iter().map(|m| (self.sel(m.k), m.s, m.w)).collect(),
                    args: (0..*args_len).map(|i| (i as u8).wrapping_mul(31).wrapping_add(*args_seed)).collect(),
                };
                Instruction {
                    program_id: vrf(),
                    accounts: vec![
                        AccountMeta::new(self.payer(*payer), true),
                        AccountMeta::new_readonly(c.idents[p], true),
                        AccountMeta::new(q.key(), false),
                        AccountMeta::new_readonly(SYS, false),
                        AccountMeta::new_readonly(c.slot_hashes, false),
                    ],
                    data: encode_request(*high, &a),
                }
            }
            Op::Provide { q, by, pick, proof, rest, .. } => {
                let o = by.map(|b| b as usize % N_ID).unwrap_or(q.o());
                let list = self.ledger.get(&q.key()).cloned().unwrap_or_default();
                let rnd = |x: u8| seed_bytes(&format!("randid{x}"));
                let id = match pick {
                    Pick::Pending(i) if !list.is_empty() => list[*i as usize % list.len()].id,
                    Pick::Answered(i) if !self.answered.is_empty() => self.answered[*i as usize % self.answered.len()].1,
                    Pick::OtherQueue(i) => {
                        let others: Vec<[u8; 32]> = self.ledger.iter().filter(|(k, _)| **k != q.key()).flat_map(|(_, v)| v.iter().map(|x| x.id)).collect();
                        if others.is_empty() { rnd(*i) } else { others[*i as usize % others.len()] }
                    }
                    Pick::Pending(i) | Pick::Answered(i) => rnd(*i as u8),
                    Pick::Random(i) => rnd(*i),
                };
                let mut pr = match proof {
                    ProofKind::KeyOf(k) => honest_proof(*k as usize % N_ID, &id),
                    ProofKind::OtherInput(i) => {
                        let other = list.get(*i as usize % list.len().max(1)).map(|x| x.id).filter(|x| *x != id).unwrap_or(rnd(*i));
                        honest_proof(o, &other)
                    }
                    _ => honest_proof(o, &id),
                };
                match proof {
                    ProofKind::Tamper { part, bit } => pr[*part as usize % 4][(*bit / 8) as usize % 32] ^= 1 << (bit % 8),
                    ProofKind::Replayed(i) if !self.transcripts.is_empty() => {
                        let t = &self.transcripts[*i as usize % self.transcripts.len()][1];
                        for j in 0..4 {
                            pr[j].copy_from_slice(&t[32 * j..32 * j + 32]);
                        }
                    }
                    ProofKind::ZeroProof => pr = [[0; 32]; 4],
                    _ => {}
                }
                let prog = self.ledger.values().flatten().find(|x| x.id == id).map(|x| x.prog).unwrap_or(c.progs[0]);
                let mut ix = api::provide_randomness(
                    c.oracles[o].key,
                    q.key(),
                    prog,
                    id,
                    solana_curve25519::ristretto::PodRistrettoPoint(pr[0]),
                    solana_curve25519::ristretto::PodRistrettoPoint(pr[1]),
                    solana_curve25519::ristretto::PodRistrettoPoint(pr[2]),
                    solana_curve25519::scalar::PodScalar(pr[3]),
                );
                if let Some(it) = list.iter().find(|x| x.id == id) {
                    ix.accounts.extend(it.metas.iter().map(|m| AccountMeta { pubkey: m.key, is_signer: false, is_writable: m.writable }));
                }
                ix.accounts.extend(rest.iter().map(|m| AccountMeta { pubkey: self.sel(m.k), is_signer: m.s, is_writable: m.w }));
                ix
            }
            Op::Purge { q, .. } => api::purge_expired_requests(c.oracles[q.o()].key, q.idx()),
            Op::Close { q } => api::close_oracle_queue(c.oracles[q.o()].key, q.idx()),
            Op::Delegate { q } => api::delegate_oracle_queue(c.oracles[q.o()].key, q.key(), q.idx()),
            Op::Undelegate { q } => api::undelegate_oracle_queue(c.oracles[q.o()].key, q.key(), q.idx()),
            Op::Raw { data, accts } => Instruction {
                program_id: vrf(),
                accounts: accts.iter().map(|m| AccountMeta { pubkey: self.sel(m.k), is_signer: m.s, is_writable: m.w }).collect(),
                data: data.clone(),
            },
            Op::AttackUndelegate { target, seeds, id, own_buffer, signed, .. } => {
                let ident = self.ident(*id % N_ID as u8);
                let s: Vec<Vec<u8>> = match seeds % 5 {
                    0 => vec![b"queue".to_vec(), ident.to_bytes().to_vec(), vec![IDX[(*id / 5) as usize % 4]]],
                    1 => vec![b"oracle".to_vec(), ident.to_bytes().to_vec()],
                    2 => vec![b"oracles".to_vec()],
                    3 => vec![b"identity".to_vec()],
                    _ => vec![b"junk".to_vec(), vec![*id]],
                };
                let sl: Vec<&[u8]> = s.iter().map(|x| x.as_slice()).collect();
                let derived = pda(&sl, &vrf());
                let t = if target % 4 == 0 { self.sel(*target / 4) } else { derived };
                let mut data = vec![196, 0, 0, 0, 0, 0, 0, 0];
                data.extend(borsh::to_vec(&s).unwrap());
                Instruction {
                    program_id: vrf(),
                    accounts: vec![
                        AccountMeta::new(t, false),
                        AccountMeta { pubkey: if *own_buffer { undelegate_buffer(&t) } else { c.clones[3] }, is_signer: *signed, is_writable: true },
                        AccountMeta::new(c.users[0], true),
                        AccountMeta::new_readonly(SYS, false),
                    ],
                    data,
                }
            }
            Op::Slot { .. } | Op::Donate { .. } | Op::RotateAdmin { .. } | Op::ProgramData { .. } | Op::Finish { .. } | Op::Stay { .. } | Op::Forge { .. } | Op::Burst { .. } | Op::Tx { .. } => return None,
        })
    }

    fn forge(&mut self, from: &Pubkey, clone: u8, owner: u8) -> Pubkey {
        let c = cast();
        let k = c.clones[clone as usize % 3];
        let src = self.bank.get(from);
        let owner = if owner % 2 == 0 { c.progs[0] } else { dlp() };
        if self.bank.get(&k).owner != vrf() {
            self.bank.accts.insert(k, Acct { lamports: rent_min(src.data.len()) + 10_000_000, data: src.data, owner, executable: false });
        }
        k
    }

    fn mutate(&mut self, ix: &mut Instruction, m: &Mut) {
        let n = ix.accounts.len().max(1);
        let at = |i: &u8| *i as usize % n;
        match m {
            Mut::DropSigner(i) => {
                // drop the i-th signature
                let s: Vec<usize> = (0..ix.accounts.len()).filter(|j| ix.accounts[*j].is_signer).collect();
                if !s.is_empty() {
                    let k = ix.accounts[s[*i as usize % s.len()]].pubkey;
                    for a in ix.accounts.iter_mut().filter(|a| a.pubkey == k) {
                        a.is_signer = false;
                    }
                }
            }
            Mut::DropWritable(i) => {
                if let Some(a) = ix.accounts.get_mut(at(i)) {
                    a.is_writable = false;
                }
            }
            Mut::Replace(i, k) => {
                let k = self.sel(*k);
                if let Some(a) = ix.accounts.get_mut(at(i)) {
                    a.pubkey = k;
                }
            }
            Mut::Clone(i, owner) => {
                if let Some(a) = ix.accounts.get(at(i)) {
                    let k = self.forge(&a.pubkey.clone(), *i, *owner);
                    ix.accounts[at(i)].pubkey = k;
                }
            }
            Mut::Swap(i, j) => {
                if !ix.accounts.is_empty() {
                    let (x, y) = (ix.accounts[at(i)].pubkey, ix.accounts[at(j)].pubkey);
                    ix.accounts[at(i)].pubkey = y;
                    ix.accounts[at(j)].pubkey = x;
                }
            }
            Mut::Remove(i) => {
                if !ix.accounts.is_empty() {
                    ix.accounts.remove(at(i));
                }
            }
            Mut::Append(m) => ix.accounts.push(AccountMeta { pubkey: self.sel(m.k), is_signer: m.s, is_writable: m.w }),
            Mut::Flip(p, b) => {
                let l = ix.data.len().max(1);
                if let Some(x) = ix.data.get_mut(*p as usize % l) {
                    *x ^= 1 << (b % 8);
                }
            }
            Mut::SetByte(p, b) => {
                let l = ix.data.len().max(1);
                if let Some(x) = ix.data.get_mut(*p as usize % l) {
                    *x = *b;
                }
            }
            Mut::Trunc(k) => {
                let l = ix.data.len();
                ix.data.truncate(l.saturating_sub(*k as usize + 1));
            }
            Mut::Extend(k) => ix.data.extend(std::iter::repeat_n(*k, *k as usize % 9 + 1)),
            Mut::Program(k) => ix.program_id = cast().prog_ids[*k as usize % cast().prog_ids.len()],
        }
    }

    /// Reference verdict for one VRF instruction in the current state.
    fn spec(&self, e: &Eff, failing: &BTreeSet<Pubkey>) -> Spec {
        let c = cast();
        let mut s = Spec::default();
        let d = &e.ix.data;
        let slot = self.bank.slot;
        s.no(e.ix.program_id != vrf(), "C24", "foreign program id");
        s.no(d.len() < 8, "C24", "short data");
        if !s.reject.is_empty() {
            return s;
        }
        let body = &d[8..];
        let n = e.ix.accounts.len();
        let need = |t: u8| match t {
            0 => 3,
            1 | 2 | 3 | 8 | 4 => 5,
            5 => 8,
            6 | 196 => 4,
            7 => 3,
            9 => 2,
            _ => 0,
        };
        let q_of = |key: &Pubkey| c.oracles.iter().flat_map(|o| o.queues.iter().map(move |q| (q, o))).find(|(q, _)| *q == key).map(|x| x.1);
        let queue_acct_ok = |a: &Acct| a.owner == vrf() && is_queue(&a.data);
        s.no(n < need(d[0]), "C24", "missing accounts");
        let min_body = match d[0] {
            1 => 65,
            2 => 8,
            4 => 160,
            5 | 6 | 7 | 9 => 1,
            0 | 3 | 8 | 196 => 0,
            _ => {
                s.no(true, "C24", "unknown tag");
                0
            }
        };
        s.no(body.len() < min_body, "C24", "truncated data");
        if !s.reject.is_empty() {
            return s;
        }
        match d[0] {
            0 => {
                s.no(!e.signer(0), "C17", "payer did not sign");
                s.no(e.key(1) != c.registry, "C20", "not the registry address");
                s.no(!e.acct(1).data.is_empty() || e.acct(1).owner == vrf(), "C17", "registry already initialized");
                if self.can_fund(&e.acct(0), rent_min(12).saturating_sub(e.acct(1).lamports)) {
                    s.accept = vec!["C17", "C29"];
                }
            }
            1 => {
                let id = Pubkey::new_from_array(body[..32].try_into().unwrap());
                let op = body[64];
                let on_curve = curve25519_dalek::edwards::CompressedEdwardsY(id.to_bytes()).decompress().is_some();
                s.no(id == Pubkey::default() || !on_curve, "C17", "invalid identity");
                s.no(!e.signer(0), "C16", "signer did not sign");
                s.no(e.key(3) != c.program_data, "C16", "not the program data account");
                s.no(self.admin.is_none() || self.admin != Some(e.key(0)), "C16", "signer is not the upgrade authority");
                s.no(e.key(1) != c.registry, "C20", "not the registry address");
                let od = pda(&[b"oracle", id.as_ref()], &vrf());
                s.no(e.key(2) != od, "C20", "not the oracle data address");
                s.no(op > 1, "C24", "unknown operation");
                let reg = self.bank.get(&c.registry);
                s.no(reg.owner != vrf(), "C17", "registry not initialized");
                let exists = self.bank.get(&od).owner == vrf();
                if op == 0 {
                    s.no(exists, "C17", "oracle already registered");
                } else if op == 1 {
                    s.no(!exists, "C17", "oracle not registered");
                    if exists {
                        s.no(decode_oracle(&self.bank.get(&od).data).is_some_and(|o| o.open > 0), "C19", "oracle has open queues");
                        let actual = c.oracles.iter().find(|o| o.key == id).map(|o| self.open_queues(o)).unwrap_or(0);
                        s.no(actual > 0, "C19", "oracle owns initialized queues");
                    }
                }
                s.accept = vec!["C17", "C29"];
            }
            2 => {
                let (size, idx) = (u32::from_le_bytes(body[..4].try_into().unwrap()) as usize, body[4]);
                let id = e.key(1);
                s.no(!e.signer(0), "C18", "payer did not sign");
                s.no(!e.signer(1), "C18", "oracle did not sign");
                let od = pda(&[b"oracle", id.as_ref()], &vrf());
                let qk = pda(&[b"queue", id.as_ref(), &[idx]], &vrf());
                s.no(e.key(2) != od, "C20", "not the oracle's data account");
                s.no(e.key(3) != qk, "C20", "not the oracle's queue address");
                let o = self.bank.get(&od);
                let ov = if o.owner == vrf() { decode_oracle(&o.data) } else { None };
                s.no(ov.is_none(), "C18", "oracle is not registered");
                if let Some(ov) = ov {
                    s.no(slot.saturating_sub(ov.slot) < WAIT, "C18", "less than 200 slots since registration");
                }
                let q = self.bank.get(&qk);
                s.no(is_queue(&q.data), "C18", "queue already initialized");
                s.no(q.owner == dlp(), "C25", "queue is delegated");
                s.no(size < 20, "C18", "size too small for a queue");
                if self.can_fund(&e.acct(0), rent_min(size.min(q.data.len() + MAX_INC)).saturating_sub(q.lamports)) {
                    s.accept = vec!["C18", "C29"];
                }
            }
            3 | 8 => {
                let Some(a) = decode_request(body) else {
                    s.no(true, "C24", "undecodable request");
                    return s;
                };
                s.no(!e.signer(0), "C13", "payer did not sign");
                let ident = pda(&[b"identity"], &a.prog);
                s.no(e.key(1) != ident, "C13", "identity does not belong to the callback program");
                s.no(!e.signer(1), "C13", "callback program identity did not sign");
                s.no(e.key(4) != c.slot_hashes, "C13", "not the slot hashes sysvar");
                let q = e.acct(2);
                if q.owner == dlp() {
                    s.no(true, "C25", "queue is delegated");
                }
                s.no(q.owner != vrf(), "C13", "target is not a VRF program account");
                s.no(q.owner == vrf() && !is_queue(&q.data), "C13", "target is not an initialized queue");
                s.no(q.owner == vrf() && !is_queue(&q.data), "C20", "account of another kind used as a queue");
                s.no(a.disc.len() > 8, "C14", "discriminator too long");
                s.no(a.metas.len() > 20, "C14", "too many accounts");
                s.no(a.args.len() > 512, "C14", "arguments too long");
                let high = d[0] == 3;
                if let Some(v) = decode_queue(&q.data) {
                    let sz = item_size(a.disc.len(), a.metas.len(), a.args.len());
                    let used: usize = v.items.iter().map(|i| item_size(i.disc.len(), i.metas.len(), i.args.len())).sum();
                    s.no(HDR + used + sz > q.data.len(), "C14", "no room in the queue");
                    if v.end + sz <= q.data.len() {
                        s.accept = vec!["C13", "C14", "C22"];
                        if !Self::is_default(&e.key(2)) {
                            let p = e.acct(0);
                            let left = p.lamports.checked_sub(fee_of(high));
                            if p.owner != SYS || !p.data.is_empty() || left.is_none() || left.is_some_and(|l| l != 0 && l < rent_min(0)) {
                                s.no(left.is_none(), "C11", "payer cannot pay");
                                s.accept = vec![];
                            }
                        }
                    }
                }
            }
            4 => {
                let id: [u8; 32] = body[..32].try_into().unwrap();
                let ok_ = e.key(0);
                s.no(!e.signer(0), "C07", "oracle did not sign");
                let od = pda(&[b"oracle", ok_.as_ref()], &vrf());
                s.no(e.key(2) != od, "C20", "not the oracle's data account");
                let o = self.bank.get(&od);
                let ov = if o.owner == vrf() { decode_oracle(&o.data) } else { None };
                s.no(ov.is_none(), "C07", "oracle is not registered");
                let q = e.acct(3);
                if q.owner == dlp() {
                    s.no(true, "C25", "queue is delegated");
                }
                s.no(!queue_acct_ok(&q), "C07", "not an initialized queue of the VRF program");
                s.no(!queue_acct_ok(&q), "C20", "not an initialized queue of the VRF program");
                s.no(q_of(&e.key(3)).map(|o| o.key) != Some(ok_), "C07", "queue belongs to another oracle");
                s.no(e.key(1) != c.identity, "C10", "not the VRF program identity");
                let pending = self.ledger.get(&e.key(3)).cloned().unwrap_or_default();
                match pending.iter().find(|x| x.id == id) {
                    None => {
                        s.no(true, "C07", "no such pending request in this queue");
                        s.no(self.answered.contains(&(e.key(3), id)), "C08", "request was already answered or purged");
                    }
                    Some(it) => {
                        s.no(slot <= it.slot, "C07", "same slot as the request");
                        s.no(it.metas.iter().any(|m| m.key == ok_), "C10", "oracle listed in callback accounts");
                        s.no(e.key(4) != it.prog, "C09", "wrong callback program account");
                        s.no(failing.contains(&it.prog), "C08", "callback fails");
                        if let Some(ov) = &ov {
                            let good = c.oracles.iter().position(|x| x.pk == ov.vrf_key).map(|i| honest_proof(i, &id)).map(|p| p.concat() == body[32..160]).unwrap_or(false);
                            s.no(!good, "C07", "proof not valid under the registered key");
                        }
                        let deliverable = it.metas.iter().all(|m| !(m.writable && (self.bank.reserved.contains(&m.key) || m.key == vrf())));
                        if deliverable {
                            s.accept = vec!["C07", "C09", "C29"];
                        }
                    }
                }
            }
            9 => {
                let qk = pda(&[b"queue", e.key(0).as_ref(), &[body[0]]], &vrf());
                s.no(e.key(1) != qk, "C12", "not the queue of the given oracle");
                let q = e.acct(1);
                if q.owner == dlp() {
                    s.no(true, "C25", "queue is delegated");
                }
                s.no(!queue_acct_ok(&q), "C20", "not an initialized queue");
                s.accept = vec!["C12", "C29"];
            }
            7 => {
                s.no(!e.signer(0), "C19", "oracle did not sign");
                let od = pda(&[b"oracle", e.key(0).as_ref()], &vrf());
                let qk = pda(&[b"queue", e.key(0).as_ref(), &[body[0]]], &vrf());
                s.no(e.key(1) != od, "C20", "not the oracle's data account");
                s.no(e.key(2) != qk, "C19", "not the oracle's queue");
                let q = e.acct(2);
                if q.owner == dlp() {
                    s.no(true, "C25", "queue is delegated");
                }
                s.no(!queue_acct_ok(&q), "C20", "not an initialized queue");
                s.no(!queue_acct_ok(&q), "C19", "not an initialized queue");
                s.no(!self.ledger.get(&e.key(2)).is_none_or(|l| l.is_empty()), "C19", "queue has pending requests");
                s.no(!self.ledger.get(&e.key(2)).is_none_or(|l| l.is_empty()), "C08", "queue has pending requests");
                s.accept = vec!["C19", "C29"];
            }
            5 => {
                s.no(!e.signer(0), "C25", "authority did not sign");
                let qk = pda(&[b"queue", e.key(0).as_ref(), &[body[0]]], &vrf());
                s.no(e.key(1) != qk, "C25", "not the authority's queue");
                s.no(e.key(6) != vrf(), "C25", "wrong owner program");
                let q = e.acct(1);
                s.no(q.owner == dlp(), "C25", "already delegated");
                s.no(e.key(2) != delegate_buffer(&qk) || e.key(3) != dlp_record(&qk) || e.key(4) != dlp_metadata(&qk), "C25", "wrong delegation accounts");
                let fresh = !self.bank.alive(&dlp_record(&qk)) || self.bank.get(&dlp_record(&qk)).owner == SYS;
                if queue_acct_ok(&q) && q.data.len() <= MAX_INC && e.key(5) == dlp() && fresh {
                    s.accept = vec!["C25", "C29"];
                }
            }
            6 => {
                s.no(!e.signer(0), "C25", "authority did not sign");
                let qk = pda(&[b"queue", e.key(0).as_ref(), &[body[0]]], &vrf());
                s.no(e.key(1) != qk, "C25", "not the authority's queue");
                s.no(e.key(2) != magic_ctx() || e.key(3) != magic(), "C25", "not the magic program or context");
                s.accept = vec!["C25", "C29"];
            }
            196 => {
                // only reachable legitimately through Op::Finish
                s.no(!e.signer(1), "C26", "buffer did not sign");
                s.no(e.acct(1).owner != dlp(), "C26", "buffer not owned by the delegation program");
                s.no(e.key(1) != undelegate_buffer(&e.key(0)), "C26", "buffer is not the delegation program's buffer for this account");
            }
            _ => {}
        }
        s
    }

    fn can_fund(&self, payer: &Acct, need: u64) -> bool {
        payer.owner == SYS && payer.data.is_empty() && payer.lamports.checked_sub(need).is_some_and(|l| l == 0 || l >= rent_min(0))
    }

    /// Number of initialized queues (delegated ones included) of an oracle.
    pub fn open_queues(&self, o: &Oracle) -> u64 {
        o.queues.iter().filter(|q| {
            let a = self.bank.get(q);
            (a.owner == vrf() || a.owner == dlp()) && is_queue(&a.data)
        }).count() as u64
    }

    /// Apply one step; returns the broken assertions.
    pub fn step(&mut self, st: &Step) -> Vec<Viol> {
        let c = cast();
        self.last_ok = false;
        self.last_res = None;
        let mut v = vec![];
        match &st.op {
            Op::Slot { d } => self.set_slot(self.bank.slot + d, (d / 2) as i64),
            Op::Donate { to, lamports } => {
                let k = self.sel(*to);
                let from = c.users[2];
                let _ = self.bank.exec(
                    &[solana_system_interface::instruction::transfer(&from, &k, *lamports as u64)],
                    &TxOpts { signers: c.keypairs.clone(), ..Default::default() },
                );
            }
            Op::RotateAdmin { to } => {
                self.admin = match to % 4 {
                    0 => None,
                    1 => Some(c.admins[1]),
                    2 => Some(c.users[0]),
                    _ => Some(c.admins[0]),
                };
                self.bank.accts.get_mut(&c.program_data).unwrap().data = program_data_bytes(self.admin);
            }
            Op::ProgramData { kind } => {
                let a = c.admins[0];
                let d = match kind % 4 {
                    0 => bincode::serialize(&UpgradeableLoaderState::Buffer { authority_address: Some(a) }).unwrap(),
                    1 => bincode::serialize(&UpgradeableLoaderState::Program { programdata_address: a }).unwrap(),
                    2 => vec![3, 0, 0, 0, 1, 2],
                    _ => bincode::serialize(&UpgradeableLoaderState::Uninitialized).unwrap(),
                };
                self.admin = None;
                self.bank.accts.get_mut(&c.program_data).unwrap().data = d;
            }
            Op::Forge { from, clone, owner } => {
                let k = self.sel(*from);
                self.forge(&k, *clone, *owner);
            }
            Op::Stay { q, shift, mask } => {
                let k = q.key();
                let a = self.bank.get(&k);
                if a.owner == vrf() && is_queue(&a.data) && a.data.len() <= MAX_INC {
                    let d = reslot(&a.data, self.bank.slot, *shift, *mask);
                    if let (Some(x), Some(l)) = (decode_queue(&d), self.ledger.get_mut(&k)) {
                        // only if the queue was as expected before
                        if decode_queue(&a.data).is_some_and(|y| y.items == *l) {
                            *l = x.items;
                            self.bank.accts.get_mut(&k).unwrap().data = d;
                            self.stat("stays-on-a-rollup");
                        }
                    }
                }
            }
            Op::Finish { q, payer } => v.extend(self.finish(*q, *payer, &st.muts)),
            Op::Burst { q, n, per_slot, disc, metas, args, seed } => {
                let nice: Vec<u16> = c.universe.iter().enumerate().filter(|(_, k)| c.users.contains(k) || c.fresh.contains(k)).map(|(i, _)| i as u16).collect();
                for i in 0..*n {
                    // what differs between the requests: payer, priority, the tail of their data
                    let op = Op::Request {
                        q: *q,
                        high: *seed == 255 || (i.wrapping_mul(7) ^ *seed as u16) % 3 == 0,
                        prog: 0,
                        payer: (i % 3) as u8,
                        seed: 0,
                        disc: vec![7; *disc as usize],
                        metas: (0..*metas).map(|j| MetaSel { k: nice[(i + j as u16) as usize % nice.len()], s: false, w: j % 2 == 0 }).collect(),
                        args_len: *args,
                        args_seed: i as u8,
                        er: true,
                    };
                    v.extend(self.step(&op.into()));
                    if !v.is_empty() {
                        v.iter_mut().for_each(|x| x.msg = format!("request {i} of the burst: {}", x.msg));
                        return v;
                    }
                    if *per_slot > 0 && i % *per_slot == *per_slot - 1 {
                        self.set_slot(self.bank.slot + 1, 0);
                    }
                }
                if let Some(l) = self.ledger.get(&q.key()) {
                    for (limit, class) in [(60, "over-60-pending"), (255, "over-255-pending")] {
                        if l.len() > limit {
                            self.stats.insert(class, 1);
                        }
                    }
                    let used: usize = l.iter().map(|i| item_size(i.disc.len(), i.metas.len(), i.args.len())).sum();
                    if used > 65_535 {
                        self.stats.insert("over-64-KiB", 1);
                    }
                }
            }
            Op::Tx { steps } => v.extend(self.transaction(steps)),
            op => {
                if let Some(mut ix) = self.build(op) {
                    let mut signers = c.keypairs.clone();
                    signers.extend(c.idents.iter().copied());
                    if let Op::AttackUndelegate { content, size, owner, id, own_buffer, .. } = op {
                        if !*own_buffer {
                            let data = self.attack_content(*content, *size, *id);
                            let owner = if owner % 4 == 0 { c.progs[0] } else { dlp() };
                            self.bank.accts.insert(c.clones[3], Acct { lamports: rent_min(data.len()), data, owner, executable: false });
                        }
                    }
                    for m in &st.muts {
                        self.mutate(&mut ix, m);
                    }
                    let mut failing = BTreeSet::new();
                    let mut er = false;
                    match op {
                        Op::Provide { fail, er: e, .. } => {
                            if *fail {
                                failing.extend(c.progs.iter().copied());
                            }
                            er = *e;
                        }
                        Op::Request { er: e, .. } | Op::Purge { er: e, .. } => er = *e,
                        _ => {}
                    }
                    let honest = st.muts.is_empty();
                    v.extend(self.run(ix, signers, failing, er, honest, op));
                }
            }
        }
        if v.is_empty() && self.bank.open.is_none() {
            v.extend(self.invariants());
        }
        v
    }

    /// Several instructions in one transaction. Each one is judged against the state the
    /// earlier ones left, an account without lamports included, until the transaction ends.
    fn transaction(&mut self, steps: &[Step]) -> Vec<Viol> {
        let saved = self.clone();
        self.bank.begin();
        let mut done = 0;
        let mut failed = None;
        for st in steps {
            let v = match &st.op {
                // what else a transaction contains: a transfer that brings an account back
                Op::Donate { .. } => {
                    self.step(st);
                    self.last_ok = true;
                    vec![]
                }
                Op::Initialize { .. } | Op::AddOracle { .. } | Op::RemoveOracle { .. } | Op::Usurp { .. } | Op::InitQueue { .. } | Op::Request { .. } | Op::Provide { .. }
                | Op::Purge { .. } | Op::Close { .. } | Op::Delegate { .. } | Op::Undelegate { .. } | Op::Raw { .. } => {
                    let v = self.step(st);
                    if v.is_empty() && !self.last_ok && self.last_res.is_none() {
                        continue; // nothing to build here
                    }
                    v
                }
                _ => continue,
            };
            if !v.is_empty() {
                let res = self.last_res.clone();
                *self = saved;
                self.last_res = res;
                return v;
            }
            if !self.last_ok {
                failed = self.last_res.clone();
                break;
            }
            done += 1;
        }
        if failed.is_none() {
            failed = self.bank.commit().err();
        }
        if failed.is_some() {
            let stats = std::mem::take(&mut self.stats);
            *self = saved;
            // refusals count, effects that were rolled back do not
            for (k, n) in stats {
                if !k.starts_with("ok-") {
                    *self.stats.entry(k).or_default() = n;
                }
            }
            self.stat("tx-rolled-back");
            self.last_ok = false;
        } else {
            self.last_ok = true;
            if done > 1 {
                self.stat("ok-tx");
            }
        }
        self.last_res = failed;
        vec![]
    }

    fn attack_content(&self, content: u8, size: u8, id: u8) -> Vec<u8> {
        let c = cast();
        match content % 5 {
            0 => vec![0; size as usize * 8],
            1 => {
                // an empty queue with an arbitrary index
                let mut d = vec![0; 24 + size as usize * 8];
                d[0] = 3;
                d[12] = 16;
                d[16] = id;
                d
            }
            2 => {
                let mut d = vec![0; 56];
                d[0] = 1;
                d[8..40].copy_from_slice(&c.oracles[4].pk);
                d
            }
            3 => {
                let mut d = vec![0; 12];
                d[8] = 1;
                d.extend(c.oracles[4].key.to_bytes());
                d
            }
            _ => vec![size; 40],
        }
    }

    fn run(&mut self, ix: Instruction, signers: BTreeSet<Pubkey>, failing: BTreeSet<Pubkey>, er: bool, honest: bool, op: &Op) -> Vec<Viol> {
        let c = cast();
        let mut v: Vec<Viol> = vec![];
        let qk = match op {
            Op::Request { q, .. } | Op::Provide { q, .. } | Op::Purge { q, .. } => Some(q.key()),
            _ => None,
        };
        // on the ephemeral rollup a delegated queue is owned by the VRF program again
        // (a transaction of several instructions is one on the base layer)
        let flip = er && self.bank.open.is_none() && qk.is_some_and(|k| self.delegated(&k));
        if flip {
            self.bank.accts.get_mut(&qk.unwrap()).unwrap().owner = vrf();
        }
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let e = flags.entry(m.pubkey).or_default();
            e.0 |= m.is_signer && signers.contains(&m.pubkey);
            e.1 |= m.is_writable && !self.bank.reserved.contains(&m.pubkey);
        }
        let eff = Eff { ix: &ix, flags, bank: &self.bank };
        let spec = self.spec(&eff, &failing);
        let pre = self.bank.clone();
        let opts = TxOpts { failing, signers, ..Default::default() };
        let r = self.bank.exec(std::slice::from_ref(&ix), &opts);
        self.last_res = r.res.as_ref().err().cloned();
        let tag = ix.data.first().copied().unwrap_or(255);
        let describe = || {
            format!(
                "tag {tag} accounts [{}]{}",
                ix.accounts.iter().map(|m| format!("{}{}{}", name_of(&m.pubkey), if m.is_signer { "+s" } else { "" }, if m.is_writable { "+w" } else { "" })).collect::<Vec<_>>().join(", "),
                if honest { "" } else { " (mutated)" }
            )
        };
        match &r.res {
            Err(f) => {
                if let Fail::Panic(p) = f {
                    v.push(viol("C24", format!("panic:{tag}"), format!("program panicked: {p}; {}", describe())));
                }
                if honest && spec.reject.is_empty() {
                    for p in &spec.accept {
                        v.push(viol(p, format!("rejected-honest:{tag}"), format!("a well-formed operation was rejected: {f:?}; {}", describe())));
                    }
                }
                if !spec.reject.is_empty() {
                    self.stat("rejected-as-required");
                }
                if !matches!(op, Op::Raw { .. }) && !spec.reject.is_empty() && spec.reject.iter().all(|r| r.1 == spec.reject[0].1) {
                    self.stat("rejected-for-a-single-reason");
                    self.stat(spec.reject[0].1);
                }
            }
            Ok(()) => {
                self.last_ok = true;
                for (p, why) in &spec.reject {
                    v.push(viol(p, format!("accepted:{why}"), format!("accepted although: {why}; {}", describe())));
                }
                if spec.reject.is_empty() {
                    v.extend(self.effects(&pre, &ix, &r.calls, op));
                }
                self.stat(match tag {
                    0 => "ok-initialize",
                    1 => "ok-modify-oracle",
                    2 => "ok-init-queue",
                    3 => "ok-request-high",
                    8 => "ok-request-low",
                    4 => "ok-provide",
                    5 => "ok-delegate",
                    6 => "ok-undelegate",
                    7 => "ok-close",
                    9 => "ok-purge",
                    _ => "ok-other",
                });
                if matches!(tag, 3 | 8) {
                    self.stat("ok-request");
                    if matches!(op, Op::Request { q, .. } if Self::is_default(&q.key())) {
                        self.stat("fee-free-queue");
                    }
                }
                if !honest {
                    self.stat("ok-mutated");
                }
            }
        }
        if flip {
            self.stat("er-op");
            if let Some(a) = self.bank.accts.get_mut(&qk.unwrap()) {
                a.owner = dlp();
            }
        }
        let _ = c;
        v
    }

    /// Check the effects of an accepted instruction and update the ledger.
    fn effects(&mut self, pre: &Bank, ix: &Instruction, calls: &[Call], op: &Op) -> Vec<Viol> {
        let c = cast();
        let mut v: Vec<Viol> = vec![];
        let d = &ix.data;
        let body = &d[8..];
        let key = |i: usize| ix.accounts[i].pubkey;
        let post = &self.bank;
        let tag = d[0];
        let mut lamports: BTreeMap<Pubkey, i128> = BTreeMap::new(); // exact expected deltas
        let mut loose: BTreeSet<Pubkey> = BTreeSet::new(); // lamports may change within rent rules
        let mut may_data: BTreeSet<Pubkey> = BTreeSet::new();
        let mut bad = |p: &'static str, sig: &str, m: String| v.push(viol(p, format!("{sig}:{tag}"), m));
        let mut new_ledger = self.ledger.clone();
        let mut expect_calls = 0;
        match tag {
            0 => {
                loose.extend([key(0), c.registry]);
                may_data.insert(c.registry);
                let a = post.get(&c.registry);
                if decode_registry(&a.data) != Some(vec![]) || a.owner != vrf() {
                    bad("C17", "init-registry", format!("registry after initialization: {a:?}"));
                }
            }
            1 => {
                let id = Pubkey::new_from_array(body[..32].try_into().unwrap());
                let od = key(2);
                loose.extend([key(0), c.registry, od]);
                may_data.extend([c.registry, od]);
                let old = decode_registry(&pre.get(&c.registry).data).unwrap_or_default();
                let new = decode_registry(&post.get(&c.registry).data);
                let mut want: Vec<Pubkey> = old.iter().filter(|k| **k != id).copied().collect();
                let a = post.get(&od);
                if body[64] == 0 {
                    want.push(id);
                    match decode_oracle(&a.data) {
                        Some(o) if a.owner == vrf() && o.vrf_key == body[32..64] && o.slot == post.slot && o.open == 0 => {}
                        _ => bad("C17", "oracle-record", format!("oracle account after registration at slot {}: {a:?}", post.slot)),
                    }
                } else if post.get(&od).lamports > 0 {
                    bad("C17", "oracle-left", "oracle account still exists after removal".into());
                }
                let sorted = |mut x: Vec<Pubkey>| {
                    x.sort();
                    x
                };
                if new.clone().map(sorted) != Some(sorted(want.clone())) {
                    bad("C17", "registry-list", format!("registry lists {new:?}, expected {want:?}"));
                }
            }
            2 => {
                let (size, idx) = (u32::from_le_bytes(body[..4].try_into().unwrap()) as usize, body[4]);
                let qk = key(3);
                loose.extend([key(0), qk]);
                may_data.insert(qk);
                let (pa, a) = (pre.get(&qk), post.get(&qk));
                let cur = pa.data.len();
                if a.owner != vrf() || a.lamports < rent_min(a.data.len()) {
                    bad("C18", "queue-account", format!("queue account owner/rent wrong after step: owner {} lamports {}", a.owner, a.lamports));
                }
                if a.data.len() > cur + MAX_INC {
                    bad("C18", "growth", format!("grew from {cur} to {}", a.data.len()));
                }
                if size > cur + MAX_INC {
                    if a.data.len() != cur + MAX_INC || a.data.iter().any(|b| *b != 0) {
                        bad("C18", "partial", format!("intermediate step towards {size}: {cur} -> {} bytes, initialized: {}", a.data.len(), is_queue(&a.data)));
                    }
                } else {
                    may_data.insert(key(2));
                    match decode_queue(&a.data) {
                        Some(qv) if qv.items.is_empty() && qv.count == 0 && qv.index == idx && a.data.len() == size => {}
                        x => bad("C18", "final", format!("queue after initialization: {x:?} len {} wanted {size} index {idx}", a.data.len())),
                    }
                    if a.data.len() > 24 && a.data[24..].iter().any(|b| *b != 0) {
                        bad("C18", "dirty", "fresh queue is not zeroed".into());
                    }
                    let (po, o) = (decode_oracle(&pre.get(&key(2)).data), decode_oracle(&post.get(&key(2)).data));
                    match (po, o) {
                        (Some(p), Some(o)) if o.open == p.open + 1 && o.vrf_key == p.vrf_key && o.slot == p.slot => {}
                        (_, o) => bad("C19", "count-init", format!("open queue count after initialization: {:?}", o.map(|o| o.open))),
                    }
                    new_ledger.insert(qk, vec![]);
                }
            }
            3 | 8 => {
                let a = decode_request(body).unwrap();
                let high = tag == 3;
                let qk = key(2);
                let cost = if Self::is_default(&qk) { 0 } else { fee_of(high) };
                *lamports.entry(key(0)).or_default() -= cost as i128;
                *lamports.entry(qk).or_default() += cost as i128;
                self.requested_fee += cost as u128;
                may_data.insert(qk);
                let (pq, q) = (pre.get(&qk), post.get(&qk));
                let (Some(pv), qv) = (decode_queue(&pq.data), decode_queue(&q.data)) else { panic!("pre queue undecodable") };
                match qv {
                    Some(qv) if qv.items.len() == pv.items.len() + 1 && qv.count == pv.count + 1 && q.data.len() == pq.data.len() && qv.index == pv.index => {
                        let it = qv.items.last().unwrap();
                        let want = Item {
                            id: it.id,
                            slot: post.slot,
                            prog: a.prog,
                            disc: a.disc.clone(),
                            metas: a.metas.iter().map(|m| Meta { key: m.0, writable: m.2 }).collect(),
                            args: a.args.clone(),
                            high,
                        };
                        if *it != want {
                            bad("C14", "stored", format!("stored {it:?}\nwanted {want:?}"));
                            bad("C08", "stored", "new request not stored as accepted".into());
                            if it.high != want.high {
                                bad("C11", "priority", "stored with the wrong priority".into());
                            }
                        }
                        if qv.items[..pv.items.len()] != pv.items[..] {
                            bad("C08", "others", format!("another pending request changed when one was added: {:?} -> {:?}", pv.items, qv.items));
                            bad("C14", "others", "another pending request changed".into());
                        }
                        if self.ever.contains(&(qk, it.id)) {
                            bad("C15", "duplicate-id", format!("request id {:02x?} was used before in this queue", &it.id[..8]));
                        }
                        self.ever.insert((qk, it.id));
                        new_ledger.entry(qk).or_default().push(want);
                    }
                    x => {
                        bad("C14", "append", format!("queue after request: {x:?}, before: {pv:?}"));
                        bad("C08", "append", format!("queue after request: {x:?}"));
                    }
                }
            }
            4 => {
                expect_calls = 1;
                let id: [u8; 32] = body[..32].try_into().unwrap();
                let qk = key(3);
                let list = self.ledger.get(&qk).cloned().unwrap_or_default();
                let pos = list.iter().position(|x| x.id == id).unwrap();
                let it = &list[pos];
                let cost = if Self::is_default(&qk) { 0 } else { fee_of(it.high) };
                *lamports.entry(qk).or_default() -= cost as i128;
                *lamports.entry(key(0)).or_default() += cost as i128;
                self.paid_fee += cost as u128;
                may_data.insert(qk);
                let mut want = list.clone();
                want.remove(pos);
                let got = decode_queue(&post.get(&qk).data);
                if got.as_ref().map(|g| &g.items) != Some(&want) || got.as_ref().map(|g| g.count as usize) != Some(want.len()) {
                    bad("C08", "fulfil", format!("pending after fulfilment: {got:?}\nexpected {want:?}"));
                }
                new_ledger.insert(qk, want);
                self.answered.push((qk, id));
                self.transcripts.push([id.to_vec(), body[32..160].to_vec()]);
                // callback
                if calls.len() == 1 {
                    let call = &calls[0];
                    let rnd = solana_program::hash::hash(&body[32..64]).to_bytes();
                    let data = [it.disc.clone(), rnd.to_vec(), it.args.clone()].concat();
                    if call.program != it.prog {
                        bad("C09", "program", format!("callback went to {}", name_of(&call.program)));
                    }
                    if call.data != data {
                        bad("C09", "data", format!("callback data {:02x?}\nexpected {data:02x?}", call.data));
                    }
                    let got: Vec<(Pubkey, bool)> = call.metas.iter().map(|m| (m.pubkey, m.is_writable)).collect();
                    let mut w = vec![(c.identity, false)];
                    w.extend(it.metas.iter().map(|m| (m.key, m.writable)));
                    if got != w {
                        bad("C09", "accounts", format!("callback accounts {got:?}\nexpected {w:?}"));
                    }
                    if let Some((k, _, _)) = call.eff.iter().find(|(k, s, _)| *s && *k != c.identity) {
                        bad("C10", "signer", format!("callback received the signature of {}", name_of(k)));
                    }
                    if let Some(m) = call.metas.iter().skip(1).find(|m| m.is_signer) {
                        bad("C10", "signer-flag", format!("requested account {} passed as signer", name_of(&m.pubkey)));
                    }
                    if !call.metas.first().is_some_and(|m| m.pubkey == c.identity && m.is_signer) {
                        bad("C09", "identity", "VRF identity is not the first, signing account".into());
                    }
                    if call.metas.iter().any(|m| m.pubkey == key(0)) {
                        bad("C10", "oracle", "oracle account passed to the callback".into());
                    }
                }
            }
            9 => {
                let qk = key(1);
                let list = self.ledger.get(&qk).cloned().unwrap_or_default();
                let (gone, kept): (Vec<Item>, Vec<Item>) = list.into_iter().partition(|x| post.slot.saturating_sub(x.slot) > TTL);
                let fee: u64 = if Self::is_default(&qk) { 0 } else { gone.iter().map(|x| fee_of(x.high)).sum() };
                *lamports.entry(qk).or_default() -= fee as i128;
                *lamports.entry(key(0)).or_default() += fee as i128;
                self.paid_fee += fee as u128;
                may_data.insert(qk);
                let got = decode_queue(&post.get(&qk).data);
                if got.as_ref().map(|g| &g.items) != Some(&kept) || got.as_ref().map(|g| g.count as usize) != Some(kept.len()) {
                    bad("C12", "purge", format!("after purge at slot {}: {got:?}\nexpected {kept:?}", post.slot));
                    bad("C08", "purge", "purge changed other pending requests or kept removed ones".into());
                }
                for g in &gone {
                    self.answered.push((qk, g.id));
                }
                if !gone.is_empty() {
                    *self.stats.entry("purged-items").or_default() += gone.len() as u64;
                    if !kept.is_empty() {
                        *self.stats.entry("purge-mixed").or_default() += 1;
                    }
                }
                new_ledger.insert(qk, kept);
            }
            7 => {
                let qk = key(2);
                let l = pre.get(&qk).lamports as i128;
                *lamports.entry(qk).or_default() -= l;
                *lamports.entry(key(0)).or_default() += l;
                may_data.extend([qk, key(1)]);
                if post.get(&qk).lamports > 0 {
                    bad("C19", "closed", "queue account still exists after close".into());
                }
                match (decode_oracle(&pre.get(&key(1)).data), decode_oracle(&post.get(&key(1)).data)) {
                    (Some(p), Some(o)) if o.open + 1 == p.open && o.vrf_key == p.vrf_key && o.slot == p.slot => {}
                    (p, o) => bad("C19", "count-close", format!("open queue count {:?} -> {:?}", p.map(|p| p.open), o.map(|o| o.open))),
                }
                new_ledger.remove(&qk);
            }
            5 => {
                expect_calls = 1;
                let qk = key(1);
                loose.extend([key(0), key(2), key(3), key(4)]);
                may_data.extend([key(2), key(3), key(4)]);
                if calls.len() == 1 {
                    let m = &calls[0].metas;
                    if calls[0].program != dlp() || m.len() < 2 || m[0].pubkey != key(0) || m[1].pubkey != qk {
                        bad("C25", "delegate-call", format!("delegation call {:?}", calls[0]));
                    }
                }
                let (p, a) = (pre.get(&qk), post.get(&qk));
                if p.lamports > 0 && (a.data != p.data || a.owner != dlp()) {
                    bad("C25", "delegate-data", format!("queue after delegation: owner {} data kept: {}", a.owner, a.data == p.data));
                }
                if post.get(&delegate_buffer(&qk)).lamports > pre.get(&delegate_buffer(&qk)).lamports {
                    bad("C25", "buffer", "delegation buffer left behind".into());
                }
                may_data.insert(qk); // owner changes; data compared above
            }
            6 => {
                expect_calls = 1;
                if calls.len() == 1 {
                    let cl = &calls[0];
                    let ks: Vec<Pubkey> = cl.metas.iter().map(|m| m.pubkey).collect();
                    if cl.program != magic() || ks != [key(0), magic_ctx(), key(1)] || cl.data != [2, 0, 0, 0] {
                        bad("C25", "undelegate-call", format!("magic program call {cl:?}"));
                    }
                    if cl.metas.iter().skip(1).any(|m| m.is_signer) {
                        bad("C25", "undelegate-signer", "unexpected signer".into());
                    }
                }
            }
            _ => {}
        }
        if calls.len() != expect_calls {
            let p = if tag == 4 { "C09" } else if tag == 5 || tag == 6 { "C25" } else { "C20" };
            bad(p, "calls", format!("{} calls to other programs, expected {expect_calls}: {calls:?}", calls.len()));
        }
        // frame: nothing else changes
        let keys: BTreeSet<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
        let mut sum: i128 = 0;
        for k in keys {
            let (p, a) = (pre.get(&k), post.get(&k));
            let delta = a.lamports as i128 - p.lamports as i128;
            sum += delta;
            if loose.contains(&k) {
                // rent funding never overpays
                if delta > 0 && k != key(0) && a.lamports > rent_min(a.data.len()).max(p.lamports) {
                    bad("C11", "overpaid", format!("{} received {delta} lamports", name_of(&k)));
                }
            } else if delta != lamports.get(&k).copied().unwrap_or(0) {
                let e = lamports.get(&k).copied().unwrap_or(0);
                bad("C11", "lamports", format!("{} changed by {delta} lamports, expected {e}", name_of(&k)));
                if tag == 9 {
                    bad("C12", "lamports", format!("{} changed by {delta} lamports, expected {e}", name_of(&k)));
                }
                if tag == 7 {
                    bad("C19", "lamports", format!("{} changed by {delta} lamports, expected {e}", name_of(&k)));
                }
                if tag == 5 || tag == 6 {
                    bad("C25", "lamports", format!("{} changed by {delta} lamports, expected {e}", name_of(&k)));
                }
            }
            if !may_data.contains(&k) && (p.data != a.data || p.owner != a.owner) && !(a.lamports == 0 && p.data.is_empty()) {
                bad("C20", "frame", format!("{} changed although the instruction has no business with it", name_of(&k)));
            }
        }
        if sum != 0 {
            bad("C11", "conservation", format!("lamports created or destroyed: {sum}"));
        }
        let _ = op;
        self.ledger = new_ledger;
        v
    }

    /// The delegation program finalizes an undelegation by calling ProcessUndelegation.
    fn finish(&mut self, q: Q, payer: u8, muts: &[Mut]) -> Vec<Viol> {
        let c = cast();
        let qk = q.key();
        if !self.delegated(&qk) {
            return vec![];
        }
        let mut v = vec![];
        let saved = self.bank.clone();
        let before = self.bank.get(&qk);
        let payer = c.users[payer as usize % 3];
        let buf = undelegate_buffer(&qk);
        let committed = before.data.clone();
        // close the delegated account to the payer, create the buffer
        self.bank.accts.remove(&qk);
        {
            let a = self.bank.accts.get_mut(&payer).unwrap();
            a.lamports += before.lamports;
            a.lamports -= rent_min(committed.len());
        }
        self.bank.accts.insert(buf, Acct { lamports: rent_min(committed.len()), data: committed.clone(), owner: dlp(), executable: false });
        let mut data = vec![196, 28, 41, 206, 48, 37, 51, 167];
        let seeds: Vec<Vec<u8>> = vec![b"queue".to_vec(), c.oracles[q.o()].key.to_bytes().to_vec(), vec![q.idx()]];
        data.extend(borsh::to_vec(&seeds).unwrap());
        let mut ix = Instruction {
            program_id: vrf(),
            accounts: vec![AccountMeta::new(qk, false), AccountMeta::new(buf, true), AccountMeta::new(payer, true), AccountMeta::new_readonly(SYS, false)],
            data,
        };
        let orig = ix.clone();
        for m in muts {
            self.mutate(&mut ix, m);
        }
        // nobody else can sign with the buffer, and the delegation program sends the seeds it was given
        ix.data = orig.data.clone();
        let honest = ix == orig;
        let mut signers = c.keypairs.clone();
        signers.insert(buf);
        let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let e = flags.entry(m.pubkey).or_default();
            e.0 |= m.is_signer && signers.contains(&m.pubkey);
            e.1 |= m.is_writable && !self.bank.reserved.contains(&m.pubkey);
        }
        let pre = self.bank.clone();
        let eff = Eff { ix: &ix, flags, bank: &pre };
        let spec = self.spec(&eff, &BTreeSet::new());
        let r = self.bank.exec(std::slice::from_ref(&ix), &TxOpts { signers, by_dlp: true, ..Default::default() });
        self.last_res = r.res.as_ref().err().cloned();
        let ok = r.res.is_ok();
        match &r.res {
            Err(Fail::Panic(p)) => v.push(viol("C24", "panic:196", format!("program panicked: {p}"))),
            Err(f) if honest && committed.len() <= MAX_INC => {
                v.push(viol("C26", "rejected-honest:196", format!("undelegation of {} refused: {f:?}", name_of(&qk))));
            }
            Ok(()) => {
                for (p, why) in &spec.reject {
                    v.push(viol(p, format!("accepted:{why}"), format!("accepted although: {why}; {ix:?}")));
                }
                let a = self.bank.get(&qk);
                if spec.reject.is_empty() && (a.data != committed || a.owner != vrf() || a.lamports < rent_min(a.data.len())) {
                    v.push(viol("C26", "restored", format!("queue after undelegation: owner {} len {} (committed {}) lamports {}", a.owner, a.data.len(), committed.len(), a.lamports)));
                }
                for m in &ix.accounts {
                    if m.pubkey != qk && m.pubkey != payer {
                        let (p, x) = (pre.get(&m.pubkey), self.bank.get(&m.pubkey));
                        if p.data != x.data || p.owner != x.owner {
                            v.push(viol("C26", "frame:196", format!("{} changed", name_of(&m.pubkey))));
                        }
                    }
                }
                if !r.calls.is_empty() {
                    v.push(viol("C26", "calls:196", format!("{:?}", r.calls)));
                }
            }
            _ => {}
        }
        let a = self.bank.get(&qk);
        if ok && v.is_empty() && a.data == committed && a.owner == vrf() {
            // the delegation program settles the lamports and its own accounts
            self.last_ok = true;
            self.stat("ok-finish");
            let diff = before.lamports as i128 - a.lamports as i128;
            self.bank.accts.get_mut(&qk).unwrap().lamports = before.lamports;
            let p = self.bank.accts.get_mut(&payer).unwrap();
            p.lamports = (p.lamports as i128 - diff) as u64;
            for k in [buf, dlp_record(&qk), dlp_metadata(&qk)] {
                if let Some(x) = self.bank.accts.remove(&k) {
                    self.bank.accts.get_mut(&payer).unwrap().lamports += x.lamports;
                }
            }
        } else {
            self.bank = saved;
        }
        v
    }

    /// State invariants of the whole program.
    pub fn invariants(&self) -> Vec<Viol> {
        let c = cast();
        let mut v = vec![];
        let reg_acct = self.bank.get(&c.registry);
        let reg = if reg_acct.owner == vrf() { decode_registry(&reg_acct.data) } else { None };
        if reg_acct.owner == vrf() {
            match &reg {
                None => v.push(viol("C17", "registry-corrupt", format!("registry cannot be decoded: {:02x?}", reg_acct.data))),
                Some(r) => {
                    let set: BTreeSet<Pubkey> = r.iter().copied().collect();
                    if set.len() != r.len() {
                        v.push(viol("C17", "registry-duplicates", format!("{r:?}")));
                    }
                    for k in &set {
                        let a = self.bank.get(&pda(&[b"oracle", k.as_ref()], &vrf()));
                        if a.owner != vrf() || decode_oracle(&a.data).is_none() {
                            v.push(viol("C17", "listed-without-account", format!("{} is listed but has no oracle account", name_of(k))));
                        }
                    }
                }
            }
            if reg_acct.lamports < rent_min(reg_acct.data.len()) {
                v.push(viol("C17", "registry-rent", format!("registry holds {} lamports for {} bytes", reg_acct.lamports, reg_acct.data.len())));
            }
        }
        let listed: BTreeSet<Pubkey> = reg.unwrap_or_default().into_iter().collect();
        let queue_owner: BTreeMap<Pubkey, (usize, usize)> = c.oracles.iter().enumerate().flat_map(|(i, o)| o.queues.iter().enumerate().map(move |(j, q)| (*q, (i, j)))).collect();
        for (k, a) in &self.bank.accts {
            if a.owner != vrf() {
                continue;
            }
            if *k == c.registry {
                continue;
            }
            if let Some(o) = c.oracles.iter().find(|o| o.data == *k) {
                match decode_oracle(&a.data) {
                    None => {
                        v.push(viol("C17", "oracle-corrupt", format!("oracle account of {}: {:02x?}", name_of(&o.key), a.data)));
                        v.push(viol("C20", "oracle-corrupt", format!("oracle account of {}", name_of(&o.key))));
                    }
                    Some(ov) => {
                        if !listed.contains(&o.key) {
                            v.push(viol("C17", "account-without-listing", format!("{} has an oracle account but is not listed", name_of(&o.key))));
                        }
                        let n = self.open_queues(o);
                        if ov.open != n {
                            v.push(viol("C19", "open-count", format!("{} counts {} open queues but has {n}", name_of(&o.key), ov.open)));
                        }
                    }
                }
                if a.lamports < rent_min(a.data.len()) {
                    v.push(viol("C17", "oracle-rent", "oracle account not rent-exempt".to_string()));
                }
                continue;
            }
            if let Some((oi, _)) = queue_owner.get(k) {
                let partial = a.data.iter().all(|b| *b == 0);
                if !partial && decode_queue(&a.data).is_none() {
                    v.push(viol("C20", "queue-corrupt", format!("{} is neither a queue nor a blank account", name_of(k))));
                }
                if is_queue(&a.data) && !self.registered(*oi) {
                    v.push(viol("C19", "orphan-queue", format!("{} exists but its oracle is not registered", name_of(k))));
                }
                continue;
            }
            if let Some(id) = (0..10).map(|i| self.ident(i)).find(|id| pda(&[b"oracle", id.as_ref()], &vrf()) == *k) {
                if decode_oracle(&a.data).is_none() || !listed.contains(&id) {
                    v.push(viol("C17", "account-without-listing", format!("{} has an oracle account but is not listed, or it is corrupt", name_of(&id))));
                }
                continue;
            }
            v.push(viol("C20", "stray-account", format!("VRF program owns an account at an unexpected address {}", name_of(k))));
        }
        // removed oracles must not own initialized queues (delegated ones included)
        for o in &c.oracles {
            let a = self.bank.get(&o.data);
            if a.owner != vrf() && self.open_queues(o) > 0 {
                v.push(viol("C19", "orphan-queue", format!("{} owns queues but is not registered", name_of(&o.key))));
            }
        }
        for (k, (_, j)) in &queue_owner {
            let a = self.bank.get(k);
            let want = self.ledger.get(k);
            if (a.owner == vrf() || a.owner == dlp()) && is_queue(&a.data) {
                let qv = decode_queue(&a.data);
                let items = qv.as_ref().map(|q| q.items.clone());
                if items != Some(want.cloned().unwrap_or_default()) {
                    v.push(viol("C08", "pending", format!("{}: pending {items:?}\nexpected {want:?}", name_of(k))));
                }
                if let Some(qv) = qv {
                    if qv.index != IDX[*j] {
                        v.push(viol("C18", "index", format!("{} stores index {}", name_of(k), qv.index)));
                    }
                    let fees: u64 = if Self::is_default(k) { 0 } else { qv.items.iter().map(|i| fee_of(i.high)).sum() };
                    if a.lamports < rent_min(a.data.len()) + fees {
                        v.push(viol("C11", "escrow", format!("{} holds {} lamports, needs rent {} + fees {fees}", name_of(k), a.lamports, rent_min(a.data.len()))));
                    }
                }
            } else if want.is_some_and(|w| !w.is_empty()) {
                v.push(viol("C08", "queue-gone", format!("{} disappeared with pending requests", name_of(k))));
            }
        }
        v
    }
}

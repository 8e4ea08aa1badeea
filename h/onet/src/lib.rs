//! The simulated chain behind the oracle service: generated traffic and troubles, the real
//! program in the simulated runtime, and the judgement of everything the service sends.
use base64::Engine;
use chain::cast::{cast, pda};
use chain::svm::*;
use chain::view::*;
use ephemeral_vrf_api::prelude as api;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solana_client::client_error::{ClientError, ClientErrorKind};
use solana_client::rpc_filter::RpcFilterType;
use solana_client::rpc_request::{RpcError, RpcRequest};
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::hash::Hash;
use solana_sdk::signature::Signature;
use solana_sdk::transaction::Transaction;
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;

pub const START_SLOT: u64 = 2000;

// ------------------------------------------------------------------ scenario
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sub {
    pub at: u32,
    pub queue: u8,
    pub high: bool,
    pub prog: u8,
    /// callback accounts: 0 the oracle itself, others arbitrary
    pub metas: Vec<(u8, bool)>,
    pub args: u16,
    pub seed: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Trouble {
    SendErr,
    SendDrop,
    StatusErr,
    StatusNone,
    HashErr,
    HashStale,
    ScanErr,
    Slow(u16),
    /// notifications are lost
    Deaf,
    /// a callback program fails
    Callback(u8),
    /// (remote) the WebSocket endpoint closes and refuses connections
    NoSocket,
    /// (remote) malformed notifications come first
    Garbage,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Window {
    pub what: Trouble,
    pub from: u32,
    pub len: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub early: Vec<Sub>,
    /// how many slots before the start the early requests were made
    #[serde(default)]
    pub age: u16,
    pub subs: Vec<Sub>,
    pub windows: Vec<Window>,
    /// cycle of (delay in ms, lost) for notifications
    pub notes: Vec<(u16, bool)>,
    pub latency: u16,
    pub visible: u16,
    pub skip_preflight: bool,
    /// somebody else purges at these times
    pub purges: Vec<(u32, u8)>,
    /// the chain drops everything between the two times
    pub fork: Option<(u32, u32)>,
}
pub fn sub(max: u32) -> impl Strategy<Value = Sub> {
    (
        0..max,
        prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
        any::<bool>(),
        0..3u8,
        prop_oneof![6 => prop::collection::vec((1..6u8, any::<bool>()), 0..4), 1 => prop::collection::vec((0..40u8, any::<bool>()), 0..=20)],
        prop_oneof![6 => 0..40u16, 1 => 0..=512u16],
        prop_oneof![1 => Just(0u8), 2 => any::<u8>()],
    )
        .prop_map(|(at, queue, high, prog, metas, args, seed)| Sub { at, queue, high, prog, metas, args, seed })
}
pub fn trouble() -> impl Strategy<Value = Trouble> {
    prop_oneof![
        2 => Just(Trouble::SendErr),
        2 => Just(Trouble::SendDrop),
        2 => Just(Trouble::StatusErr),
        2 => Just(Trouble::StatusNone),
        2 => Just(Trouble::HashErr),
        2 => Just(Trouble::HashStale),
        1 => Just(Trouble::ScanErr),
        1 => (100..3000u16).prop_map(Trouble::Slow),
        2 => Just(Trouble::Deaf),
        2 => (0..3u8).prop_map(Trouble::Callback),
    ]
}
pub fn scenario(fork: bool) -> impl Strategy<Value = Scenario> {
    let span = 60_000u32;
    let len = prop_oneof![3 => 100..5_000u32, 2 => 5_000..60_000u32, 1 => 60_000..150_000u32];
    (
        prop::collection::vec(sub(1), 0..3),
        prop::collection::vec(sub(span), 0..7),
        prop::collection::vec((trouble(), 1..span, len), 0..5).prop_map(|v| v.into_iter().map(|(what, from, len)| Window { what, from, len }).collect::<Vec<_>>()),
        prop::collection::vec((0..4000u16, prop::bool::weighted(0.3)), 0..5),
        prop_oneof![3 => 1..60u16, 1 => 60..800u16],
        prop_oneof![2 => Just(0u16), 3 => 0..1500u16],
        any::<bool>(),
        prop::collection::vec((0..span * 3, 0..3u8), 0..3),
        prop_oneof![2 => Just(0u16), 1 => 1..=240u16, 2 => 238..300u16, 1 => 0..900u16],
        (1000..span, 100..6000u32).prop_map(move |(t, d)| fork.then_some((t, t + d))),
        // neither notifications nor scans for longer than a request lives
        prop::option::weighted(0.12, (1..span, 90_000..170_000u32, sub(4_000))),
    )
        .prop_map(|(early, mut subs, mut windows, notes, latency, visible, skip_preflight, purges, age, fork, blackout)| {
            if let Some((from, len, mut s)) = blackout {
                windows.truncate(1);
                windows.extend([Window { what: Trouble::ScanErr, from, len }, Window { what: Trouble::Deaf, from, len }]);
                s.at += from;
                subs.push(s);
            }
            Scenario { early, age, subs, windows, notes, latency, visible, skip_preflight, purges, fork }
        })
}

// ------------------------------------------------------------------ simulated node
pub type Req = (Pubkey, [u8; 32]);
pub struct Update {
    pub start: u64,
    pub end: Option<u64>,
    pub ids: BTreeSet<[u8; 32]>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Phase {
    Sending,
    Sent,
    Asking,
}
pub struct Snap {
    pub queue: Pubkey,
    pub data: Vec<u8>,
    pub slot: u64,
    pub deliver: Instant,
}
pub struct Net {
    pub t0: Instant,
    pub slot_ms: u64,
    /// driven from outside the process: what the service has taken in is not known exactly
    pub remote: bool,
    /// (remote) requests a later update no longer had, since when
    pub gone: HashMap<Req, Instant>,
    pub left_once: BTreeSet<Req>,
    /// (remote) the least and the largest response time a notification so far can have told of
    pub lat: HashMap<Pubkey, (u64, u64)>,
    pub sc: Scenario,
    pub bank: Bank,
    pub hashes: HashMap<Hash, u64>,
    pub last_hash: Option<(Hash, u64)>,
    pub stale: Option<(Hash, u64)>,
    pub status: HashMap<Signature, (bool, Instant, u64)>,
    pub sig_id: HashMap<Signature, Req>,
    pub saved: Option<(Bank, HashMap<Signature, (bool, Instant, u64)>)>,
    pub seq: u64,
    pub updates: HashMap<Pubkey, Vec<Update>>,
    pub known: HashMap<Req, Item>,
    pub phase: HashMap<Req, Phase>,
    pub purging: HashMap<Pubkey, usize>,
    pub note: tokio::sync::mpsc::UnboundedSender<Snap>,
    pub notes: usize,
    pub last_deliver: Instant,
    pub bad: Vec<(&'static str, String, String)>,
    pub sends: u64,
    pub provides: u64,
    pub purges: u64,
    pub delivered: u64,
    pub nonce: u64,
    pub trace: bool,
}
pub fn me() -> &'static chain::cast::Oracle {
    &cast().oracles[0]
}
pub fn own(k: &Pubkey) -> Option<u8> {
    me().queues.iter().position(|q| q == k).map(|i| chain::cast::IDX[i])
}
pub fn ids_of(data: &[u8]) -> BTreeSet<[u8; 32]> {
    decode_queue(data).map(|q| q.items.iter().map(|i| i.id).collect()).unwrap_or_default()
}
impl Net {
    pub fn new(sc: &Scenario, slot_ms: u64, note: tokio::sync::mpsc::UnboundedSender<Snap>) -> Net {
        let now = Instant::now();
        let mut n = Net {
            t0: now,
            slot_ms,
            remote: false,
            gone: HashMap::new(),
            left_once: BTreeSet::new(),
            lat: HashMap::new(),
            sc: sc.clone(),
            bank: base(),
            hashes: HashMap::new(),
            last_hash: None,
            stale: None,
            status: HashMap::new(),
            sig_id: HashMap::new(),
            saved: None,
            seq: 0,
            updates: HashMap::new(),
            known: HashMap::new(),
            phase: HashMap::new(),
            purging: HashMap::new(),
            note,
            notes: 0,
            last_deliver: now,
            bad: vec![],
            sends: 0,
            provides: 0,
            purges: 0,
            delivered: 0,
            nonce: 0,
            trace: std::env::var("VERIF_TRACE").is_ok(),
        };
        n.set_slot(START_SLOT - sc.age as u64);
        for s in &sc.early {
            n.submit_now(s);
        }
        n.bank.slot = 0;
        n.sync();
        n
    }
    pub fn set_slot(&mut self, s: u64) {
        self.bank.slot = s;
        self.bank.ts = 1_700_000_000 + (self.ms() / 1000) as i64;
        let sh = self.bank.accts.get_mut(&cast().slot_hashes).unwrap();
        let mut h = [0u8; 32];
        h[..8].copy_from_slice(&s.to_le_bytes());
        sh.data[16..48].copy_from_slice(&h);
    }
    /// Requests of own queues that are still waiting.
    pub fn pending(&self) -> Vec<(Pubkey, Vec<Item>)> {
        me().queues
            .iter()
            .filter_map(|q| {
                let items = decode_queue(&self.bank.get(q).data)?.items;
                (!items.is_empty()).then_some((*q, items))
            })
            .collect()
    }
    pub fn ms(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }
    pub fn sync(&mut self) {
        let s = START_SLOT + self.ms() / self.slot_ms;
        if s != self.bank.slot {
            self.set_slot(s);
        }
    }
    pub fn on(&self, f: impl Fn(&Trouble) -> bool) -> bool {
        let t = self.ms() as u32;
        self.sc.windows.iter().any(|w| f(&w.what) && t >= w.from && t - w.from < w.len)
    }
    pub fn delay(&self) -> u64 {
        let t = self.ms() as u32;
        let slow = self.sc.windows.iter().filter(|w| t >= w.from && t - w.from < w.len).map(|w| if let Trouble::Slow(d) = w.what { d as u64 } else { 0 }).max().unwrap_or(0);
        self.sc.latency.max(1) as u64 + slow
    }
    pub fn failing(&self) -> BTreeSet<Pubkey> {
        let t = self.ms() as u32;
        self.sc.windows.iter().filter(|w| t >= w.from && t - w.from < w.len).filter_map(|w| if let Trouble::Callback(p) = w.what { Some(cast().progs[p as usize % 3]) } else { None }).collect()
    }
    pub fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    /// Execute and notify about changed queues.
    pub fn exec(&mut self, ixs: &[Instruction], signers: BTreeSet<Pubkey>) -> bool {
        self.sync();
        self.exec_now(ixs, signers)
    }
    fn exec_now(&mut self, ixs: &[Instruction], signers: BTreeSet<Pubkey>) -> bool {
        let queues: Vec<Pubkey> = ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).filter(|k| is_queue(&self.bank.get(k).data)).collect();
        let before: Vec<Vec<u8>> = queues.iter().map(|q| self.bank.get(q).data).collect();
        let failing = self.failing();
        let r = self.bank.exec(ixs, &TxOpts { signers, failing, ..Default::default() });
        if self.trace {
            eprintln!("[{}] slot {} tx {:?} -> {:?}", self.ms(), self.bank.slot, ixs.iter().map(|i| i.data.first().copied()).collect::<Vec<_>>(), r.res);
        }
        for (q, b) in queues.iter().zip(before) {
            if self.bank.get(q).data != b {
                self.notify(q);
            }
        }
        r.res.is_ok()
    }
    pub fn notify(&mut self, q: &Pubkey) {
        let data = self.bank.get(q).data;
        if let Some(v) = decode_queue(&data) {
            for i in v.items {
                self.known.insert((*q, i.id), i);
            }
        }
        let (d, lost) = if self.sc.notes.is_empty() { (0, false) } else { self.sc.notes[self.notes % self.sc.notes.len()] };
        self.notes += 1;
        if lost || self.on(|t| matches!(t, Trouble::Deaf)) {
            return;
        }
        let at = (Instant::now() + Duration::from_millis(d as u64)).max(self.last_deliver);
        self.last_deliver = at;
        let _ = self.note.send(Snap { queue: *q, data, slot: self.bank.slot, deliver: at });
    }
    pub fn bad(&mut self, p: &'static str, sig: &str, msg: String) {
        if self.bad.len() < 4 {
            let ms = self.ms();
            self.bad.push((p, sig.into(), format!("at {ms} ms: {msg}")));
        }
    }
    pub fn submit(&mut self, s: &Sub) {
        self.sync();
        self.submit_now(s);
    }
    fn submit_now(&mut self, s: &Sub) {
        let c = cast();
        let queue = match s.queue {
            0 => me().queues[0],
            1 => me().queues[1],
            _ => c.oracles[1].queues[0],
        };
        let n = s.prog as usize % c.progs.len();
        let pk = |k: &Pubkey| ephemeral_vrf_sdk::Pubkey::new_from_array(k.to_bytes());
        let meta = |k: u8| if k == 0 { me().key } else { Pubkey::new_from_array([k + 100; 32]) };
        let p = ephemeral_vrf_sdk::instructions::RequestRandomnessParams {
            payer: pk(&c.users[0]),
            oracle_queue: pk(&queue),
            callback_program_id: pk(&c.progs[n]),
            callback_discriminator: vec![s.seed; (s.seed % 9) as usize],
            accounts_metas: Some(s.metas.iter().map(|(k, w)| ephemeral_vrf_sdk::types::SerializableAccountMeta { pubkey: pk(&meta(*k)), is_signer: *w, is_writable: *w }).collect()),
            caller_seed: [s.seed; 32],
            callback_args: Some(vec![s.seed; s.args as usize]),
        };
        let ix = if s.high { ephemeral_vrf_sdk::instructions::create_request_randomness_ix(p) } else { ephemeral_vrf_sdk::instructions::create_request_regular_randomness_ix(p) };
        self.exec_now(&[ix], [c.users[0], c.idents[n]].into_iter().collect());
    }
    pub fn blockhash(&mut self) -> (Hash, u64) {
        self.sync();
        self.nonce += 1;
        let mut b = [9u8; 32];
        b[..8].copy_from_slice(&self.nonce.to_le_bytes());
        b[8..16].copy_from_slice(&self.bank.slot.to_le_bytes());
        let h = Hash::new_from_array(b);
        self.hashes.insert(h, self.bank.slot);
        self.last_hash = Some((h, self.bank.slot));
        (h, self.bank.slot)
    }
    /// A notification of that slot goes out: each known request it lacks may be taken as answered.
    pub fn announce(&mut self, q: Pubkey, data: &[u8], slot: u64) {
        let ids = ids_of(data);
        let times: Vec<u64> = self.known.iter().filter(|((k, i), _)| *k == q && !ids.contains(i)).map(|(_, it)| slot.saturating_sub(it.slot)).collect();
        if let (Some(a), Some(b)) = (times.iter().min(), times.iter().max()) {
            let e = self.lat.entry(q).or_insert((*a, *b));
            *e = (e.0.min(*a), e.1.max(*b));
        }
    }
    /// The service is told about a queue; `sure`: it certainly takes this in.
    pub fn tell(&mut self, q: Pubkey, data: &[u8], sure: bool) -> u64 {
        let start = self.tick();
        let ids = ids_of(data);
        if self.remote {
            let all: BTreeSet<Req> = self.updates.get(&q).map(|u| u.iter().flat_map(|x| x.ids.iter().map(|i| (q, *i))).collect()).unwrap_or_default();
            for r in all {
                if ids.contains(&r.1) {
                    self.gone.remove(&r);
                } else if sure {
                    self.gone.entry(r).or_insert_with(Instant::now);
                }
                if !ids.contains(&r.1) {
                    self.left_once.insert(r);
                }
            }
        }
        self.updates.entry(q).or_default().push(Update { start, end: None, ids });
        start
    }
    /// Is there a reason to work on this id: it was told to us and nothing later said it left.
    pub fn due(&self, q: &Pubkey, id: &[u8; 32]) -> bool {
        let Some(u) = self.updates.get(q) else { return false };
        if self.remote {
            return u.iter().any(|x| x.ids.contains(id)) && self.gone.get(&(*q, *id)).is_none_or(|t| t.elapsed() < Duration::from_secs(15));
        }
        let gone = u.iter().filter(|x| !x.ids.contains(id)).filter_map(|x| x.end.map(|e| (e, x.start))).max();
        match gone {
            None => u.iter().any(|x| x.ids.contains(id)),
            Some((_, start)) => u.iter().any(|x| x.ids.contains(id) && x.end.is_none_or(|e| e > start)),
        }
    }
    /// What the service sends, checked before it reaches the chain. Returns the request id of a fulfilment.
    pub fn inspect(&mut self, tx: &Transaction) -> Option<Work> {
        self.sends += 1;
        let o = me();
        if tx.message.account_keys.first() != Some(&o.key) || tx.message.header.num_required_signatures != 1 || tx.signatures.len() != 1 || tx.verify().is_err() {
            self.bad("C31", "not-signed-by-identity", format!("signatures {:?}, payer {:?}", tx.signatures, tx.message.account_keys.first()));
            return None;
        }
        let size = bincode::serialize(tx).map(|b| b.len()).unwrap_or(9999);
        let mut ixs = vec![];
        let mut budget = vec![];
        for ci in &tx.message.instructions {
            let prog = tx.message.account_keys[ci.program_id_index as usize];
            if prog.to_string() == "ComputeBudget111111111111111111111111111111" {
                budget.push(ci.data.as_slice());
                continue;
            }
            let accounts = ci
                .accounts
                .iter()
                .map(|i| AccountMeta { pubkey: tx.message.account_keys[*i as usize], is_signer: tx.message.is_signer(*i as usize), is_writable: tx.message.is_maybe_writable(*i as usize, None) })
                .collect::<Vec<_>>();
            ixs.push(Instruction { program_id: prog, accounts, data: ci.data.clone() });
        }
        if ixs.len() != 1 || ixs[0].program_id != vrf() {
            self.bad("C31", "foreign-instruction", format!("a transaction with {ixs:?}"));
            return None;
        }
        // four multiplications of points in a fulfilment cost about 9,000, finding an address 1,500 or more
        match compute_limit(budget.into_iter(), 1) {
            Err(e) => self.bad("C31", "unusable-compute-budget", e),
            Ok(l) if l < if ixs[0].data.first() == Some(&4) { 9_000 } else { 1_500 } => self.bad("C31", "unusable-compute-budget", format!("a compute limit of {l}")),
            _ => {}
        }
        let ix = ixs.remove(0);
        let hash_slot = self.hashes.get(&tx.message.recent_blockhash).copied();
        let Some(hash_slot) = hash_slot else {
            self.bad("C31", "unknown-blockhash", format!("blockhash {}", tx.message.recent_blockhash));
            return None;
        };
        match ix.data.first() {
            Some(4) if ix.data.len() == 168 => {
                self.provides += 1;
                let id: [u8; 32] = ix.data[8..40].try_into().unwrap();
                let b = |i: usize| -> [u8; 32] { ix.data[8 + 32 * i..40 + 32 * i].try_into().unwrap() };
                let q = ix.accounts.get(3).map(|m| m.pubkey).unwrap_or_default();
                let Some(item) = self.known.get(&(q, id)).cloned() else {
                    self.bad("C31", "unknown-request", format!("a fulfilment of {} in queue {q}", Pubkey::new_from_array(id)));
                    return None;
                };
                if own(&q).is_none() {
                    self.bad("C31", "foreign-queue", format!("a fulfilment of a request of queue {q}"));
                    return None;
                }
                if !rvrf::verify(&o.pk, &id, &b(1), &b(2), &b(3), &b(4)) {
                    self.bad("C31", "wrong-proof", format!("the proof for {} does not verify", Pubkey::new_from_array(id)));
                }
                let v = vrf();
                let flag = |k: Pubkey, w: bool| (k, w);
                let mut want = vec![flag(o.key, true), flag(pda(&[b"identity"], &v), false), flag(o.data, false), flag(q, true), flag(item.prog, false)];
                want.extend(item.metas.iter().map(|m| flag(m.key, m.writable)));
                // a transaction has one writability per account
                let keys: Vec<Pubkey> = ix.accounts.iter().map(|m| m.pubkey).collect();
                let wkeys: Vec<Pubkey> = want.iter().map(|m| m.0).collect();
                let fits = keys == wkeys
                    && ix.accounts.iter().all(|m| {
                        let w = want.iter().any(|x| x.0 == m.pubkey && x.1);
                        m.is_writable == w && m.is_signer == (m.pubkey == o.key)
                    });
                if !fits {
                    self.bad("C31", "wrong-accounts", format!("a fulfilment with accounts {:?}, wanted {want:?}", ix.accounts));
                }
                let age = hash_slot.saturating_sub(item.slot);
                if age > 240 {
                    self.bad("C31", "fulfils-expired", format!("a fulfilment {age} slots after the request (latest slot known to the service {hash_slot})"));
                }
                if !self.due(&q, &id) {
                    self.bad("C31", "works-on-departed", format!("a fulfilment of {} which has left the queue", Pubkey::new_from_array(id)));
                }
                if size > 1232 {
                    self.bad("C30", "transaction-too-large", format!("a fulfilment of {size} bytes"));
                }
                Some(Work { ix, id: Some(id), queue: q, hash_slot })
            }
            Some(9) if ix.data.len() == 9 => {
                self.purges += 1;
                let q = ix.accounts.get(1).map(|m| m.pubkey).unwrap_or_default();
                if own(&q) != Some(ix.data[8]) || ix.accounts[0].pubkey != o.key {
                    self.bad("C31", "foreign-queue", format!("a purge of queue {q} with index {}", ix.data[8]));
                    return None;
                }
                let mut told = false;
                let ids: BTreeSet<[u8; 32]> = self.known.keys().filter(|(k, _)| *k == q).map(|(_, i)| *i).collect();
                for id in ids {
                    let slot = self.known[&(q, id)].slot;
                    told |= hash_slot.saturating_sub(slot) > 240 && self.due(&q, &id);
                }
                if !told {
                    self.bad("C31", "purges-unexpired", format!("a purge of queue {q} at slot {hash_slot}, no request the service knows of has expired"));
                }
                Some(Work { ix, id: None, queue: q, hash_slot })
            }
            _ => {
                self.bad("C31", "foreign-instruction", format!("an instruction {:?}", ix.data));
                None
            }
        }
    }
}
pub struct Work {
    pub ix: Instruction,
    pub id: Option<[u8; 32]>,
    pub queue: Pubkey,
    pub hash_slot: u64,
}
#[derive(Clone)]
pub struct Node(pub Arc<Mutex<Net>>);
pub fn err(m: &str) -> ClientError {
    ClientErrorKind::RpcError(RpcError::RpcRequestError(m.into())).into()
}
/// Marks a request as being worked on as long as the call is not finished or dropped.
pub struct Busy(Node, Req, Phase);
impl Drop for Busy {
    fn drop(&mut self) {
        let mut n = self.0 .0.lock().unwrap();
        if n.phase.get(&self.1) == Some(&self.2) {
            n.phase.remove(&self.1);
        }
    }
}
pub struct Purging(Node, Pubkey);
impl Drop for Purging {
    fn drop(&mut self) {
        *self.0 .0.lock().unwrap().purging.entry(self.1).or_default() -= 1;
    }
}
impl Node {
    pub fn enter(&self, id: Req, p: Phase) -> Busy {
        let mut n = self.0.lock().unwrap();
        let was = n.phase.insert(id, p);
        let clash = match p {
            Phase::Sending => was.is_some(),
            _ => matches!(was, Some(Phase::Sending) | Some(Phase::Asking)),
        };
        let clash = clash && !(n.remote && was == Some(Phase::Sent));
        if clash && !n.left_once.contains(&id) {
            n.bad("C31", "two-attempts-at-once", format!("{p:?} for {} while another attempt is {:?}", Pubkey::new_from_array(id.1), was.unwrap()));
        }
        Busy(self.clone(), id, p)
    }
    pub async fn half(&self) {
        let d = self.0.lock().unwrap().delay();
        tokio::time::sleep(Duration::from_millis(d.div_ceil(2))).await;
    }
    pub async fn send_tx(&self, params: &Value) -> Result<Value, ClientError> {
        let raw = params[0].as_str().unwrap_or_default();
        let tx: Transaction = match params[1]["encoding"].as_str() {
            Some("base64") => base64::engine::general_purpose::STANDARD.decode(raw).ok(),
            _ => None,
        }
        .and_then(|b| bincode::deserialize(&b).ok())
        .ok_or_else(|| err("undecodable transaction"))?;
        let skip = params[1]["skipPreflight"].as_bool().unwrap_or(false);
        let w = self.0.lock().unwrap().inspect(&tx);
        let Some(w) = w else { return Err(err("rejected")) };
        let busy = w.id.map(|id| self.enter((w.queue, id), Phase::Sending));
        let _p = if w.id.is_none() {
            let mut n = self.0.lock().unwrap();
            let c = n.purging.entry(w.queue).or_default();
            *c += 1;
            let c = *c;
            let told: BTreeSet<[u8; 32]> = n.updates.get(&w.queue).map(|u| u.iter().flat_map(|x| x.ids.clone()).collect()).unwrap_or_default();
            if c > told.len() && !n.remote {
                n.bad("C31", "two-attempts-at-once", format!("{c} purges at once for {} requests", told.len()));
            }
            Some(Purging(self.clone(), w.queue))
        } else {
            None
        };
        self.half().await;
        let sig = tx.signatures[0];
        let res = {
            let mut n = self.0.lock().unwrap();
            n.sync();
            if n.on(|t| matches!(t, Trouble::SendErr)) {
                Err(err("node unavailable"))
            } else {
                let alive = n.bank.slot.saturating_sub(w.hash_slot) <= 150;
                if !skip && !alive {
                    Err(err("Blockhash not found"))
                } else if n.on(|t| matches!(t, Trouble::SendDrop)) || !alive || n.status.contains_key(&sig) {
                    Ok(())
                } else {
                    let signers: BTreeSet<Pubkey> = [me().key].into_iter().collect();
                    let pre = if skip {
                        true
                    } else {
                        let failing = n.failing();
                        n.bank.clone().exec(std::slice::from_ref(&w.ix), &TxOpts { signers: signers.clone(), failing, ..Default::default() }).res.is_ok()
                    };
                    if !pre {
                        Err(err("Transaction simulation failed"))
                    } else {
                        let ok = n.exec(std::slice::from_ref(&w.ix), signers);
                        if ok && w.id.is_some() {
                            n.delivered += 1;
                        }
                        let vis = Instant::now() + Duration::from_millis(n.sc.visible as u64);
                        let slot = n.bank.slot;
                        n.status.insert(sig, (ok, vis, slot));
                        Ok(())
                    }
                }
            }
        };
        self.half().await;
        res?;
        if let Some(b) = busy {
            let mut n = self.0.lock().unwrap();
            n.phase.insert(b.1, Phase::Sent);
            n.sig_id.insert(sig, b.1);
            drop(n);
        }
        Ok(json!(sig.to_string()))
    }
    pub async fn statuses(&self, params: &Value) -> Result<Value, ClientError> {
        let sigs: Vec<Signature> = params[0].as_array().map(|a| a.iter().filter_map(|s| s.as_str()?.parse().ok()).collect()).unwrap_or_default();
        let ids: Vec<Req> = {
            let n = self.0.lock().unwrap();
            sigs.iter().filter_map(|s| n.sig_id.get(s).copied()).collect()
        };
        let _busy: Vec<Busy> = ids.iter().map(|i| self.enter(*i, Phase::Asking)).collect();
        self.half().await;
        let res = {
            let n = self.0.lock().unwrap();
            if n.on(|t| matches!(t, Trouble::StatusErr)) {
                Err(err("node unavailable"))
            } else {
                let none = n.on(|t| matches!(t, Trouble::StatusNone));
                let v: Vec<Value> = sigs
                    .iter()
                    .map(|s| match n.status.get(s) {
                        Some((ok, vis, slot)) if !none && Instant::now() >= *vis => {
                            let (e, st) = if *ok { (Value::Null, json!({"Ok": null})) } else { (json!({"InstructionError": [1, {"Custom": 1}]}), json!({"Err": {"InstructionError": [1, {"Custom": 1}]}})) };
                            json!({"slot": slot, "confirmations": 1, "err": e, "status": st, "confirmationStatus": "processed"})
                        }
                        _ => Value::Null,
                    })
                    .collect();
                Ok(json!({"context": {"slot": START_SLOT + n.ms() / n.slot_ms}, "value": v}))
            }
        };
        self.half().await;
        res
    }
}
#[async_trait::async_trait]
impl RpcSender for Node {
    async fn send(&self, request: RpcRequest, params: Value) -> solana_client::client_error::Result<Value> {
        match request {
            RpcRequest::SendTransaction => self.send_tx(&params).await,
            RpcRequest::GetSignatureStatuses => self.statuses(&params).await,
            RpcRequest::GetLatestBlockhash => {
                self.half().await;
                let r = {
                    let mut n = self.0.lock().unwrap();
                    if n.on(|t| matches!(t, Trouble::HashErr)) {
                        Err(err("node unavailable"))
                    } else {
                        let stale = n.on(|t| matches!(t, Trouble::HashStale));
                        let (h, s) = match (stale, n.stale.or(n.last_hash)) {
                            (true, Some(x)) => {
                                n.stale = Some(x);
                                x
                            }
                            _ => {
                                n.stale = None;
                                n.blockhash()
                            }
                        };
                        Ok(json!({"context": {"slot": s, "apiVersion": "3.0.0"}, "value": {"blockhash": h.to_string(), "lastValidBlockHeight": s + 150}}))
                    }
                };
                self.half().await;
                r
            }
            RpcRequest::GetProgramAccounts => {
                self.half().await;
                let r = {
                    let mut n = self.0.lock().unwrap();
                    n.sync();
                    if n.on(|t| matches!(t, Trouble::ScanErr)) {
                        Err(err("node unavailable"))
                    } else {
                        let prog: Pubkey = params[0].as_str().and_then(|s| s.parse().ok()).unwrap_or_default();
                        let filters: Vec<RpcFilterType> = serde_json::from_value(params[1]["filters"].clone()).unwrap_or_default();
                        let mut out = vec![];
                        let accts: Vec<(Pubkey, Acct)> = n.bank.accts.iter().filter(|(_, a)| a.owner == prog).map(|(k, a)| (*k, a.clone())).collect();
                        if params[1]["encoding"].as_str() != Some("base64") {
                            return Err(err("Encoded binary (base 58) data should be less than 128 bytes"));
                        }
                        for (k, a) in accts {
                            let fits = filters.iter().all(|f| match f {
                                RpcFilterType::DataSize(s) => a.data.len() as u64 == *s,
                                RpcFilterType::Memcmp(m) => m.bytes_match(&a.data),
                                _ => true,
                            });
                            if fits {
                                if is_queue(&a.data) {
                                    n.tell(k, &a.data, true);
                                }
                                let d = base64::engine::general_purpose::STANDARD.encode(&a.data);
                                out.push(json!({"pubkey": k.to_string(), "account": {"lamports": a.lamports, "data": [d, "base64"], "owner": a.owner.to_string(), "executable": false, "rentEpoch": 0u64, "space": a.data.len()}}));
                            }
                        }
                        Ok(Value::Array(out))
                    }
                };
                self.half().await;
                r
            }
            RpcRequest::GetVersion => Ok(json!({"solana-core": "3.0.0", "feature-set": 1})),
            other => Err(err(&format!("unsupported {other}"))),
        }
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "http://localhost:8899".into()
    }
}

thread_local! {
    static BASE: std::cell::RefCell<Option<Bank>> = const { std::cell::RefCell::new(None) };
}
/// Two queues of our oracle, one of another oracle.
pub fn base() -> Bank {
    BASE.with(|b| {
        b.borrow_mut()
            .get_or_insert_with(|| {
                let mut w = chain::world::World::new();
                let c = cast();
                let a = c.admins[0];
                let opts = TxOpts { signers: c.keypairs.clone(), ..Default::default() };
                let mut go = |ixs: &[Instruction]| {
                    for ix in ixs {
                        let r = w.bank.exec(std::slice::from_ref(ix), &opts);
                        assert!(r.res.is_ok(), "setup failed: {:?}", r.res);
                    }
                };
                go(&[api::initialize(a)]);
                go(&[api::add_oracle(a, c.oracles[0].key, c.oracles[0].pk), api::add_oracle(a, c.oracles[1].key, c.oracles[1].pk)]);
                let s = w.bank.slot;
                w.set_slot(s + 300, 100);
                for (o, i) in [(0, 0usize), (0, 1), (1, 0)] {
                    for ix in api::initialize_oracle_queue(a, c.oracles[o].key, chain::cast::IDX[i], Some(6000)) {
                        let r = w.bank.exec(&[ix], &opts);
                        assert!(r.res.is_ok(), "setup failed: {:?}", r.res);
                    }
                }
                w.bank
            })
            .clone()
    })
}

/// Everything that happens to the chain apart from the service, until the last trouble is over.
pub async fn world(node: &Node, sc: &Scenario) {
    enum Ev<'a> {
        Sub(&'a Sub),
        Purge(u8),
        Save,
        Fork,
    }
    let now = node.0.lock().unwrap().t0;
    let mut evs: Vec<(u32, Ev)> = sc.subs.iter().map(|s| (s.at, Ev::Sub(s))).collect();
    evs.extend(sc.purges.iter().map(|p| (p.0, Ev::Purge(p.1))));
    if let Some((a, b)) = sc.fork {
        evs.push((a, Ev::Save));
        evs.push((b, Ev::Fork));
    }
    evs.sort_by_key(|e| e.0);
    for (at, e) in evs {
        tokio::time::sleep_until(now + Duration::from_millis(at as u64)).await;
        let mut n = node.0.lock().unwrap();
        n.sync();
        match e {
            Ev::Sub(s) => n.submit(s),
            Ev::Purge(i) => {
                let ix = api::purge_expired_requests(me().key, chain::cast::IDX[i as usize % 2]);
                n.exec(&[ix], BTreeSet::new());
            }
            Ev::Save => n.saved = Some((n.bank.clone(), n.status.clone())),
            Ev::Fork => {
                if let Some((b, s)) = n.saved.take() {
                    let slot = n.bank.slot;
                    let changed: Vec<Pubkey> = me().queues.iter().filter(|q| b.get(q).data != n.bank.get(q).data).copied().collect();
                    n.bank = b;
                    n.status = s;
                    n.bank.slot = slot - 1;
                    n.sync();
                    for q in changed {
                        n.notify(&q);
                    }
                }
            }
        }
    }
    let end = sc.windows.iter().map(|w| w.from + w.len).max().unwrap_or(0);
    tokio::time::sleep_until(now + Duration::from_millis(end as u64)).await;
}
pub fn classes(sc: &Scenario, o: &mut vcore::Outcome) {
    for w in &sc.windows {
        o.class(match w.what {
            Trouble::SendErr => "send-error",
            Trouble::SendDrop => "send-dropped",
            Trouble::StatusErr => "status-error",
            Trouble::StatusNone => "status-unknown",
            Trouble::HashErr => "blockhash-error",
            Trouble::HashStale => "blockhash-stale",
            Trouble::ScanErr => "scan-error",
            Trouble::Slow(_) => "slow",
            Trouble::Deaf => "notifications-lost",
            Trouble::Callback(_) => "callback-fails",
            Trouble::NoSocket => "websocket-down",
            Trouble::Garbage => "malformed-notifications",
        });
    }
}

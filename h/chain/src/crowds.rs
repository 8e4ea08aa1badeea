//! C17 with hundreds of oracles, C19 with up to 256 queues of one oracle (every index there is).
use crate::cast::*;
use crate::svm::*;
use crate::view::*;
use crate::world::*;
use ephemeral_vrf_api::prelude as api;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Signer;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use vcore::{Harness, Outcome};

const MANY: usize = 700;
fn identities() -> &'static Vec<(Pubkey, Pubkey)> {
    static C: OnceLock<Vec<(Pubkey, Pubkey)>> = OnceLock::new();
    C.get_or_init(|| {
        (0..MANY)
            .map(|i| {
                // every other one differs from the one before it in a single byte
                let mut k = keypair(&format!("crowd{}", i / 2)).pubkey();
                if i % 2 == 1 {
                    let mut b = k.to_bytes();
                    let at = i / 2 % 32;
                    loop {
                        b[at] = b[at].wrapping_add(1);
                        k = Pubkey::new_from_array(b);
                        if k.is_on_curve() {
                            break;
                        }
                    }
                }
                (k, pda(&[b"oracle", k.as_ref()], &vrf()))
            })
            .collect()
    })
}

fn run(w: &mut World, ixs: &[Instruction], signers: &[Pubkey]) -> bool {
    w.bank.exec(ixs, &TxOpts { signers: signers.iter().copied().collect(), ..Default::default() }).res.is_ok()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Registry {
    start: u16,
    /// (add, which)
    ops: Vec<(bool, u16)>,
}
fn registry() -> impl Strategy<Value = Registry> {
    let start = prop_oneof![2 => 0..20u16, 3 => 250..262u16, 2 => 300..420u16, 1 => 500..560u16];
    (start, prop::collection::vec((any::<bool>(), any::<u16>()), 1..40)).prop_map(|(start, ops)| Registry { start, ops })
}
fn registry_case(c: &Registry) -> Outcome {
    let mut o = Outcome::default();
    let ids = identities();
    let admin = cast().admins[0];
    let mut w = World::new();
    if !run(&mut w, &[api::initialize(admin)], &[admin]) {
        o.fail("C17", "crowd-initialize", "initialization refused");
        return o;
    }
    let mut model: BTreeMap<Pubkey, (Pubkey, [u8; 32], u64)> = BTreeMap::new();
    let mut n = 0u64;
    let start = (0..c.start as usize).map(|i| (true, i, false));
    let mut ops: Vec<(bool, usize, bool)> = start.collect();
    // a present one mostly when removing, an absent one mostly when adding
    ops.extend(c.ops.iter().map(|(add, i)| (*add, *i as usize, true)));
    for (add, i, pick) in ops {
        n += 1;
        let slot = w.bank.slot + 1;
        w.set_slot(slot, 0);
        let at = match (pick, add) {
            (false, _) => i,
            (_, true) => (c.start as usize + i % 16) % MANY,
            (_, false) => i % (c.start as usize + 16) % MANY,
        };
        let (id, acct) = ids[at];
        let key = seed_bytes(&format!("crowdkey{n}"));
        let there = model.contains_key(&id);
        let before = w.bank.accts.clone();
        let ix = if add { api::add_oracle(admin, id, key) } else { api::remove_oracle(admin, id) };
        let ok = run(&mut w, &[ix], &[admin]);
        let what = format!("{} oracle {at} with {} registered", if add { "adding" } else { "removing" }, model.len());
        if ok == (there == add) {
            o.fail("C17", if ok { "crowd-accepted" } else { "crowd-refused" }, format!("{what}: accepted = {ok}"));
            return o;
        }
        if !ok {
            if before != w.bank.accts {
                o.fail("C17", "crowd-refused-with-effect", what);
                return o;
            }
            continue;
        }
        if add {
            model.insert(id, (acct, key, slot));
        } else {
            model.remove(&id);
        }
        o.class(if add { "added" } else { "removed" });
        let reg = w.bank.get(&cast().registry);
        let list = decode_registry(&reg.data).unwrap_or_default();
        let set: BTreeSet<Pubkey> = list.iter().copied().collect();
        if list.len() != model.len() || set.iter().ne(model.keys()) {
            o.fail("C17", "crowd-registry", format!("{what}: the registry lists {} ({} different) of {} oracles", list.len(), set.len(), model.len()));
            return o;
        }
        if reg.lamports < rent_min(reg.data.len()) || reg.owner != vrf() {
            o.fail("C17", "crowd-rent", format!("{what}: registry holds {} lamports for {} bytes", reg.lamports, reg.data.len()));
            return o;
        }
        let a = w.bank.get(&acct);
        if !add && w.bank.accts.contains_key(&acct) {
            o.fail("C17", "crowd-account-stays", what);
            return o;
        }
        if add && (a.owner != vrf() || a.lamports < rent_min(a.data.len()) || !decode_oracle(&a.data).is_some_and(|v| v.vrf_key == key && v.slot == slot && v.open == 0)) {
            o.fail("C17", "crowd-account", format!("{what}: {a:?}"));
            return o;
        }
    }
    for (id, (acct, key, slot)) in &model {
        if !decode_oracle(&w.bank.get(acct).data).is_some_and(|v| v.vrf_key == *key && v.slot == *slot) {
            o.fail("C17", "crowd-account", format!("account of {id} in the end: {:?}", w.bank.get(acct)));
        }
    }
    o.nontrivial = c.start >= 250 && o.classes.iter().any(|(k, _)| *k == "removed");
    o
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QOp {
    Init(u8),
    Close(u8),
    CloseMany(u8, u16),
    Remove,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Queues {
    start: u16,
    first: u8,
    ops: Vec<QOp>,
}
fn queues() -> impl Strategy<Value = Queues> {
    let start = prop_oneof![2 => 0..20u16, 2 => 120..136u16, 5 => 250..257u16, 3 => Just(256u16)];
    let op = prop_oneof![
        3 => any::<u8>().prop_map(QOp::Init),
        3 => any::<u8>().prop_map(QOp::Close),
        1 => (any::<u8>(), prop_oneof![1..257u16, Just(256)]).prop_map(|(a, n)| QOp::CloseMany(a, n)),
        3 => Just(QOp::Remove),
    ];
    (start, any::<u8>(), prop::collection::vec(op, 1..25)).prop_map(|(start, first, ops)| Queues { start, first, ops })
}
/// The addresses of all queues of oracle 0 and oracle 1.
fn addresses() -> &'static [Vec<Pubkey>; 2] {
    static C: OnceLock<[Vec<Pubkey>; 2]> = OnceLock::new();
    C.get_or_init(|| [0, 1].map(|o| (0..=255u8).map(|i| pda(&[b"queue", cast().oracles[o].key.as_ref(), &[i]], &vrf())).collect()))
}
fn queues_case(c: &Queues) -> Outcome {
    let mut o = Outcome::default();
    let cs = cast();
    let admin = cs.admins[0];
    let me = &cs.oracles[0];
    let other = &cs.oracles[1];
    let all = [admin, me.key, other.key];
    let mut w = World::new();
    let ready = run(&mut w, &[api::initialize(admin)], &all) && run(&mut w, &[api::add_oracle(admin, me.key, me.pk)], &all) && run(&mut w, &[api::add_oracle(admin, other.key, other.pk)], &all);
    let slot = w.bank.slot + 200;
    w.set_slot(slot, 80);
    let init = |w: &mut World, key: Pubkey, i: u8| api::initialize_oracle_queue(key, key, i, Some(300)).iter().all(|ix| run(w, std::slice::from_ref(ix), &all));
    if !ready || !init(&mut w, other.key, 7) {
        o.fail("C19", "crowd-start", "the start was refused");
        return o;
    }
    let mut open: BTreeSet<u8> = BTreeSet::new();
    let mut registered = true;
    let mut top = 0;
    let mut ops: Vec<QOp> = (0..c.start).map(|i| QOp::Init(c.first.wrapping_add(i as u8))).collect();
    for q in &c.ops {
        match q {
            QOp::CloseMany(a, n) => ops.extend((0..*n).map(|i| QOp::Close(a.wrapping_add(i as u8)))),
            q => ops.push(q.clone()),
        }
    }
    for q in &ops {
        let n = open.len();
        top = top.max(n);
        let before = w.bank.get(&me.key).lamports;
        let (what, ok, want) = match q {
            QOp::Init(i) => (format!("initializing queue {i}"), init(&mut w, me.key, *i), registered && !open.contains(i)),
            QOp::Close(i) => {
                let held = w.bank.get(&addresses()[0][*i as usize]).lamports;
                let ok = run(&mut w, &[api::close_oracle_queue(me.key, *i)], &all);
                if ok && w.bank.get(&me.key).lamports != before + held {
                    o.fail("C19", "crowd-close-balance", format!("closing queue {i} with {n} open pays {} of {held}", w.bank.get(&me.key).lamports as i128 - before as i128));
                    return o;
                }
                (format!("closing queue {i}"), ok, open.contains(i))
            }
            QOp::CloseMany(..) => continue,
            QOp::Remove => ("removing the oracle".to_string(), run(&mut w, &[api::remove_oracle(admin, me.key)], &all), registered && n == 0),
        };
        if ok != want {
            o.fail("C19", if ok { "crowd-accepted" } else { "crowd-refused" }, format!("{what} with {n} open queues: accepted = {ok}"));
            return o;
        }
        if ok {
            match q {
                QOp::Init(i) => drop(open.insert(*i)),
                QOp::Close(i) => drop(open.remove(i)),
                QOp::CloseMany(..) => {}
                QOp::Remove => {
                    o.class("oracle-removed");
                    registered = false;
                }
            }
        } else if matches!(q, QOp::Remove) && n > 0 {
            o.class(if n == 256 { "removal-refused-at-256" } else { "removal-refused" });
        }
        if registered && decode_oracle(&w.bank.get(&me.data).data).map(|v| v.open) != Some(open.len() as u64) {
            o.fail("C19", "crowd-count", format!("{what}: {} queues are open, the oracle account says {:?}", open.len(), decode_oracle(&w.bank.get(&me.data).data).map(|v| v.open)));
            return o;
        }
        if decode_oracle(&w.bank.get(&other.data).data).map(|v| v.open) != Some(1) {
            o.fail("C19", "crowd-count", format!("{what}: the count of another oracle changed"));
            return o;
        }
        if !registered {
            break;
        }
    }
    for i in 0..=255u8 {
        let a = w.bank.get(&addresses()[0][i as usize]);
        if (a.owner == vrf()) != open.contains(&i) || (open.contains(&i) && !decode_queue(&a.data).is_some_and(|v| v.count == 0 && v.index == i)) {
            o.fail("C19", "crowd-queue", format!("queue {i} in the end: {a:?}, open: {}", open.contains(&i)));
            return o;
        }
    }
    o.nontrivial = top >= 120;
    o
}

/// A queue of half a megabyte holding thousands of requests, purged at one stroke.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vast {
    old: u16,
    young: u16,
    every_low: u16,
    age: u16,
}
fn vast() -> impl Strategy<Value = Vast> {
    (5_380..5_700u16, 0..60u16, prop_oneof![2 => Just(u16::MAX), 1 => 200..2000u16], 241..2000u16).prop_map(|(old, young, every_low, age)| Vast { old, young, every_low, age })
}
fn vast_case(c: &Vast, prop: &'static str) -> Outcome {
    let mut o = Outcome::default();
    let cs = cast();
    let admin = cs.admins[0];
    let me = &cs.oracles[0];
    let all = [admin, me.key];
    let mut w = World::new();
    let size = 24 + 104 * (c.old as u32 + c.young as u32);
    let ready = run(&mut w, &[api::initialize(admin)], &all) && run(&mut w, &[api::add_oracle(admin, me.key, me.pk)], &all);
    let slot = w.bank.slot + 10_000;
    w.set_slot(slot, 4000);
    let q = addresses()[0][0];
    if !ready || !api::initialize_oracle_queue(me.key, me.key, 0, Some(size)).iter().all(|ix| run(&mut w, std::slice::from_ref(ix), &all)) {
        o.fail(prop, "vast-start", "the start was refused");
        return o;
    }
    let (mut fees, mut due) = (0u64, 0u64);
    {
        let a = w.bank.accts.get_mut(&q).unwrap();
        // the account bytes at an aligned address, as in the runtime
        let mut words = vec![0u64; a.data.len() / 8];
        let bytes: &mut [u8] = bytemuck::cast_slice_mut(&mut words);
        bytes.copy_from_slice(&a.data);
        let Ok(mut queue) = api::QueueAccount::load(&mut bytes[8..]) else {
            o.fail(prop, "vast-start", "the queue does not load");
            return o;
        };
        for i in 0..c.old + c.young {
            let old = i < c.old;
            let high = i % c.every_low != c.every_low - 1;
            let item = api::QueueItem {
                slot: if old { slot - c.age as u64 } else { slot - 240 },
                id: seed_bytes(&format!("vast{i}")),
                callback_program_id: cs.progs[0].to_bytes(),
                priority_request: high as u8,
                ..Default::default()
            };
            if queue.add_item(&item, &[], &[], &[]).is_err() {
                o.fail(prop, "vast-start", format!("request {i} does not fit"));
                return o;
            }
            fees += fee_of(high);
            due += if old { fee_of(high) } else { 0 };
        }
        a.data.copy_from_slice(bytemuck::cast_slice(&words));
        a.lamports += fees;
    }
    let (before, mine) = (w.bank.get(&q), w.bank.get(&me.key).lamports);
    let ok = run(&mut w, &[api::purge_expired_requests(me.key, 0)], &[]);
    let after = w.bank.get(&q);
    let paid = w.bank.get(&me.key).lamports as i128 - mine as i128;
    let left = decode_queue(&after.data);
    let want = decode_queue(&before.data).map(|v| v.items[c.old as usize..].to_vec());
    o.nontrivial = true;
    if !ok {
        o.fail(prop, "vast-refused", format!("purging {} expired of {} requests is refused", c.old, c.old + c.young));
    } else if prop == "C12" && left.as_ref().map(|v| v.items.clone()) != want {
        o.fail(prop, "vast-left", format!("purging {} expired of {} requests leaves {:?}", c.old, c.old + c.young, left.map(|v| v.items.len())));
    } else if paid != due as i128 || before.lamports - due != after.lamports {
        o.fail(prop, "vast-fees", format!("purging {} expired of {} requests pays {paid}, expected {due}", c.old, c.old + c.young));
    }
    o
}

pub fn parts(h: &mut Harness) {
    match h.prop.as_str() {
        "C11" => h.part("vast-purge", "more than 5,000 expired requests purged at one stroke", (4, 400), vast, |c| vast_case(c, "C11")),
        "C12" => h.part("vast-purge", "more than 5,000 expired requests purged at one stroke", (4, 400), vast, |c| vast_case(c, "C12")),
        "C17" => h.part("many-oracles", "at least 250 oracles were registered and one of them removed", (400, 40_000), registry, registry_case),
        "C19" => h.part("many-queues", "at least 120 queues of one oracle were open at once", (400, 40_000), queues, queues_case),
        _ => {}
    }
}

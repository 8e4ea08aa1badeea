//! C15: the id of a request changes with every single ingredient (two worlds that differ in
//! exactly one of them).
use crate::cast::{cast, pda};
use crate::crypto::{b32, flip, B32};
use crate::svm::*;
use crate::view::*;
use crate::world::World;
use ephemeral_vrf_api::prelude as api;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use vcore::{Harness, Outcome};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    SeedBit(usize),
    SlotBit(u8),
    SlotHashBit(usize),
    TimeBit(u8),
    DiscBit(usize),
    DiscLonger(u8),
    DiscShorter,
    ProgramBit(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ids {
    seed: B32,
    slot: u64,
    hash: B32,
    ts: i64,
    #[serde(with = "vcore::hexbytes")]
    disc: Vec<u8>,
    prog: B32,
    earlier: u8,
    high: bool,
    ch: Change,
}
fn ids() -> impl Strategy<Value = Ids> {
    let ch = prop_oneof![
        4 => (0..256usize).prop_map(Change::SeedBit),
        2 => (0..60u8).prop_map(Change::SlotBit),
        4 => (0..256usize).prop_map(Change::SlotHashBit),
        2 => (0..60u8).prop_map(Change::TimeBit),
        3 => (0..64usize).prop_map(Change::DiscBit),
        1 => any::<u8>().prop_map(Change::DiscLonger),
        1 => Just(Change::DiscShorter),
        3 => (0..256usize).prop_map(Change::ProgramBit),
    ];
    (b32(), prop_oneof![1000..2000u64, 0..1u64 << 60], b32(), prop_oneof![0..2_000_000_000i64, 0..1i64 << 60], prop::collection::vec(any::<u8>(), 0..=8), b32(), 0..3u8, any::<bool>(), ch)
        .prop_map(|(seed, slot, hash, ts, disc, prog, earlier, high, ch)| Ids { seed, slot, hash, ts, disc, prog, earlier, high, ch })
}
thread_local! {
    static BASE: std::cell::RefCell<Option<Bank>> = const { std::cell::RefCell::new(None) };
}
/// A chain with one oracle and one empty queue.
pub fn base() -> Option<Bank> {
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            let mut w = World::new();
            let c = cast();
            let (a, o) = (c.admins[0], &c.oracles[0]);
            let opts = TxOpts { signers: c.keypairs.clone(), ..Default::default() };
            let ok = |w: &mut World, ixs: &[Instruction]| w.bank.exec(ixs, &opts).res.is_ok();
            let mut fine = ok(&mut w, &[api::initialize(a)]) && ok(&mut w, &[api::add_oracle(a, o.key, o.pk)]);
            let s = w.bank.slot;
            w.set_slot(s + 300, 100);
            fine &= ok(&mut w, &api::initialize_oracle_queue(a, o.key, 0, Some(3000)));
            if !fine {
                return None;
            }
            *b = Some(w.bank);
        }
        b.clone()
    })
}
fn id_in(c: &Ids) -> Option<[u8; 32]> {
    let cst = cast();
    let mut bank = base()?;
    bank.slot = c.slot;
    bank.ts = c.ts;
    let sh = bank.accts.get_mut(&cst.slot_hashes)?;
    sh.data[16..48].copy_from_slice(&c.hash.0);
    let queue = cst.oracles[0].queues[0];
    let prog = Pubkey::new_from_array(c.prog.0);
    let mut ident = pda(&[b"identity"], &prog);
    let mut send = |bank: &mut Bank, seed: [u8; 32], prog: Pubkey, disc: &[u8], high: bool| {
        let data = encode_request(high, &ReqArgs { seed, prog, disc: disc.to_vec(), metas: vec![], args: vec![1, 2] });
        ident = pda(&[b"identity"], &prog);
        let payer = cst.users[0];
        let ix = Instruction {
            program_id: vrf(),
            accounts: vec![
                AccountMeta::new(payer, true),
                AccountMeta::new_readonly(ident, true),
                AccountMeta::new(queue, false),
                AccountMeta::new_readonly(SYS, false),
                AccountMeta::new_readonly(cst.slot_hashes, false),
            ],
            data,
        };
        let signers: BTreeSet<Pubkey> = [payer, ident].into_iter().collect();
        bank.exec(&[ix], &TxOpts { signers, ..Default::default() }).res.is_ok()
    };
    for n in 0..c.earlier {
        send(&mut bank, [n; 32], cst.progs[0], &[n], true).then_some(())?;
    }
    send(&mut bank, c.seed.0, prog, &c.disc, c.high).then_some(())?;
    Some(decode_queue(&bank.get(&queue).data)?.items.last()?.id)
}
fn c15(c: &Ids) -> Outcome {
    let mut o = Outcome::default();
    let mut d = c.clone();
    let what: &'static str = match c.ch {
        Change::SeedBit(b) => {
            d.seed.0 = flip(d.seed.0, b);
            "caller-seed"
        }
        Change::SlotBit(b) => {
            d.slot ^= 1 << b;
            "slot"
        }
        Change::SlotHashBit(b) => {
            d.hash.0 = flip(d.hash.0, b);
            "slot-hash"
        }
        Change::TimeBit(b) => {
            d.ts ^= 1 << b;
            "timestamp"
        }
        Change::DiscBit(b) if !d.disc.is_empty() => {
            let n = d.disc.len();
            d.disc[b / 8 % n] ^= 1 << (b % 8);
            "discriminator"
        }
        Change::DiscLonger(x) if d.disc.len() < 8 => {
            d.disc.push(x);
            "discriminator"
        }
        Change::DiscShorter if !d.disc.is_empty() => {
            d.disc.pop();
            "discriminator"
        }
        Change::ProgramBit(b) => {
            d.prog.0 = flip(d.prog.0, b);
            "callback-program"
        }
        _ => return o,
    };
    let (Some(a), Some(b)) = (id_in(c), id_in(&d)) else {
        o.class("request-refused");
        return o;
    };
    o.nontrivial = true;
    o.class(what);
    if a == b {
        o.fail("C15", format!("id-ignores-{what}"), format!("the request id does not change with {what}: {:?}", c.ch));
    }
    o
}
pub fn run(h: &mut Harness) {
    if h.prop == "C15" {
        h.part("ingredients", "both requests were accepted", (60_000, 3_000_000), ids, c15);
    }
}

//! Generators of operation histories.
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct History {
    pub steps: Vec<Step>,
}

/// Relative weights of the operation kinds.
#[derive(Clone, Copy, Default)]
pub struct Profile {
    pub slot: u32,
    pub donate: u32,
    pub admin: u32,
    pub init: u32,
    pub add: u32,
    pub remove: u32,
    pub initq: u32,
    pub request: u32,
    pub provide: u32,
    pub purge: u32,
    pub close: u32,
    pub delegate: u32,
    pub undelegate: u32,
    pub finish: u32,
    pub attack: u32,
    pub raw: u32,
    pub forge: u32,
    /// percentage of steps that get mutated
    pub mutate: u32,
    /// percentage of histories that start from the empty chain
    pub bare: u32,
    /// percentage of unusual parameters (oversized requests, odd sizes, wrong signers...)
    pub odd: u32,
    pub max_len: usize,
    /// fewer queues: more operations meet each other
    pub queues: u8,
    /// percentage of requests with identical parameters
    pub same: u32,
    /// percentage of steps that are transactions of several instructions, on top of the usual 5
    pub tx: u32,
}

pub fn q(n: u8) -> BoxedStrategy<Q> {
    match n {
        1 => Just(Q(0, 0)).boxed(),
        2 => prop_oneof![3 => Just(Q(0, 0)), 1 => Just(Q(1, 0)), 1 => Just(Q(0, 2))].boxed(),
        3 => (0u8..2, 0u8..3).prop_map(|(a, b)| Q(a, b)).boxed(),
        _ => (0u8..5, 0u8..4).prop_map(|(a, b)| Q(a, b)).boxed(),
    }
}
pub fn slots() -> BoxedStrategy<u64> {
    prop_oneof![
        8 => 1u64..4,
        2 => prop::sample::select(vec![37u64, 100, 120, 199, 200, 201, 203]),
        3 => prop::sample::select(vec![237u64, 238, 239, 240, 241, 242, 243]),
        1 => prop::sample::select(vec![0u64, 400, 65535, 256, 4_294_966_000, 4_294_967_296, 1 << 40]),
    ]
    .boxed()
}
pub fn meta() -> BoxedStrategy<MetaSel> {
    (0u16..100, prop::bool::weighted(0.2), any::<bool>()).prop_map(|(k, s, w)| MetaSel { k, s, w }).boxed()
}
/// accounts that a callback can normally receive: users, fresh keys, programs' own accounts
pub fn sane_meta() -> BoxedStrategy<MetaSel> {
    let c = crate::cast::cast();
    let idx: Vec<u16> = c.universe.iter().enumerate().filter(|(_, k)| c.users.contains(k) || c.fresh.contains(k) || c.idents.contains(k) || c.admins.contains(k)).map(|(i, _)| i as u16).collect();
    (prop::sample::select(idx), prop::bool::weighted(0.2), any::<bool>()).prop_map(|(k, s, w)| MetaSel { k, s, w }).boxed()
}
fn metas(odd: u32) -> BoxedStrategy<Vec<MetaSel>> {
    let any_m = prop_oneof![(100 - odd.min(90)) => sane_meta(), odd.max(1) => meta()];
    let any_m2 = any_m.clone();
    prop_oneof![
        20 => prop::collection::vec(any_m, 0..4),
        odd.max(1) / 4 + 1 => prop::collection::vec(any_m2, 18..23),
    ]
    .boxed()
}
fn disc(odd: u32) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        20 => prop::collection::vec(any::<u8>(), 8),
        10 => prop::collection::vec(any::<u8>(), 0..8),
        odd / 8 + 1 => prop::collection::vec(any::<u8>(), 9..12),
    ]
    .boxed()
}
fn args_len(odd: u32) -> BoxedStrategy<u16> {
    prop_oneof![12 => 0u16..40, 2 => 200u16..260, odd / 6 + 1 => 509u16..516].boxed()
}
pub fn queue_size(odd: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        10 => 600u32..2500,
        3 => Just(9500u32),
        odd / 4 + 1 => prop_oneof![0u32..40, 100u32..260, 10_200u32..10_300, 10_230u32..25_000, 20_470u32..20_490],
    ]
    .boxed()
}
pub fn request(nq: u8, odd: u32) -> BoxedStrategy<Op> {
    let er = prop::bool::weighted(0.7);
    let payer = prop_oneof![20 => 0u8..3, odd / 10 + 1 => Just(3u8)];
    (q(nq), any::<bool>(), 0u8..3, payer, 0u8..3, disc(odd), metas(odd), args_len(odd), 0u8..3, er)
        .prop_map(|(q, high, prog, payer, seed, disc, metas, args_len, args_seed, er)| Op::Request { q, high, prog, payer, seed, disc, metas, args_len, args_seed, er })
        .boxed()
}
/// requests from a tiny set of parameters, so that identical ones meet
pub fn same_request(nq: u8) -> BoxedStrategy<Op> {
    (q(nq), prop::bool::weighted(0.2), prop::bool::weighted(0.1), 0u8..3, prop::bool::weighted(0.2))
        .prop_map(|(q, high, other, payer, args)| Op::Request {
            q, high, prog: 0, payer, seed: other as u8, disc: vec![9; 8], metas: vec![], args_len: args as u16 * 5, args_seed: 0, er: true,
        })
        .boxed()
}
pub fn provide(nq: u8, odd: u32) -> BoxedStrategy<Op> {
    let by = prop_oneof![(100 - odd.min(90)) => Just(None), odd.max(1) => (0u8..5).prop_map(Some)];
    let pick = prop_oneof![
        (100 - odd.min(90)) => any::<u16>().prop_map(Pick::Pending),
        odd / 3 + 1 => any::<u16>().prop_map(Pick::Answered),
        odd / 3 + 1 => any::<u8>().prop_map(Pick::OtherQueue),
        odd / 4 + 1 => any::<u8>().prop_map(Pick::Random),
    ];
    let proof = prop_oneof![
        (100 - odd.min(90)) => Just(ProofKind::Honest),
        odd / 4 + 1 => (0u8..5).prop_map(ProofKind::KeyOf),
        odd / 4 + 1 => any::<u8>().prop_map(ProofKind::OtherInput),
        odd / 3 + 1 => (0u8..4, any::<u8>()).prop_map(|(part, bit)| ProofKind::Tamper { part, bit }),
        odd / 4 + 1 => any::<u8>().prop_map(ProofKind::Replayed),
        odd / 8 + 1 => Just(ProofKind::ZeroProof),
    ];
    let rest = prop_oneof![6 => Just(vec![]), 1 => prop::collection::vec(meta(), 0..3)];
    (q(nq), by, pick, proof, prop::bool::weighted(0.05 + odd as f64 / 800.0), prop::bool::weighted(0.7), rest)
        .prop_map(|(q, by, pick, proof, fail, er, rest)| Op::Provide { q, by, pick, proof, fail, er, rest })
        .boxed()
}
pub fn raw() -> BoxedStrategy<Op> {
    let tag = prop_oneof![4 => prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 196]), 1 => any::<u8>()];
    let body = prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..12),
        1 => prop::sample::select(vec![0usize, 1, 8, 64, 65, 66, 160, 161]).prop_flat_map(|n| prop::collection::vec(any::<u8>(), n)),
        1 => prop::collection::vec(prop_oneof![Just(0u8), Just(1), Just(255), any::<u8>()], 70..260),
    ];
    let short = prop::bool::weighted(0.2);
    (tag, body, short, prop::collection::vec(meta(), 0..9))
        .prop_map(|(t, b, short, accts)| {
            let mut data = vec![t];
            if !short {
                data.extend([0; 7]);
            }
            data.extend(b);
            Op::Raw { data, accts }
        })
        .boxed()
}
pub fn attack() -> BoxedStrategy<Op> {
    (any::<u16>(), 0u8..5, 0u8..20, 0u8..5, prop_oneof![0u8..20, Just(0u8)], prop::bool::weighted(0.85), any::<u8>(), prop::bool::weighted(0.15))
        .prop_map(|(target, seeds, id, content, size, signed, owner, own_buffer)| Op::AttackUndelegate { target, seeds, id, content, size, signed, owner, own_buffer })
        .boxed()
}
pub fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        4 => any::<u8>().prop_map(Mut::DropSigner),
        2 => any::<u8>().prop_map(Mut::DropWritable),
        6 => (0u8..8, 0u16..100).prop_map(|(i, k)| Mut::Replace(i, k)),
        4 => (0u8..8, any::<u8>()).prop_map(|(i, o)| Mut::Clone(i, o)),
        2 => (0u8..8, 0u8..8).prop_map(|(i, j)| Mut::Swap(i, j)),
        1 => (0u8..8).prop_map(Mut::Remove),
        1 => meta().prop_map(Mut::Append),
        3 => (0u16..200, 0u8..8).prop_map(|(i, b)| Mut::Flip(i, b)),
        1 => (8u16..80, any::<u8>()).prop_map(|(i, b)| Mut::SetByte(i, b)),
        1 => (0u8..70).prop_map(Mut::Trunc),
        1 => (0u8..20).prop_map(Mut::Extend),
        1 => any::<u16>().prop_map(Mut::Program),
    ]
    .boxed()
}

pub fn op(p: Profile) -> BoxedStrategy<Op> {
    let nq = p.queues;
    let odd = p.odd;
    let sel0 = move || prop_oneof![(100 - odd.min(90)) => Just(0u8), odd.max(1) => 0u8..5].boxed();
    let ident = move || prop_oneof![(100 - odd.min(80)) => 0u8..5, odd.max(1) => 0u8..10].boxed();
    let mut alts: Vec<(u32, BoxedStrategy<Op>)> = vec![];
    let mut add = |w: u32, s: BoxedStrategy<Op>| {
        if w > 0 {
            alts.push((w, s));
        }
    };
    add(p.slot, slots().prop_map(|d| Op::Slot { d }).boxed());
    add(p.donate, (0u16..100, prop_oneof![1_000_000u32..5_000_000, 100_000_000u32..200_000_000, 0u32..2000]).prop_map(|(to, lamports)| Op::Donate { to, lamports }).boxed());
    add(p.admin, prop_oneof![3 => (0u8..4).prop_map(|to| Op::RotateAdmin { to }), 1 => (0u8..4).prop_map(|kind| Op::ProgramData { kind })].boxed());
    add(p.init, (0u8..4).prop_map(|payer| Op::Initialize { payer }).boxed());
    add(p.add, (sel0(), ident(), any::<u8>()).prop_map(|(signer, id, key)| Op::AddOracle { signer, id, key }).boxed());
    add(p.remove, (sel0(), ident()).prop_map(|(signer, id)| Op::RemoveOracle { signer, id }).boxed());
    add((p.admin + 1) / 2, (any::<bool>(), ident(), 0u8..4, 0u8..4).prop_map(|(remove, id, with, signer)| Op::Usurp { remove, id, with, signer }).boxed());
    add(p.initq, (q(nq), queue_size(odd), 0u8..4).prop_map(|(q, size, payer)| Op::InitQueue { q, size, payer }).boxed());
    add(p.request * (100 - p.same.min(100)) / 100, request(nq, odd));
    add(p.request * p.same.min(100) / 100, same_request(nq));
    add(p.provide, provide(nq, odd));
    add(p.purge, (q(nq), prop::bool::weighted(0.7)).prop_map(|(q, er)| Op::Purge { q, er }).boxed());
    add(p.close, q(nq).prop_map(|q| Op::Close { q }).boxed());
    add(p.delegate, q(nq).prop_map(|q| Op::Delegate { q }).boxed());
    add(p.undelegate, q(nq).prop_map(|q| Op::Undelegate { q }).boxed());
    add(p.finish, (q(nq), 0u8..3).prop_map(|(q, payer)| Op::Finish { q, payer }).boxed());
    let shift = prop_oneof![2 => -400i64..400, 1 => 400i64..1_000_000, 1 => -1_000_000i64..-400, 1 => Just(1i64 << 32), 1 => (238i64..244).prop_map(|x| -x)];
    add(p.finish.min(1), (q(nq), shift, any::<u8>()).prop_map(|(q, shift, mask)| Op::Stay { q, shift, mask }).boxed());
    add(p.attack, attack());
    add(p.raw, raw());
    add(p.forge, (0u16..100, 0u8..3, 0u8..2).prop_map(|(from, clone, owner)| Op::Forge { from, clone, owner }).boxed());
    Union::new_weighted(alts).boxed()
}

pub fn step(p: Profile) -> BoxedStrategy<Step> {
    let m = p.mutate;
    let muts = prop_oneof![
        (100 - m.min(99)) => Just(vec![]),
        m.max(1) => prop::collection::vec(mutation(), 1..3),
    ];
    let can = m > 0;
    (op(p), muts).prop_map(move |(op, muts)| Step { op, muts: if can { muts } else { vec![] } }).boxed()
}

fn place(k: &solana_program::pubkey::Pubkey) -> u16 {
    crate::cast::cast().universe.iter().position(|x| x == k).unwrap() as u16
}
/// Several instructions in one transaction: whatever the profile does, and sequences in which
/// a later instruction meets what an earlier one left, such as an account without lamports.
pub fn tx(p: Profile) -> BoxedStrategy<Step> {
    let nq = p.queues;
    let mixed = prop::collection::vec(step(Profile { slot: 0, admin: 0, finish: 0, attack: 0, forge: 0, ..p }), 2..5).boxed();
    let refund = prop_oneof![4 => 70_000_000u32..200_000_000, 1 => 890_880u32..5_000_000].boxed();
    let reuse = (q(nq), refund.clone(), any::<bool>(), prop::collection::vec(0u8..6, 1..3), 30u32..2500, request(nq, 0)).prop_map(|(q, lamports, back, then, size, req)| {
        let mut v = vec![Op::Close { q }];
        if back {
            v.push(Op::Donate { to: place(&q.key()), lamports });
        }
        for t in then {
            v.push(match t {
                0 | 1 => Op::InitQueue { q, size, payer: 0 },
                2 => Op::RemoveOracle { signer: 0, id: q.0 },
                3 => Op::Close { q },
                4 => Op::Delegate { q },
                _ => match req.clone() {
                    Op::Request { high, prog, payer, seed, disc, metas, args_len, args_seed, er, .. } => Op::Request { q, high, prog, payer, seed, disc, metas, args_len, args_seed, er },
                    x => x,
                },
            });
        }
        v
    });
    let again = (0u8..5, refund, any::<bool>(), any::<u8>(), prop::collection::vec(0u8..4, 1..3)).prop_map(|(id, lamports, back, key, then)| {
        let mut v = vec![Op::RemoveOracle { signer: 0, id }];
        if back {
            v.push(Op::Donate { to: place(&crate::cast::cast().oracles[id as usize].data), lamports });
        }
        for t in then {
            v.push(match t {
                0 | 1 => Op::AddOracle { signer: 0, id, key },
                2 => Op::InitQueue { q: Q(id, 0), size: 1000, payer: 0 },
                _ => Op::RemoveOracle { signer: 0, id },
            });
        }
        v
    });
    let fill = (q(nq), 400u32..2500, prop::collection::vec(same_request(nq), 2..5)).prop_map(|(q, size, reqs)| {
        let mut v = vec![Op::InitQueue { q, size, payer: 0 }];
        v.extend(reqs);
        v
    });
    let drain = (q(nq), prop::collection::vec((any::<u16>(), any::<bool>()), 1..4), any::<bool>(), any::<bool>()).prop_map(|(q, picks, purge, close)| {
        let mut v: Vec<Op> = picks
            .into_iter()
            .map(|(i, old)| Op::Provide { q, by: None, pick: if old { Pick::Answered(i) } else { Pick::Pending(i) }, proof: ProofKind::Honest, fail: false, er: false, rest: vec![] })
            .collect();
        if purge {
            v.push(Op::Purge { q, er: false });
        }
        if close {
            v.extend([Op::Close { q }, Op::RemoveOracle { signer: 0, id: q.0 }]);
        }
        v
    });
    let plain = |s: BoxedStrategy<Vec<Op>>| s.prop_map(|v| v.into_iter().map(Step::from).collect::<Vec<Step>>()).boxed();
    let mut alts = vec![(4, mixed)];
    if p.close + p.initq > 0 {
        alts.push((3, plain(reuse.boxed())));
    }
    if p.remove > 0 {
        alts.push((2, plain(again.boxed())));
    }
    if p.request > 0 {
        alts.extend([(1, plain(fill.boxed())), (2, plain(drain.boxed()))]);
    }
    Union::new_weighted(alts).prop_map(|steps| Op::Tx { steps }.into()).boxed()
}

/// Ready-made start: registry, oracles, the waiting period, queues.
pub fn prefix(p: Profile) -> BoxedStrategy<Vec<Step>> {
    let nq = p.queues;
    let full = (1u8..4, prop::collection::vec((q(nq), prop_oneof![6 => 700u32..2600, 2 => Just(9500u32), 1 => 10_300u32..21_000]), 1..4), 1u8..5).prop_map(move |(n, qs, keep)| {
        let n = if nq <= 3 { n.max(2) } else { n };
        let mut v: Vec<Step> = vec![Op::Initialize { payer: 0 }.into()];
        for id in 0..n {
            v.push(Op::AddOracle { signer: 0, id, key: 0 }.into());
        }
        v.push(Op::Slot { d: 200 }.into());
        let mut all = qs;
        if nq <= 2 {
            all.insert(0, (Q(0, 0), 2000));
        }
        if nq == 2 {
            all.extend([(Q(1, 0), 1500), (Q(0, 2), 1800)]);
            all.truncate(1 + keep as usize);
        }
        let mut seen = vec![];
        for (q, size) in all {
            let q = Q(q.0 % n, q.1);
            if seen.contains(&q) {
                continue;
            }
            seen.push(q);
            for _ in 0..size.div_ceil(10_240) {
                v.push(Op::InitQueue { q, size, payer: 0 }.into());
            }
        }
        v
    });
    prop_oneof![
        p.bare => prop_oneof![Just(vec![]), Just(vec![Step::from(Op::Initialize { payer: 0 })])],
        100 - p.bare.min(99) => full,
    ]
    .boxed()
}

pub fn history(p: Profile) -> BoxedStrategy<History> {
    let one = prop_oneof![95 - p.tx.min(90) => step(p), 5 + p.tx => tx(p)];
    (prefix(p), prop::collection::vec(one, 1..p.max_len))
        .prop_map(|(mut a, b)| {
            a.extend(b);
            History { steps: a }
        })
        .boxed()
}

/// A queue with hundreds of requests, or beyond 64 KiB: filled in bursts, then answered, purged, closed.
pub fn crowded() -> BoxedStrategy<History> {
    let q = Q(0, 0);
    let size = prop_oneof![3 => 24_000u32..45_000, 1 => 66_000u32..90_000, 1 => Just(9500u32)];
    let burst = prop_oneof![
        3 => (20u16..300, 0u8..9, 0u16..6).prop_map(|(n, d, a)| (n, d, 0u8, a)),
        1 => (20u16..90, 0u8..9, 300u16..513).prop_map(|(n, d, a)| (n, d, 20u8, a)),
        1 => (3u16..80, 0u8..9, 0u16..513).prop_map(|(n, d, a)| (n, d, (a % 21) as u8, a)),
    ];
    let burst = (burst, prop_oneof![Just(0u16), 1u16..40], any::<u8>()).prop_map(move |((n, disc, metas, args), per_slot, seed)| Op::Burst { q, n, per_slot, disc, metas, args, seed });
    let answer = (prop_oneof![any::<u16>().boxed(), prop::sample::select(vec![0u16, 254, 255, 256, 257]).boxed()], prop::bool::weighted(0.1))
        .prop_map(move |(i, old)| Op::Provide { q, by: None, pick: if old { Pick::Answered(i) } else { Pick::Pending(i) }, proof: ProofKind::Honest, fail: false, er: true, rest: vec![] });
    let purge = Just(Op::Purge { q, er: true });
    let close = Just(Op::Close { q });
    let some = prop_oneof![
        3 => prop::collection::vec(burst.clone(), 1..3),
        4 => prop::collection::vec(answer, 1..12),
        3 => (slots(), purge).prop_map(|(d, p)| vec![Op::Slot { d }, p]),
        2 => slots().prop_map(|d| vec![Op::Slot { d }]),
        1 => (slots(), prop::collection::vec(burst.clone(), 1..2), slots()).prop_map(move |(a, mut v, b)| {
            // old and new requests meet at a purge
            v.insert(0, Op::Slot { d: a });
            v.extend([Op::Slot { d: b }, Op::Purge { q, er: true }]);
            v
        }),
        1 => (close, prop::bool::ANY).prop_map(move |(c, again)| if again { vec![c, Op::InitQueue { q, size: 9500, payer: 0 }] } else { vec![c] }),
        1 => Just(vec![Op::Delegate { q }]),
    ];
    // filled to the brim with the smallest requests: more fees than rent; then purged at one stroke
    let brim = (2_000u32..24_000, prop_oneof![3 => Just(255u8), 1 => any::<u8>()], 0u8..2, slots()).prop_map(move |(size, seed, disc, d)| {
        let n = ((size - 24) / 104) as u16;
        let full = Op::Burst { q, n: n + 3, per_slot: 0, disc, metas: 0, args: 0, seed };
        (size, vec![full.clone()], vec![vec![Op::Slot { d }, Op::Purge { q, er: true }], vec![Op::Slot { d: 300 }, Op::Purge { q, er: true }, full]])
    });
    let usual = (size, prop::collection::vec(burst, 1..4), prop::collection::vec(some, 2..10));
    prop_oneof![6 => usual, 1 => brim]
        .prop_map(move |(size, start, parts)| {
            let mut v: Vec<Op> = vec![Op::Initialize { payer: 0 }, Op::AddOracle { signer: 0, id: 0, key: 0 }, Op::AddOracle { signer: 0, id: 1, key: 0 }, Op::Slot { d: 200 }];
            v.extend((0..size.div_ceil(10_240)).map(|_| Op::InitQueue { q, size, payer: 0 }));
            v.push(Op::InitQueue { q: Q(1, 0), size: 1000, payer: 0 });
            v.extend(start);
            v.extend(parts.into_iter().flatten());
            History { steps: v.into_iter().map(Step::from).collect() }
        })
        .boxed()
}

/// Run a history; stop at the first step that breaks an assertion of `prop`. What only breaks
/// another property does not end it: the damage may well reach this one later. It does end if the
/// reference has no opinion on how to go on (something was accepted that must be refused).
pub fn run_history(h: &History, prop: &str) -> (World, Vec<vcore::Viol>) {
    let all = std::env::var("VERIF_ANY").is_ok();
    let mut w = World::new();
    let mut other: Vec<vcore::Viol> = vec![];
    for (i, s) in h.steps.iter().enumerate() {
        let mut v = if other.is_empty() {
            w.step(s)
        } else {
            match vcore::guard(|| w.step(s)) {
                Ok(v) => v,
                Err(_) => break, // the reference is lost after the earlier damage
            }
        };
        if std::env::var("VERIF_TRACE").is_ok() {
            eprintln!("step {i}: {s:?} -> ok={} {:?} viol={:?}", w.last_ok, w.last_res, v);
        }
        if v.is_empty() {
            continue;
        }
        for x in &mut v {
            x.msg = format!("step {i}: {}", x.msg);
        }
        let lost = v.iter().any(|x| x.sig.starts_with("accepted:"));
        if all || lost || v.iter().any(|x| x.prop == prop) {
            return (w, v);
        }
        if other.is_empty() {
            other = v;
        }
    }
    (w, other)
}

//! C29: the client API's instruction builders, run in generated life cycles where every
//! operation is valid by intention, and the codecs of instructions and accounts.
use crate::cast::{cast, pda, seed_bytes};
use crate::crypto::{b32, B32};
use crate::svm::*;
use crate::view::*;
use crate::world::{program_data_bytes, World};
use ephemeral_vrf::vrf as off;
use ephemeral_vrf_api::prelude as api;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_curve25519::scalar::PodScalar;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use std::collections::BTreeSet;
use vcore::{guard, Harness, Outcome};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LReq {
    high: bool,
    prog: u8,
    disc: u8,
    metas: Vec<(u8, bool, bool)>,
    args: u16,
    seed: B32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LQueue {
    index: u8,
    size: Option<u32>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    salt: u32,
    oracles: u8,
    /// who pays: 0 the administrator, 1 the oracle itself, 2 somebody else
    payer: u8,
    queues: Vec<LQueue>,
    reqs: Vec<LReq>,
    answer: u8,
    delegate: bool,
    undelegate: bool,
    remove_first: bool,
}
fn lreq() -> impl Strategy<Value = LReq> {
    (any::<bool>(), 0..3u8, 0..=8u8, prop::collection::vec((any::<u8>(), any::<bool>(), any::<bool>()), 0..6), prop_oneof![4 => 0..60u16, 1 => 0..=512u16], b32())
        .prop_map(|(high, prog, disc, metas, args, seed)| LReq { high, prog, disc, metas, args, seed })
}
/// Queues up to the largest account there is.
fn large() -> impl Strategy<Value = Life> {
    let size = prop_oneof![
        3 => (6..1025u32, -1..2i64).prop_map(|(n, d)| (n as i64 * 10_240 + d).min(10_485_760) as u32),
        1 => (250..260u32, -1..2i64).prop_map(|(n, d)| (n as i64 * 10_240 + d) as u32),
        1 => Just(10_485_760u32),
        2 => 60_000..10_485_760u32,
    ];
    (any::<u32>(), any::<u8>(), size).prop_map(|(salt, index, size)| Life {
        salt,
        oracles: 1,
        payer: 1,
        queues: vec![LQueue { index, size: Some(size) }],
        reqs: vec![],
        answer: 0,
        delegate: false,
        undelegate: false,
        remove_first: false,
    })
}
fn life() -> impl Strategy<Value = Life> {
    let size = prop_oneof![
        2 => Just(None),
        3 => (24..3000u32).prop_map(Some),
        3 => (1..6u32, -3..4i64).prop_map(|(n, d)| Some((n as i64 * 10_240 + d) as u32)),
        2 => (3000..60_000u32).prop_map(Some),
    ];
    let queue = (prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8)], size).prop_map(|(index, size)| LQueue { index, size });
    (any::<u32>(), 1..4u8, 0..3u8, prop::collection::vec(queue, 1..4), prop::collection::vec(lreq(), 0..6), any::<u8>(), any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(salt, oracles, payer, queues, reqs, answer, delegate, undelegate, remove_first)| Life { salt, oracles, payer, queues, reqs, answer, delegate, undelegate, remove_first })
}

struct Run<'a> {
    w: World,
    o: &'a mut Outcome,
}
impl Run<'_> {
    /// Execute what a client would send: only the keys named may sign.
    fn send(&mut self, what: &'static str, ixs: &[Instruction], keys: &[Pubkey]) -> Option<Vec<Call>> {
        for ix in ixs {
            if ix.program_id != vrf() {
                self.o.fail("C29", format!("{what}-wrong-program"), format!("{what} targets {}", ix.program_id));
                return None;
            }
            for m in &ix.accounts {
                if m.is_signer && !keys.contains(&m.pubkey) {
                    self.o.fail("C29", format!("{what}-foreign-signer"), format!("{what} asks for a signature of {} which the caller does not hold", m.pubkey));
                    return None;
                }
            }
        }
        let signers: BTreeSet<Pubkey> = keys.iter().copied().collect();
        let r = self.w.bank.exec(ixs, &TxOpts { signers, ..Default::default() });
        match r.res {
            Ok(()) => Some(r.calls),
            Err(e) => {
                self.o.fail("C29", format!("{what}-rejected"), format!("a valid {what} is rejected: {e:?} {ixs:?}"));
                None
            }
        }
    }
    fn expect(&mut self, what: &'static str, ok: bool, msg: impl FnOnce(&World) -> String) -> bool {
        if !ok {
            let m = msg(&self.w);
            self.o.fail("C29", format!("{what}-effect"), format!("{what}: {m}"));
        }
        ok
    }
}
struct Orc {
    key: Pubkey,
    data: Pubkey,
    sk: curve25519_dalek::Scalar,
    pk: [u8; 32],
}
fn kp(salt: u32, tag: &str) -> Keypair {
    Keypair::new_from_array(seed_bytes(&format!("life{salt}{tag}")))
}

fn run_life(c: &Life, o: &mut Outcome) -> Option<()> {
    let v = vrf();
    let mut r = Run { w: World::new(), o };
    let cst = cast();
    let admin = kp(c.salt, "admin").pubkey();
    let other = kp(c.salt, "payer").pubkey();
    r.w.bank.accts.get_mut(&cst.program_data).unwrap().data = program_data_bytes(Some(admin));
    let orcs: Vec<Orc> = (0..c.oracles)
        .map(|i| {
            let k = kp(c.salt, &format!("oracle{i}"));
            let (sk, pk) = off::generate_vrf_keypair(&k);
            Orc { key: k.pubkey(), data: pda(&[b"oracle", k.pubkey().as_ref()], &v), sk, pk: pk.compress().to_bytes() }
        })
        .collect();
    for k in orcs.iter().map(|o| o.key).chain([admin, other]) {
        r.w.bank.accts.insert(k, Acct { lamports: 1_000_000_000_000, data: vec![], owner: SYS, executable: false });
    }
    r.send("initialize", &[api::initialize(other)], &[other])?;
    let reg = |w: &World| decode_registry(&w.bank.get(&cst.registry).data);
    r.expect("initialize", reg(&r.w) == Some(vec![]), |w| format!("registry is {:?}", reg(w))).then_some(())?;
    let mut listed = vec![];
    for x in &orcs {
        let slot = r.w.bank.slot;
        r.send("add_oracle", &[api::add_oracle(admin, x.key, x.pk)], &[admin])?;
        listed.push(x.key);
        let mut a = reg(&r.w).unwrap_or_default();
        let mut b = listed.clone();
        a.sort();
        b.sort();
        r.expect("add_oracle", a == b, |_| "registry does not list the added oracles".into()).then_some(())?;
        let d = decode_oracle(&r.w.bank.get(&x.data).data);
        r.expect("add_oracle", d.is_some_and(|d| d.vrf_key == x.pk && d.slot == slot && d.open == 0), |_| "oracle account does not hold key and slot".into()).then_some(())?;
        r.w.set_slot(slot + 1, 1);
    }
    if c.remove_first && orcs.len() > 1 {
        let x = &orcs[orcs.len() - 1];
        r.send("remove_oracle", &[api::remove_oracle(admin, x.key)], &[admin])?;
        let gone = !reg(&r.w).unwrap_or_default().contains(&x.key) && r.w.bank.get(&x.data) == Acct::default();
        r.expect("remove_oracle", gone, |_| "oracle still registered".into()).then_some(())?;
    }
    let s = r.w.bank.slot;
    r.w.set_slot(s + 200, 80);
    let orc = &orcs[0];
    let payer = [admin, orc.key, other][c.payer as usize % 3];
    let mut made: Vec<(u8, Pubkey, usize)> = vec![];
    for q in &c.queues {
        if made.iter().any(|m| m.0 == q.index) {
            continue;
        }
        let addr = pda(&[b"queue", orc.key.as_ref(), &[q.index]], &v);
        let ixs = api::initialize_oracle_queue(payer, orc.key, q.index, q.size);
        let size = q.size.unwrap_or(9500) as usize;
        r.send("initialize_oracle_queue", &ixs, &[payer, orc.key])?;
        let a = r.w.bank.get(&addr);
        let d = decode_queue(&a.data);
        let ok = a.owner == v && a.data.len() == size && d.as_ref().is_some_and(|d| d.count == 0 && d.index == q.index && d.items.is_empty());
        r.expect("initialize_oracle_queue", ok, |_| format!("queue {} of size {size} is {:?} with {} bytes after {} instructions", q.index, d, a.data.len(), ixs.len())).then_some(())?;
        made.push((q.index, addr, size));
        let open = decode_oracle(&r.w.bank.get(&orc.data).data).map(|d| d.open);
        r.expect("initialize_oracle_queue", open == Some(made.len() as u64), |_| format!("open queues {open:?}")).then_some(())?;
    }
    let (index, queue, size) = made[0];
    // requests (through the SDK), answers and purges (through the API)
    let mut pending: Vec<Item> = vec![];
    for (n, q) in c.reqs.iter().enumerate() {
        let prog = cst.progs[q.prog as usize % cst.progs.len()];
        let ident = cst.idents[q.prog as usize % cst.progs.len()];
        let metas: Vec<Meta> = q.metas.iter().map(|(k, _, w)| Meta { key: Pubkey::new_from_array(seed_bytes(&format!("m{k}"))), writable: *w }).collect();
        let disc: Vec<u8> = (0..q.disc).map(|i| i.wrapping_mul(37) ^ n as u8).collect();
        let args: Vec<u8> = (0..q.args).map(|i| (i as u8).wrapping_mul(11) ^ n as u8).collect();
        let p = ephemeral_vrf_sdk::instructions::RequestRandomnessParams {
            payer: other,
            oracle_queue: queue,
            callback_program_id: prog,
            callback_discriminator: disc.clone(),
            accounts_metas: Some(metas.iter().zip(&q.metas).map(|(m, x)| ephemeral_vrf_sdk::types::SerializableAccountMeta { pubkey: m.key, is_signer: x.1, is_writable: m.writable }).collect()),
            caller_seed: q.seed.0,
            callback_args: Some(args.clone()),
        };
        let ix = if q.high { ephemeral_vrf_sdk::instructions::create_request_randomness_ix(p) } else { ephemeral_vrf_sdk::instructions::create_request_regular_randomness_ix(p) };
        let used = pending.iter().map(|i: &Item| (item_size(i.disc.len(), i.metas.len(), i.args.len()) + 7) & !7).sum::<usize>() + 24;
        if used + item_size(disc.len(), metas.len(), args.len()) > size {
            continue;
        }
        let signers: BTreeSet<Pubkey> = [other, ident].into_iter().collect();
        let res = r.w.bank.exec(&[ix], &TxOpts { signers, ..Default::default() });
        if res.res.is_err() {
            // the request path is decided by C13/C27
            r.o.class("request-refused");
            return None;
        }
        let view = decode_queue(&r.w.bank.get(&queue).data)?;
        let it = view.items.last()?.clone();
        pending.push(it);
    }
    let s = r.w.bank.slot;
    r.w.set_slot(s + 1, 1);
    let mut answered = 0;
    for (n, it) in pending.clone().iter().enumerate() {
        if c.answer >> (n % 8) & 1 == 0 {
            continue;
        }
        let (out, (cb, ch, sc)) = off::compute_vrf(orc.sk, &it.id);
        let mut ix = api::provide_randomness(
            orc.key,
            queue,
            it.prog,
            it.id,
            PodRistrettoPoint(out.to_bytes()),
            PodRistrettoPoint(cb.to_bytes()),
            PodRistrettoPoint(ch.to_bytes()),
            PodScalar(sc.to_bytes()),
        );
        ix.accounts.extend(it.metas.iter().map(|m| AccountMeta { pubkey: m.key, is_signer: false, is_writable: m.writable }));
        let before = r.w.bank.get(&orc.key).lamports;
        let calls = r.send("provide_randomness", &[ix], &[orc.key])?;
        let rnd = solana_program::hash::hash(&out.to_bytes()).to_bytes();
        let mut want = it.disc.clone();
        want.extend(rnd);
        want.extend(&it.args);
        let ok = calls.iter().filter(|c| c.program == it.prog && c.data == want).count() == 1;
        r.expect("provide_randomness", ok, |_| format!("callbacks {calls:?}")).then_some(())?;
        let paid = r.w.bank.get(&orc.key).lamports - before;
        r.expect("provide_randomness", paid == if it.high { 800_000 } else { 500_000 }, |_| format!("oracle got {paid}")).then_some(())?;
        pending.retain(|x| x.id != it.id);
        answered += 1;
    }
    let left = decode_queue(&r.w.bank.get(&queue).data).map(|q| q.items);
    r.expect("provide_randomness", left.as_ref() == Some(&pending), |_| "pending requests differ".into()).then_some(())?;
    let purged = !pending.is_empty();
    if purged {
        let s = r.w.bank.slot;
        r.w.set_slot(s + 300, 100);
        let before = r.w.bank.get(&orc.key).lamports;
        r.send("purge_expired_requests", &[api::purge_expired_requests(orc.key, index)], &[])?;
        let empty = decode_queue(&r.w.bank.get(&queue).data).is_some_and(|q| q.items.is_empty() && q.count == 0);
        let due: u64 = pending.iter().map(|i| if i.high { 800_000 } else { 500_000 }).sum();
        let paid = r.w.bank.get(&orc.key).lamports - before;
        r.expect("purge_expired_requests", empty && paid == due, |_| format!("empty {empty}, oracle got {paid} of {due}")).then_some(())?;
    }
    if c.undelegate {
        let calls = r.send("undelegate_oracle_queue", &[api::undelegate_oracle_queue(orc.key, queue, index)], &[orc.key])?;
        let ok = calls.len() == 1 && calls[0].program == magic() && calls[0].metas.iter().any(|m| m.pubkey == queue);
        r.expect("undelegate_oracle_queue", ok, |_| format!("calls {calls:?}")).then_some(())?;
    }
    // close all other queues
    for (i, a, _) in made.iter().skip(1) {
        let (bal, before) = (r.w.bank.get(a).lamports, r.w.bank.get(&orc.key).lamports);
        r.send("close_oracle_queue", &[api::close_oracle_queue(orc.key, *i)], &[orc.key])?;
        let got = r.w.bank.get(&orc.key).lamports - before;
        let gone = r.w.bank.get(a) == Acct::default();
        r.expect("close_oracle_queue", gone && got == bal, |_| format!("gone {gone}, received {got} of {bal}")).then_some(())?;
    }
    let open = decode_oracle(&r.w.bank.get(&orc.data).data).map(|d| d.open);
    r.expect("close_oracle_queue", open == Some(1), |_| format!("open queues {open:?}")).then_some(())?;
    if c.delegate && size <= 10_240 {
        let before = r.w.bank.get(&queue);
        r.send("delegate_oracle_queue", &[api::delegate_oracle_queue(orc.key, queue, index)], &[orc.key])?;
        let after = r.w.bank.get(&queue);
        let ok = after.owner == dlp() && after.data == before.data && after.lamports == before.lamports && r.w.bank.get(&dlp_record(&queue)).owner == dlp();
        r.expect("delegate_oracle_queue", ok, |_| format!("owner {} data kept {} lamports {} -> {}", after.owner, after.data == before.data, before.lamports, after.lamports)).then_some(())?;
    } else {
        r.send("close_oracle_queue", &[api::close_oracle_queue(orc.key, index)], &[orc.key])?;
        r.send("remove_oracle", &[api::remove_oracle(admin, orc.key)], &[admin])?;
        let ok = !reg(&r.w).unwrap_or_default().contains(&orc.key) && r.w.bank.get(&orc.data) == Acct::default();
        r.expect("remove_oracle", ok, |_| "still registered".into()).then_some(())?;
    }
    if answered > 0 {
        r.o.class("answered");
    }
    if purged {
        r.o.class("purged");
    }
    Some(())
}
fn c29_life(c: &Life) -> Outcome {
    let mut o = Outcome::default();
    let done = run_life(c, &mut o).is_some();
    o.nontrivial = done && !c.reqs.is_empty();
    if done {
        o.class("complete-life-cycle");
    }
    o
}

// ---------------------------------------------------------------- codecs
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Codec {
    keys: Vec<B32>,
    a: B32,
    b: B32,
    n: u32,
    m: u64,
    i: u8,
    #[serde(with = "vcore::hexbytes")]
    x: Vec<u8>,
    #[serde(with = "vcore::hexbytes")]
    y: Vec<u8>,
    metas: Vec<(B32, bool, bool)>,
    tag: u8,
}
fn codec() -> impl Strategy<Value = Codec> {
    (
        prop::collection::vec(b32(), 0..12),
        b32(),
        b32(),
        prop_oneof![any::<u32>(), 0..40_000u32, Just(u32::MAX)],
        any::<u64>(),
        any::<u8>(),
        prop::collection::vec(any::<u8>(), 0..600),
        prop::collection::vec(any::<u8>(), 0..12),
        prop::collection::vec((b32(), any::<bool>(), any::<bool>()), 0..25),
        any::<u8>(),
    )
        .prop_map(|(keys, a, b, n, m, i, x, y, metas, tag)| Codec { keys, a, b, n, m, i, x, y, metas, tag })
}
/// Copy to an 8-aligned buffer, as account and instruction data are.
fn aligned(b: &[u8]) -> Vec<u64> {
    let mut v = vec![0u64; b.len() / 8 + 1];
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, b.len()) };
    v
}
fn c29_codec(c: &Codec) -> Outcome {
    let mut o = Outcome::nontrivial();
    let mut bad: Vec<(String, String)> = vec![];
    let r = guard(|| {
        let mut ck = |name: &str, ok: bool, what: &str| {
            if !ok {
                bad.push((format!("codec-{name}"), format!("{name}: {what}")));
            }
        };
        // fixed-size instruction bodies: [tag, 0 x 7] + body, and back
        macro_rules! pod {
            ($t:ident, $v:expr, $tag:expr, $body:expr) => {{
                let v = api::$t::from($v);
                let d = v.to_bytes();
                let body: Vec<u8> = $body;
                ck(stringify!($t), d.len() == 8 + body.len() && d[0] == $tag && d[1..8] == [0; 7] && d[8..] == body[..], "bytes are not tag and fields");
                let al = aligned(&d);
                let s = unsafe { std::slice::from_raw_parts(al.as_ptr() as *const u8, d.len()) };
                match api::$t::try_from_bytes(&s[8..]) {
                    Ok(x) => ck(stringify!($t), x.to_bytes() == d, "decoding and encoding again differs"),
                    Err(e) => ck(stringify!($t), false, &format!("own bytes do not decode: {e:?}")),
                }
                // wrong lengths never decode
                for l in [0usize, body.len().wrapping_sub(1), body.len() + 1] {
                    if l != body.len() && l < 4096 {
                        let z = vec![0u64; l / 8 + 1];
                        let s = unsafe { std::slice::from_raw_parts(z.as_ptr() as *const u8, l) };
                        ck(stringify!($t), api::$t::try_from_bytes(s).is_err(), "a body of another length decodes");
                    }
                }
            }};
        }
        let pk = Pubkey::new_from_array(c.a.0);
        let p = PodRistrettoPoint;
        pod!(ModifyOracle, (api::ModifyOracle { identity: pk, oracle_pubkey: p(c.b.0), operation: c.i }), 1, [&c.a.0[..], &c.b.0, &[c.i]].concat());
        pod!(
            ProvideRandomness,
            (api::ProvideRandomness { input: c.a.0, output: p(c.b.0), commitment_base_compressed: p(seed_bytes("1")), commitment_hash_compressed: p(seed_bytes("2")), scalar: PodScalar(seed_bytes("3")) }),
            4,
            [c.a.0, c.b.0, seed_bytes("1"), seed_bytes("2"), seed_bytes("3")].concat()
        );
        pod!(DelegateOracleQueue, (api::DelegateOracleQueue { index: c.i }), 5, vec![c.i]);
        pod!(UndelegateOracleQueue, (api::UndelegateOracleQueue { index: c.i }), 6, vec![c.i]);
        pod!(CloseOracleQueue, (api::CloseOracleQueue { index: c.i }), 7, vec![c.i]);
        pod!(PurgeExpiredRequests, (api::PurgeExpiredRequests { index: c.i }), 9, vec![c.i]);
        pod!(InitializeOracleQueue, (api::InitializeOracleQueue { target_size: c.n, index: c.i, _padding: [0; 3] }), 2, [&c.n.to_le_bytes()[..], &[c.i, 0, 0, 0]].concat());
        ck("Initialize", api::Initialize {}.to_bytes() == [0; 8], "bytes");
        // requests
        let rr = api::RequestRandomness {
            caller_seed: c.b.0,
            callback_program_id: pk,
            callback_discriminator: c.y.clone(),
            callback_accounts_metas: c.metas.iter().map(|(k, s, w)| api::SerializableAccountMeta { pubkey: k.0, is_signer: *s, is_writable: *w }).collect(),
            callback_args: c.x.clone(),
        };
        let want = encode_request(true, &ReqArgs {
            seed: c.b.0,
            prog: pk,
            disc: c.y.clone(),
            metas: c.metas.iter().map(|(k, s, w)| (Pubkey::new_from_array(k.0), *s, *w)).collect(),
            args: c.x.clone(),
        });
        let d = rr.to_bytes();
        ck("RequestRandomness", d == want, "bytes differ from the layout");
        ck("RequestRandomness", api::RequestRandomness::try_from_bytes(&d[8..]).is_ok_and(|x| x == rr), "does not decode to itself");
        for cut in [1usize, 5, 33] {
            let l = d.len().saturating_sub(8 + cut);
            ck("RequestRandomness", api::RequestRandomness::try_from_bytes(&d[8..8 + l]).is_err(), "truncated bytes decode");
        }
        // account entries
        for (k, s, w) in &c.metas {
            let ser = api::SerializableAccountMeta { pubkey: k.0, is_signer: *s, is_writable: *w };
            let m = api::CompactAccountMeta::from(ser).to_account_meta();
            ck("account-meta", m.pubkey.to_bytes() == k.0 && !m.is_signer && m.is_writable == *w, "conversion changes the entry");
        }
        // accounts
        let reg = api::Oracles { oracles: c.keys.iter().map(|k| Pubkey::new_from_array(k.0)).collect() };
        let d = reg.to_bytes_with_discriminator().unwrap_or_default();
        ck("Oracles", d.len() == reg.size_with_discriminator() && d.len() == 12 + 32 * c.keys.len(), "size_with_discriminator is not the encoded size");
        ck("Oracles", decode_registry(&d).is_some_and(|v| v == reg.oracles), "bytes differ from the layout");
        ck("Oracles", api::Oracles::try_from_bytes_with_discriminator(&d).is_ok_and(|x| x == reg), "does not decode to itself");
        let orc = api::Oracle { vrf_pubkey: p(c.a.0), registration_slot: c.m, open_queue: c.n as u64 };
        let mut d = vec![1u8, 0, 0, 0, 0, 0, 0, 0];
        d.extend(orc.to_bytes());
        ck("Oracle", decode_oracle(&d).is_some_and(|x| x.vrf_key == c.a.0 && x.slot == c.m && x.open == c.n as u64), "bytes differ from the layout");
        let al = aligned(&d);
        let s = unsafe { std::slice::from_raw_parts(al.as_ptr() as *const u8, d.len()) };
        ck("Oracle", <api::Oracle as api::AccountDeserialize>::try_from_bytes(s).is_ok_and(|x| *x == orc), "does not decode to itself");
        // seeds of a delegated account
        let seeds: Vec<Vec<u8>> = vec![c.x.clone(), c.y.clone(), c.a.0.to_vec()];
        ck("PdaSeeds", api::PdaSeeds::parse(&borsh::to_vec(&seeds).unwrap()).is_ok_and(|s| s == seeds), "does not decode");
        // tags
        let known: &[(u8, &str)] = &[(0, "Initialize"), (1, "ModifyOracle"), (2, "InitializeOracleQueue"), (3, "RequestHighPriorityRandomness"), (4, "ProvideRandomness"), (5, "DelegateOracleQueue"), (6, "UndelegateOracleQueue"), (7, "CloseOracleQueue"), (8, "RequestRandomness"), (9, "PurgeExpiredRequests"), (196, "ProcessUndelegation")];
        let t = api::EphemeralVrfInstruction::try_from(c.tag);
        match (known.iter().find(|k| k.0 == c.tag), t) {
            (Some(k), Ok(x)) => ck("tag", format!("{x:?}") == k.1 && x as u8 == c.tag, "tag names another instruction"),
            (None, Err(_)) => {}
            _ => ck("tag", false, &format!("tag {} known on one side only", c.tag)),
        }
        // addresses
        let v = vrf();
        ck("pda", api::oracles_pda().0 == pda(&[b"oracles"], &v), "registry address");
        ck("pda", api::oracle_data_pda(&pk).0 == pda(&[b"oracle", &c.a.0], &v), "oracle address");
        ck("pda", api::oracle_queue_pda(&pk, c.i).0 == pda(&[b"queue", &c.a.0, &[c.i]], &v), "queue address");
    });
    if let Err(e) = r {
        o.fail("C29", "codec-panic", e);
    }
    for (s, m) in bad {
        o.fail("C29", s, m);
    }
    o
}

pub fn run(h: &mut Harness) {
    if h.prop != "C29" {
        return;
    }
    h.part("life-cycles", "the whole life cycle ran and contained a request", (20_000, 800_000), life, c29_life);
    h.part("large-queues", "the queue was completed", (30, 2_000), large, |c| {
        let mut o = c29_life(c);
        o.nontrivial = true;
        o
    });
    h.part("codecs", "every case: all instructions and accounts encoded and decoded", (100_000, 5_000_000), codec, c29_codec);
    h.assume("the simulated runtime models account ownership, signer, writability, rent and CPI rules of the Solana runtime");
}

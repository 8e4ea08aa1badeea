//! C35: addresses and constants.
use crate::flavours;
use chain::cast::{cast, pda};
use chain::crypto::{b32, B32};
use chain::ids::base;
use chain::svm::*;
use chain::view::*;
use chain::world::honest_proof;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::CompressedRistretto;
use curve25519_dalek::scalar::Scalar;
use ephemeral_rollups_sdk as er;
use ephemeral_vrf_api::prelude as api;
use ephemeral_vrf_sdk as sdk;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::hash::hashv;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use vcore::{guard, Harness, Outcome};

// ------------------------------------------------------------ delegation addresses
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Addr {
    account: B32,
    program: B32,
    index: u8,
}
fn addr() -> impl Strategy<Value = Addr> {
    (b32(), b32(), any::<u8>()).prop_map(|(account, program, index)| Addr { account, program, index })
}
const HELPERS: [&str; 10] = [
    "delegation_record_pda_from_delegated_account",
    "delegation_metadata_pda_from_delegated_account",
    "commit_state_pda_from_delegated_account",
    "commit_record_pda_from_delegated_account",
    "delegate_buffer_pda_from_delegated_account_and_owner_program",
    "undelegate_buffer_pda_from_delegated_account",
    "fees_vault_pda",
    "validator_fees_vault_pda_from_validator",
    "program_config_from_program_id",
    "ephemeral_balance_pda_from_payer",
];
fn c35_pdas(c: &Addr) -> Outcome {
    let mut o = Outcome::nontrivial();
    let a = Pubkey::new_from_array(c.account.0);
    let p = Pubkey::new_from_array(c.program.0);
    use er::pda::*;
    let ea = er::compat::Pubkey::new_from_array(c.account.0);
    let ep = er::compat::Pubkey::new_from_array(c.program.0);
    let want: Vec<[u8; 32]> = [
        delegation_record_pda_from_delegated_account(&ea),
        delegation_metadata_pda_from_delegated_account(&ea),
        commit_state_pda_from_delegated_account(&ea),
        commit_record_pda_from_delegated_account(&ea),
        delegate_buffer_pda_from_delegated_account_and_owner_program(&ea, &ep),
        undelegate_buffer_pda_from_delegated_account(&ea),
        fees_vault_pda(),
        validator_fees_vault_pda_from_validator(&ea),
        program_config_from_program_id(&ea),
        ephemeral_balance_pda_from_payer(&ea, c.index),
    ]
    .iter()
    .map(|k| k.to_bytes())
    .collect();
    let mut inp = vec![3u8];
    inp.extend(c.account.0);
    inp.extend(c.program.0);
    inp.push(c.index);
    for f in flavours() {
        match f.call(&inp) {
            Err(e) => o.fail("C35", "helper-panics", e),
            Ok(b) => {
                for (i, name) in HELPERS.iter().enumerate() {
                    if b[32 * i..32 * i + 32] != want[i] {
                        o.fail("C35", format!("helper-{name}"), format!("{name} in flavour {} is {} for account {a}, program {p}, index {}; the delegation program uses {}", f.name, Pubkey::new_from_array(b[32 * i..32 * i + 32].try_into().unwrap()), c.index, Pubkey::new_from_array(want[i])));
                    }
                }
            }
        }
    }
    // the program's addresses, from the API's seeds under the SDK's program id
    let v = Pubkey::new_from_array(sdk::consts::VRF_PROGRAM_ID.to_bytes());
    let mut ck = |name: &str, x: (Pubkey, u8), seeds: &[&[u8]]| {
        let y = Pubkey::find_program_address(seeds, &v);
        if x != y {
            o.fail("C35", format!("address-{name}"), format!("{name} is {x:?}, derived {y:?}"));
        }
    };
    ck("oracle_data_pda", api::oracle_data_pda(&a), &[b"oracle", a.as_ref()]);
    ck("oracle_queue_pda", api::oracle_queue_pda(&a, c.index), &[b"queue", a.as_ref(), &[c.index]]);
    ck("oracles_pda", api::oracles_pda(), &[b"oracles"]);
    ck("program_identity_pda", api::program_identity_pda(), &[b"identity"]);
    o
}

// ------------------------------------------------------------ constants
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Which(String);
fn relations() -> Vec<Which> {
    let mut v: Vec<String> = ["api", "basepoint", "discriminators", "prefixes"].map(String::from).to_vec();
    v.extend(crate::FLAVOURS.iter().map(|f| format!("flavour:{f}")));
    v.into_iter().map(Which).collect()
}
fn c35_consts(c: &Which) -> Outcome {
    let mut o = Outcome::nontrivial();
    let v = api_id();
    let mut ck = |name: &str, ok: bool, what: String| {
        if !ok {
            o.fail("C35", format!("constant-{name}"), what);
        }
    };
    if let Some(name) = c.0.strip_prefix("flavour:") {
        let f = flavours().iter().find(|f| f.name == name).unwrap();
        match f.call(&[2]) {
            Err(e) => ck("panic", false, e),
            Ok(b) => {
                let k = |i: usize| Pubkey::new_from_array(b[32 * i..32 * i + 32].try_into().unwrap());
                let eph = Pubkey::new_from_array(api::DEFAULT_EPHEMERAL_QUEUE.to_bytes());
                ck("program-id", k(0) == v, format!("VRF_PROGRAM_ID of {name} is {}, the program is {v}", k(0)));
                ck("default-queue", k(1).to_string() == "Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh" || k(1) == Pubkey::new_from_array(sdk::consts::DEFAULT_QUEUE.to_bytes()), format!("DEFAULT_QUEUE of {name} is {}", k(1)));
                ck("default-queue-flavours", k(1).to_bytes() == sdk::consts::DEFAULT_QUEUE.to_bytes(), format!("DEFAULT_QUEUE of {name} is {}", k(1)));
                ck("default-ephemeral-queue", k(2) == eph, format!("DEFAULT_EPHEMERAL_QUEUE of {name} is {}, the program's is {eph}", k(2)));
                let id = pda(&[b"identity"], &v);
                ck("identity", k(3) == id, format!("VRF_PROGRAM_IDENTITY of {name} is {}, derived {id}", k(3)));
                let sh = Pubkey::new_from_array(solana_sdk_ids::sysvar::slot_hashes::id().to_bytes());
                ck("slot-hashes", k(4) == sh, format!("the slot hashes sysvar of {name} is {}", k(4)));
                ck("id", k(5) == v, format!("id() of {name} is {}", k(5)));
                ck("anchor-id", k(6) == v, format!("VrfProgram::id() of {name} is {}", k(6)));
                ck("identity-seed", &b[228..] == api::IDENTITY, format!("IDENTITY of {name} is {:?}", &b[228..]));
            }
        }
        return o;
    }
    match c.0.as_str() {
        "api" => {
            ck("magic-program", api::MAGIC_PROGRAM_ID.to_bytes() == er::consts::MAGIC_PROGRAM_ID.to_bytes(), format!("{}", api::MAGIC_PROGRAM_ID));
            ck("magic-context", api::MAGIC_CONTEXT_ID.to_bytes() == er::consts::MAGIC_CONTEXT_ID.to_bytes(), format!("{}", api::MAGIC_CONTEXT_ID));
            ck("delegation-program", sdk::consts::DELEGATION_PROGRAM_ID.to_bytes() == er::consts::DELEGATION_PROGRAM_ID.to_bytes(), "DELEGATION_PROGRAM_ID".into());
            let (id, bump) = api::program_identity_pda();
            let made = Pubkey::create_program_address(&[api::IDENTITY, &[bump]], &v);
            ck("identity-bump", made == Ok(id), format!("identity {id} with bump {bump} is {made:?}"));
            ck("identity-sdk", id.to_bytes() == sdk::consts::VRF_PROGRAM_IDENTITY.to_bytes(), format!("{id}"));
        }
        "basepoint" => {
            ck("basepoint", api::RISTRETTO_BASEPOINT_POINT.0 == G.compress().to_bytes(), format!("{:?}", api::RISTRETTO_BASEPOINT_POINT.0));
        }
        "discriminators" => {
            // the accounts the program itself writes
            if let Some(bank) = base() {
                let cst = cast();
                let first = |k: &Pubkey| bank.get(k).data.get(..8).map(|d| d.to_vec());
                let mut seen = BTreeSet::new();
                for (name, k, d) in [
                    ("registry", cst.registry, api::AccountDiscriminator::Oracles),
                    ("oracle", cst.oracles[0].data, api::AccountDiscriminator::Oracle),
                    ("queue", cst.oracles[0].queues[0], api::AccountDiscriminator::Queue),
                ] {
                    let want = d.to_bytes().to_vec();
                    let got = first(&k);
                    ck("discriminator", got == Some(want.clone()), format!("the {name} account starts with {got:?}, its discriminator is {want:?}"));
                    ck("discriminator-distinct", seen.insert(want), format!("the discriminator of the {name} account is used twice"));
                }
            }
        }
        _ => {}
    }
    o
}
fn api_id() -> Pubkey {
    ephemeral_vrf_api::ID
}

// ------------------------------------------------------------ what the program does with them
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Use {
    high: bool,
    /// 0 the SDK's fee-free queue, 1 the SDK's default queue, 2 the oracle's own
    queue: u8,
    seed: B32,
    prog: B32,
    lens: (u8, u8, u16),
    age: u16,
}
fn uses() -> impl Strategy<Value = Use> {
    let lens = (prop_oneof![2 => 0..=8u8, 1 => Just(8u8), 1 => Just(9u8)], prop_oneof![2 => 0..=20u8, 1 => Just(20u8), 1 => Just(21u8)], prop_oneof![2 => 0..=512u16, 1 => Just(512u16), 1 => Just(513u16)]);
    (any::<bool>(), 0..3u8, b32(), b32(), lens, prop_oneof![1 => 1..600u16, 2 => 238..243u16]).prop_map(|(high, queue, seed, prog, lens, age)| Use { high, queue, seed, prog, lens, age })
}
fn c35_use(c: &Use) -> Outcome {
    let mut o = Outcome::default();
    let cst = cast();
    let Some(mut bank) = base() else { return o };
    let orc = &cst.oracles[0];
    let sk = |k: sdk::Pubkey| Pubkey::new_from_array(k.to_bytes());
    let queue = match c.queue {
        0 => sk(sdk::consts::DEFAULT_EPHEMERAL_QUEUE),
        1 => sk(sdk::consts::DEFAULT_QUEUE),
        _ => orc.queues[0],
    };
    let own = bank.get(&orc.queues[0]);
    bank.accts.insert(queue, own);
    let prog = Pubkey::new_from_array(c.prog.0);
    if bank.accts.contains_key(&prog) {
        return o;
    }
    bank.accts.insert(prog, Acct { lamports: 1, data: vec![1; 36], owner: cst.loader, executable: true });
    let ident = pda(&[sdk::consts::IDENTITY], &prog);
    let payer = cst.users[0];
    let (nd, nm, na) = (c.lens.0 as usize, c.lens.1 as usize, c.lens.2 as usize);
    let metas: Vec<Pubkey> = (0..nm).map(|i| Pubkey::new_from_array([i as u8 + 100; 32])).collect();
    let p = sdk::instructions::RequestRandomnessParams {
        payer: pk(&payer),
        oracle_queue: pk(&queue),
        callback_program_id: pk(&prog),
        callback_discriminator: vec![7; nd],
        accounts_metas: Some(metas.iter().map(|m| sdk::types::SerializableAccountMeta { pubkey: pk(m), is_signer: false, is_writable: false }).collect()),
        caller_seed: c.seed.0,
        callback_args: Some(vec![5; na]),
    };
    let ix = if c.high { sdk::instructions::create_request_randomness_ix(p) } else { sdk::instructions::create_request_regular_randomness_ix(p) };
    let ok = nd <= 8 && nm <= 20 && na <= 512;
    let before = (bank.get(&payer).lamports, bank.get(&queue).lamports);
    let exec = |bank: &mut Bank, ix: Instruction, signers: &[Pubkey]| bank.exec(&[ix], &TxOpts { signers: signers.iter().copied().collect(), ..Default::default() });
    let r = exec(&mut bank, ix, &[payer, ident]);
    if r.res.is_ok() != ok {
        o.fail("C35", "limits", format!("a request with a discriminator of {nd}, {nm} accounts and {na} argument bytes: {:?}", r.res));
        return o;
    }
    if !ok {
        o.class("over-the-limits");
        o.nontrivial = true;
        return o;
    }
    let price = match (c.queue, c.high) {
        (0, _) => 0,
        (_, true) => api::VRF_HIGH_PRIORITY_LAMPORTS_COST,
        (_, false) => api::VRF_LAMPORTS_COST,
    };
    let moved = (before.0 - bank.get(&payer).lamports, bank.get(&queue).lamports - before.1);
    if moved != (price, price) {
        o.fail("C35", "price", format!("queue {queue} ({}): the payer paid {} and the queue received {}, the price is {price}", ["DEFAULT_EPHEMERAL_QUEUE", "DEFAULT_QUEUE", "own"][c.queue as usize], moved.0, moved.1));
    }
    o.nontrivial = true;
    o.class(["fee-free-queue", "default-queue", "own-queue"][c.queue as usize]);
    if c.queue != 2 {
        return o;
    }
    let Some(item) = decode_queue(&bank.get(&queue).data).and_then(|q| q.items.first().cloned()) else { return o };
    bank.slot += c.age as u64;
    let before = (bank.get(&orc.key).lamports, bank.get(&queue).lamports);
    // expiry as the API names it
    let mut purged = bank.clone();
    let r = exec(&mut purged, api::purge_expired_requests(orc.key, 0), &[]);
    let gone = decode_queue(&purged.get(&queue).data).is_some_and(|q| q.items.is_empty());
    let expired = c.age as u64 > api::QUEUE_TTL_SLOTS;
    if gone != expired {
        o.fail("C35", "ttl", format!("a purge {} slots after the request ({:?}): removed {gone}; QUEUE_TTL_SLOTS is {}", c.age, r.res, api::QUEUE_TTL_SLOTS));
    }
    if expired {
        o.class("expired");
        if purged.get(&orc.key).lamports - before.0 != price {
            o.fail("C35", "price", format!("a purge paid {} for a request of {price}", purged.get(&orc.key).lamports - before.0));
        }
    }
    // the callback comes from the SDK's identity
    let pr = honest_proof(0, &item.id);
    let mut ix = api::provide_randomness(orc.key, queue, prog, item.id, pod(pr[0]), pod(pr[1]), pod(pr[2]), solana_curve(pr[3]));
    ix.accounts.extend(metas.iter().map(|m| solana_program::instruction::AccountMeta::new_readonly(*m, false)));
    let r = exec(&mut bank, ix, &[orc.key]);
    if r.res.is_ok() {
        let id = sk(sdk::consts::VRF_PROGRAM_IDENTITY);
        let first = r.calls.iter().find(|x| x.program == prog).and_then(|x| x.metas.first().cloned());
        if !first.as_ref().is_some_and(|m| m.pubkey == id && m.is_signer) {
            o.fail("C35", "callback-identity", format!("the callback's first account is {first:?}, the SDK's identity is {id}"));
        }
        if bank.get(&orc.key).lamports - before.0 != price {
            o.fail("C35", "price", format!("a fulfilment paid {} for a request of {price}", bank.get(&orc.key).lamports - before.0));
        }
        o.class("delivered");
    } else {
        o.class("not-delivered");
    }
    // the proof follows from the API's prefixes and base point
    if let Err(e) = prefixes(&orc.pk, &item.id, &pr) {
        o.fail("C35", "prefixes", e);
    }
    o
}
fn pk(k: &Pubkey) -> sdk::Pubkey {
    sdk::Pubkey::new_from_array(k.to_bytes())
}
fn pod(b: [u8; 32]) -> solana_curve25519::ristretto::PodRistrettoPoint {
    solana_curve25519::ristretto::PodRistrettoPoint(b)
}
fn solana_curve(b: [u8; 32]) -> solana_curve25519::scalar::PodScalar {
    solana_curve25519::scalar::PodScalar(b)
}
/// The off-chain prover's proof satisfies the verification equations written with the API's constants.
fn prefixes(pk: &[u8; 32], input: &[u8; 32], pr: &[[u8; 32]; 4]) -> Result<(), String> {
    let base = CompressedRistretto(api::RISTRETTO_BASEPOINT_POINT.0).decompress().ok_or("base point")?;
    let pt = |b: [u8; 32]| CompressedRistretto(b).decompress().ok_or("point");
    let h = Scalar::from_bytes_mod_order(hashv(&[api::VRF_PREFIX_HASH_TO_POINT, input]).to_bytes()) * base;
    let c = hashv(&[api::VRF_PREFIX_CHALLENGE, &pr[0], &pr[1], &pr[2], pk, input]).to_bytes();
    let c = Scalar::from_bytes_mod_order(hashv(&[api::VRF_PREFIX_HASH_TO_SCALAR, &c]).to_bytes());
    let s = Scalar::from_bytes_mod_order(pr[3]);
    if s * base != pt(pr[1])? + c * pt(*pk)? || s * h != pt(pr[2])? + c * pt(pr[0])? {
        return Err("the prover's proof does not satisfy the equations under the API's prefixes and base point".into());
    }
    Ok(())
}

pub fn run(h: &mut Harness) {
    h.enumerate("constants", "each constant compared with its derivation and with the other components", true, relations(), c35_consts);
    h.part("addresses", "every case: ten helpers in four flavours against the delegation program's API, and the program's addresses", (4_000, 400_000), addr, c35_pdas);
    h.part("behaviour", "a request at or around the limits ran", (20_000, 1_000_000), uses, c35_use);
    h.assume("DEFAULT_QUEUE and DEFAULT_EPHEMERAL_QUEUE are addresses of deployed queues: their owner's identity is not in the repository, so they are compared between components, not derived");
    let _ = guard(|| ());
}

//! C27: request instructions.
use crate::flavours;
use chain::cast::{cast, pda};
use chain::crypto::{b32, B32};
use chain::ids::base;
use chain::svm::*;
use chain::view::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use vcore::{guard, Harness, Outcome};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    pub regular: bool,
    payer: B32,
    /// None: the queue of the simulated chain
    queue: Option<B32>,
    prog: B32,
    #[serde(with = "vcore::hexbytes")]
    disc: Vec<u8>,
    metas: Option<Vec<(B32, bool, bool)>>,
    seed: B32,
    args: Option<Blob>,
    slot: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Blob(#[serde(with = "vcore::hexbytes")] pub Vec<u8>);

fn len(limit: usize, big: usize) -> BoxedStrategy<usize> {
    prop_oneof![6 => 0..=limit, 1 => Just(limit), 1 => Just(limit + 1), 1 => Just(0usize), 1 => limit..=big].boxed()
}
fn req() -> impl Strategy<Value = Req> {
    let bytes = |l: BoxedStrategy<usize>| l.prop_flat_map(|n| prop::collection::vec(any::<u8>(), n)).boxed();
    let metas = len(20, 60).prop_flat_map(|n| prop::collection::vec((b32(), any::<bool>(), any::<bool>()), n));
    (
        any::<bool>(),
        b32(),
        prop_oneof![3 => Just(None), 1 => b32().prop_map(Some)],
        b32(),
        bytes(len(8, 40)),
        prop_oneof![1 => Just(None), 5 => metas.prop_map(Some)],
        b32(),
        prop_oneof![1 => Just(None), 5 => bytes(len(512, 2000)).prop_map(|b| Some(Blob(b)))],
        any::<u32>(),
    )
        .prop_map(|(regular, payer, queue, prog, disc, metas, seed, args, slot)| Req { regular, payer, queue, prog, disc, metas, seed, args, slot })
}
fn encode(c: &Req, queue: &Pubkey) -> Vec<u8> {
    let mut v = vec![1u8, c.regular as u8];
    v.extend(c.payer.0);
    v.extend(queue.to_bytes());
    v.extend(c.prog.0);
    v.extend((c.disc.len() as u32).to_le_bytes());
    v.extend(&c.disc);
    v.push(c.metas.is_some() as u8);
    if let Some(m) = &c.metas {
        v.extend((m.len() as u32).to_le_bytes());
        for (k, s, w) in m {
            v.extend(k.0);
            v.push(*s as u8);
            v.push(*w as u8);
        }
    }
    v.extend(c.seed.0);
    v.push(c.args.is_some() as u8);
    if let Some(a) = &c.args {
        v.extend((a.0.len() as u32).to_le_bytes());
        v.extend(&a.0);
    }
    v
}
pub fn parse_ix(b: &[u8]) -> Instruction {
    let k = |o: usize| Pubkey::new_from_array(b[o..o + 32].try_into().unwrap());
    let n = u32::from_le_bytes(b[32..36].try_into().unwrap()) as usize;
    let accounts = (0..n).map(|i| AccountMeta { pubkey: k(36 + 34 * i), is_signer: b[68 + 34 * i] == 1, is_writable: b[69 + 34 * i] == 1 }).collect();
    Instruction { program_id: k(0), accounts, data: b[40 + 34 * n..].to_vec() }
}

fn c27(c: &Req) -> Outcome {
    let mut o = Outcome::default();
    let cst = cast();
    let own = cst.oracles[0].queues[0];
    let queue = c.queue.as_ref().map_or(own, |q| Pubkey::new_from_array(q.0));
    let inp = encode(c, &queue);
    let mut first: Option<Vec<u8>> = None;
    for f in flavours() {
        match f.call(&inp) {
            Err(e) => o.fail("C27", "panic", e),
            Ok(b) => match &first {
                None => first = Some(b),
                Some(a) if *a != b => o.fail("C27", format!("flavour-{}-differs", f.name), format!("flavour {} builds {:?}, the default flavour {:?}", f.name, parse_ix(&b), parse_ix(a))),
                _ => {}
            },
        }
    }
    let Some(b) = first else { return o };
    let ix = parse_ix(&b);
    let prog = Pubkey::new_from_array(c.prog.0);
    let payer = Pubkey::new_from_array(c.payer.0);
    let ident = pda(&[b"identity"], &prog);
    let metas: Vec<(Pubkey, bool, bool)> = c.metas.iter().flatten().map(|(k, s, w)| (Pubkey::new_from_array(k.0), *s, *w)).collect();
    let args = c.args.clone().map(|a| a.0).unwrap_or_default();
    // accounts
    if ix.program_id != vrf() {
        o.fail("C27", "program", format!("the instruction targets {}", ix.program_id));
    }
    let want = vec![
        AccountMeta::new(payer, true),
        AccountMeta::new_readonly(ident, true),
        AccountMeta::new(queue, false),
        AccountMeta::new_readonly(SYS, false),
        AccountMeta::new_readonly(cst.slot_hashes, false),
    ];
    if ix.accounts != want {
        o.fail("C27", "accounts", format!("accounts are {:?} instead of {want:?}", ix.accounts));
    }
    // what the data says
    let tag = if c.regular { 8 } else { 3 };
    if ix.data.len() < 8 || ix.data[..8] != [tag, 0, 0, 0, 0, 0, 0, 0] {
        o.fail("C27", "priority", format!("the data starts with {:?}, a {} request starts with {tag}", ix.data.get(..8), if c.regular { "regular" } else { "high priority" }));
        return o;
    }
    match decode_request(&ix.data[8..]) {
        None => o.fail("C27", "undecodable", format!("the data cannot be decoded: {:?}", ix.data)),
        Some(a) => {
            let want = ReqArgs { seed: c.seed.0, prog, disc: c.disc.clone(), metas: metas.clone(), args: args.clone() };
            let same = a.seed == want.seed && a.prog == want.prog && a.disc == want.disc && a.metas == want.metas && a.args == want.args;
            if !same {
                o.fail("C27", "parameters", format!("decodes to {a:?} instead of {want:?}"));
            }
        }
    }
    // the program's own decoder
    match guard(|| ephemeral_vrf_api::prelude::RequestRandomness::try_from_bytes(&ix.data[8..])) {
        Ok(Ok(r)) => {
            let same = r.caller_seed == c.seed.0
                && r.callback_program_id == prog
                && r.callback_discriminator == c.disc
                && r.callback_args == args
                && r.callback_accounts_metas.len() == metas.len()
                && r.callback_accounts_metas.iter().zip(&metas).all(|(a, b)| a.pubkey == b.0.to_bytes() && a.is_signer == b.1 && a.is_writable == b.2);
            if !same {
                o.fail("C27", "parameters-on-chain", format!("the program decodes {r:?}"));
            }
        }
        Ok(Err(e)) => o.fail("C27", "rejected-by-decoder", format!("the program cannot decode the request: {e}")),
        Err(e) => o.fail("C27", "rejected-by-decoder", e),
    }
    // run it
    let within = c.disc.len() <= 8 && metas.len() <= 20 && args.len() <= 512;
    if queue != own || !o.viols.is_empty() {
        o.nontrivial = o.viols.is_empty();
        o.class("built-only");
        return o;
    }
    let Some(mut bank) = base() else {
        o.class("no-chain");
        return o;
    };
    if bank.accts.contains_key(&payer) || payer == ident || prog == SYS {
        return o;
    }
    bank.slot += (c.slot % 5000) as u64;
    bank.accts.insert(payer, Acct { lamports: 1_000_000_000, data: vec![], owner: SYS, executable: false });
    let before = bank.get(&queue);
    let signers: BTreeSet<Pubkey> = [payer, ident].into_iter().collect();
    let r = bank.exec(std::slice::from_ref(&ix), &TxOpts { signers, ..Default::default() });
    match r.res {
        Ok(()) => {
            let items = decode_queue(&bank.get(&queue).data).map(|q| q.items).unwrap_or_default();
            let fee = if c.regular { 500_000 } else { 800_000 };
            let wm: Vec<Meta> = metas.iter().map(|m| Meta { key: m.0, writable: m.2 }).collect();
            let ok = items.len() == 1 && {
                let i = &items[0];
                i.prog == prog && i.disc == c.disc && i.args == args && i.metas == wm && i.high != c.regular && i.slot == bank.slot
            };
            if !ok {
                o.fail("C27", "stored", format!("the queue holds {items:?} for {c:?}"));
            }
            if bank.get(&queue).lamports != before.lamports + fee || bank.get(&payer).lamports != 1_000_000_000 - fee {
                o.fail("C27", "charged", format!("a {} request moved {} lamports to the queue", if c.regular { "regular" } else { "high priority" }, bank.get(&queue).lamports as i128 - before.lamports as i128));
            }
            o.nontrivial = true;
            o.class("accepted");
            if !within {
                o.class("accepted-beyond-limits");
            }
        }
        Err(e) if within => o.fail("C27", "rejected", format!("the program rejects the request: {e:?}")),
        Err(_) => {
            o.nontrivial = true;
            o.class("over-the-limits");
        }
    }
    o
}
pub fn run(h: &mut Harness) {
    h.part("requests", "built alike by all four flavours; executed by the program when it names the simulated queue", (120_000, 6_000_000), req, c27);
    h.assume("the simulated runtime models account ownership, signer, writability, rent and CPI rules of the Solana runtime");
}

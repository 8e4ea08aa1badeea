//! Fixed keys, programs and derived addresses of the simulated world.
use crate::svm::*;
use curve25519_dalek::scalar::Scalar;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub const IDX: [u8; 4] = [0, 1, 7, 255];
pub const N_ID: usize = 5;

pub fn seed_bytes(tag: &str) -> [u8; 32] {
    solana_program::hash::hash(format!("verif:{tag}").as_bytes()).to_bytes()
}
pub fn keypair(tag: &str) -> Keypair {
    Keypair::new_from_array(seed_bytes(tag))
}
pub fn pda(seeds: &[&[u8]], p: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(seeds, p).0
}

pub struct Oracle {
    pub key: Pubkey,
    pub sk: Scalar,
    pub pk: [u8; 32],
    pub data: Pubkey,
    pub queues: [Pubkey; 4],
    pub bytes: [u8; 64],
}
pub struct Cast {
    pub oracles: Vec<Oracle>,
    pub admins: Vec<Pubkey>,
    pub users: Vec<Pubkey>,
    pub poor: Pubkey,
    pub progs: Vec<Pubkey>,
    pub idents: Vec<Pubkey>,
    pub registry: Pubkey,
    pub program_data: Pubkey,
    /// other loader accounts whose authority is user 0: a program's data, and a buffer
    pub foreign_data: [Pubkey; 2],
    pub identity: Pubkey,
    pub slot_hashes: Pubkey,
    pub recent: Pubkey,
    pub clock: Pubkey,
    pub clones: Vec<Pubkey>,
    pub fresh: Vec<Pubkey>,
    pub default_queue: Pubkey,
    pub off_curve: Pubkey,
    pub sysvar_owner: Pubkey,
    pub loader: Pubkey,
    pub keypairs: BTreeSet<Pubkey>,
    /// every address an account slot can be replaced with
    pub universe: Vec<Pubkey>,
    pub prog_ids: Vec<Pubkey>,
}

pub fn cast() -> &'static Cast {
    static C: OnceLock<Cast> = OnceLock::new();
    C.get_or_init(|| {
        let v = vrf();
        let oracles: Vec<Oracle> = (0..N_ID)
            .map(|i| {
                let kp = keypair(&format!("oracle{i}"));
                let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(&kp);
                let key = kp.pubkey();
                let mut queues = [Pubkey::default(); 4];
                for (j, q) in queues.iter_mut().enumerate() {
                    *q = pda(&[b"queue", key.as_ref(), &[IDX[j]]], &v);
                }
                Oracle { key, sk, pk: pk.compress().to_bytes(), data: pda(&[b"oracle", key.as_ref()], &v), queues, bytes: kp.to_bytes() }
            })
            .collect();
        let ks = |t: &str, n: usize| (0..n).map(|i| keypair(&format!("{t}{i}")).pubkey()).collect::<Vec<_>>();
        let admins = ks("admin", 2);
        let users = ks("user", 3);
        let poor = keypair("poor").pubkey();
        let progs = ks("program", 3);
        let idents: Vec<Pubkey> = progs.iter().map(|p| pda(&[b"identity"], p)).collect();
        let clones = ks("clone", 4);
        let fresh = ks("fresh", 3);
        let loader = solana_sdk_ids::bpf_loader_upgradeable::id();
        let mut keypairs: BTreeSet<Pubkey> = oracles.iter().map(|o| o.key).collect();
        keypairs.extend(admins.iter().chain(&users).chain(&clones).chain(&fresh).copied());
        keypairs.insert(poor);
        let registry = pda(&[b"oracles"], &v);
        let program_data = pda(&[v.as_ref()], &loader);
        let foreign_data = [pda(&[progs[0].as_ref()], &loader), keypair("loader-buffer").pubkey()];
        let identity = pda(&[b"identity"], &v);
        let slot_hashes = solana_sdk_ids::sysvar::slot_hashes::id();
        let recent = solana_sdk_ids::sysvar::recent_blockhashes::id();
        let clock = solana_sdk_ids::sysvar::clock::id();
        let mut universe = vec![];
        for o in &oracles {
            universe.push(o.key);
            universe.push(o.data);
            universe.extend(o.queues);
        }
        universe.extend(admins.iter().chain(&users).chain(&progs).chain(&idents).chain(&clones).chain(&fresh).copied());
        universe.extend([poor, registry, program_data, identity, slot_hashes, recent, clock, SYS, v, dlp(), magic(), magic_ctx(), loader]);
        for o in oracles.iter().take(2) {
            for q in o.queues.iter().take(2) {
                universe.extend([delegate_buffer(q), dlp_record(q), dlp_metadata(q), undelegate_buffer(q)]);
            }
        }
        universe.extend(foreign_data);
        let mut prog_ids: Vec<Pubkey> = progs.clone();
        prog_ids.extend([dlp(), magic(), loader]);
        #[cfg(feature = "hooks")]
        assert_eq!(oracles[0].queues[2], ephemeral_vrf_api::prelude::DEFAULT_EPHEMERAL_QUEUE, "hook address");
        Cast {
            default_queue: oracles[0].queues[2],
            oracles,
            admins,
            users,
            poor,
            progs,
            idents,
            registry,
            program_data,
            foreign_data,
            identity,
            slot_hashes,
            recent,
            clock,
            clones,
            fresh,
            off_curve: registry,
            sysvar_owner: solana_sdk_ids::sysvar::id(),
            loader,
            keypairs,
            universe,
            prog_ids,
        }
    })
}
pub fn name_of(k: &Pubkey) -> String {
    let c = cast();
    for (i, o) in c.oracles.iter().enumerate() {
        if o.key == *k {
            return format!("oracle{i}");
        }
        if o.data == *k {
            return format!("oracle{i}.data");
        }
        for (j, q) in o.queues.iter().enumerate() {
            if q == k {
                return format!("oracle{i}.queue[{}]", IDX[j]);
            }
        }
    }
    if let Some(i) = c.foreign_data.iter().position(|x| x == k) {
        return ["data-of-another-program", "loader-buffer"][i].into();
    }
    for (n, l) in [("admin", &c.admins), ("user", &c.users), ("prog", &c.progs), ("identity-of-prog", &c.idents), ("clone", &c.clones), ("fresh", &c.fresh)] {
        if let Some(i) = l.iter().position(|x| x == k) {
            return format!("{n}{i}");
        }
    }
    for (n, x) in [("poor", c.poor), ("registry", c.registry), ("program_data", c.program_data), ("vrf-identity", c.identity), ("slot_hashes", c.slot_hashes), ("system", SYS), ("vrf", vrf())] {
        if x == *k {
            return n.into();
        }
    }
    k.to_string()
}
/// The randomness public key an identity derives, as the library computes it.
pub fn public_of(k: &Keypair) -> [u8; 32] {
    ephemeral_vrf::vrf::generate_vrf_keypair(k).1.compress().to_bytes()
}

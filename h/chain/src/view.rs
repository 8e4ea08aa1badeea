//! Independent decoders of the on-chain account layouts (reference side).
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub key: Pubkey,
    pub writable: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub id: [u8; 32],
    pub slot: u64,
    pub prog: Pubkey,
    pub disc: Vec<u8>,
    pub metas: Vec<Meta>,
    pub args: Vec<u8>,
    pub high: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct QueueView {
    pub count: u32,
    pub index: u8,
    pub items: Vec<Item>,
    /// offset (within the account) just behind the last pending item, aligned
    pub end: usize,
}

pub const HDR: usize = 8 + 16;
pub const ITEM: usize = 96;

fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
fn u16_at(d: &[u8], o: usize) -> usize {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as usize
}

pub fn is_queue(d: &[u8]) -> bool {
    d.len() >= 20 && d[..8] == [3, 0, 0, 0, 0, 0, 0, 0]
}

pub fn item_size(disc: usize, metas: usize, args: usize) -> usize {
    ITEM + disc + 33 * metas + args
}

/// Decode an initialized queue account (with its 8-byte discriminator).
pub fn decode_queue(d: &[u8]) -> Option<QueueView> {
    if !is_queue(d) {
        return None;
    }
    let b = &d[8..];
    let (count, cursor, index) = (u32_at(b, 0), u32_at(b, 4) as usize, b[8]);
    if cursor > b.len() && cursor != 16 {
        return None;
    }
    let mut items = vec![];
    let mut p = 16;
    let mut end = 16;
    while p + ITEM <= cursor {
        let it = &b[p..p + ITEM];
        let (dl, ml, al) = (u16_at(it, 84), u16_at(it, 86), u16_at(it, 88));
        let next = (p + item_size(dl, ml, al) + 7) & !7;
        if it[91] == 1 {
            let (d0, m0, a0) = (u32_at(it, 72) as usize, u32_at(it, 76) as usize, u32_at(it, 80) as usize);
            items.push(Item {
                slot: u64::from_le_bytes(it[0..8].try_into().unwrap()),
                id: it[8..40].try_into().unwrap(),
                prog: Pubkey::new_from_array(it[40..72].try_into().unwrap()),
                disc: b.get(d0..d0 + dl)?.to_vec(),
                metas: b.get(m0..m0 + 33 * ml)?.chunks(33).map(|m| Meta { key: Pubkey::new_from_array(m[..32].try_into().unwrap()), writable: m[32] != 0 }).collect(),
                args: b.get(a0..a0 + al)?.to_vec(),
                high: it[90] == 1,
            });
            end = next;
        } else if it[91] != 0 {
            return None;
        }
        p = next;
    }
    Some(QueueView { count, index, items, end: end + 8 })
}

/// The same queue with other slots for requests from before `now` (the mask chooses which): an id is
/// made for one slot, so a request of this slot that expired in it could be repeated.
pub fn reslot(d: &[u8], now: u64, shift: i64, mask: u8) -> Vec<u8> {
    let mut d = d.to_vec();
    let b = &mut d[8..];
    let cursor = (u32_at(b, 4) as usize).min(b.len());
    let (mut p, mut n) = (16, 0);
    while p + ITEM <= cursor {
        if b[p + 91] == 1 {
            let slot = u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
            if mask >> (n % 8) & 1 == 1 && slot < now {
                let slot = if shift < 0 { slot.saturating_sub(shift.unsigned_abs()) } else { slot.saturating_add(shift as u64) };
                b[p..p + 8].copy_from_slice(&slot.to_le_bytes());
            }
            n += 1;
        }
        p = (p + item_size(u16_at(b, p + 84), u16_at(b, p + 86), u16_at(b, p + 88)) + 7) & !7;
    }
    d
}

pub struct OracleView {
    pub vrf_key: [u8; 32],
    pub slot: u64,
    pub open: u64,
}
pub fn decode_oracle(d: &[u8]) -> Option<OracleView> {
    if d.len() != 56 || d[..8] != [1, 0, 0, 0, 0, 0, 0, 0] {
        return None;
    }
    Some(OracleView {
        vrf_key: d[8..40].try_into().unwrap(),
        slot: u64::from_le_bytes(d[40..48].try_into().unwrap()),
        open: u64::from_le_bytes(d[48..56].try_into().unwrap()),
    })
}
pub fn decode_registry(d: &[u8]) -> Option<Vec<Pubkey>> {
    if d.len() < 12 || d[..8] != [0; 8] {
        return None;
    }
    let n = u32_at(d, 8) as usize;
    if d.len() != 12 + 32 * n {
        return None;
    }
    Some(d[12..].chunks(32).map(|c| Pubkey::new_from_array(c.try_into().unwrap())).collect())
}

#[derive(Clone, Debug)]
pub struct ReqArgs {
    pub seed: [u8; 32],
    pub prog: Pubkey,
    pub disc: Vec<u8>,
    pub metas: Vec<(Pubkey, bool, bool)>,
    pub args: Vec<u8>,
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn len(&mut self) -> Option<usize> {
        Some(u32_at(self.take(4)?, 0) as usize)
    }
    fn b(&mut self) -> Option<bool> {
        match self.take(1)?[0] {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
}
/// Reference decoder of a request body.
pub fn decode_request(b: &[u8]) -> Option<ReqArgs> {
    let mut r = Rd(b);
    let seed = r.take(32)?.try_into().unwrap();
    let prog = Pubkey::new_from_array(r.take(32)?.try_into().unwrap());
    let n = r.len()?;
    let disc = r.take(n)?.to_vec();
    let n = r.len()?;
    let mut metas = vec![];
    for _ in 0..n {
        let k = Pubkey::new_from_array(r.take(32)?.try_into().unwrap());
        metas.push((k, r.b()?, r.b()?));
    }
    let n = r.len()?;
    let args = r.take(n)?.to_vec();
    Some(ReqArgs { seed, prog, disc, metas, args })
}
pub fn encode_request(high: bool, a: &ReqArgs) -> Vec<u8> {
    let mut v = vec![if high { 3 } else { 8 }, 0, 0, 0, 0, 0, 0, 0];
    v.extend(a.seed);
    v.extend(a.prog.to_bytes());
    v.extend((a.disc.len() as u32).to_le_bytes());
    v.extend(&a.disc);
    v.extend((a.metas.len() as u32).to_le_bytes());
    for (k, s, w) in &a.metas {
        v.extend(k.to_bytes());
        v.push(*s as u8);
        v.push(*w as u8);
    }
    v.extend((a.args.len() as u32).to_le_bytes());
    v.extend(&a.args);
    v
}

/// Reference VRF in terms of dalek only (independent of the repository's two verifiers).
pub mod rvrf {
    use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
    use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
    use curve25519_dalek::scalar::Scalar;
    fn h(parts: &[&[u8]]) -> [u8; 32] {
        solana_program::hash::hashv(parts).to_bytes()
    }
    pub fn hash_scalar(input: &[u8; 32]) -> Scalar {
        Scalar::from_bytes_mod_order(h(&[b"VRF-Ephem-HashToPoint", input]))
    }
    pub fn challenge(out: &[u8; 32], cb: &[u8; 32], ch: &[u8; 32], pk: &[u8; 32], input: &[u8; 32]) -> Scalar {
        let c = h(&[b"VRF-Ephem-Challenge", out, cb, ch, pk, input]);
        Scalar::from_bytes_mod_order(h(&[b"VRF-Ephem-HashToScalar", &c]))
    }
    fn pt(b: &[u8; 32]) -> Option<RistrettoPoint> {
        CompressedRistretto(*b).decompress()
    }
    pub fn verify(pk: &[u8; 32], input: &[u8; 32], out: &[u8; 32], cb: &[u8; 32], ch: &[u8; 32], s: &[u8; 32]) -> bool {
        let (Some(pkp), Some(o), Some(b), Some(hh)) = (pt(pk), pt(out), pt(cb), pt(ch)) else { return false };
        let Some(s) = Option::<Scalar>::from(Scalar::from_canonical_bytes(*s)) else { return false };
        let hp = hash_scalar(input) * G;
        let c = challenge(out, cb, ch, pk, input);
        s * G == b + c * pkp && s * hp == hh + c * o
    }
}

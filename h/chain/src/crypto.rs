//! C01-C06: the VRF itself, off-chain (`ephemeral_vrf::vrf`) and on-chain (`api::verify`).
//! Nothing here depends on how points or challenges are hashed, except where a forger or
//! attacker recomputes public values (there a changed definition makes the attack fail, it
//! never raises an alarm).
use crate::view::rvrf;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use ephemeral_vrf::vrf as off;
use ephemeral_vrf_api::verify as on;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_curve25519::scalar::PodScalar;
use solana_program::hash::hashv;
use solana_sdk::signature::{Keypair, Signer};
use vcore::{guard, Harness, Outcome};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct B32(#[serde(with = "vcore::hex32")] pub [u8; 32]);

pub fn b32() -> impl Strategy<Value = B32> {
    prop_oneof![
        10 => any::<[u8; 32]>(),
        1 => Just([0u8; 32]),
        1 => Just([255u8; 32]),
        2 => (0..256usize).prop_map(|i| flip([0; 32], i)),
        1 => any::<u8>().prop_map(|b| [b; 32]),
    ]
    .prop_map(B32)
}

pub fn flip(mut b: [u8; 32], i: usize) -> [u8; 32] {
    b[i / 8 % 32] ^= 1 << (i % 8);
    b
}

/// How the secret key of a case is chosen.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Key {
    Identity(B32),
    Scalar(B32),
    Small(u8),
    MinusSmall(u8),
}
pub fn key() -> impl Strategy<Value = Key> {
    prop_oneof![
        6 => b32().prop_map(Key::Identity),
        4 => b32().prop_map(Key::Scalar),
        1 => (1u8..20).prop_map(Key::Small),
        1 => (1u8..20).prop_map(Key::MinusSmall),
    ]
}
pub fn keypair(seed: &[u8; 32]) -> Keypair {
    Keypair::new_from_array(*seed)
}
fn small(n: u64) -> Scalar {
    Scalar::from(n)
}
pub fn sk_of(k: &Key) -> (Scalar, RistrettoPoint) {
    let sk = match k {
        Key::Identity(s) => return off::generate_vrf_keypair(&keypair(&s.0)),
        Key::Scalar(b) => {
            let s = Scalar::from_bytes_mod_order(b.0);
            if s == Scalar::ZERO {
                Scalar::ONE
            } else {
                s
            }
        }
        Key::Small(n) => small(*n as u64),
        Key::MinusSmall(n) => -small(*n as u64),
    };
    (sk, sk * G)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tr {
    pub pk: [u8; 32],
    pub input: [u8; 32],
    pub out: [u8; 32],
    pub cb: [u8; 32],
    pub ch: [u8; 32],
    pub s: [u8; 32],
}
pub fn honest(sk: Scalar, pk: RistrettoPoint, input: &[u8; 32]) -> Tr {
    let (o, (b, h, s)) = off::compute_vrf(sk, input);
    Tr { pk: pk.compress().to_bytes(), input: *input, out: o.to_bytes(), cb: b.to_bytes(), ch: h.to_bytes(), s: s.to_bytes() }
}
/// The hash-to-point of an input, through the code itself: the output under the key 1.
pub fn h_point(input: &[u8; 32]) -> RistrettoPoint {
    off::compute_vrf(Scalar::ONE, input).0.decompress().expect("output is a point")
}
fn pt(b: &[u8; 32]) -> Option<RistrettoPoint> {
    CompressedRistretto(*b).decompress()
}
fn canon(b: &[u8; 32]) -> Option<Scalar> {
    Option::<Scalar>::from(Scalar::from_canonical_bytes(*b))
}
pub fn valid_encoding(t: &Tr) -> bool {
    [t.pk, t.out, t.cb, t.ch].iter().all(|b| pt(b).is_some()) && canon(&t.s).is_some()
}
/// Off-chain answer; None if the parts cannot even be passed to it.
pub fn v_off(t: &Tr) -> Option<Result<bool, String>> {
    let (pk, s) = (pt(&t.pk)?, canon(&t.s)?);
    Some(guard(|| off::verify_vrf(pk, &t.input, CompressedRistretto(t.out), (CompressedRistretto(t.cb), CompressedRistretto(t.ch), s))))
}
pub fn v_on(t: &Tr) -> Result<bool, String> {
    guard(|| on::verify_vrf(&PodRistrettoPoint(t.pk), &t.input, &PodRistrettoPoint(t.out), (&PodRistrettoPoint(t.cb), &PodRistrettoPoint(t.ch), &PodScalar(t.s))))
}

// ---------------------------------------------------------------- C01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Honest {
    key: Key,
    input: B32,
}
fn c01(c: &Honest) -> Outcome {
    let mut o = Outcome::nontrivial();
    let (sk, pk) = sk_of(&c.key);
    let t = honest(sk, pk, &c.input.0);
    match v_off(&t) {
        Some(Ok(true)) => {}
        r => o.fail("C01", "offchain-rejects-honest", format!("off-chain verifier on an honest proof: {r:?}")),
    }
    match v_on(&t) {
        Ok(true) => {}
        r => o.fail("C01", "onchain-rejects-honest", format!("on-chain verifier on an honest proof: {r:?}")),
    }
    o
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Field {
    Pk,
    Input,
    Out,
    Cb,
    Ch,
    S,
}
const FIELDS: [Field; 6] = [Field::Pk, Field::Input, Field::Out, Field::Cb, Field::Ch, Field::S];
fn get(t: &mut Tr, f: Field) -> &mut [u8; 32] {
    match f {
        Field::Pk => &mut t.pk,
        Field::Input => &mut t.input,
        Field::Out => &mut t.out,
        Field::Cb => &mut t.cb,
        Field::Ch => &mut t.ch,
        Field::S => &mut t.s,
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Bit(usize),
    OtherProof,     // the same field of another honest proof
    FromField(Field), // the value of another field of the same proof
    Negate,
    Add(u8),        // + n·G, or + n for scalars and inputs
    Double,
    Zero,           // identity / 0
    One,            // basepoint / 1
    Random(B32),    // random bytes
    RandomValid(B32), // random valid point / scalar
    PlusOrder(u8),  // non-canonical scalar: + n·L
}
fn how() -> impl Strategy<Value = How> {
    prop_oneof![
        3 => (0..256usize).prop_map(How::Bit),
        2 => Just(How::OtherProof),
        2 => prop::sample::select(FIELDS.to_vec()).prop_map(How::FromField),
        2 => Just(How::Negate),
        2 => (1u8..5).prop_map(How::Add),
        1 => Just(How::Double),
        2 => Just(How::Zero),
        2 => Just(How::One),
        1 => b32().prop_map(How::Random),
        2 => b32().prop_map(How::RandomValid),
        2 => (1u8..15).prop_map(How::PlusOrder),
    ]
}
const L: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];
fn add_le(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut r = [0; 32];
    let mut c = 0u16;
    for i in 0..32 {
        c += a[i] as u16 + b[i] as u16;
        r[i] = c as u8;
        c >>= 8;
    }
    r
}
fn mutate(t: &Tr, other: &Tr, f: Field, how: &How) -> Tr {
    let mut m = *t;
    let cur = *get(&mut m, f);
    let is_point = !matches!(f, Field::Input | Field::S);
    let new = match how {
        How::Bit(i) => flip(cur, *i),
        How::OtherProof => *get(&mut other.clone(), f),
        How::FromField(g) => *get(&mut t.clone(), *g),
        How::Random(b) => b.0,
        How::Zero => [0; 32],
        How::PlusOrder(n) => {
            let mut v = cur;
            for _ in 0..*n {
                v = add_le(&v, &L);
            }
            v
        }
        _ if is_point => {
            let p = pt(&cur).unwrap();
            match how {
                How::Negate => -p,
                How::Add(n) => p + small(*n as u64) * G,
                How::Double => p + p,
                How::One => G,
                How::RandomValid(b) => Scalar::from_bytes_mod_order(b.0) * G,
                _ => unreachable!(),
            }
            .compress()
            .to_bytes()
        }
        _ => {
            let s = Scalar::from_bytes_mod_order(cur);
            match how {
                How::Negate => -s,
                How::Add(n) => s + small(*n as u64),
                How::Double => s + s,
                How::One => Scalar::ONE,
                How::RandomValid(b) => Scalar::from_bytes_mod_order(b.0),
                _ => unreachable!(),
            }
            .to_bytes()
        }
    };
    *get(&mut m, f) = new;
    m
}
/// The challenge as the verifiers compute it, or with some ingredients left out (bit i of `v`):
/// an adaptive forger succeeds exactly if the verifiers do bind less than they should.
fn challenge_variant(v: u8, t: &Tr) -> Scalar {
    let parts: [&[u8]; 5] = [&t.out, &t.cb, &t.ch, &t.pk, &t.input];
    let mut list: Vec<&[u8]> = vec![b"VRF-Ephem-Challenge"];
    for (i, p) in parts.iter().enumerate() {
        if v >> i & 1 == 0 {
            list.push(p);
        }
    }
    let c = hashv(&list).to_bytes();
    Scalar::from_bytes_mod_order(hashv(&[b"VRF-Ephem-HashToScalar", &c]).to_bytes())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Forgery {
    /// replace one field of an honest proof
    One(Field, How),
    /// replace two fields
    Two(Field, How, Field, How),
    /// swap the commitments
    SwapCommitments,
    /// no secret key: proof for a guessed key sk' (only one of the two equations can hold)
    GuessedKey { sk2: B32, k: B32, honest_cb: bool },
    /// no secret key: choose response and challenge, solve for the commitments
    Simulated { s: B32, c: B32, small_c: bool, out: B32, true_out: bool },
    /// no secret key, using a challenge that omits ingredients
    AdaptiveNoKey { omit: u8, s: B32, out: B32, true_out: bool, cb_last: bool },
    /// a public key made to fit a proof of an arbitrary output
    ChosenKey { omit: u8, k: B32, r: B32, out: B32 },
    /// with the secret key, for a wrong output; `omit`: ingredient assumed missing from the challenge
    WrongOutput { omit: u8, k: B32, k2: B32, delta: B32, solve: u8 },
    /// with the secret key, output of another input / of the negated key
    RelatedOutput { k: B32, rel: u8 },
}
fn omit() -> impl Strategy<Value = u8> {
    prop_oneof![1 => Just(0u8), 5 => (0u8..5).prop_map(|i| 1 << i), 4 => 0u8..32]
}
fn forgery() -> impl Strategy<Value = Forgery> {
    let f = || prop::sample::select(FIELDS.to_vec());
    prop_oneof![
        8 => (f(), how()).prop_map(|(f, h)| Forgery::One(f, h)),
        4 => (f(), how(), f(), how()).prop_map(|(f, h, g, i)| Forgery::Two(f, h, g, i)),
        1 => Just(Forgery::SwapCommitments),
        2 => (b32(), b32(), any::<bool>()).prop_map(|(sk2, k, honest_cb)| Forgery::GuessedKey { sk2, k, honest_cb }),
        3 => (b32(), b32(), any::<bool>(), b32(), any::<bool>()).prop_map(|(s, c, small_c, out, true_out)| Forgery::Simulated { s, c, small_c, out, true_out }),
        5 => (omit(), b32(), b32(), any::<bool>(), any::<bool>()).prop_map(|(omit, s, out, true_out, cb_last)| Forgery::AdaptiveNoKey { omit, s, out, true_out, cb_last }),
        3 => (omit(), b32(), b32(), b32()).prop_map(|(omit, k, r, out)| Forgery::ChosenKey { omit, k, r, out }),
        6 => (omit(), b32(), b32(), b32(), 0u8..4).prop_map(|(omit, k, k2, delta, solve)| Forgery::WrongOutput { omit, k, k2, delta, solve }),
        2 => (b32(), 0u8..5).prop_map(|(k, rel)| Forgery::RelatedOutput { k, rel }),
    ]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Forge {
    key: Key,
    input: B32,
    key2: Key,
    input2: B32,
    f: Forgery,
}
fn forge() -> impl Strategy<Value = Forge> {
    (key(), b32(), prop_oneof![2 => key().prop_map(Some), 1 => Just(None)], prop_oneof![2 => b32().prop_map(Ok), 1 => (0..256usize).prop_map(Err)], forgery())
        .prop_map(|(key, input, k2, i2, f)| {
            let input2 = match i2 {
                Ok(i) => i,
                Err(bit) => B32(flip(input.0, bit)),
            };
            Forge { key2: k2.unwrap_or_else(|| key.clone()), key, input, input2, f }
        })
}
fn sc(b: &B32) -> Scalar {
    Scalar::from_bytes_mod_order(b.0)
}
fn enc(p: RistrettoPoint) -> [u8; 32] {
    p.compress().to_bytes()
}
fn c02(c: &Forge) -> Outcome {
    let mut o = Outcome::default();
    let (sk, pk) = sk_of(&c.key);
    let input = c.input.0;
    let t = honest(sk, pk, &input);
    let (sk2, pk2) = sk_of(&c.key2);
    let other = honest(sk2, pk2, &c.input2.0);
    let h = h_point(&input);
    let true_out = t.out;
    let mut chosen = None;
    let (m, kind): (Tr, &'static str) = match &c.f {
        Forgery::One(f, how) => (mutate(&t, &other, *f, how), "replaced-one"),
        Forgery::Two(f, a, g, b) => {
            let m1 = mutate(&t, &other, *f, a);
            let mut m = mutate(&t, &other, *g, b);
            if f != g {
                *get(&mut m, *f) = *get(&mut m1.clone(), *f);
            }
            (m, "replaced-two")
        }
        Forgery::SwapCommitments => (Tr { cb: t.ch, ch: t.cb, ..t }, "swapped-commitments"),
        Forgery::GuessedKey { sk2, k, honest_cb } => {
            let (s2, k) = (sc(sk2), sc(k));
            let mut m = Tr { out: enc(s2 * h), ch: enc(k * h), cb: if *honest_cb { enc(k * G) } else { t.cb }, ..t };
            let ch = challenge_variant(0, &m);
            m.s = (k + ch * s2).to_bytes();
            (m, "no-key-guessed-key")
        }
        Forgery::Simulated { s, c, small_c, out, true_out: to } => {
            let (s, ch) = (sc(s), if *small_c { small(c.0[0] as u64) } else { sc(c) });
            let op = if *to { pt(&true_out).unwrap() } else { sc(out) * G };
            (Tr { out: enc(op), cb: enc(s * G - ch * pk), ch: enc(s * h - ch * op), s: s.to_bytes(), ..t }, "no-key-simulated")
        }
        Forgery::AdaptiveNoKey { omit, s, out, cb_last: true, .. } => {
            // works if the challenge does not depend on the first commitment
            let (r, x) = (sc(s), sc(out));
            let mut m = Tr { out: enc(x * h), ch: enc(r * h), ..t };
            let ch = challenge_variant(*omit, &m);
            let s = r + ch * x;
            m.s = s.to_bytes();
            m.cb = enc(s * G - ch * pk);
            (m, "no-key-adaptive-base")
        }
        Forgery::ChosenKey { omit, k, r, out } => {
            // works if the challenge does not depend on the public key
            let (r, x) = (sc(r), sc(out));
            let mut m = Tr { out: enc(x * h), cb: enc(sc(k) * G), ch: enc(r * h), ..t };
            let ch = challenge_variant(*omit, &m);
            let s = r + ch * x;
            m.s = s.to_bytes();
            let key = ch.invert() * (s - sc(k));
            m.pk = enc(key * G);
            chosen = Some(key);
            (m, "chosen-key")
        }
        Forgery::AdaptiveNoKey { omit, s, out, true_out: to, .. } => {
            // works if the challenge does not depend on the commitments
            let s = sc(s);
            let op = if *to { pt(&true_out).unwrap() } else { sc(out) * G };
            let mut m = Tr { out: enc(op), s: s.to_bytes(), ..t };
            let ch = challenge_variant(*omit, &m);
            m.cb = enc(s * G - ch * pk);
            let ch2 = challenge_variant(*omit, &m);
            m.ch = enc(s * h - ch2 * op);
            (m, "no-key-adaptive")
        }
        Forgery::WrongOutput { omit, k, k2, delta, solve } => {
            let (k, k2) = (sc(k), sc(k2));
            let d = if sc(delta) == Scalar::ZERO { Scalar::ONE } else { sc(delta) };
            let wrong = pt(&true_out).unwrap() + d * G;
            let mut m = Tr { out: enc(wrong), cb: enc(k * G), ch: enc(k * h), ..t };
            match solve {
                // plain: honest commitments, only the second equation is wrong
                0 => {}
                // commitment for h solved after the challenge
                1 => {
                    let ch = challenge_variant(*omit, &m);
                    m.ch = enc((k + ch * sk) * h - ch * wrong);
                }
                // output solved after the challenge (arbitrary second commitment)
                2 => {
                    m.ch = enc(k2 * h);
                    let ch = challenge_variant(*omit, &m);
                    let op = ch.invert() * ((k + ch * sk) * h - k2 * h);
                    m.out = enc(op);
                }
                // wrong output with a different nonce in the second commitment
                _ => m.ch = enc(k2 * h),
            }
            let ch = challenge_variant(*omit, &m);
            m.s = (k + ch * sk).to_bytes();
            (m, "with-key-wrong-output")
        }
        Forgery::RelatedOutput { k, rel } => {
            let k = sc(k);
            let h2 = h_point(&c.input2.0);
            let op = match rel {
                0 => sk * h2,
                1 => -(sk * h),
                2 => sk2 * h,
                3 => pk,
                _ => h,
            };
            let mut m = Tr { out: enc(op), cb: enc(k * G), ch: enc(k * h), ..t };
            let ch = challenge_variant(0, &m);
            m.s = (k + ch * sk).to_bytes();
            (m, "with-key-related-output")
        }
    };
    if m == t {
        return o;
    }
    // Which acceptances are wrong: any proof for an output other than the unique one; any
    // single replacement; anything made without the key.
    let sk_for_pk = if chosen.is_some() { chosen } else if m.pk == t.pk { Some(sk) } else if m.pk == other.pk { Some(sk2) } else { None };
    let unique = sk_for_pk.map(|x| off::compute_vrf(x, &m.input).0.to_bytes());
    let must_reject = match &c.f {
        Forgery::WrongOutput { .. } | Forgery::RelatedOutput { .. } | Forgery::ChosenKey { .. } => unique != Some(m.out),
        // a two-field replacement may lead to another honest proof only by coincidence of all fields
        Forgery::Two(..) => m != other,
        Forgery::One(..) => m != other,
        // with a small key a guessed key can be right
        Forgery::GuessedKey { sk2, .. } => sc(sk2) != sk,
        _ => true,
    };
    if !must_reject {
        return o;
    }
    o.nontrivial = true;
    o.class(kind);
    if valid_encoding(&m) {
        o.class("valid-encoding");
    }
    if let Some(Ok(true)) = v_off(&m) {
        o.fail("C02", format!("offchain-accepts-{kind}"), format!("off-chain verifier accepts a forged proof ({kind}): {m:02x?}"));
    }
    if let Ok(true) = v_on(&m) {
        o.fail("C02", format!("onchain-accepts-{kind}"), format!("on-chain verifier accepts a forged proof ({kind}): {m:02x?}"));
    }
    o
}

/// A challenge from a small range lets a forger guess it before choosing the commitments. The
/// challenge times the public key is public: s*G - commitment. Proofs under one key must not share it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Range {
    key: Key,
    seed: B32,
    n: u16,
}
fn c02_range(c: &Range) -> Outcome {
    let mut o = Outcome::default();
    let (sk, pk) = sk_of(&c.key);
    if sk == Scalar::ZERO {
        return o;
    }
    o.nontrivial = true;
    let mut seen: std::collections::HashMap<[u8; 32], u16> = Default::default();
    for i in 0..c.n {
        let input = hashv(&[&c.seed.0, &i.to_le_bytes()]).to_bytes();
        let t = honest(sk, pk, &input);
        let d = enc(canon(&t.s).unwrap() * G - pt(&t.cb).unwrap());
        if let Some(j) = seen.insert(d, i) {
            o.fail("C02", "challenge-range".to_string(), format!("proofs {j} and {i} of {} under one key have the same challenge: it comes from a small range and can be guessed by a forger", c.n));
            break;
        }
    }
    o
}

// ---------------------------------------------------------------- C03
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Honest,
    Other,
    Mut(How),
    OfField(Field),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shape {
    /// every field chosen on its own
    Fields(Vec<Val>),
    /// valid proof with a chosen nonce (also for degenerate keys)
    Nonce { k: B32, small_k: Option<u8>, zero_key: bool },
    Forged(Forgery),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Agree {
    key: Key,
    input: B32,
    key2: Key,
    input2: B32,
    shape: Shape,
}
fn agree() -> impl Strategy<Value = Agree> {
    let val = prop_oneof![6 => Just(Val::Honest), 1 => Just(Val::Other), 3 => how().prop_map(Val::Mut), 1 => prop::sample::select(FIELDS.to_vec()).prop_map(Val::OfField)];
    let shape = prop_oneof![
        6 => prop::collection::vec(val, 6).prop_map(Shape::Fields),
        3 => (b32(), prop_oneof![2 => Just(None), 1 => (0u8..3).prop_map(Some)], prop::bool::weighted(0.2)).prop_map(|(k, small_k, zero_key)| Shape::Nonce { k, small_k, zero_key }),
        2 => forgery().prop_map(Shape::Forged),
    ];
    (key(), b32(), key(), b32(), shape).prop_map(|(key, input, key2, input2, shape)| Agree { key, input, key2, input2, shape })
}
fn c03(c: &Agree) -> Outcome {
    let mut o = Outcome::default();
    let (mut sk, mut pk) = sk_of(&c.key);
    let input = c.input.0;
    let (sk2, pk2) = sk_of(&c.key2);
    let other = honest(sk2, pk2, &c.input2.0);
    let m = match &c.shape {
        Shape::Fields(vals) => {
            let t = honest(sk, pk, &input);
            let mut m = t;
            for (f, v) in FIELDS.iter().zip(vals) {
                let r = match v {
                    Val::Honest => continue,
                    Val::Other => mutate(&t, &other, *f, &How::OtherProof),
                    Val::Mut(h) => mutate(&t, &other, *f, h),
                    Val::OfField(g) => mutate(&t, &other, *f, &How::FromField(*g)),
                };
                *get(&mut m, *f) = *get(&mut r.clone(), *f);
            }
            m
        }
        Shape::Nonce { k, small_k, zero_key } => {
            if *zero_key {
                sk = Scalar::ZERO;
                pk = sk * G;
            }
            let k = small_k.map(|n| small(n as u64)).unwrap_or(sc(k));
            let h = h_point(&input);
            let mut m = Tr { pk: enc(pk), input, out: enc(sk * h), cb: enc(k * G), ch: enc(k * h), s: [0; 32] };
            m.s = (k + challenge_variant(0, &m) * sk).to_bytes();
            m
        }
        Shape::Forged(f) => {
            // wrong outputs and guessed keys, the forms whose encodings are all valid
            let t = honest(sk, pk, &input);
            match f {
                Forgery::One(f, h) => mutate(&t, &other, *f, h),
                Forgery::Two(f, a, g, b) => mutate(&mutate(&t, &other, *f, a), &other, *g, match b {
                    // points of the first mutation may be invalid: only byte-level second mutations
                    How::Bit(_) | How::OtherProof | How::Zero | How::Random(_) => b,
                    _ if f == g => return o,
                    b => b,
                }),
                Forgery::SwapCommitments => Tr { cb: t.ch, ch: t.cb, ..t },
                Forgery::WrongOutput { k, delta, .. } => {
                    let k = sc(k);
                    let h = h_point(&input);
                    let mut m = Tr { out: enc(pt(&t.out).unwrap() + sc(delta) * G), cb: enc(k * G), ch: enc(k * h), ..t };
                    m.s = (k + challenge_variant(0, &m) * sk).to_bytes();
                    m
                }
                _ => return o,
            }
        }
    };
    let on = v_on(&m);
    let off = v_off(&m);
    if let Err(e) = &on {
        o.fail("C03", "onchain-panic", format!("on-chain verifier panics: {e} on {m:02x?}"));
        return o;
    }
    if valid_encoding(&m) {
        o.nontrivial = true;
        o.class(if on == Ok(true) { "valid-accepted" } else { "valid-rejected" });
        if off != Some(on.clone()) {
            o.fail("C03", "verifiers-disagree", format!("on-chain {on:?}, off-chain {off:?} on {m:02x?}"));
        }
    } else {
        o.class("invalid-encoding");
        if on == Ok(true) {
            o.fail("C03", "onchain-accepts-invalid-encoding", format!("on-chain verifier accepts invalid encodings {m:02x?}"));
        }
        if let Some(Err(e)) = &off {
            o.fail("C03", "offchain-panic", format!("off-chain verifier panics: {e} on {m:02x?}"));
        }
    }
    o
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Det {
    seed: B32,
    seed_bits: Vec<usize>,
    other_seed: B32,
    input: B32,
    input_bits: Vec<usize>,
    other_input: B32,
}
fn det() -> impl Strategy<Value = Det> {
    (b32(), prop::collection::vec(0..256usize, 1..4), b32(), b32(), prop::collection::vec(0..256usize, 1..6), b32())
        .prop_map(|(seed, seed_bits, other_seed, input, input_bits, other_input)| Det { seed, seed_bits, other_seed, input, input_bits, other_input })
}
fn dedup(mut v: Vec<[u8; 32]>) -> Vec<[u8; 32]> {
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(*x));
    v
}
fn c04(c: &Det) -> Outcome {
    let mut o = Outcome::nontrivial();
    let mut seeds = vec![c.seed.0, c.other_seed.0];
    seeds.extend(c.seed_bits.iter().map(|b| flip(c.seed.0, *b)));
    let seeds = dedup(seeds);
    let mut inputs = vec![c.input.0, c.other_input.0];
    inputs.extend(c.input_bits.iter().map(|b| flip(c.input.0, *b)));
    let inputs = dedup(inputs);
    let keys: Vec<_> = seeds.iter().map(|s| off::generate_vrf_keypair(&keypair(s))).collect();
    for (i, s) in seeds.iter().enumerate() {
        let again = off::generate_vrf_keypair(&keypair(s));
        if again != keys[i] {
            o.fail("C04", "keygen-not-deterministic", format!("two key derivations of {s:02x?} differ"));
        }
        if keys[i].0 * G != keys[i].1 {
            o.fail("C04", "pk-not-skG", format!("public key is not secret times base point for {s:02x?}"));
        }
        for j in 0..i {
            if keys[j].1 == keys[i].1 || keys[j].0 == keys[i].0 {
                o.fail("C04", "same-key-for-different-identities", format!("{:02x?} and {s:02x?}", seeds[j]));
            }
        }
    }
    let (sk, pk) = keys[0];
    let ts: Vec<_> = inputs.iter().map(|i| honest(sk, pk, i)).collect();
    for (i, inp) in inputs.iter().enumerate() {
        if i < 2 && honest(sk, pk, inp) != ts[i] {
            o.fail("C04", "compute-not-deterministic", format!("{inp:02x?}"));
        }
        for j in 0..i {
            if ts[j].out == ts[i].out {
                o.fail("C04", "same-output-for-different-inputs", format!("{:02x?} and {inp:02x?}", inputs[j]));
            }
        }
    }
    let outs: Vec<_> = keys.iter().map(|k| off::compute_vrf(k.0, &c.input.0).0).collect();
    for i in 0..outs.len() {
        for j in 0..i {
            if outs[i] == outs[j] {
                o.fail("C04", "same-output-for-different-keys", format!("{:02x?} and {:02x?}", seeds[j], seeds[i]));
            }
        }
    }
    o
}

// ---------------------------------------------------------------- C05
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Leak {
    seed: B32,
    seed2: B32,
    secret_bit: usize,
    sk_bit: usize,
    input: B32,
    bits: Vec<usize>,
    more: Vec<B32>,
}
fn leak() -> impl Strategy<Value = Leak> {
    (b32(), b32(), 0..256usize, 0..252usize, b32(), prop::collection::vec(0..256usize, 1..4), prop::collection::vec(b32(), 1..4))
        .prop_map(|(seed, seed2, secret_bit, sk_bit, input, bits, more)| Leak { seed, seed2, secret_bit, sk_bit, input, bits, more })
}
/// A keypair object with one bit of its secret half changed and the public half kept
/// (not a valid identity; shows what the key derivation depends on).
fn with_secret_bit(kp: &Keypair, bit: usize) -> Option<Keypair> {
    let mut k = kp.insecure_clone();
    let seed: [u8; 32] = kp.to_bytes()[..32].try_into().unwrap();
    let n = std::mem::size_of::<Keypair>();
    let raw = unsafe { std::slice::from_raw_parts_mut(&mut k as *mut Keypair as *mut u8, n) };
    let at = raw.windows(32).position(|w| w == seed)?;
    raw[at..at + 32].copy_from_slice(&flip(seed, bit));
    let (a, b) = (kp.to_bytes(), k.to_bytes());
    (a[32..] == b[32..] && a[..32] != b[..32]).then_some(k)
}
fn words_shared(a: &Scalar, b: &Scalar) -> bool {
    a.to_bytes().chunks(8).zip(b.to_bytes().chunks(8)).any(|(x, y)| x == y)
}
/// No 64-bit word of a full-size scalar is all zero (2^-62 by chance).
fn short(a: &Scalar) -> bool {
    a.to_bytes().chunks(8).any(|w| w.iter().all(|b| *b == 0)) || (-a).to_bytes().chunks(8).any(|w| w.iter().all(|b| *b == 0))
}
/// Scalars an outsider can compute from public data.
fn public_scalars(t: &Tr) -> Vec<Scalar> {
    let mut v = vec![];
    let datas: [&[u8]; 7] = [&t.input, &t.pk, &t.out, &t.cb, &t.ch, &[], b"VRF-Nonce"];
    for pre in [&b""[..], b"VRF-Ephem-Nonce", b"VRF-Ephem-HashToPoint", b"VRF-Ephem-HashToScalar", b"VRF-Ephem-Challenge", b"VRF-Nonce"] {
        for d in datas {
            v.push(Scalar::from_bytes_mod_order(hashv(&[pre, d]).to_bytes()));
        }
        v.push(Scalar::from_bytes_mod_order(hashv(&[pre, &t.pk, &t.input]).to_bytes()));
        v.push(Scalar::from_bytes_mod_order(hashv(&[pre, &t.input, &t.pk]).to_bytes()));
    }
    v.push(Scalar::from_bytes_mod_order(t.input));
    v.push(Scalar::from_bytes_mod_order(t.pk));
    v.push(Scalar::ZERO);
    v.push(Scalar::ONE);
    v.push(rvrf::challenge(&t.out, &t.cb, &t.ch, &t.pk, &t.input));
    v
}
/// Scalars an outsider gets from public data alone with the constructions used for nonces.
fn public_nonces(t: &Tr) -> Vec<Scalar> {
    use sha2::{Digest, Sha512};
    let data = [t.pk, t.input, t.out, t.cb, t.ch, enc(h_point(&t.input))];
    let mut ikms: Vec<Vec<u8>> = vec![vec![]];
    for a in data {
        ikms.push(a.to_vec());
        ikms.extend(data.iter().map(|b| [a, *b].concat()));
    }
    let mut v = vec![];
    let mut both = |b: [u8; 64]| {
        v.push(Scalar::from_bytes_mod_order(b[..32].try_into().unwrap()));
        v.push(Scalar::from_bytes_mod_order(b[32..].try_into().unwrap()));
        v.push(Scalar::from_bytes_mod_order_wide(&b));
    };
    for ikm in &ikms {
        for salt in [&b""[..], b"VRF-Ephem-Nonce", b"VRF-Nonce"] {
            let hk = hkdf::Hkdf::<Sha512>::new(Some(salt), ikm);
            for info in [&b"VRF-Nonce"[..], b"VRF-Ephem-Nonce", b"", &t.input] {
                let mut okm = [0u8; 64];
                hk.expand(info, &mut okm).unwrap();
                both(okm);
            }
            both(Sha512::digest([salt, ikm].concat()).into());
        }
    }
    v
}
fn c05(c: &Leak) -> Outcome {
    let mut o = Outcome::default();
    let kp = keypair(&c.seed.0);
    let (sk, pk) = off::generate_vrf_keypair(&kp);
    let (skb, pkb) = off::generate_vrf_keypair(&keypair(&c.seed2.0));
    // the VRF secret depends on every bit of the secret half
    if let Some(k2) = with_secret_bit(&kp, c.secret_bit) {
        o.class("secret-half");
        if off::generate_vrf_keypair(&k2).0 == sk {
            o.fail("C05", "secret-independent-of-secret-half", format!("bit {} of the identity's secret does not influence the VRF secret", c.secret_bit));
        }
    }
    if short(&sk) || (c.seed != c.seed2 && words_shared(&sk, &skb)) {
        o.fail("C05", "secret-not-full-size", "the VRF secret key is not a full-size scalar");
    }
    for p in [kp.pubkey().to_bytes(), pk.compress().to_bytes()] {
        let t0 = Tr { pk: p, input: p, out: p, cb: p, ch: p, s: p };
        if public_scalars(&t0).contains(&sk) {
            o.fail("C05", "secret-from-public-key", "the VRF secret key is a hash of public data");
        }
    }
    let mut inputs = vec![c.input.0];
    inputs.extend(c.bits.iter().map(|b| flip(c.input.0, *b)));
    inputs.extend(c.more.iter().map(|b| b.0));
    let inputs = dedup(inputs);
    let ts: Vec<_> = inputs.iter().map(|i| honest(sk, pk, i)).collect();
    // no shared nonce, whatever the challenge looks like
    for i in 0..ts.len() {
        for j in 0..i {
            if ts[i].cb == ts[j].cb {
                o.fail("C05", "nonce-shared", format!("inputs {:02x?} and {:02x?} share a nonce", inputs[i], inputs[j]));
            }
        }
    }
    // nonces depend on every bit of the secret key
    let sk_near = {
        let mut b = sk.to_bytes();
        b[c.sk_bit / 8] ^= 1 << (c.sk_bit % 8);
        Scalar::from_bytes_mod_order(b)
    };
    let near = honest(sk_near, sk_near * G, &c.input.0);
    if sk_near != sk && near.cb == ts[0].cb {
        o.fail("C05", "nonce-independent-of-secret", format!("bit {} of the secret key does not influence the nonce", c.sk_bit));
    }
    // the nonces themselves (we hold the key, so we can compute them)
    let ch = |t: &Tr| rvrf::challenge(&t.out, &t.cb, &t.ch, &t.pk, &t.input);
    let nonce = |sk: Scalar, t: &Tr| {
        let k = canon(&t.s)? - ch(t) * sk;
        (enc(k * G) == t.cb).then_some(k)
    };
    let Some(ks) = ts.iter().map(|t| nonce(sk, t)).collect::<Option<Vec<_>>>() else {
        o.class("challenge-definition-unknown");
        o.nontrivial = true;
        return o;
    };
    o.nontrivial = true;
    o.class("nonces-recovered");
    for i in 0..ks.len() {
        if short(&ks[i]) {
            o.fail("C05", "nonce-not-full-size", format!("nonce of input {:02x?} is {:02x?}", inputs[i], ks[i].to_bytes()));
        }
        let mut pubs = public_scalars(&ts[i]);
        if i == 0 {
            pubs.extend(public_nonces(&ts[i]));
        }
        for e in &pubs {
            if ks[i] == *e || ks[i] == *e * sk || ks[i] == *e + sk || ks[i] == *e - sk {
                o.fail("C05", "nonce-public", format!("nonce of input {:02x?} follows from public data (or linearly from the secret key)", inputs[i]));
                break;
            }
        }
        for j in 0..i {
            if words_shared(&ks[i], &ks[j]) || short(&(ks[i] - ks[j])) {
                o.fail("C05", "nonces-related", format!("nonces of inputs {:02x?} and {:02x?} share bits", inputs[i], inputs[j]));
            }
        }
    }
    // linear relations to the secret key, independent of any hash definition
    if c.seed != c.seed2 {
        let tb: Vec<_> = inputs.iter().take(2).map(|i| honest(skb, pkb, i)).collect();
        if let Some(kb) = tb.iter().map(|t| nonce(skb, t)).collect::<Option<Vec<_>>>() {
            if kb.len() == 2 {
                let (a0, a1, b0, b1) = (ks[0], ks[1], kb[0], kb[1]);
                if a0 == b0 || a0 * skb == b0 * sk || a0 - sk == b0 - skb || a0 - a1 == b0 - b1 || a0 * b1 == b0 * a1 {
                    o.fail("C05", "nonce-linear-in-secret", format!("nonces of input {:02x?} depend only linearly on the secret key", inputs[0]));
                }
            }
        }
    }
    // direct attacks on the published transcript
    let s: Vec<Scalar> = ts.iter().map(|t| canon(&t.s).unwrap()).collect();
    let cs: Vec<Scalar> = ts.iter().map(ch).collect();
    let mut guesses = vec![];
    for i in 0..s.len() {
        guesses.extend([s[i], s[i] * cs[i].invert(), s[i] - cs[i]]);
        for e in public_scalars(&ts[i]) {
            guesses.push((s[i] - e) * cs[i].invert());
            let d = cs[i] + e;
            if d != Scalar::ZERO {
                guesses.push(s[i] * d.invert());
            }
        }
        for j in 0..i {
            if cs[i] != cs[j] {
                guesses.push((s[i] - s[j]) * (cs[i] - cs[j]).invert());
            }
        }
    }
    if guesses.contains(&sk) {
        o.fail("C05", "secret-recovered", "the secret key was recovered from published proofs");
    }
    o
}

/// Nonces (or secret keys) made of two hundred and more related inputs, as an attacker who
/// collects published proofs sees them: no bit may be fixed or lean to one side, no two bits of a
/// value may be tied to each other, and no 64-bit word may occur twice.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Family {
    /// the 256 neighbours of one value
    Flips(B32),
    Counter(B32, u8),
    Random(B32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FullSize {
    seed: B32,
    family: Family,
    keys: bool,
}
const MANY: usize = 256;
fn family(f: &Family) -> Vec<[u8; 32]> {
    (0..MANY)
        .map(|i| match f {
            Family::Flips(b) => flip(b.0, i),
            Family::Counter(b, at) => {
                let mut b = b.0;
                b[*at as usize % 32] = i as u8;
                b
            }
            Family::Random(b) => hashv(&[&b.0, &(i as u16).to_le_bytes()]).to_bytes(),
        })
        .collect()
}
fn full_size() -> impl Strategy<Value = FullSize> {
    let family = prop_oneof![b32().prop_map(Family::Flips), (b32(), 0..32u8).prop_map(|(b, a)| Family::Counter(b, a)), b32().prop_map(Family::Random)];
    (b32(), family, prop::bool::weighted(0.2)).prop_map(|(seed, family, keys)| FullSize { seed, family, keys })
}
/// Every 256-bit number that reduces to this scalar.
fn raws(k: &Scalar) -> Vec<[u8; 32]> {
    // the group order, little endian: 2^252 + 27742317777372353535851937790883648493
    const L: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    let mut out = vec![k.to_bytes()];
    loop {
        let mut next = *out.last().unwrap();
        let mut carry = 0u16;
        for (b, l) in next.iter_mut().zip(L) {
            let x = *b as u16 + l as u16 + carry;
            *b = x as u8;
            carry = x >> 8;
        }
        if carry != 0 {
            return out;
        }
        out.push(next);
    }
}
/// What is wrong with a collection of scalars that should look independent and uniform.
/// Chance of a wrong answer: below 2^-40 per collection.
fn irregular(ks: &[Scalar]) -> Option<String> {
    const BITS: usize = 252;
    let mut columns = vec![[0u64; MANY / 64]; BITS];
    for (i, k) in ks.iter().enumerate() {
        let b = k.to_bytes();
        for (bit, col) in columns.iter_mut().enumerate() {
            col[i / 64] |= ((b[bit / 8] >> (bit % 8) & 1) as u64) << (i % 64);
        }
    }
    let n = ks.len() as i64;
    // nine standard deviations
    let leans = |ones: i64| (2 * ones - n).pow(2) > 81 * n;
    for (a, col) in columns.iter().enumerate() {
        let ones: u32 = col.iter().map(|w| w.count_ones()).sum();
        if leans(ones as i64) {
            return Some(format!("bit {a} is set in {ones} of {n}"));
        }
        for (b, other) in columns[..a].iter().enumerate() {
            let differ: u32 = col.iter().zip(other).map(|(x, y)| (x ^ y).count_ones()).sum();
            if leans(differ as i64) {
                return Some(format!("bits {b} and {a} differ in {differ} of {n}"));
            }
        }
    }
    let mut words: std::collections::HashMap<[u8; 8], (usize, usize)> = Default::default();
    for (i, k) in ks.iter().enumerate() {
        for raw in raws(k) {
            for (at, w) in raw.chunks(8).enumerate() {
                let w: [u8; 8] = w.try_into().unwrap();
                if let Some(old) = words.insert(w, (i, at)) {
                    if old != (i, at) {
                        return Some(format!("values {} and {i} share the word {w:02x?}", old.0));
                    }
                }
            }
        }
    }
    None
}
fn c05_full(c: &FullSize) -> Outcome {
    let mut o = Outcome::default();
    let inputs = family(&c.family);
    if c.keys {
        o.nontrivial = true;
        o.class("keys");
        let ks: Vec<Scalar> = inputs.iter().map(|i| off::generate_vrf_keypair(&keypair(i)).0).collect();
        if let Some(e) = irregular(&ks) {
            o.fail("C05", "secrets-irregular", format!("the VRF secrets of {} identities: {e}", ks.len()));
        }
        return o;
    }
    let (sk, pk) = off::generate_vrf_keypair(&keypair(&c.seed.0));
    let mut ks = vec![];
    for i in &inputs {
        let t = honest(sk, pk, i);
        let k = canon(&t.s).unwrap() - rvrf::challenge(&t.out, &t.cb, &t.ch, &t.pk, &t.input) * sk;
        if enc(k * G) != t.cb {
            // the proof does not say how the nonce was made; nothing to see from outside
            o.class("challenge-definition-unknown");
            return o;
        }
        ks.push(k);
    }
    o.nontrivial = true;
    o.class("nonces");
    let shifted: Vec<Scalar> = ks.iter().enumerate().map(|(i, k)| k - ks[(i + 1) % ks.len()]).collect();
    for (what, v) in [("nonces", &ks), ("differences of nonces", &shifted)] {
        if let Some(e) = irregular(v) {
            o.fail("C05", "nonces-irregular", format!("{what} of {} proofs under one key: {e}", v.len()));
            break;
        }
    }
    o
}

// ---------------------------------------------------------------- C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Predict {
    seed: B32,
    input: B32,
    earlier: Vec<B32>,
}
fn c06(c: &Predict) -> Outcome {
    let mut o = Outcome::nontrivial();
    let (sk, pk) = off::generate_vrf_keypair(&keypair(&c.seed.0));
    let target = honest(sk, pk, &c.input.0);
    // what the attacker sees: the public key, the input, earlier answers
    let seen: Vec<Tr> = c.earlier.iter().filter(|e| **e != c.input).map(|e| honest(sk, pk, &e.0)).collect();
    let view = Tr { pk: target.pk, input: target.input, out: [0; 32], cb: [0; 32], ch: [0; 32], s: [0; 32] };
    let e = rvrf::hash_scalar(&c.input.0);
    if enc(e * pk) == target.out {
        o.fail("C06", "public-dlog-of-hash-to-point", "output = H(input)·pk, computed from the public key and the input alone");
    }
    for t in &seen {
        let e1 = rvrf::hash_scalar(&t.input);
        if enc(e * e1.invert() * pt(&t.out).unwrap()) == target.out {
            o.fail("C06", "public-dlog-of-hash-to-point", "output computed from an earlier output and the two inputs");
        }
        if t.out == target.out || t.cb == target.out || t.ch == target.out {
            o.fail("C06", "output-repeats-earlier-answer", "output equals a value published earlier");
        }
    }
    for (i, x) in public_scalars(&view).iter().enumerate() {
        if *x != e && enc(x * pk) == target.out {
            o.fail("C06", "output-public-multiple-of-key", format!("output is a public multiple of the public key (candidate {i})"));
        }
        if enc(x * G) == target.out {
            o.fail("C06", "output-independent-of-key", format!("output is a public multiple of the base point (candidate {i})"));
        }
    }
    if target.out == target.pk || target.out == enc(h_point(&c.input.0)) {
        o.fail("C06", "output-independent-of-key", "output equals the public key or the hashed input");
    }
    o
}

pub fn run(h: &mut Harness) {
    match h.prop.as_str() {
        "C01" => h.part("honest", "every case: one honest proof put to both verifiers", (60_000, 3_000_000), || (key(), b32()).prop_map(|(key, input)| Honest { key, input }), c01),
        "C02" => {
            h.part("forgeries", "the proof differs from the honest one and is not itself a valid statement", (60_000, 3_000_000), forge, c02);
            h.part("challenge-range", "every case: the challenges of thousands of proofs under one key compared", (8, 400), || (key(), b32(), prop_oneof![Just(4096u16), Just(1024)]).prop_map(|(key, seed, n)| Range { key, seed, n }), c02_range);
        }
        "C03" => h.part("agreement", "all six parts are valid encodings", (60_000, 3_000_000), agree, c03),
        "C04" => h.part("determinism", "every case: several neighbouring identities and inputs compared", (15_000, 700_000), det, c04),
        "C05" => {
            h.part("transcripts", "every case: a transcript of several proofs attacked", (5_000, 250_000), leak, c05);
            h.part("full-size", "256 related nonces (or secret keys) recovered and compared bit by bit", (300, 20_000), full_size, c05_full);
        }
        "C06" => h.part(
            "prediction",
            "every case: attackers predict one output from the public key, the input and earlier answers",
            (6_000, 200_000),
            || (b32(), b32(), prop::collection::vec(b32(), 0..3)).prop_map(|(seed, input, earlier)| Predict { seed, input, earlier }),
            c06,
        ),
        _ => return,
    }
    h.assume("curve25519-dalek and SHA-256/HKDF are correct; group computations are infeasible to invert");
    h.assume("off-chain solana_curve25519 stands for the on-chain curve syscalls");
}

//! C28: the random helpers.
use crate::flavours;
use chain::crypto::{b32, B32};
use ephemeral_vrf_sdk::rnd::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::{guard, Harness, Outcome};

/// Deterministic stream of uniform 32-byte blocks (xoshiro256** seeded by splitmix).
struct Stream([u64; 4]);
impl Stream {
    fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *v = z ^ (z >> 31);
        }
        Stream(s)
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    fn block(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        b
    }
}
/// Upper-tail z-score of a chi-square statistic (Wilson-Hilferty).
fn chi_z(counts: &[u64], n: u64) -> f64 {
    let k = counts.len();
    if k < 2 {
        return 0.0;
    }
    let e = n as f64 / k as f64;
    let x: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    let d = (k - 1) as f64;
    ((x / d).cbrt() - (1.0 - 2.0 / (9.0 * d))) / (2.0 / (9.0 * d)).sqrt()
}
/// Far beyond what an unbiased helper can reach by chance in all samples taken (p < 1e-10).
const Z: f64 = 6.5;

// ------------------------------------------------------------ any input
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bounded {
    b: B32,
    a: u8,
    z: u8,
}
fn bounded() -> impl Strategy<Value = Bounded> {
    let bytes = prop_oneof![
        3 => b32(),
        // many bytes from the top or around one value: long scans and fallbacks
        3 => (any::<u8>(), prop::collection::vec((any::<u8>(), 0..4u8), 32)).prop_map(|(t, v)| B32(std::array::from_fn(|i| if v[i].1 == 0 { v[i].0 } else { t.saturating_add(v[i].0 % 4) }))),
        3 => (128..=255u8, prop::collection::vec(any::<u8>(), 32)).prop_map(|(t, v)| B32(std::array::from_fn(|i| t.saturating_add(v[i] % (255 - t).saturating_add(1).max(1))))),
        1 => any::<u8>().prop_map(|t| B32([t; 32])),
    ];
    let bound = || prop_oneof![6 => any::<u8>(), 1 => Just(0u8), 1 => Just(255u8), 1 => Just(128u8)];
    (bytes, bound(), bound()).prop_map(|(b, x, y)| Bounded { b, a: x.min(y), z: x.max(y) })
}
fn c28_bounded(c: &Bounded) -> Outcome {
    let mut o = Outcome::nontrivial();
    let r = guard(|| random_u8_with_range(&c.b.0, c.a, c.z));
    match r {
        Err(e) => o.fail("C28", "bounded-panics", format!("random_u8_with_range({}, {}, {}) panics: {e}", hex(&c.b.0), c.a, c.z)),
        Ok(v) => {
            if v < c.a || v > c.z {
                o.fail("C28", "bounded-out-of-range", format!("random_u8_with_range({}, {}, {}) is {v}", hex(&c.b.0), c.a, c.z));
            }
            if guard(|| random_u8_with_range(&c.b.0, c.a, c.z)) != Ok(v) {
                o.fail("C28", "bounded-not-a-function", "two calls differ".to_string());
            }
            let mut inp = vec![5u8];
            inp.extend(c.b.0);
            inp.extend([c.a, c.z]);
            for f in flavours() {
                if f.call(&inp) != Ok(vec![v]) {
                    o.fail("C28", "bounded-flavours-differ", format!("flavour {} differs", f.name));
                }
            }
        }
    }
    let all = |b: &[u8; 32]| {
        let mut v = vec![random_u8(b)];
        v.extend(random_u32(b).to_le_bytes());
        v.extend(random_i32(b).to_le_bytes());
        v.extend(random_u64(b).to_le_bytes());
        v.extend(random_i64(b).to_le_bytes());
        v.push(random_bool(b) as u8);
        v
    };
    match guard(|| all(&c.b.0)) {
        Err(e) => o.fail("C28", "helper-panics", format!("{}: {e}", hex(&c.b.0))),
        Ok(v) => {
            // copies of the bytes elsewhere in memory, other threads, other flavours
            let copy = Box::new(c.b.0);
            if guard(|| all(&copy)) != Ok(v.clone()) {
                o.fail("C28", "not-a-function", "two calls differ".to_string());
            }
            let mut inp = vec![4u8];
            inp.extend(c.b.0);
            for f in flavours() {
                if f.call(&inp) != Ok(v.clone()) {
                    o.fail("C28", "flavours-differ", format!("flavour {} differs", f.name));
                }
            }
        }
    }
    if c.a == 0 && c.z == 255 {
        o.class("full-range");
    }
    if c.b.0.iter().filter(|b| **b as u16 >= 256 / (c.z as u16 - c.a as u16 + 1) * (c.z as u16 - c.a as u16 + 1)).count() > 3 {
        o.class("many-unusable-bytes");
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ------------------------------------------------------------ uniformity
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Range {
    a: u8,
    z: u8,
    n: u64,
    seed: u64,
}
fn c28_uniform(c: &Range) -> Outcome {
    let mut o = Outcome::nontrivial();
    let r = guard(|| {
        let mut s = Stream::new(c.seed ^ ((c.a as u64) << 8 | c.z as u64).wrapping_mul(0xD1342543DE82EF95));
        let mut counts = [0u64; 256];
        for _ in 0..c.n {
            counts[random_u8_with_range(&s.block(), c.a, c.z) as usize] += 1;
        }
        counts
    });
    match r {
        Err(e) => o.fail("C28", "bounded-panics", format!("random_u8_with_range with [{}, {}] panics: {e}", c.a, c.z)),
        Ok(counts) => {
            let inside = &counts[c.a as usize..=c.z as usize];
            let got: u64 = inside.iter().sum();
            if got != c.n {
                o.fail("C28", "bounded-out-of-range", format!("[{}, {}]: {} of {} results outside", c.a, c.z, c.n - got, c.n));
            } else {
                let z = chi_z(inside, c.n);
                if z > Z {
                    o.fail("C28", "biased", format!("[{}, {}]: over {} uniform inputs the values occur between {} and {} times (expected {}; z = {z:.1})", c.a, c.z, c.n, inside.iter().min().unwrap(), inside.iter().max().unwrap(), c.n / inside.len() as u64));
                }
            }
        }
    }
    o
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Helper {
    which: u8,
    n: u64,
    seed: u64,
}
const HELPERS: [(&str, u32); 6] = [("random_u8", 8), ("random_u32", 32), ("random_i32", 32), ("random_u64", 64), ("random_i64", 64), ("random_bool", 1)];
fn helper(w: u8, b: &[u8; 32]) -> u64 {
    match w {
        0 => random_u8(b) as u64,
        1 => random_u32(b) as u64,
        2 => random_i32(b) as u32 as u64,
        3 => random_u64(b),
        4 => random_i64(b) as u64,
        _ => random_bool(b) as u64,
    }
}
/// Every bit balanced, every two bits independent, every byte uniform.
fn c28_even(c: &Helper) -> Outcome {
    let mut o = Outcome::nontrivial();
    let (name, bits) = HELPERS[c.which as usize];
    let r = guard(|| {
        let mut s = Stream::new(c.seed.wrapping_add(77 * c.which as u64));
        let mut ones = [0u64; 64];
        let mut diff = vec![[0u64; 64]; 64];
        let mut bytes = [[0u64; 256]; 8];
        for _ in 0..c.n / 64 {
            // 64 samples, transposed: column j holds bit j of all samples
            let mut cols = [0u64; 64];
            for i in 0..64 {
                let v = helper(c.which, &s.block());
                for (k, b) in v.to_le_bytes().iter().enumerate() {
                    bytes[k][*b as usize] += 1;
                }
                for (j, col) in cols.iter_mut().enumerate() {
                    *col |= (v >> j & 1) << i;
                }
            }
            for j in 0..bits as usize {
                ones[j] += cols[j].count_ones() as u64;
                for k in 0..j {
                    diff[j][k] += (cols[j] ^ cols[k]).count_ones() as u64;
                }
            }
        }
        (ones, diff, bytes)
    });
    let n = c.n / 64 * 64;
    match r {
        Err(e) => o.fail("C28", "helper-panics", format!("{name}: {e}")),
        Ok((ones, diff, bytes)) => {
            let off = |x: u64| ((x as f64) - n as f64 / 2.0).abs() / (n as f64 / 4.0).sqrt();
            for j in 0..bits as usize {
                if off(ones[j]) > Z {
                    o.fail("C28", format!("{name}-uneven"), format!("{name}: bit {j} is set in {} of {n} results", ones[j]));
                }
                for k in 0..j {
                    if off(diff[j][k]) > Z {
                        o.fail("C28", format!("{name}-dependent-bits"), format!("{name}: bits {k} and {j} differ in {} of {n} results", diff[j][k]));
                    }
                }
            }
            for k in 0..(bits / 8) as usize {
                let z = chi_z(&bytes[k], n);
                if z > Z {
                    o.fail("C28", format!("{name}-uneven"), format!("{name}: byte {k} of the result is not uniform (z = {z:.1})"));
                }
            }
            o.viols.truncate(1);
        }
    }
    o
}

// ------------------------------------------------------------ rare inputs of a scan
/// A helper that takes the first usable byte in some order is unbiased only if it goes on looking:
/// where such a scan meets `k` unusable bytes first (probability q^k), the results must still be
/// even, or the bias of the whole is q^k times theirs. The bytes it looks at and their order are
/// learned from the helper itself; helpers that are no such scan are left to the other parts.
fn c28_scan(c: &Range) -> Outcome {
    let mut o = Outcome::default();
    let range = c.z as usize - c.a as usize + 1;
    let threshold = 256 / range * range;
    if range < 2 || threshold == 256 {
        return o;
    }
    let q = (256 - threshold) as f64 / 256.0;
    let mut s = Stream::new(c.seed ^ (c.a as u64 * 256 + c.z as u64).wrapping_mul(0xA24BAED4963EE407));
    let call = |b: &[u8; 32]| guard(|| random_u8_with_range(b, c.a, c.z));
    let val = |v: usize| (c.a as usize + v % range) as u8;
    // learn: alone among unusable bytes, a byte that is looked at decides; of two, the earlier one
    let (x, y) = (0usize, 1usize);
    let with = |set: &[(usize, usize)]| {
        let mut b = [255u8; 32];
        for (i, v) in set {
            b[*i] = *v as u8;
        }
        call(&b)
    };
    let mut order: Vec<usize> = (0..32).filter(|i| with(&[(*i, x)]) == Ok(val(x)) && with(&[(*i, y)]) == Ok(val(y))).collect();
    let before = |i: usize, j: usize| with(&[(i, x), (j, y)]) == Ok(val(x));
    let rank: Vec<usize> = order.iter().map(|i| order.iter().filter(|j| *j != i && before(**j, *i)).count()).collect();
    let mut by: Vec<(usize, usize)> = rank.into_iter().zip(order.iter().copied()).collect();
    by.sort();
    order = by.into_iter().map(|p| p.1).collect();
    let scan = |b: &[u8; 32]| order.iter().map(|i| b[*i] as usize).find(|v| *v < threshold).map(val);
    let mut fits = !order.is_empty();
    for _ in 0..c.n {
        let b = s.block();
        match call(&b) {
            Err(e) => {
                o.fail("C28", "bounded-panics", format!("random_u8_with_range({}, {}, {}) panics: {e}", hex(&b), c.a, c.z));
                return o;
            }
            Ok(v) => fits &= scan(&b).is_none_or(|w| w == v),
        }
    }
    if !fits {
        o.class("not-a-scan");
        return o;
    }
    o.nontrivial = true;
    for k in 1..=order.len().min(31) {
        let p = q.powi(k as i32);
        if p < 2f64.powi(-32) {
            break;
        }
        let block = |s: &mut Stream| {
            let mut b = s.block();
            for at in &order[..k] {
                b[*at] = (threshold + (s.next() >> 32) as usize % (256 - threshold)) as u8;
            }
            b
        };
        let differs = (0..c.n / 4).any(|_| {
            let b = block(&mut s);
            let v = guard(|| random_u8_with_range(&b, c.a, c.z));
            scan(&b).is_some_and(|w| v != Ok(w))
        });
        if !differs && k < order.len() {
            continue;
        }
        o.class("stops-scanning");
        let n = 40_000u64;
        let mut counts = vec![0u64; range];
        for _ in 0..n {
            let b = block(&mut s);
            match guard(|| random_u8_with_range(&b, c.a, c.z)) {
                Ok(v) if v >= c.a && v <= c.z => counts[(v - c.a) as usize] += 1,
                r => {
                    o.fail("C28", "bounded-out-of-range", format!("random_u8_with_range({}, {}, {}) is {r:?}", hex(&b), c.a, c.z));
                    return o;
                }
            }
        }
        let e = n as f64 / range as f64;
        let worst = counts.iter().map(|x| ((*x as f64 - e).abs() - Z * e.sqrt()) / n as f64).fold(0.0, f64::max);
        if worst * p > 2f64.powi(-32) {
            o.fail(
                "C28",
                "biased-after-unusable-bytes",
                format!("[{}, {}]: after {k} unusable bytes (1 of {:.0} inputs) the values occur between {} and {} times in {n} (expected {e:.0})", c.a, c.z, 1.0 / p, counts.iter().min().unwrap(), counts.iter().max().unwrap()),
            );
            return o;
        }
    }
    o
}

pub fn run(h: &mut Harness) {
    let seed = h.seed;
    h.part("any-input", "every case: bounded helper in range, all helpers total and deterministic in all flavours", (300_000, 20_000_000), bounded, c28_bounded);
    // every pair of bounds, and each width in three positions with many samples
    let (few, many) = if h.thorough() { (40_000, 20_000_000) } else { (2_500, 4_000_000) };
    let mut cases = vec![];
    for a in 0..=255u8 {
        for z in a..=255 {
            cases.push(Range { a, z, n: few, seed });
        }
    }
    h.enumerate("all-bounds", "each of the 32,896 pairs of bounds", false, cases, c28_uniform);
    let mut cases = vec![];
    for w in 0..=255u8 {
        let top = 255 - w;
        let mut at = vec![0, top, (w as u16 * 97 % (top as u16 + 1)) as u8];
        at.dedup();
        cases.extend(at.into_iter().map(|a| Range { a, z: a + w, n: many, seed: seed ^ 0x5555 }));
    }
    // equal work for each thread
    let m = cases.len();
    let cases: Vec<Range> = (0..m).map(|i| cases[i * 331 % m].clone()).collect();
    h.enumerate("every-width", "each width of range over many uniform inputs", false, cases, c28_uniform);
    let n = if h.thorough() { 40_000 } else { 4_000 };
    let cases = (0..=255u8).flat_map(|w| [0, 255 - w].map(|a| Range { a, z: a + w, n, seed })).collect();
    h.enumerate("long-scans", "ranges where some bytes are unusable: inputs that begin with up to 31 of them", false, cases, c28_scan);
    let cases = (0..6).map(|which| Helper { which, n: if h.thorough() { 40_000_000 } else { 1_000_000 }, seed }).collect();
    h.enumerate("even-use", "each helper over uniform inputs", false, cases, c28_even);
    h.assume("uniformity is decided statistically: a bias below about 1 in 1,000 of a value's probability can stay unnoticed, except where the helper is the documented scan for a usable byte: there the rare inputs with many unusable bytes are generated on purpose");
}

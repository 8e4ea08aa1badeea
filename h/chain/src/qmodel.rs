//! C21-C23: the queue data structure of the API crate against a plain list, and reading of
//! arbitrary account bytes. Uses only the public API and the accessors of the entries.
use crate::crypto::{b32, B32};
use ephemeral_vrf_api::prelude as api;
use ephemeral_vrf_api::prelude::{AccountDeserialize, CompactAccountMeta, Oracle, Oracles, Queue, QueueAccount, QueueItem};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::{guard, Harness, Outcome};

// ---------------------------------------------------------------- model
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add { id: u8, disc: usize, metas: usize, args: usize, fill: u8, high: bool, slot: u64 },
    Remove(u16),
    RemoveLast,
    RemoveById(u8),
    RemoveBad(u16),
    Drain,
    Reload,
    /// remove the item at the position and add one of the same shape
    Replace(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    size: usize,
    /// position of the account body relative to 8-byte alignment (always 4-aligned)
    shift4: bool,
    index: u8,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, PartialEq)]
struct Entry {
    id: [u8; 32],
    slot: u64,
    prog: [u8; 32],
    disc: Vec<u8>,
    metas: Vec<([u8; 32], u8)>,
    args: Vec<u8>,
    high: u8,
}
fn id_of(n: u8) -> [u8; 32] {
    let mut b = [n; 32];
    if n % 3 == 0 {
        // ids that differ only in one byte
        b = [7; 32];
        b[n as usize % 32] = n;
    }
    b
}
fn entry(id: u8, disc: usize, metas: usize, args: usize, fill: u8, high: bool, slot: u64, serial: u32) -> Entry {
    let mut x = serial.wrapping_mul(2654435761) ^ fill as u32;
    let mut rnd = || {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        if fill == 0 || fill == 255 {
            fill
        } else {
            (x >> 24) as u8
        }
    };
    Entry {
        id: id_of(id),
        slot,
        prog: std::array::from_fn(|_| rnd()),
        disc: (0..disc).map(|_| rnd()).collect(),
        metas: (0..metas).map(|_| (std::array::from_fn(|_| rnd()), rnd() & 1)).collect(),
        args: (0..args).map(|_| rnd()).collect(),
        high: high as u8,
    }
}
fn item_of(e: &Entry) -> QueueItem {
    QueueItem { slot: e.slot, id: e.id, callback_program_id: e.prog, priority_request: e.high, ..Default::default() }
}
fn metas_of(e: &Entry) -> Vec<CompactAccountMeta> {
    e.metas.iter().map(|(k, w)| CompactAccountMeta { pubkey: *k, is_writable: *w }).collect()
}
fn read(i: &QueueItem, acc: &[u8]) -> Entry {
    Entry {
        id: i.id,
        slot: i.slot,
        prog: i.callback_program_id,
        disc: i.callback_discriminator(acc).to_vec(),
        metas: i.account_metas(acc).iter().map(|m| (m.pubkey, m.is_writable)).collect(),
        args: i.callback_args(acc).to_vec(),
        high: i.priority_request,
    }
}
/// Account body inside a larger, 8-aligned allocation with canaries around it.
struct Buf {
    words: Vec<u64>,
    off: usize,
    len: usize,
}
const CANARY: u64 = 0x5aa5_c33c_0ff0_9669;
impl Buf {
    fn new(len: usize, shift4: bool) -> Buf {
        let mut b = Buf { words: vec![CANARY; len / 8 + 6], off: if shift4 { 20 } else { 16 }, len };
        b.body().fill(0);
        b
    }
    fn bytes(&mut self) -> &mut [u8] {
        let n = self.words.len() * 8;
        unsafe { std::slice::from_raw_parts_mut(self.words.as_mut_ptr() as *mut u8, n) }
    }
    fn body(&mut self) -> &mut [u8] {
        let (o, l) = (self.off, self.len);
        &mut self.bytes()[o..o + l]
    }
    fn intact(&mut self) -> bool {
        let (o, l) = (self.off, self.len);
        let c = CANARY.to_le_bytes();
        self.bytes().iter().enumerate().all(|(i, b)| (o..o + l).contains(&i) || *b == c[i % 8])
    }
}
/// Everything observable of a queue against the list. None: all as expected.
fn compare(q: &QueueAccount, list: &[Entry], index: u8, absent: &[[u8; 32]]) -> Option<(&'static str, String)> {
    if q.len() != list.len() || q.header.len() != list.len() {
        return Some(("length", format!("length {} / {}, expected {}", q.len(), q.header.len(), list.len())));
    }
    if q.is_empty() != list.is_empty() || q.header.is_empty() != list.is_empty() {
        return Some(("is-empty", "is_empty disagrees".into()));
    }
    if q.header.index != index {
        return Some(("index", format!("index {} expected {index}", q.header.index)));
    }
    let it: Vec<Entry> = q.iter_items().map(|i| read(&i, q.acc)).collect();
    if it != list {
        return Some(("iteration", format!("iteration gives {it:?}, expected {list:?}")));
    }
    for (i, e) in list.iter().enumerate() {
        if q.get_item_by_index(i).map(|x| read(&x, q.acc)).as_ref() != Some(e) {
            return Some(("get-by-index", format!("entry {i} reads differently by position")));
        }
        let first = list.iter().position(|x| x.id == e.id).unwrap();
        match q.find_item_by_id(&e.id) {
            Some((p, x)) if p == first && read(&x, q.acc) == list[first] => {}
            r => return Some(("find-by-id", format!("id of entry {i} found as {:?}", r.map(|r| r.0)))),
        }
    }
    for n in [list.len(), list.len() + 1, usize::MAX] {
        if q.get_item_by_index(n).is_some() {
            return Some(("get-by-index", format!("position {n} of {} exists", list.len())));
        }
    }
    for a in absent {
        if list.iter().all(|e| e.id != *a) && q.find_item_by_id(a).is_some() {
            return Some(("find-by-id", "an absent id is found".into()));
        }
    }
    None
}
/// Offset behind everything the last pending entry occupies, by the entry's own account.
fn end_of(q: &QueueAccount) -> usize {
    let mut end = 16;
    if let Some(i) = q.iter_items().last() {
        end = end
            .max(i.args_offset as usize + i.args_len as usize)
            .max(i.metas_offset as usize + 33 * i.metas_len as usize)
            .max(i.callback_discriminator_offset as usize + i.callback_discriminator_len as usize);
    }
    (end + 7) & !7
}
fn size_of_entry(e: &Entry) -> usize {
    96 + e.disc.len() + 33 * e.metas.len() + e.args.len()
}

fn run_hist(c: &Hist, prop: &'static str) -> Outcome {
    let mut o = Outcome::default();
    let mut buf = Buf::new(c.size, c.shift4);
    if c.size > 8 {
        buf.body()[8] = c.index;
    }
    let mut list: Vec<Entry> = vec![];
    let mut removed_any = false;
    let mut reclaimed = false;
    let absent = [[0u8; 32], [7; 32], [9; 32]];
    for (n, op) in c.ops.iter().enumerate() {
        let before = buf.body().to_vec();
        let mut q = match QueueAccount::load(buf.body()) {
            Ok(q) => q,
            Err(_) => {
                if c.size >= 16 {
                    o.fail("C21", "load-fails", format!("a zeroed account body of {} bytes does not load", c.size));
                }
                return o;
            }
        };
        let mut failed = false;
        let mut adds: Vec<Entry> = vec![];
        match op {
            Op::Add { id, disc, metas, args, fill, high, slot } => adds.push(entry(*id, *disc, *metas, *args, *fill, *high, *slot, n as u32)),
            Op::Replace(i) if !list.is_empty() => {
                let i = *i as usize % list.len();
                let e = list.remove(i);
                removed_any = true;
                match q.remove_item(i) {
                    Ok(x) if x.id == e.id => {}
                    r => o.fail("C21", "remove", format!("removing {i} gives {:?}", r.map(|x| x.id))),
                }
                adds.push(Entry { id: id_of(n as u8), ..e });
            }
            Op::Replace(_) => {}
            Op::Remove(i) if !list.is_empty() => {
                let i = *i as usize % list.len();
                let e = list.remove(i);
                removed_any = true;
                match q.remove_item(i) {
                    Ok(x) => {
                        let r = read(&x, q.acc);
                        if r != e {
                            o.fail("C21", "remove-value", format!("removal of {i} returns {r:?}, expected {e:?}"));
                        }
                    }
                    Err(x) => o.fail("C21", "remove", format!("removing {i} of {} fails: {x:?}", list.len() + 1)),
                }
            }
            Op::RemoveLast if !list.is_empty() => {
                let i = list.len() - 1;
                list.pop();
                removed_any = true;
                if let Err(x) = q.remove_item(i) {
                    o.fail("C21", "remove", format!("removing last {i} fails: {x:?}"));
                }
            }
            Op::RemoveById(n) => {
                let id = id_of(*n);
                let want = list.iter().position(|e| e.id == id);
                let got = q.find_item_by_id(&id).map(|x| x.0);
                if want != got {
                    o.fail("C21", "find-by-id", format!("id {n} found at {got:?}, expected {want:?}"));
                } else if let Some(i) = got {
                    let e = list.remove(i);
                    removed_any = true;
                    match q.remove_item(i) {
                        Ok(x) if x.id == e.id => {}
                        r => o.fail("C21", "remove", format!("removing {i} gives {:?}", r.map(|x| x.id))),
                    }
                }
            }
            Op::Remove(i) | Op::RemoveBad(i) => {
                failed = true;
                let i = list.len() + *i as usize;
                if q.remove_item(i).is_ok() {
                    o.fail("C21", "remove-absent", format!("removing position {i} of {} succeeds", list.len()));
                }
            }
            Op::RemoveLast => {}
            Op::Drain => {
                while !list.is_empty() {
                    let i = if n % 2 == 0 { 0 } else { list.len() - 1 };
                    list.remove(i);
                    removed_any = true;
                    if let Err(x) = q.remove_item(i) {
                        o.fail("C21", "remove", format!("removing {i} fails: {x:?}"));
                        break;
                    }
                }
            }
            Op::Reload => {
                let copy = q.acc.to_vec();
                let mut b2 = Buf::new(c.size, !c.shift4);
                b2.body().copy_from_slice(&copy);
                match QueueAccount::load(b2.body()) {
                    Ok(q2) => {
                        if let Some((s, m)) = compare(&q2, &list, c.index, &absent) {
                            o.fail("C21", format!("reload-{s}"), format!("after reloading at op {n}: {m}"));
                        }
                    }
                    Err(e) => o.fail("C21", "reload", format!("bytes of a queue do not load again: {e:?}")),
                }
            }
        }
        for e in adds {
            let fits_limits = e.metas.len() <= 20 && e.args.len() <= 512;
            let end = end_of(&q);
            let fits = fits_limits && end + size_of_entry(&e) <= c.size;
            match q.add_item(&item_of(&e), &e.disc, &metas_of(&e), &e.args) {
                Ok(pos) => {
                    if !fits_limits {
                        o.fail("C21", "over-limit-accepted", format!("{} accounts and {} argument bytes accepted", e.metas.len(), e.args.len()));
                    }
                    if pos != list.len() {
                        o.fail("C21", "add-position", format!("appended at position {pos}, expected {}", list.len()));
                    }
                    if removed_any {
                        reclaimed = true;
                    }
                    list.push(e);
                }
                Err(x) => {
                    failed = true;
                    if fits {
                        let m = format!("op {n}: an entry of {} bytes is refused ({x:?}) although {} of {} bytes are free behind the last pending entry", size_of_entry(&e), c.size - end, c.size);
                        if removed_any {
                            o.fail("C22", "space-not-reclaimed", m.clone());
                        }
                        if list.is_empty() && removed_any {
                            o.fail("C22", "drained-queue-refuses", m);
                        } else if !removed_any {
                            o.fail("C21", "add-refused", m);
                        }
                    }
                }
            }
        }
        if let Some((s, m)) = compare(&q, &list, c.index, &absent) {
            o.fail("C21", format!("list-{s}"), format!("after op {n} ({op:?}): {m}"));
        }
        if q.header.cursor as usize > c.size.max(16) {
            o.fail("C22", "cursor-past-account", format!("cursor {} in an account body of {}", q.header.cursor, c.size));
        }
        let size = c.size;
        // a refused operation leaves every entry byte where it was
        if failed && before.len() > 16 {
            for e in q.iter_items() {
                let (a, b) = (e.callback_discriminator_offset as usize, e.args_offset as usize + e.args_len as usize);
                if b <= size && a <= b && q.acc[a..b] != before[a..b] {
                    o.fail("C21", "failed-op-writes", format!("refused operation {n} changed stored bytes"));
                }
            }
        }
        if !buf.intact() {
            o.fail("C22", "write-outside-account", format!("operation {n} wrote outside the account"));
        }
        if !o.viols.is_empty() {
            break;
        }
    }
    // drain what is left, then everything a fresh queue takes must be taken again
    if o.viols.is_empty() && prop == "C22" && c.size >= 16 {
        let mut q = QueueAccount::load(buf.body()).unwrap();
        while q.len() > 0 {
            let i = (q.len() * 7 / 11).min(q.len() - 1);
            if q.remove_item(i).is_err() {
                o.fail("C21", "remove", "draining fails");
                break;
            }
        }
        let mut fresh = Buf::new(c.size, c.shift4);
        let mut f = QueueAccount::load(fresh.body()).unwrap();
        for (n, op) in c.ops.iter().enumerate() {
            if let Op::Add { id, disc, metas, args, fill, high, slot } = op {
                let e = entry(*id, *disc, *metas, *args, *fill, *high, *slot, n as u32);
                let a = f.add_item(&item_of(&e), &e.disc, &metas_of(&e), &e.args);
                let b = q.add_item(&item_of(&e), &e.disc, &metas_of(&e), &e.args);
                if a.is_ok() && b.is_err() {
                    o.fail("C22", "drained-queue-refuses", format!("a fresh queue takes entry {n}, the drained one says {b:?}"));
                }
                if a.is_err() && b.is_ok() {
                    o.fail("C22", "drained-queue-differs", format!("a fresh queue refuses entry {n}, the drained one takes it"));
                }
            }
        }
    }
    o.nontrivial = if prop == "C22" { reclaimed } else { list.len() >= 2 || removed_any };
    if reclaimed {
        o.class("added-after-removal");
    }
    o.class(if list.is_empty() { "ends-empty" } else { "ends-nonempty" });
    o
}
fn add() -> impl Strategy<Value = Op> {
    let len = |max: usize| prop_oneof![3 => 0..=(max / 8).max(1), 2 => 0..=max, 1 => Just(max)];
    (any::<u8>(), 0..=8usize, prop_oneof![8 => len(20), 1 => 21..40usize], prop_oneof![8 => len(512), 1 => 513..600usize], any::<u8>(), any::<bool>(), prop_oneof![any::<u64>(), 0..1000u64])
        .prop_map(|(id, disc, metas, args, fill, high, slot)| Op::Add { id: id % 24, disc, metas, args, fill, high, slot })
}
fn small_add() -> impl Strategy<Value = Op> {
    (any::<u8>(), 0..=8usize, 0..2usize, 0..12usize, any::<u8>(), any::<bool>(), 0..1000u64).prop_map(|(id, disc, metas, args, fill, high, slot)| Op::Add { id: id % 24, disc, metas, args, fill, high, slot })
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => add(),
        6 => small_add(),
        4 => any::<u16>().prop_map(Op::Remove),
        3 => Just(Op::RemoveLast),
        2 => any::<u8>().prop_map(|n| Op::RemoveById(n % 24)),
        1 => (0..70u16).prop_map(Op::RemoveBad),
        1 => Just(Op::Drain),
        1 => Just(Op::Reload),
        2 => any::<u16>().prop_map(Op::Replace),
    ]
}
fn hist(max: usize) -> impl Strategy<Value = Hist> {
    let size = prop_oneof![1 => 0..64usize, 4 => 100..700usize, 4 => 600..3000usize, 1 => 3000..12000usize, 1 => (100..3000usize).prop_map(|n| n & !7)];
    (size, any::<bool>(), any::<u8>(), prop::collection::vec(op(), 1..max)).prop_map(|(size, shift4, index, ops)| Hist { size, shift4, index, ops })
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Poke {
    /// overwrite a field of the n-th entry (by walking the real layout) with a value
    Field { item: u8, at: u8, val: u32, wide: bool },
    Byte { at: u16, val: u8 },
    Cursor(u32),
    Count(u32),
    Truncate(u16),
    Extend(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bytes {
    /// base content
    base: Base,
    pokes: Vec<Poke>,
    shift: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Base {
    Raw(#[serde(with = "vcore::hexbytes")] Vec<u8>),
    Disc(u8, #[serde(with = "vcore::hexbytes")] Vec<u8>),
    Queue(Hist),
    Oracle { key: B32, slot: u64, open: u64 },
    Registry(Vec<B32>),
}
fn edge32() -> impl Strategy<Value = u32> {
    prop_oneof![
        3 => 0..200u32,
        2 => any::<u32>(),
        2 => prop::sample::select(vec![0, 1, u16::MAX as u32, u32::MAX, u32::MAX - 1, u32::MAX - 95, 0x8000_0000, 0x7fff_ffff, 65535 * 33]),
        2 => 0..4000u32,
    ]
}
fn bytes() -> impl Strategy<Value = Bytes> {
    let poke = prop_oneof![
        6 => (0..6u8, prop::sample::select(vec![0u8, 8, 72, 76, 80, 84, 86, 88, 90, 91, 92]), edge32(), any::<bool>()).prop_map(|(item, at, val, wide)| Poke::Field { item, at, val, wide }),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(at, val)| Poke::Byte { at, val }),
        2 => edge32().prop_map(Poke::Cursor),
        1 => edge32().prop_map(Poke::Count),
        1 => any::<u16>().prop_map(Poke::Truncate),
        1 => any::<u8>().prop_map(Poke::Extend),
    ];
    let raw = || prop::collection::vec(prop_oneof![3 => Just(0u8), 2 => any::<u8>(), 1 => Just(255u8), 1 => Just(1u8)], 0..400);
    let base = prop_oneof![
        2 => raw().prop_map(Base::Raw),
        3 => (prop::sample::select(vec![0u8, 1, 2, 3, 3, 3, 4, 255]), raw()).prop_map(|(d, r)| Base::Disc(d, r)),
        8 => hist(12).prop_map(Base::Queue),
        2 => (b32(), any::<u64>(), any::<u64>()).prop_map(|(key, slot, open)| Base::Oracle { key, slot, open }),
        2 => prop::collection::vec(b32(), 0..6).prop_map(Base::Registry),
    ];
    (base, prop::collection::vec(poke, 0..6), prop_oneof![6 => Just(0u8), 1 => 0..8u8]).prop_map(|(base, pokes, shift)| Bytes { base, pokes, shift })
}
fn account_bytes(c: &Bytes) -> Vec<u8> {
    let mut d = match &c.base {
        Base::Raw(b) => b.clone(),
        Base::Disc(d, b) => {
            let mut v = vec![*d, 0, 0, 0, 0, 0, 0, 0];
            v.extend(b);
            v
        }
        Base::Queue(h) => {
            let mut buf = Buf::new(h.size, false);
            for (n, op) in h.ops.iter().enumerate() {
                if let Ok(mut q) = QueueAccount::load(buf.body()) {
                    match op {
                        Op::Add { id, disc, metas, args, fill, high, slot } => {
                            let e = entry(*id, *disc, *metas, *args, *fill, *high, *slot, n as u32);
                            let _ = q.add_item(&item_of(&e), &e.disc, &metas_of(&e), &e.args);
                        }
                        Op::Remove(i) if q.len() > 0 => {
                            let _ = q.remove_item(*i as usize % q.len());
                        }
                        _ => {}
                    }
                }
            }
            let mut v = vec![3, 0, 0, 0, 0, 0, 0, 0];
            v.extend_from_slice(buf.body());
            v
        }
        Base::Oracle { key, slot, open } => {
            let mut v = vec![1, 0, 0, 0, 0, 0, 0, 0];
            v.extend(key.0);
            v.extend(slot.to_le_bytes());
            v.extend(open.to_le_bytes());
            v
        }
        Base::Registry(k) => {
            let mut v = vec![0; 8];
            v.extend((k.len() as u32).to_le_bytes());
            k.iter().for_each(|k| v.extend(k.0));
            v
        }
    };
    for p in &c.pokes {
        match p {
            Poke::Byte { at, val } if !d.is_empty() => {
                let n = d.len();
                d[*at as usize % n] = *val;
            }
            Poke::Truncate(n) => d.truncate(d.len() - (*n as usize % (d.len() + 1)).min(d.len())),
            Poke::Extend(n) => d.extend(std::iter::repeat_n(*n, *n as usize)),
            Poke::Cursor(v) if d.len() >= 16 => d[12..16].copy_from_slice(&v.to_le_bytes()),
            Poke::Count(v) if d.len() >= 12 => d[8..12].copy_from_slice(&v.to_le_bytes()),
            Poke::Field { item, at, val, wide } => {
                let mut p = 8 + 16;
                for _ in 0..*item {
                    if p + 96 > d.len() {
                        break;
                    }
                    let l = |o: usize| u16::from_le_bytes([d[p + o], d[p + o + 1]]) as usize;
                    p = (p + 96 + l(84) + 33 * l(86) + l(88) + 7) & !7;
                }
                let at = p + *at as usize;
                let v = val.to_le_bytes();
                let n = if *wide { 4 } else { 2 };
                if at + n <= d.len() {
                    d[at..at + n].copy_from_slice(&v[..n]);
                }
            }
            _ => {}
        }
    }
    d
}
fn inside(part: &[u8], acc: &[u8]) -> bool {
    let (a, b) = (acc.as_ptr() as usize, acc.as_ptr() as usize + acc.len());
    let p = part.as_ptr() as usize;
    part.is_empty() || (p >= a && p + part.len() <= b)
}
fn c23(c: &Bytes) -> Outcome {
    let mut o = Outcome::default();
    let d = account_bytes(c);
    // the same bytes at the chosen alignment, between canaries
    let shift = c.shift as usize;
    let mut words = vec![CANARY; d.len() / 8 + 6];
    let all = unsafe { std::slice::from_raw_parts_mut(words.as_mut_ptr() as *mut u8, (d.len() / 8 + 6) * 8) };
    all[16 + shift..16 + shift + d.len()].copy_from_slice(&d);
    let mut run = |name: &'static str, r: Result<(), String>| {
        if let Err(e) = r {
            o.fail("C23", format!("panic-{name}"), format!("{name} panics: {e} on {} bytes", d.len()));
        }
    };
    let mut accepted = false;
    let mut msgs: Vec<(String, String)> = vec![];
    // headers and fixed-size accounts
    {
        let a = &all[16 + shift..16 + shift + d.len()];
        let r = guard(|| match Queue::try_from_bytes(a) {
            Ok(q) => {
                accepted = true;
                if a.len() < 20 || a[..8] != [3, 0, 0, 0, 0, 0, 0, 0] {
                    msgs.push(("wrong-account-as-queue".into(), "bytes without queue discriminator accepted as queue".into()));
                } else if (q.item_count.to_le_bytes(), q.cursor.to_le_bytes(), q.index) != (a[8..12].try_into().unwrap(), a[12..16].try_into().unwrap(), a[16]) {
                    msgs.push(("queue-header-differs".into(), "header fields differ from the bytes".into()));
                }
            }
            Err(_) => {
                if shift % 4 == 0 && a.len() >= 20 && a[..8] == [3, 0, 0, 0, 0, 0, 0, 0] {
                    msgs.push(("queue-header-refused".into(), "a queue account of sufficient length is refused".into()));
                }
            }
        });
        run("Queue::try_from_bytes", r);
        let r = guard(|| match Oracle::try_from_bytes(a) {
            Ok(x) => {
                accepted = true;
                if a.len() != 56 || a[0] != 1 {
                    msgs.push(("wrong-account-as-oracle".into(), format!("{} bytes with discriminator {} accepted as oracle", a.len(), a[0])));
                } else if x.vrf_pubkey.0[..] != a[8..40] || x.registration_slot.to_le_bytes()[..] != a[40..48] || x.open_queue.to_le_bytes()[..] != a[48..56] {
                    msgs.push(("oracle-fields-differ".into(), "oracle fields differ from the bytes".into()));
                }
            }
            Err(_) => {
                if shift == 0 && a.len() == 56 && a[..8] == [1, 0, 0, 0, 0, 0, 0, 0] {
                    msgs.push(("oracle-refused".into(), "an oracle account of the right length is refused".into()));
                }
            }
        });
        run("Oracle::try_from_bytes", r);
        let mut copy = vec![0u64; d.len() / 8 + 1];
        let m = unsafe { std::slice::from_raw_parts_mut(copy.as_mut_ptr() as *mut u8, d.len()) };
        m.copy_from_slice(&d);
        let r = guard(|| {
            let want = Oracle::try_from_bytes(a).ok().map(|x| x.to_bytes().to_vec());
            let got = Oracle::try_from_bytes_mut(m).ok().map(|x| x.to_bytes().to_vec());
            // the two buffers may be aligned differently
            let right = a.len() == 56 && a[0] == 1;
            if got.is_some() && !right || got.is_some() && want.is_some() && got != want {
                msgs.push(("wrong-account-as-oracle".into(), format!("{} bytes with discriminator {:?} accepted as changeable oracle", a.len(), a.first())));
            }
        });
        run("Oracle::try_from_bytes_mut", r);
        m.copy_from_slice(&d);
        let r = guard(|| {
            let want = Queue::try_from_bytes(a).ok().map(|q| (q.item_count, q.cursor, q.index));
            let got = Queue::try_from_bytes_mut(m).ok().map(|q| (q.item_count, q.cursor, q.index));
            let right = a.len() >= 20 && a[..8] == [3, 0, 0, 0, 0, 0, 0, 0];
            if got.is_some() && !right || got.is_some() && want.is_some() && got != want {
                msgs.push(("wrong-account-as-queue".into(), format!("{} bytes with discriminator {:?} accepted as changeable queue", a.len(), a.first())));
            } else if got.is_none() && right {
                msgs.push(("queue-header-refused".into(), "a queue account of sufficient length is refused for change".into()));
            }
        });
        run("Queue::try_from_bytes_mut", r);
        let r = guard(|| {
            let want = crate::view::decode_registry(a);
            match Oracles::try_from_bytes_with_discriminator(a) {
                Ok(x) => {
                    accepted = true;
                    if want.as_deref().map(|w| w.iter().map(|k| k.to_bytes()).collect::<Vec<_>>()) != Some(x.oracles.iter().map(|k| k.to_bytes()).collect()) {
                        msgs.push(("registry-differs".into(), "registry decoded from wrong bytes, or to other identities".into()));
                    }
                }
                Err(_) => {
                    if want.is_some() {
                        msgs.push(("registry-refused".into(), "a well-formed registry account is refused".into()));
                    }
                }
            }
        });
        run("Oracles::try_from_bytes_with_discriminator", r);
    }
    // queue contents
    let mut entries = 0u64;
    let mut odd = 0u64;
    if d.len() >= 8 {
        let (body_at, body_len) = (16 + shift + 8, d.len() - 8);
        let snapshot = d[8..].to_vec();
        let r = guard(|| {
            let acc = &mut all[body_at..body_at + body_len];
            let Ok(q) = QueueAccount::load(acc) else {
                if body_len >= 16 && shift % 4 == 0 {
                    msgs.push(("load-refused".into(), format!("a body of {body_len} bytes does not load")));
                }
                return;
            };
            let items: Vec<QueueItem> = q.iter_items().collect();
            entries = items.len() as u64;
            if items.len() > body_len / 96 {
                msgs.push(("too-many-entries".into(), format!("{} entries in {body_len} bytes", items.len())));
            }
            for (i, it) in items.iter().enumerate() {
                if q.get_item_by_index(i).as_ref() != Some(it) {
                    msgs.push(("lookup-differs".into(), format!("entry {i} differs between iteration and lookup")));
                }
                match q.find_item_by_id(&it.id) {
                    Some((p, x)) if p <= i && x.id == it.id => {}
                    _ => msgs.push(("lookup-differs".into(), format!("entry {i} is not found by its id"))),
                }
                let acc: &[u8] = q.acc;
                let disc = it.callback_discriminator(acc);
                let args = it.callback_args(acc);
                let metas = it.account_metas(acc);
                let mbytes = unsafe { std::slice::from_raw_parts(metas.as_ptr() as *const u8, metas.len() * 33) };
                for (what, part, off, len) in [
                    ("discriminator", disc, it.callback_discriminator_offset as usize, it.callback_discriminator_len as usize),
                    ("accounts", mbytes, it.metas_offset as usize, it.metas_len as usize * 33),
                    ("arguments", args, it.args_offset as usize, it.args_len as usize),
                ] {
                    if !inside(part, acc) {
                        msgs.push((format!("{what}-outside-buffer"), format!("{what} of entry {i} (offset {off}, length {len}) lie outside the {} byte buffer", acc.len())));
                    } else if off + len <= acc.len() && part != &snapshot[off..off + len] {
                        msgs.push((format!("{what}-differ"), format!("{what} of entry {i} differ from the bytes at offset {off}")));
                    } else if off + len > acc.len() {
                        odd += 1;
                        if !part.is_empty() {
                            msgs.push((format!("{what}-outside-buffer"), format!("{what} of entry {i} are not empty although offset {off} + {len} lies outside")));
                        }
                    }
                }
                for m in metas {
                    let a = m.to_account_meta();
                    if a.is_signer || a.pubkey.to_bytes() != m.pubkey || a.is_writable != (m.is_writable != 0) {
                        msgs.push(("meta-conversion".into(), "an account entry converts differently".into()));
                    }
                }
            }
            let _ = (q.get_item_by_index(usize::MAX), q.find_item_by_id(&[0; 32]), q.len(), q.is_empty());
            // load fixes a fresh cursor at most; nothing else is written
            if acc_changed(&snapshot, q.acc) {
                msgs.push(("reading-writes".into(), "reading changed the account".into()));
            }
        });
        run("queue-reading", r);
    }
    for (s, m) in msgs {
        o.fail("C23", s, m);
    }
    o.nontrivial = accepted || entries > 0;
    if entries > 0 {
        o.class("has-entries");
    }
    if odd > 0 {
        o.class("entry-parts-out-of-bounds");
    }
    if shift % 4 != 0 {
        o.class("misaligned");
    }
    o
}
fn acc_changed(before: &[u8], after: &[u8]) -> bool {
    let n = before.len().min(8);
    before[..n.min(4)] != after[..n.min(4)] || before[n..] != after[n..] || (before.len() >= 8 && before[4..8] != after[4..8] && before[4..8] != [0; 4])
}

pub fn run(h: &mut Harness) {
    let _ = api::ORACLES;
    match h.prop.as_str() {
        "C21" => {
            h.part("list-model", "at least two entries pending at the end or one removal", (400_000, 16_000_000), || hist(40), |c| run_hist(c, "C21"));
            h.part("long-histories", "at least two entries pending at the end or one removal", (16_000, 700_000), || hist(400), |c| run_hist(c, "C21"));
        }
        "C22" => {
            h.part("reclaim", "an entry was added after a removal", (400_000, 16_000_000), || hist(40), |c| run_hist(c, "C22"));
            h.part("long-histories", "an entry was added after a removal", (16_000, 700_000), || hist(400), |c| run_hist(c, "C22"));
        }
        "C23" => h.part("account-bytes", "some decoder accepted the bytes or the queue walk saw an entry", (1_500_000, 60_000_000), bytes, c23),
        _ => return,
    }
}

//! C34: the real vrf-cli binary against a node on the loopback network.
use base64::Engine;
use chain::cast::{cast, keypair, pda};
use chain::svm::{delegate_buffer, dlp, dlp_metadata, dlp_record, magic, magic_ctx, vrf, SYS};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::hash::Hash;
use solana_sdk::signature::{Keypair, Signature};
use solana_sdk::signer::Signer;
use solana_sdk::transaction::Transaction;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
use tokio::net::{TcpListener, TcpStream};
use vcore::{Harness, Outcome};

// ------------------------------------------------------------------ cases
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Key {
    /// a key of the cast
    Oracle(u8),
    Any([u8; 32]),
    /// not a key
    Text(String),
    /// a key with its last characters cut, doubled or made illegal
    Broken(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Num {
    N(u64),
    Text(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Named {
    /// a queue of oracle `o` with index `i`
    Queue { o: u8, i: u8 },
    /// some other address holding an account
    Elsewhere([u8; 32]),
    Bad(Key),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Initialize,
    Add { identity: Key, pubkey: Key },
    Remove { identity: Key },
    InitQueue { identity: Key, own: bool, index: Num, bytes: Option<Num> },
    Delegate(Named),
    Undelegate(Named),
    Close(Named),
    Derive,
    List,
    /// not a command line of the tool
    Nonsense(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QueueAt {
    o: u8,
    i: u8,
    state: State,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum State {
    Good { items: u32, delegated: bool, size: u16 },
    Short(u8),
    WrongTag(u8),
    Zeros(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Node {
    Fine,
    /// the transaction is refused before it runs
    Refuses,
    /// the transaction fails
    Fails,
    HashErr,
    AccountErr,
    SendErr,
    /// the confirmation comes after some tries
    Late,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    what: What,
    /// None: the built-in identity
    signer: Option<u8>,
    key_bad: Option<String>,
    /// how arguments are passed
    style: u8,
    queues: Vec<QueueAt>,
    elsewhere: State,
    node: Node,
}
fn key() -> impl Strategy<Value = Key> {
    prop_oneof![
        6 => (0..5u8).prop_map(Key::Oracle),
        3 => any::<[u8; 32]>().prop_map(Key::Any),
        1 => prop_oneof![Just("".to_string()), Just("abc".into()), Just("0OIl".into()), "[1-9A-HJ-NP-Za-km-z]{20,60}", "\\PC{1,12}"].prop_map(Key::Text),
        1 => (0..5u8, any::<u8>()).prop_map(|(o, n)| Key::Broken(o, n)),
    ]
}
fn num(max: u64) -> impl Strategy<Value = Num> {
    prop_oneof![
        8 => (0..=max).prop_map(Num::N),
        2 => prop_oneof![Just(0u64), Just(1), Just(max), Just(max + 1)].prop_map(Num::N),
        1 => prop_oneof![Just("-1"), Just("x"), Just(""), Just("1.5"), Just("0x10")].prop_map(|s: &str| Num::Text(s.into())),
    ]
}
fn named() -> impl Strategy<Value = Named> {
    prop_oneof![
        8 => (0..2u8, prop_oneof![0..4u8, any::<u8>()]).prop_map(|(o, i)| Named::Queue { o, i }),
        1 => any::<[u8; 32]>().prop_map(Named::Elsewhere),
        1 => key().prop_map(Named::Bad),
    ]
}
fn state() -> impl Strategy<Value = State> {
    prop_oneof![
        8 => (prop_oneof![0..5u32, any::<u32>()], any::<bool>(), 0..500u16).prop_map(|(items, delegated, size)| State::Good { items, delegated, size }),
        1 => (0..40u8).prop_map(State::Short),
        1 => (0..9u8).prop_map(State::WrongTag),
        1 => (0..64u16).prop_map(State::Zeros),
    ]
}
fn case() -> impl Strategy<Value = Case> {
    let what = prop_oneof![
        1 => Just(What::Initialize),
        3 => (key(), key()).prop_map(|(identity, pubkey)| What::Add { identity, pubkey }),
        2 => key().prop_map(|identity| What::Remove { identity }),
        4 => (key(), prop::bool::weighted(0.8), num(255), prop::option::of(prop_oneof![8 => num(60_000), 2 => num(2_000_000), 1 => Just(Num::N(u32::MAX as u64 + 1))])).prop_map(|(identity, own, index, bytes)| What::InitQueue { identity, own, index, bytes }),
        3 => named().prop_map(What::Delegate),
        3 => named().prop_map(What::Undelegate),
        3 => named().prop_map(What::Close),
        1 => Just(What::Derive),
        3 => Just(What::List),
        1 => any::<u8>().prop_map(What::Nonsense),
    ];
    let node = prop_oneof![10 => Just(Node::Fine), 1 => Just(Node::Refuses), 1 => Just(Node::Fails), 1 => Just(Node::HashErr), 1 => Just(Node::AccountErr), 1 => Just(Node::SendErr), 1 => Just(Node::Late)];
    (
        what,
        prop_oneof![8 => (0..2u8).prop_map(Some), 1 => Just(None)],
        prop_oneof![20 => Just(None), 1 => prop_oneof![Just("xyz".to_string()), Just("".into()), "[1-9A-HJ-NP-Za-km-z]{60,90}"].prop_map(Some)],
        any::<u8>(),
        prop::collection::vec((0..2u8, prop_oneof![2 => 0..4u8, 1 => any::<u8>(), 1 => prop_oneof![Just(19u8), Just(20), Just(99), Just(100), Just(255)]], state()).prop_map(|(o, i, state)| QueueAt { o, i, state }), 0..8),
        state(),
        node,
    )
        .prop_map(|(what, signer, key_bad, style, mut queues, elsewhere, node)| {
            // mostly name a queue that exists
            if let What::Delegate(Named::Queue { o, i }) | What::Undelegate(Named::Queue { o, i }) | What::Close(Named::Queue { o, i }) = &what {
                if style % 5 != 0 && !queues.iter().any(|q| q.o == *o && q.i == *i) {
                    let state = elsewhere.clone();
                    queues.push(QueueAt { o: *o, i: *i, state });
                }
            }
            Case { what, signer, key_bad, style, queues, elsewhere, node }
        })
}

// ------------------------------------------------------------------ reference
const DEFAULT: &str = "D4fURjsRpMj1vzfXqHgL94UeJyXR8DFyfyBDmbY647PnpuDzszvbRocMQu6Tzr1LUzBTQvXjarCxeb94kSTqvYx";
fn kp(n: Option<u8>) -> Keypair {
    match n {
        None => Keypair::from_base58_string(DEFAULT),
        Some(n) => keypair(&format!("oracle{n}")),
    }
}
fn text(k: &Key) -> String {
    match k {
        Key::Oracle(o) => cast().oracles[*o as usize % 5].key.to_string(),
        Key::Any(b) => Pubkey::new_from_array(*b).to_string(),
        Key::Text(t) => t.clone(),
        Key::Broken(o, n) => {
            let mut s = cast().oracles[*o as usize % 5].key.to_string();
            match n % 4 {
                0 => s.truncate(s.len() - 1 - *n as usize % 8),
                1 => s.push_str("zz"),
                2 => s.replace_range(3..4, "0"),
                _ => s.push(' '),
            }
            s
        }
    }
}
/// A valid key is the base-58 text of exactly 32 bytes.
fn parse(s: &str) -> Option<Pubkey> {
    if s.len() > 44 {
        return None;
    }
    bs58::decode(s).into_vec().ok().and_then(|v| <[u8; 32]>::try_from(v).ok()).map(Pubkey::new_from_array)
}
fn queue_of(o: &Pubkey, i: u8) -> Pubkey {
    pda(&[b"queue", o.as_ref(), &[i]], &vrf())
}
#[derive(Clone)]
struct Acc {
    owner: Pubkey,
    data: Vec<u8>,
}
fn account(s: &State, index: u8) -> Acc {
    let good = |items: u32, size: u16| {
        let mut d = vec![3u8, 0, 0, 0, 0, 0, 0, 0];
        d.extend(items.to_le_bytes());
        d.extend(16u32.to_le_bytes());
        d.extend([index, 0, 0, 0]);
        d.extend([0; 4]);
        d.resize(d.len() + size as usize, 0);
        d
    };
    match s {
        State::Good { items, delegated, size } => Acc { owner: if *delegated { dlp() } else { vrf() }, data: good(*items, *size) },
        State::Short(n) => Acc { owner: vrf(), data: good(1, 0)[..*n as usize % 20].to_vec() },
        State::WrongTag(b) => {
            let mut d = good(0, 50);
            d[*b as usize % 8] ^= 1;
            Acc { owner: vrf(), data: d }
        }
        State::Zeros(n) => Acc { owner: vrf(), data: vec![0; *n as usize] },
    }
}
/// (index, items) of a readable queue account
fn read(a: &Acc) -> Option<(u8, u32)> {
    (a.data.len() >= 20 && a.data[..8] == [3, 0, 0, 0, 0, 0, 0, 0]).then(|| (a.data[16], u32::from_le_bytes(a.data[8..12].try_into().unwrap())))
}
fn ix(tag: u8, body: &[u8], metas: &[(Pubkey, bool, bool)]) -> Instruction {
    let mut data = vec![tag, 0, 0, 0, 0, 0, 0, 0];
    data.extend_from_slice(body);
    Instruction { program_id: vrf(), accounts: metas.iter().map(|(k, s, w)| if *w { AccountMeta::new(*k, *s) } else { AccountMeta::new_readonly(*k, *s) }).collect(), data }
}
enum Want {
    Send(Vec<Instruction>),
    Nothing,
    /// accepted as text by the command line, but only one key can sign
    OtherSigner,
    Derive,
    List,
}
struct World {
    accts: BTreeMap<Pubkey, Acc>,
}
fn expectation(c: &Case, w: &World, me: &Pubkey) -> Want {
    let v = vrf();
    let registry = pda(&[b"oracles"], &v);
    let data_of = |i: &Pubkey| pda(&[b"oracle", i.as_ref()], &v);
    let program_data = cast().program_data;
    let queue = |n: &Named| -> Option<(Pubkey, u8)> {
        let k = match n {
            Named::Queue { o, i } => queue_of(&cast().oracles[*o as usize].key, *i),
            Named::Elsewhere(b) => Pubkey::new_from_array(*b),
            Named::Bad(k) => parse(&text(k))?,
        };
        Some((k, read(w.accts.get(&k)?)?.0))
    };
    match &c.what {
        What::Initialize => Want::Send(vec![ix(0, &[], &[(*me, true, true), (registry, false, true), (SYS, false, false)])]),
        What::Add { identity, pubkey } => {
            let (Some(i), Some(p)) = (parse(&text(identity)), parse(&text(pubkey))) else { return Want::Nothing };
            let mut b = i.to_bytes().to_vec();
            b.extend(p.to_bytes());
            b.push(0);
            Want::Send(vec![ix(1, &b, &[(*me, true, true), (registry, false, true), (data_of(&i), false, true), (program_data, false, false), (SYS, false, false)])])
        }
        What::Remove { identity } => {
            let Some(i) = parse(&text(identity)) else { return Want::Nothing };
            let mut b = i.to_bytes().to_vec();
            b.extend([0; 32]);
            b.push(1);
            Want::Send(vec![ix(1, &b, &[(*me, true, true), (registry, false, true), (data_of(&i), false, true), (program_data, false, false), (SYS, false, false)])])
        }
        What::InitQueue { identity, own, index, bytes } => {
            let t = if *own { me.to_string() } else { text(identity) };
            let Some(i) = parse(&t) else { return Want::Nothing };
            let Num::N(n) = index else { return Want::Nothing };
            let Ok(n) = u8::try_from(*n) else { return Want::Nothing };
            let size = match bytes {
                None => 9500,
                Some(Num::N(b)) => match u32::try_from(*b) {
                    Ok(b) => b,
                    Err(_) => return Want::Nothing,
                },
                Some(Num::Text(_)) => return Want::Nothing,
            };
            if i != *me {
                return Want::OtherSigner;
            }
            let mut b = size.to_le_bytes().to_vec();
            b.extend([n, 0, 0, 0]);
            let one = ix(2, &b, &[(*me, true, true), (i, true, false), (data_of(&i), false, true), (queue_of(&i, n), false, true), (SYS, false, false)]);
            Want::Send(vec![one; size.div_ceil(10_240).max(1) as usize])
        }
        What::Delegate(n) => match queue(n) {
            Some((q, i)) => Want::Send(vec![ix(5, &[i], &[(*me, true, true), (q, false, true), (delegate_buffer(&q), false, true), (dlp_record(&q), false, true), (dlp_metadata(&q), false, true), (dlp(), false, false), (v, false, false), (SYS, false, false)])]),
            None => Want::Nothing,
        },
        What::Undelegate(n) => match queue(n) {
            Some((q, i)) => Want::Send(vec![ix(6, &[i], &[(*me, true, true), (q, false, true), (magic_ctx(), false, true), (magic(), false, false)])]),
            None => Want::Nothing,
        },
        What::Close(n) => match queue(n) {
            // only the owner can close, and nothing else than the named queue
            Some((q, i)) if queue_of(me, i) == q => Want::Send(vec![ix(7, &[i], &[(*me, true, true), (data_of(me), false, true), (q, false, true)])]),
            _ => Want::Nothing,
        },
        What::Derive => Want::Derive,
        What::List => Want::List,
        What::Nonsense(_) => Want::Nothing,
    }
}

// ------------------------------------------------------------------ node
#[derive(Default)]
struct Log {
    sent: Vec<Result<Transaction, String>>,
    asked: BTreeMap<Signature, u32>,
    airdrops: u32,
    methods: Vec<String>,
}
struct Srv {
    node: Node,
    accts: BTreeMap<Pubkey, Acc>,
    log: Mutex<Log>,
    hash: Hash,
}
fn ui(a: &Acc) -> Value {
    json!({"lamports": 5_000_000u64, "data": [base64::engine::general_purpose::STANDARD.encode(&a.data), "base64"], "owner": a.owner.to_string(), "executable": false, "rentEpoch": 0u64, "space": a.data.len()})
}
impl Srv {
    fn answer(&self, method: &str, p: &Value) -> Result<Value, String> {
        let ctx = json!({"slot": 1000, "apiVersion": "3.0.0"});
        let mut log = self.log.lock().unwrap();
        log.methods.push(method.into());
        let b64 = |p: &Value| p["encoding"].as_str().is_some_and(|e| e.starts_with("base64"));
        match method {
            "getLatestBlockhash" if matches!(self.node, Node::HashErr) => Err("node is behind".into()),
            "getLatestBlockhash" => Ok(json!({"context": ctx, "value": {"blockhash": self.hash.to_string(), "lastValidBlockHeight": 1150}})),
            "isBlockhashValid" => Ok(json!({"context": ctx, "value": true})),
            "getVersion" => Ok(json!({"solana-core": "3.0.0", "feature-set": 1})),
            "getAccountInfo" | "getMultipleAccounts" if matches!(self.node, Node::AccountErr) => Err("node is behind".into()),
            "getAccountInfo" => {
                if !b64(&p[1]) {
                    return Err("unsupported encoding".into());
                }
                let k: Pubkey = p[0].as_str().and_then(|s| s.parse().ok()).ok_or("bad key")?;
                Ok(json!({"context": ctx, "value": self.accts.get(&k).map(ui)}))
            }
            "getMultipleAccounts" => {
                if !b64(&p[1]) {
                    return Err("unsupported encoding".into());
                }
                let l = p[0].as_array().ok_or("bad keys")?;
                if l.len() > 100 {
                    return Err("Too many inputs provided; max 100".into());
                }
                let v: Vec<Value> = l.iter().map(|k| k.as_str().and_then(|s| s.parse::<Pubkey>().ok()).and_then(|k| self.accts.get(&k).map(ui)).unwrap_or(Value::Null)).collect();
                Ok(json!({"context": ctx, "value": v}))
            }
            "getProgramAccounts" => Ok(json!([])),
            "requestAirdrop" => {
                log.airdrops += 1;
                // a faucet for half of the accounts
                match p[0].as_str().and_then(|s| s.bytes().last()) {
                    Some(b) if b % 2 == 0 => Ok(json!(Signature::from([b; 64]).to_string())),
                    _ => Err("airdrop unavailable".into()),
                }
            }
            "sendTransaction" => {
                let raw = p[0].as_str().unwrap_or_default();
                let bytes = match p[1]["encoding"].as_str() {
                    Some("base64") => base64::engine::general_purpose::STANDARD.decode(raw).ok(),
                    _ => bs58::decode(raw).into_vec().ok(),
                };
                let tx: Option<Transaction> = bytes.as_ref().and_then(|b| bincode::deserialize(b).ok());
                let Some(tx) = tx else {
                    log.sent.push(Err(format!("undecodable: {raw}")));
                    return Err("undecodable".into());
                };
                let sig = tx.signatures.first().copied().unwrap_or_default();
                log.sent.push(Ok(tx));
                if bytes.is_some_and(|b| b.len() > 1232) {
                    return Err("transaction too large".into());
                }
                match self.node {
                    Node::Refuses => Err("Transaction simulation failed".into()),
                    Node::SendErr => Err("node is behind".into()),
                    _ => Ok(json!(sig.to_string())),
                }
            }
            "getSignatureStatuses" => {
                let sigs: Vec<Signature> = p[0].as_array().map(|a| a.iter().filter_map(|s| s.as_str()?.parse().ok()).collect()).unwrap_or_default();
                let mut v = vec![];
                for s in sigs {
                    let n = log.asked.entry(s).or_default();
                    *n += 1;
                    let known = *n > if matches!(self.node, Node::Late) { 2 } else { 0 };
                    v.push(match (&self.node, known) {
                        (_, false) => Value::Null,
                        (Node::Fails, _) => json!({"slot": 1000, "confirmations": null, "err": {"InstructionError": [1, {"Custom": 1}]}, "status": {"Err": {"InstructionError": [1, {"Custom": 1}]}}, "confirmationStatus": "finalized"}),
                        _ => json!({"slot": 1000, "confirmations": null, "err": null, "status": {"Ok": null}, "confirmationStatus": "finalized"}),
                    });
                }
                Ok(json!({"context": ctx, "value": v}))
            }
            m => Err(format!("unsupported {m}")),
        }
    }
}
async fn conn(s: TcpStream, srv: Arc<Srv>) -> Option<()> {
    let mut r = BufReader::new(s);
    loop {
        let mut len = 0usize;
        loop {
            let mut line = String::new();
            if r.read_line(&mut line).await.ok()? == 0 {
                return None;
            }
            let l = line.trim().to_ascii_lowercase();
            if l.is_empty() {
                break;
            }
            if let Some(n) = l.strip_prefix("content-length:") {
                len = n.trim().parse().ok()?;
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body).await.ok()?;
        let v: Value = serde_json::from_slice(&body).ok()?;
        let reply = match srv.answer(v["method"].as_str().unwrap_or_default(), &v["params"]) {
            Ok(x) => json!({"jsonrpc": "2.0", "result": x, "id": v["id"]}),
            Err(e) => json!({"jsonrpc": "2.0", "error": {"code": -32005, "message": e}, "id": v["id"]}),
        }
        .to_string();
        let s = r.get_mut();
        s.write_all(format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{reply}", reply.len()).as_bytes()).await.ok()?;
        s.flush().await.ok()?;
    }
}

// ------------------------------------------------------------------ check
fn args(c: &Case, url: &str, key: Option<String>) -> (Vec<String>, Vec<(String, String)>) {
    let (mut a, mut env) = (vec![], vec![]);
    let opt = |a: &mut Vec<String>, bit: u8, short: &str, long: &str, v: String| match (c.style >> bit) % 4 {
        // an attached value keeps its meaning whatever it starts with
        _ if v.is_empty() || v.starts_with('-') => a.push(format!("{long}={v}")),
        0 if !short.is_empty() => a.extend([short.to_string(), v]),
        1 => a.push(format!("{long}={v}")),
        2 if !short.is_empty() => a.push(format!("{short}{v}")),
        _ => a.extend([long.to_string(), v]),
    };
    if c.style & 64 == 0 {
        opt(&mut a, 0, "-r", "--rpc-url", url.into());
    } else {
        env.push(("RPC_URL".to_string(), url.to_string()));
    }
    if let Some(k) = key {
        if c.style & 128 == 0 {
            opt(&mut a, 2, "-k", "--keypair", k);
        } else {
            env.push(("KEYPAIR_BASE58".to_string(), k));
        }
    }
    let q = |n: &Named| match n {
        Named::Queue { o, i } => queue_of(&cast().oracles[*o as usize].key, *i).to_string(),
        Named::Elsewhere(b) => Pubkey::new_from_array(*b).to_string(),
        Named::Bad(k) => text(k),
    };
    let num = |n: &Num| match n {
        Num::N(n) => n.to_string(),
        Num::Text(t) => t.clone(),
    };
    match &c.what {
        What::Initialize => a.push("initialize".into()),
        What::Add { identity, pubkey } => {
            a.push("add-oracle".into());
            opt(&mut a, 1, "-i", "--identity", text(identity));
            opt(&mut a, 3, "-o", "--oracle-pubkey", text(pubkey));
        }
        What::Remove { identity } => {
            a.push("remove-oracle".into());
            opt(&mut a, 1, "-i", "--identity", text(identity));
        }
        What::InitQueue { identity, own, index, bytes } => {
            a.push("initialize-oracle-queue".into());
            let i = if *own { kp(c.signer).pubkey().to_string() } else { text(identity) };
            opt(&mut a, 1, "-i", "--identity", i);
            opt(&mut a, 3, "", "--index", num(index));
            if let Some(b) = bytes {
                opt(&mut a, 4, "-b", "--bytes-to-allocate", num(b));
            }
        }
        What::Delegate(n) => {
            a.push("delegate-oracle-queue".into());
            opt(&mut a, 1, "-q", "--queue", q(n));
        }
        What::Undelegate(n) => {
            a.push("undelegate-oracle-queue".into());
            opt(&mut a, 1, "-q", "--queue", q(n));
        }
        What::Close(n) => {
            a.push("close-oracle-queue".into());
            opt(&mut a, 1, "-q", "--queue", q(n));
        }
        What::Derive => a.push("derive-pubkey".into()),
        What::List => a.push("list-queue".into()),
        What::Nonsense(n) => match n % 6 {
            0 => a.push("add-oracle".into()),
            1 => a.extend(["remove-oracle".into(), "--identity".into()]),
            2 => a.push("close-oracle".into()),
            3 => a.extend(["initialize-oracle-queue".into(), "-i".into(), cast().oracles[0].key.to_string()]),
            4 => a.extend(["initialize".into(), "--force".into()]),
            _ => {}
        },
    }
    (a, env)
}
fn c34(c: &Case) -> Outcome {
    let mut o = Outcome::default();
    let me_kp = kp(c.signer);
    let me = me_kp.pubkey();
    let mut w = World { accts: BTreeMap::new() };
    for q in &c.queues {
        w.accts.entry(queue_of(&cast().oracles[q.o as usize].key, q.i)).or_insert_with(|| account(&q.state, q.i));
    }
    if let What::Delegate(Named::Elsewhere(b)) | What::Undelegate(Named::Elsewhere(b)) | What::Close(Named::Elsewhere(b)) = &c.what {
        // a look-alike of a queue at another address
        w.accts.insert(Pubkey::new_from_array(*b), account(&c.elsewhere, b[0]));
    }
    let srv = Arc::new(Srv { node: c.node.clone(), accts: w.accts.clone(), log: Default::default(), hash: Hash::new_from_array([c.style; 32]) });
    let key = c.key_bad.clone().or(c.signer.map(|_| bs58::encode(me_kp.to_bytes()).into_string()));
    // a damaged key may happen to be a real one
    let bad_key = c.key_bad.is_some();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let out = rt.block_on(async {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let url = format!("http://127.0.0.1:{}", l.local_addr().unwrap().port());
        let s = srv.clone();
        tokio::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                tokio::spawn(conn(c, s.clone()));
            }
        });
        let (a, env) = args(c, &url, key);
        tokio::task::spawn_blocking(move || {
            let mut cmd = Command::new(vcore::verif_dir().join("target/debug/vrf-cli"));
            cmd.env_clear().args(&a).envs(env).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
            unsafe {
                use std::os::unix::process::CommandExt;
                cmd.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            let mut ch = match cmd.spawn() {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("HARNESS ERROR: cannot start vrf-cli: {e}");
                    std::process::exit(3);
                }
            };
            let t0 = std::time::Instant::now();
            let late = loop {
                if ch.try_wait().ok().flatten().is_some() {
                    break false;
                }
                if t0.elapsed() > Duration::from_secs(120) {
                    let _ = ch.kill();
                    break true;
                }
                std::thread::sleep(Duration::from_millis(4));
            };
            let out = ch.wait_with_output().unwrap();
            (late, out, a)
        })
        .await
        .unwrap()
    });
    let (late, out, argv) = out;
    let (so, se) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
    let code = out.status.code();
    if std::env::var("VERIF_TRACE").is_ok() {
        eprintln!("{argv:?} -> {code:?}\n{so}\n{se}");
    }
    let log = srv.log.lock().unwrap();
    let what = argv.join(" ");
    if late {
        o.fail("C34", "hangs", format!("`{what}` does not end"));
        return o;
    }
    let want = if bad_key { Want::Nothing } else { expectation(c, &w, &me) };
    let mut txs: Vec<&Transaction> = vec![];
    for s in &log.sent {
        match s {
            Ok(t) if txs.contains(&t) => {}
            Ok(t) => txs.push(t),
            Err(e) => o.fail("C34", "undecodable-transaction", format!("`{what}` sends {e}")),
        }
    }
    let sends = matches!(want, Want::Send(_));
    if !sends && !txs.is_empty() {
        o.fail("C34", "sends-nevertheless", format!("`{what}` sends a transaction {:?}", txs[0].message));
    }
    match want {
        Want::Send(ixs) => {
            o.class("sending-command");
            o.nontrivial = true;
            let reach = !matches!(c.node, Node::HashErr) && !(matches!(c.node, Node::AccountErr) && matches!(c.what, What::Delegate(_) | What::Undelegate(_) | What::Close(_)));
            // more steps than a transaction can hold: it may be refused by the tool or by the node
            let fits = bincode::serialize(&solana_sdk::message::Message::new(&ixs, Some(&me))).map(|b| b.len()).unwrap_or(9999) + 65 <= 1232;
            if txs.len() > 1 || txs.is_empty() && reach && fits || !txs.is_empty() && !reach {
                o.fail("C34", "number-of-transactions", format!("`{what}` sends {} transactions; {code:?} {se}", txs.len()));
            }
            if let Some(t) = txs.first() {
                let m = &t.message;
                if m.account_keys.first() != Some(&me) || m.header.num_required_signatures != 1 || t.verify().is_err() {
                    o.fail("C34", "wrong-signer", format!("`{what}`: signatures {:?} of {:?}, the key is {me}", t.signatures, m.account_keys.first()));
                }
                if m.recent_blockhash != srv.hash {
                    o.fail("C34", "wrong-blockhash", format!("`{what}`: {}", m.recent_blockhash));
                }
                let budget: Pubkey = "ComputeBudget111111111111111111111111111111".parse().unwrap();
                let got: Vec<(Pubkey, Vec<(Pubkey, bool, bool)>, Vec<u8>)> = m
                    .instructions
                    .iter()
                    .map(|i| (m.account_keys[i.program_id_index as usize], i.accounts.iter().map(|a| (m.account_keys[*a as usize], m.is_signer(*a as usize), m.is_maybe_writable(*a as usize, None))).collect(), i.data.clone()))
                    .filter(|x: &(Pubkey, Vec<(Pubkey, bool, bool)>, Vec<u8>)| x.0 != budget)
                    .collect();
                // one signer and writable flag per account and transaction
                let flag = |k: &Pubkey| ixs.iter().flat_map(|i| &i.accounts).filter(|a| a.pubkey == *k).fold((*k == me, *k == me), |(s, w), a| (s || a.is_signer, w || a.is_writable));
                let exp: Vec<(Pubkey, Vec<(Pubkey, bool, bool)>, Vec<u8>)> = ixs
                    .iter()
                    .map(|i| {
                        let f = |a: &AccountMeta| {
                            let (s, w) = flag(&a.pubkey);
                            // the runtime never write-locks programs and reserved accounts
                            let called = ixs.iter().any(|i| i.program_id == a.pubkey);
                            (a.pubkey, s, w && !called)
                        };
                        (i.program_id, i.accounts.iter().map(f).collect(), i.data.clone())
                    })
                    .collect();
                let budgets = m.instructions.iter().filter(|i| m.account_keys[i.program_id_index as usize] == budget).map(|i| i.data.as_slice());
                match chain::svm::compute_limit(budgets, exp.len() as u32) {
                    Err(e) => o.fail("C34", "unusable-compute-budget", format!("`{what}`: {e}")),
                    // every operation derives an address
                    Ok(l) if l < 1_500 => o.fail("C34", "unusable-compute-budget", format!("`{what}` allows {l} compute units")),
                    _ => {}
                }
                if got != exp {
                    o.fail("C34", "wrong-instruction", format!("`{what}` sends {:?}, wanted {:?}", got.iter().take(2).collect::<Vec<_>>(), exp.iter().take(2).collect::<Vec<_>>()));
                }
                let size = bincode::serialize(t).map(|b| b.len()).unwrap_or(9999);
                let good = matches!(c.node, Node::Fine | Node::Late) && size <= 1232 || matches!(c.node, Node::AccountErr) && size <= 1232;
                if good != (code == Some(0)) {
                    o.fail("C34", "exit-code", format!("`{what}` ends with {code:?} although the transaction {}: {se}", if good { "succeeded" } else { "failed" }));
                }
            } else if code == Some(0) {
                o.fail("C34", "exit-code", format!("`{what}` ends with 0 without sending"));
            }
        }
        Want::Nothing => {
            o.class("rejected-arguments");
            o.nontrivial = !matches!(c.what, What::Nonsense(_));
            if code == Some(0) {
                o.fail("C34", "exit-code", format!("`{what}` ends with 0: {so}"));
            }
        }
        Want::OtherSigner => {
            o.class("other-identity");
            if code == Some(0) {
                o.fail("C34", "exit-code", format!("`{what}` ends with 0 without the identity's signature: {so}"));
            }
        }
        Want::Derive => {
            o.class("derive");
            if code == Some(0) || matches!(c.node, Node::Fine) {
                let (_, pk) = c.signer.map(|n| (0, cast().oracles[n as usize].pk)).unwrap_or((0, rvrf_key(&me_kp)));
                o.nontrivial = true;
                let pk = Pubkey::new_from_array(pk).to_string();
                if code != Some(0) || !so.lines().any(|l| l.contains(&pk) && l.contains(&me.to_string())) {
                    o.fail("C34", "derived-key", format!("`{what}` prints no {pk}: {code:?} {so} {se}"));
                }
            }
        }
        Want::List => {
            o.class("list");
            let fails = matches!(c.node, Node::HashErr | Node::AccountErr);
            if fails && code == Some(0) {
                o.fail("C34", "incomplete-list", format!("`{what}` ends with 0 although the node answers no questions about accounts: {so}"));
            }
            if !fails && code != Some(0) {
                o.fail("C34", "exit-code", format!("`{what}` ends with {code:?}: {se}"));
            }
            if !fails {
                let mut n = 0;
                for i in 0..=255u8 {
                    let k = queue_of(&me, i);
                    let lines: Vec<&str> = so.lines().filter(|l| l.contains(&k.to_string())).collect();
                    let a = w.accts.get(&k);
                    match a.map(|a| (read(a), a)) {
                        Some((Some((index, items)), a)) => {
                            n += 1;
                            let toks: Vec<&str> = lines.first().map(|l| l.split(|c: char| !c.is_ascii_alphanumeric()).collect()).unwrap_or_default();
                            let val = |name: &str| toks.iter().position(|t| *t == name).and_then(|p| toks[p + 1..].iter().find(|t| !t.is_empty()).copied());
                            let want = (items.to_string(), index.to_string(), (a.owner != vrf()).to_string());
                            let got = (val("items"), val("index"), val("delegated"));
                            if lines.len() != 1 || got != (Some(&want.0[..]), Some(&want.1[..]), Some(&want.2[..])) {
                                o.fail("C34", "wrong-list", format!("queue {i} {k}: wanted items, index, delegated {want:?}, got {lines:?}"));
                            }
                        }
                        Some((None, _)) => {
                            if lines.iter().any(|l| l.contains("items")) {
                                o.fail("C34", "wrong-list", format!("unreadable queue {i} {k}: {lines:?}"));
                            }
                        }
                        None => {
                            if !lines.is_empty() {
                                o.fail("C34", "wrong-list", format!("missing queue {i} {k}: {lines:?}"));
                            }
                        }
                    }
                }
                o.nontrivial = n > 0;
            }
        }
    }
    o
}
fn rvrf_key(k: &Keypair) -> [u8; 32] {
    chain::cast::public_of(k)
}
fn main() {
    let mut h = Harness::from_env("exploration");
    h.set_threads(12);
    h.case_limit(600);
    h.part("commands", "a valid command, or one refused for its arguments or queue", (8_000, 400_000), case, c34);
    h.assume("the node on the loopback network answers as a Solana node does; the instructions are compared with independently built ones, what they do is decided by the checks of the program");
    h.finish();
}

//! C32: the published statistics after generated sequences of queue updates, read over HTTP.
use crate::blockhash_cache::BlockhashCache;
use crate::oracle::processor::{fetch_and_process_program_accounts, process_oracle_queue};
use crate::oracle::utils::queue_memcmp_filter;
use crate::wb::{base, err, me, own, service, IntoCache};
use base64::Engine;
use chain::cast::cast;
use ephemeral_vrf_api::prelude as api;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solana_client::nonblocking::rpc_client::RpcClient;
use solana_client::rpc_client::RpcClientConfig;
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU16, Ordering};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use vcore::{Harness, Outcome};

const N: usize = 10;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// requests join a queue at a slot
    Ask { q: u8, which: u16, slot: u16 },
    /// requests leave a queue
    Leave { q: u8, which: u16 },
    /// the service is told about a queue
    Note { q: u8, slot: u32 },
    Scan,
    Read,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
    /// 0 the node never answers, 1 refuses, 2 confirms
    node: u8,
    pad: u8,
}
fn step() -> impl Strategy<Value = Step> {
    let q = || prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)];
    let slot = prop_oneof![6 => 0..700u32, 1 => Just(u32::MAX), 1 => Just(0)];
    prop_oneof![
        3 => (q(), any::<u16>(), 0..600u16).prop_map(|(q, which, slot)| Step::Ask { q, which, slot }),
        3 => (q(), prop_oneof![any::<u16>(), Just(u16::MAX)]).prop_map(|(q, which)| Step::Leave { q, which }),
        6 => (q(), slot).prop_map(|(q, slot)| Step::Note { q, slot }),
        2 => Just(Step::Scan),
        1 => Just(Step::Read),
    ]
}
fn case() -> impl Strategy<Value = Case> {
    (prop::collection::vec(step(), 6..48), 0..3u8, 0..60u8).prop_map(|(steps, node, pad)| Case { steps, node, pad })
}

#[derive(Clone)]
struct Quiet {
    node: u8,
    accts: Arc<Mutex<Vec<Value>>>,
}
#[async_trait::async_trait]
impl RpcSender for Quiet {
    async fn send(&self, request: RpcRequest, params: Value) -> solana_client::client_error::Result<Value> {
        match request {
            RpcRequest::GetLatestBlockhash => Ok(json!({"context": {"slot": 300, "apiVersion": "3.0.0"}, "value": {"blockhash": Pubkey::new_from_array([7; 32]).to_string(), "lastValidBlockHeight": 1000}})),
            RpcRequest::GetProgramAccounts => Ok(Value::Array(self.accts.lock().unwrap().clone())),
            RpcRequest::SendTransaction => match self.node {
                0 => std::future::pending().await,
                1 => Err(err("refused")),
                _ => {
                    use solana_sdk::transaction::Transaction;
                    let raw = params[0].as_str().unwrap_or_default();
                    let tx: Transaction = base64::engine::general_purpose::STANDARD.decode(raw).ok().and_then(|b| bincode::deserialize(&b).ok()).ok_or_else(|| err("undecodable"))?;
                    Ok(json!(tx.signatures[0].to_string()))
                }
            },
            RpcRequest::GetSignatureStatuses => Ok(json!({"context": {"slot": 300}, "value": [{"slot": 300, "confirmations": 1, "err": null, "status": {"Ok": null}, "confirmationStatus": "processed"}]})),
            other => Err(err(&format!("unsupported {other}"))),
        }
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "http://localhost:8899".into()
    }
}

fn free_port() -> u16 {
    static NEXT: AtomicU16 = AtomicU16::new(0);
    loop {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let p = 20_000 + n.wrapping_add((std::process::id() % 97) as u16 * 100) % 12_000;
        if std::net::TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}
async fn http(port: u16, req: &str) -> Result<(u16, String), String> {
    let e = |e: std::io::Error| e.to_string();
    let mut s = tokio::net::TcpStream::connect(("127.0.0.1", port)).await.map_err(e)?;
    s.write_all(format!("{req} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n").as_bytes()).await.map_err(e)?;
    let mut b = vec![];
    s.read_to_end(&mut b).await.map_err(e)?;
    let t = String::from_utf8_lossy(&b).to_string();
    let (head, body) = t.split_once("\r\n\r\n").ok_or("no body")?;
    let code = head.split(' ').nth(1).and_then(|c| c.parse().ok()).ok_or("no status")?;
    Ok((code, body.to_string()))
}
fn addr(q: u8) -> Pubkey {
    match q {
        0 => me().queues[0],
        1 => me().queues[1],
        2 => cast().oracles[1].queues[0],
        // looks like our queue, but is at another address
        _ => Pubkey::new_from_array([77; 32]),
    }
}
fn id(q: u8, n: usize) -> [u8; 32] {
    let mut b = [n as u8; 32];
    b[31] = q % 2; // queue 2 and 3 share ids with ours
    b
}
fn account(bank: &chain::svm::Bank, q: u8, has: &BTreeMap<usize, u64>, pad: u8) -> Vec<u8> {
    let mut d = bank.get(&if q == 3 { me().queues[0] } else { addr(q) }).data;
    let mut view = api::QueueAccount::load(&mut d[8..]).expect("queue");
    for (n, slot) in has {
        let it = api::QueueItem { slot: *slot, id: id(q, *n), callback_program_id: cast().progs[0].to_bytes(), ..Default::default() };
        view.add_item(&it, &[1; 8], &[], &vec![5; (pad as usize * (n + 1)) % 97]).expect("add");
    }
    // holes
    if pad % 3 == 0 && view.len() > 0 {
        let it = view.remove_item(0).expect("remove");
        view.add_item(&it, &[1; 8], &[], &[]).expect("add again");
    }
    d
}

#[derive(Default)]
struct Model {
    size: BTreeMap<u8, usize>,
    track: BTreeMap<u8, BTreeMap<usize, u64>>,
    lat: BTreeMap<u8, Vec<u64>>,
}
impl Model {
    fn update(&mut self, q: u8, has: &BTreeMap<usize, u64>, note: Option<u64>) {
        if q > 1 {
            return;
        }
        self.size.insert(q, has.len());
        let t = self.track.entry(q).or_default();
        let gone: Vec<(usize, u64)> = t.iter().filter(|(n, _)| !has.contains_key(n)).map(|(n, s)| (*n, *s)).collect();
        for (n, s) in gone {
            t.remove(&n);
            if let Some(at) = note {
                self.lat.entry(q).or_default().push(at.saturating_sub(s));
            }
        }
        for (n, s) in has {
            t.entry(*n).or_insert(*s);
        }
    }
}

fn c32(c: &Case) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut o = Outcome::default();
        let bank = base();
        let client = service(true);
        let node = Quiet { node: c.node, accts: Default::default() };
        let rpc = Arc::new(RpcClient::new_sender(node.clone(), RpcClientConfig::default()));
        let cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc)).await.cache().expect("first blockhash"));
        let port = free_port();
        if let Err(e) = crate::start_http_server(client.clone(), port).await {
            o.fail("C32", "http-server", format!("{e}"));
            return o;
        }
        let mut has: [BTreeMap<usize, u64>; 4] = Default::default();
        let mut used: [BTreeSet<usize>; 4] = Default::default();
        let mut m = Model::default();
        let mut reads = 0;
        let mut steps = c.steps.clone();
        steps.push(Step::Read);
        for (n, s) in steps.iter().enumerate() {
            match s {
                Step::Ask { q, which, slot } => {
                    for i in 0..N {
                        // a request never comes back
                        if which >> i & 1 == 1 && used[*q as usize].insert(i) {
                            has[*q as usize].insert(i, *slot as u64 + i as u64);
                        }
                    }
                }
                Step::Leave { q, which } => has[*q as usize].retain(|i, _| which >> i & 1 == 0),
                Step::Note { q, slot } => {
                    let d = account(&bank, *q, &has[*q as usize], c.pad);
                    let Ok(meta) = api::Queue::try_from_bytes(&d).copied() else {
                        o.fail("C32", "queue-unreadable", "a queue account cannot be read");
                        return o;
                    };
                    process_oracle_queue(&client, &rpc, &cache, &addr(*q), &meta, Arc::new(d.clone()), Some(*slot as u64)).await;
                    m.update(*q, &has[*q as usize], Some(*slot as u64));
                    o.class("notification");
                }
                Step::Scan => {
                    *node.accts.lock().unwrap() = (0..4u8)
                        .map(|q| {
                            let d = base64::engine::general_purpose::STANDARD.encode(account(&bank, q, &has[q as usize], c.pad));
                            let k = addr(q).to_string();
                            json!({"pubkey": k, "account": {"lamports": 1, "data": [d, "base64"], "owner": ephemeral_vrf_api::ID.to_string(), "executable": false, "rentEpoch": 0u64}})
                        })
                        .collect();
                    if let Err(e) = fetch_and_process_program_accounts(&client, &rpc, &cache, queue_memcmp_filter()).await {
                        o.fail("C32", "scan-failed", format!("{e}"));
                        return o;
                    }
                    for q in 0..4u8 {
                        m.update(q, &has[q as usize], None);
                    }
                    o.class("scan");
                }
                Step::Read => {
                    reads += 1;
                    let (code, body) = match http(port, "GET /stats").await {
                        Ok(x) => x,
                        Err(e) => {
                            o.fail("C32", "stats-unavailable", e);
                            return o;
                        }
                    };
                    let v: Value = serde_json::from_str(&body).unwrap_or_default();
                    if code != 200 || !v.is_object() {
                        o.fail("C32", "stats-unavailable", format!("{code}: {body}"));
                        return o;
                    }
                    let sizes: BTreeMap<String, u64> = v["queues"].as_object().map(|m| m.iter().filter_map(|(k, v)| Some((k.clone(), v.as_u64()?))).collect()).unwrap_or_default();
                    let want: BTreeMap<String, u64> = m.size.iter().map(|(q, s)| (addr(*q).to_string(), *s as u64)).collect();
                    if sizes != want {
                        o.fail("C32", "queue-size", format!("step {n}: sizes {sizes:?}, the latest updates say {want:?}"));
                    }
                    let avgs = v["avg_response_slots"].as_object().cloned().unwrap_or_default();
                    for (k, a) in &avgs {
                        if own(&k.parse().unwrap_or_default()).is_none() {
                            o.fail("C32", "foreign-average", format!("step {n}: average {a} for {k}"));
                        }
                    }
                    for q in 0..2u8 {
                        let l = m.lat.get(&q).cloned().unwrap_or_default();
                        let got = avgs.get(&addr(q).to_string()).and_then(|v| v.as_f64());
                        let want = l.iter().map(|x| *x as f64).sum::<f64>() / l.len().max(1) as f64;
                        let ok = if l.is_empty() { got.is_none_or(|g| g == 0.0) } else { got.is_some_and(|g| (g - want).abs() <= 1e-6 * want.max(1.0)) };
                        if !ok {
                            o.fail("C32", "average", format!("step {n}: average {got:?} for queue {q}; the times of the requests seen to leave are {l:?}"));
                        }
                    }
                }
            }
            for _ in 0..4 {
                tokio::task::yield_now().await;
            }
        }
        if m.lat.values().any(|l| l.len() > 1) {
            o.nontrivial = true;
        }
        o.classes.push(("stats-reads", reads));
        o.classes.push(("requests-seen-to-leave", m.lat.values().map(|l| l.len() as u64).sum()));
        o
    })
}
pub fn run(h: &mut Harness) {
    h.part("updates", "at least two requests of an own queue were seen to leave in notifications", (14_000, 600_000), case, c32);
    h.assume("a request that left a queue does not come back in a later update (the node may serve old snapshots, which the statistics then count again)");
}

//! C30, C31, C32 in virtual time: the service's own functions driven the way `run` drives
//! them, against a simulated chain behind an RPC transport that can fail in generated ways.
use crate::blockhash_cache::BlockhashCache;
use crate::oracle::client::OracleClient;
use crate::oracle::processor::{fetch_and_process_program_accounts, process_oracle_queue};
use crate::oracle::utils::queue_memcmp_filter;
use chain::view::*;
use ephemeral_vrf_api::prelude as api;
pub use onet::*;
use solana_client::nonblocking::rpc_client::RpcClient;
use solana_client::rpc_client::RpcClientConfig;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;
use vcore::{Harness, Outcome};

/// `BlockhashCache::new` as it is and as a fallible constructor.
pub trait IntoCache {
    fn cache(self) -> Option<BlockhashCache>;
}
impl IntoCache for BlockhashCache {
    fn cache(self) -> Option<BlockhashCache> {
        Some(self)
    }
}
impl<E: std::fmt::Debug> IntoCache for Result<BlockhashCache, E> {
    fn cache(self) -> Option<BlockhashCache> {
        self.ok()
    }
}

pub fn service(skip: bool) -> Arc<OracleClient> {
    let kp = Keypair::try_from(&me().bytes[..]).unwrap();
    Arc::new(OracleClient::new(kp, "http://localhost:8899".into(), "ws://localhost:8900".into(), None, None, skip))
}

const SLOT_MS: u64 = 400;
struct Done {
    net: Net,
    left: Vec<(Pubkey, Vec<Item>)>,
}
fn finish_scan(node: &Node) {
    let mut n = node.0.lock().unwrap();
    let e = n.tick();
    let mut gone = vec![];
    for u in n.updates.values_mut() {
        for x in u.iter_mut() {
            if x.end.is_none() {
                x.end = Some(e);
            }
        }
    }
    for (id, p) in &n.phase {
        if *p == Phase::Sent && !n.due(&id.0, &id.1) {
            gone.push(*id);
        }
    }
    for g in gone {
        n.phase.remove(&g);
    }
}

fn simulate(sc: &Scenario) -> Done {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let _frozen = crate::clock::Frozen::new();
    rt.block_on(async {
        tokio::spawn(crate::clock::follow());
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
        let now = Instant::now();
        let node = Node(Arc::new(Mutex::new(Net::new(sc, SLOT_MS, tx))));
        while rx.try_recv().is_ok() {} // nobody was listening yet
        // the service, as `run` starts it
        let svc = {
            let node = node.clone();
            let skip = sc.skip_preflight;
            tokio::spawn(async move {
                let client = service(skip);
                let rpc = Arc::new(RpcClient::new_sender(node.clone(), RpcClientConfig::default()));
                // `main` starts `run` again 3 s after an error
                let cache = loop {
                    if let Some(c) = BlockhashCache::new(Arc::clone(&rpc)).await.cache() {
                        let c = Arc::new(c);
                        let r = fetch_and_process_program_accounts(&client, &rpc, &c, queue_memcmp_filter()).await;
                        finish_scan(&node);
                        if r.is_ok() {
                            break c;
                        }
                    }
                    tokio::time::sleep(Duration::from_secs(3)).await;
                };
                {
                    let (client, rpc, cache, node) = (client.clone(), rpc.clone(), cache.clone(), node.clone());
                    tokio::spawn(async move {
                        let mut t = tokio::time::interval(Duration::from_secs(30));
                        loop {
                            t.tick().await;
                            let _ = fetch_and_process_program_accounts(&client, &rpc, &cache, queue_memcmp_filter()).await;
                            finish_scan(&node);
                        }
                    });
                }
                while let Some(s) = rx.recv().await {
                    tokio::time::sleep_until(s.deliver).await;
                    let Ok(q) = api::Queue::try_from_bytes(&s.data) else { continue };
                    let at = {
                        let mut n = node.0.lock().unwrap();
                        n.tell(s.queue, &s.data, true)
                    };
                    let q = *q;
                    process_oracle_queue(&client, &rpc, &cache, &s.queue, &q, Arc::new(s.data.clone()), Some(s.slot)).await;
                    let mut n = node.0.lock().unwrap();
                    let e = n.tick();
                    for u in n.updates.get_mut(&s.queue).unwrap() {
                        if u.start == at {
                            u.end = Some(e);
                        }
                    }
                    let stale: Vec<Req> = n.phase.iter().filter(|(id, p)| **p == Phase::Sent && !n.due(&id.0, &id.1)).map(|(i, _)| *i).collect();
                    for i in stale {
                        n.phase.remove(&i);
                    }
                }
            })
        };
        world(&node, sc).await;
        // trouble ends, then enough time for expiry, a scan and all back-offs
        let end = sc.windows.iter().map(|w| w.from + w.len).chain(sc.purges.iter().map(|p| p.0)).max().unwrap_or(0).max(70_000);
        tokio::time::sleep_until(now + Duration::from_millis(end as u64 + 300_000)).await;
        svc.abort();
        if let Ok(()) | Err(_) = svc.await.map_err(|e| {
            if e.is_panic() {
                std::panic::resume_unwind(e.into_panic());
            }
        }) {}
        let mut n = node.0.lock().unwrap();
        n.sync();
        let left = n.pending();
        let (tx, _) = tokio::sync::mpsc::unbounded_channel();
        let fresh = Net::new(&Scenario { early: vec![], ..sc.clone() }, SLOT_MS, tx);
        let net = std::mem::replace(&mut *n, fresh);
        Done { net, left }
    })
}
fn c30(sc: &Scenario) -> Outcome {
    let d = simulate(sc);
    let mut o = Outcome::default();
    for (p, s, m) in d.net.bad {
        o.fail(p, s, m);
    }
    let n: usize = d.left.iter().map(|x| x.1.len()).sum();
    if n > 0 {
        let sig = if sc.fork.is_some() { "request-answered-in-a-dropped-fork-is-forgotten" } else { "request-never-answered" };
        let (q, i) = (&d.left[0].0, &d.left[0].1[0]);
        o.fail("C30", sig, format!("{n} requests are still pending 300 s after the last trouble, e.g. {} of queue {q} from slot {}; the service sent {} transactions", Pubkey::new_from_array(i.id), i.slot, d.net.sends));
    }
    let asked = d.net.known.keys().filter(|(q, _)| own(q).is_some()).count();
    o.nontrivial = asked > 0 && d.net.sends > 0;
    for (c, n) in [("requests", asked as u64), ("fulfilled", d.net.delivered), ("fulfilments-sent", d.net.provides), ("purges-sent", d.net.purges)] {
        if n > 0 {
            o.classes.push((c, n));
        }
    }
    classes(sc, &mut o);
    o
}

pub fn run(h: &mut Harness) {
    match h.prop.as_str() {
        "C30" | "C31" => {
            h.part("histories", "a request of an own queue existed and the service sent transactions", (2_500, 200_000), || scenario(false), c30);
            h.assume("the node executes transactions with the real program in a simulated runtime; slots last 400 ms of virtual time; blockhashes live for 150 slots");
        }
        _ => {}
    }
    if h.prop == "C30" {
        h.part("forks", "as above, and the chain drops a stretch of its history once", (600, 20_000), || scenario(true), c30);
        crate::laser::run(h);
    }
    if h.prop == "C32" {
        crate::stats::run(h);
    }
}

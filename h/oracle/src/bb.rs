//! The real vrf-oracle binary against a node on the loopback network.
use base64::Engine;
use chain::view::is_queue;
use futures_util::{SinkExt, StreamExt};
use onet::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solana_client::rpc_filter::RpcFilterType;
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::RpcSender;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU16, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt, BufReader};
use tokio::net::{TcpListener, TcpStream};
use tokio::time::{sleep, sleep_until, Instant};
use tokio_tungstenite::tungstenite::Message;
use vcore::{Harness, Outcome};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    sc: Scenario,
    slot_ms: u16,
    /// failing calls close the connection instead of returning an error
    hang_up: bool,
    /// configured through the environment instead of flags
    env: bool,
    read_stats: bool,
    /// scans fail for long, and only a notification tells of the last request: by this time (ms)
    /// everything must be answered
    #[serde(default)]
    heard: Option<u32>,
}
fn window(max: u32) -> impl Strategy<Value = Window> {
    let what = prop_oneof![
        2 => Just(Trouble::SendErr),
        1 => Just(Trouble::SendDrop),
        1 => Just(Trouble::StatusErr),
        1 => Just(Trouble::StatusNone),
        3 => Just(Trouble::HashErr),
        1 => Just(Trouble::HashStale),
        3 => Just(Trouble::ScanErr),
        1 => (100..1500u16).prop_map(Trouble::Slow),
        2 => Just(Trouble::Deaf),
        1 => (0..3u8).prop_map(Trouble::Callback),
        4 => Just(Trouble::NoSocket),
        2 => Just(Trouble::Garbage),
    ];
    // often right from the start, sometimes to the end
    (what, prop_oneof![2 => Just(0u32), 3 => 0..max], prop_oneof![2 => 500..6000u32, 1 => Just(max)]).prop_map(move |(what, from, len)| Window { what, from, len: len.min(max + 4000 - from) })
}
fn case() -> impl Strategy<Value = Case> {
    prop_oneof![4 => short(), 1 => listen(), 1 => (short(), late()).prop_map(|(mut c, (w, s))| {
        c.sc.windows.truncate(1);
        c.sc.windows.extend(w);
        c.sc.subs.truncate(3);
        c.sc.subs.extend(s);
        c
    })]
}
/// One of the periodic refreshes (0 s, 30 s after the start …) meets trouble, and the notification of a
/// later request is lost.
fn late() -> impl Strategy<Value = (Vec<Window>, Vec<Sub>)> {
    let what = prop_oneof![4 => Just(Trouble::ScanErr), 1 => Just(Trouble::HashErr), 1 => Just(Trouble::SendErr), 1 => (1000..3000u16).prop_map(Trouble::Slow)];
    let lost = prop_oneof![Just(Trouble::Deaf), Just(Trouble::NoSocket)];
    (what, lost, sub(1), 24_000..28_000u32, 0..9_000u32).prop_map(|(what, lost, mut s, from, at)| {
        s.at = 41_000 + at;
        s.queue %= 2;
        for m in &mut s.metas {
            m.0 = m.0.max(1);
        }
        (vec![Window { what, from, len: 39_000 - from }, Window { what: lost, from: 39_500, len: s.at + 3_000 - 39_500 }], vec![s])
    })
}
/// The WebSocket endpoint is down for some seconds; long after it is back, while no scan succeeds, a
/// request is announced by a notification only.
fn listen() -> impl Strategy<Value = Case> {
    (short(), sub(1), prop::option::weighted(0.8, (0..4_000u32, 3_000..8_000u32)), 43_000..46_000u32).prop_map(|(mut c, mut s, down, at)| {
        s.at = at;
        s.queue %= 2;
        c.sc.notes.iter_mut().for_each(|n| n.1 = false);
        c.sc.subs.truncate(2);
        c.sc.subs.push(s);
        for m in c.sc.early.iter_mut().chain(c.sc.subs.iter_mut()).flat_map(|s| s.metas.iter_mut()) {
            m.0 = m.0.max(1);
        }
        c.sc.windows = vec![Window { what: Trouble::ScanErr, from: 34_000, len: 52_000 }];
        c.sc.windows.extend(down.map(|(from, len)| Window { what: Trouble::NoSocket, from, len }));
        c.heard = Some(84_000);
        c
    })
}
fn short() -> impl Strategy<Value = Case> {
    let span = 16_000u32;
    (
        prop::collection::vec(sub(1), 0..4),
        prop::collection::vec(sub(span), 1..7),
        prop::collection::vec(window(span), 0..4),
        prop::collection::vec((0..400u16, prop::bool::weighted(0.25)), 0..4),
        1..60u16,
        prop_oneof![Just(0u16), 0..1200u16],
        prop::collection::vec((0..span, 0..3u8), 0..2),
        prop_oneof![2 => Just(0u16), 1 => 1..=240u16, 2 => 238..400u16],
        prop_oneof![Just(100u16), Just(400u16)],
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(mut early, mut subs, windows, notes, latency, visible, purges, age, slot_ms, hang_up, env)| {
            // a request naming the oracle itself can only expire, which takes 240 slots
            if slot_ms == 400 {
                for m in early.iter_mut().chain(subs.iter_mut()).flat_map(|s| s.metas.iter_mut()) {
                    m.0 = m.0.max(1);
                }
            }
            Case {
            sc: Scenario { early, age, subs, windows, notes, latency, visible, skip_preflight: true, purges, fork: None },
            slot_ms,
            hang_up,
            env,
            read_stats: true,
            heard: None,
            }
        })
}

struct Svc(Child);
impl Drop for Svc {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn free_port() -> u16 {
    static NEXT: AtomicU16 = AtomicU16::new(0);
    loop {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        let p = 9_000 + n.wrapping_add((std::process::id() % 97) as u16 * 50) % 10_000;
        if std::net::TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}
async fn get(port: u16, path: &str) -> Option<(u16, String)> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).await.ok()?;
    s.write_all(format!("GET {path} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n").as_bytes()).await.ok()?;
    let mut b = vec![];
    s.read_to_end(&mut b).await.ok()?;
    let t = String::from_utf8_lossy(&b).to_string();
    let (head, body) = t.split_once("\r\n\r\n")?;
    Some((head.split(' ').nth(1)?.parse().ok()?, body.to_string()))
}

async fn rpc_conn(s: TcpStream, node: Node, hang_up: bool) -> Option<()> {
    let mut r = BufReader::new(s);
    loop {
        let mut len = 0usize;
        let mut first = true;
        loop {
            let mut line = String::new();
            if r.read_line(&mut line).await.ok()? == 0 {
                return None;
            }
            let l = line.trim().to_ascii_lowercase();
            if l.is_empty() && !first {
                break;
            }
            first = false;
            if let Some(n) = l.strip_prefix("content-length:") {
                len = n.trim().parse().ok()?;
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body).await.ok()?;
        let v: Value = serde_json::from_slice(&body).ok()?;
        let params = v["params"].clone();
        let req = match v["method"].as_str().unwrap_or_default() {
            "getLatestBlockhash" => Some(RpcRequest::GetLatestBlockhash),
            "sendTransaction" => Some(RpcRequest::SendTransaction),
            "getSignatureStatuses" => Some(RpcRequest::GetSignatureStatuses),
            "getProgramAccounts" => Some(RpcRequest::GetProgramAccounts),
            "getVersion" => Some(RpcRequest::GetVersion),
            _ => None,
        };
        let reply = match req {
            Some(req) => match node.send(req, params).await {
                Ok(x) => json!({"jsonrpc": "2.0", "result": x, "id": v["id"]}),
                Err(_) if hang_up => return None,
                Err(e) => json!({"jsonrpc": "2.0", "error": {"code": -32005, "message": e.to_string()}, "id": v["id"]}),
            },
            None => json!({"jsonrpc": "2.0", "error": {"code": -32601, "message": "Method not found"}, "id": v["id"]}),
        }
        .to_string();
        let head = format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", reply.len());
        let s = r.get_mut();
        s.write_all(head.as_bytes()).await.ok()?;
        s.write_all(reply.as_bytes()).await.ok()?;
        s.flush().await.ok()?;
    }
}

type Bus = tokio::sync::broadcast::Sender<Arc<Snap>>;
async fn ws_conn(s: TcpStream, node: Node, bus: Bus) -> Option<()> {
    let down = |n: &Node| n.0.lock().unwrap().on(|t| matches!(t, Trouble::NoSocket));
    if down(&node) {
        return None;
    }
    let mut ws = tokio_tungstenite::accept_async(s).await.ok()?;
    let mut sub: Option<(Pubkey, Vec<RpcFilterType>, bool)> = None;
    let mut rx = bus.subscribe();
    let mut tick = tokio::time::interval(Duration::from_millis(100));
    loop {
        tokio::select! {
            _ = tick.tick() => if down(&node) { return None },
            m = ws.next() => {
                let m = m?.ok()?;
                let Message::Text(t) = m else { continue };
                let v: Value = serde_json::from_str(&t).ok()?;
                let reply = match v["method"].as_str().unwrap_or_default() {
                    "programSubscribe" => {
                        let prog = v["params"][0].as_str().and_then(|s| s.parse().ok()).unwrap_or_default();
                        let cfg = &v["params"][1];
                        let filters = serde_json::from_value(cfg["filters"].clone()).unwrap_or_default();
                        sub = Some((prog, filters, cfg["encoding"].as_str() == Some("base64")));
                        json!({"jsonrpc": "2.0", "result": 7, "id": v["id"]})
                    }
                    _ => json!({"jsonrpc": "2.0", "result": true, "id": v["id"]}),
                };
                ws.send(Message::Text(reply.to_string())).await.ok()?;
            }
            s = rx.recv() => {
                let s = match s {
                    Ok(s) => s,
                    Err(tokio::sync::broadcast::error::RecvError::Lagged(_)) => continue,
                    Err(_) => return None,
                };
                let Some((prog, filters, b64)) = &sub else { continue };
                let fits = *prog == chain::svm::vrf() && filters.iter().all(|f| match f {
                    RpcFilterType::DataSize(n) => s.data.len() as u64 == *n,
                    RpcFilterType::Memcmp(m) => m.bytes_match(&s.data),
                    _ => true,
                });
                if !fits {
                    continue;
                }
                sleep_until(s.deliver).await;
                if down(&node) {
                    return None;
                }
                let note = |key: String, owner: String, data: &[u8]| {
                    let d = if *b64 { json!([base64::engine::general_purpose::STANDARD.encode(data), "base64"]) } else { json!("error: data too large for bs58 encoding") };
                    json!({"jsonrpc": "2.0", "method": "programNotification", "params": {"result": {"context": {"slot": s.slot, "apiVersion": "3.0.0"}, "value": {"pubkey": key, "account": {"lamports": 1, "data": d, "owner": owner, "executable": false, "rentEpoch": 0u64, "space": data.len()}}}, "subscription": 7}}).to_string()
                };
                let owner = chain::svm::vrf().to_string();
                if node.0.lock().unwrap().on(|t| matches!(t, Trouble::Garbage)) {
                    let g = match s.slot % 4 {
                        0 => note(s.queue.to_string(), Pubkey::new_from_array([9; 32]).to_string(), &s.data),
                        1 => note(s.queue.to_string(), owner.clone(), &s.data[..s.data.len().min(8 + s.slot as usize % 23)]),
                        2 => note("not a key".into(), owner.clone(), &s.data),
                        _ => note(s.queue.to_string(), owner.clone(), &[]),
                    };
                    node.0.lock().unwrap().announce(s.queue, &[], s.slot);
                    ws.send(Message::Text(g)).await.ok()?;
                }
                node.0.lock().unwrap().announce(s.queue, &s.data, s.slot);
                node.0.lock().unwrap().tell(s.queue, &s.data, false);
                ws.send(Message::Text(note(s.queue.to_string(), owner, &s.data))).await.ok()?;
            }
        }
    }
}

fn run_case(c: &Case) -> Outcome {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut o = Outcome::default();
        let rpc = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let ws = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let (rpc_port, ws_port, port) = (rpc.local_addr().unwrap().port(), ws.local_addr().unwrap().port(), free_port());
        let exe = vcore::verif_dir().join("target/debug/vrf-oracle");
        let mut cmd = Command::new(exe);
        cmd.env_clear().stdin(Stdio::null());
        if std::env::var("VERIF_DEBUG").is_ok() {
            cmd.env("RUST_LOG", "warn");
        } else {
            cmd.stdout(Stdio::null()).stderr(Stdio::null());
        }
        let id = bs58::encode(me().bytes).into_string();
        let (u, w, p) = (format!("http://127.0.0.1:{rpc_port}"), format!("ws://127.0.0.1:{ws_port}"), port.to_string());
        if c.env {
            cmd.env("VRF_ORACLE_IDENTITY", id).env("RPC_URL", u).env("WEBSOCKET_URL", w).env("VRF_ORACLE_HTTP_PORT", p);
        } else {
            cmd.args(["--identity", &id, "--rpc-url", &u, "--websocket-url", &w, "--http-port", &p]);
        }
        unsafe {
            use std::os::unix::process::CommandExt;
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
        let mut net = Net::new(&c.sc, c.slot_ms as u64, tx);
        net.remote = true;
        let node = Node(Arc::new(Mutex::new(net)));
        while rx.try_recv().is_ok() {}
        let (bus, _keep) = tokio::sync::broadcast::channel::<Arc<Snap>>(256);
        {
            let node = node.clone();
            let hang = c.hang_up;
            tokio::spawn(async move {
                while let Ok((s, _)) = rpc.accept().await {
                    tokio::spawn(rpc_conn(s, node.clone(), hang));
                }
            });
        }
        {
            let (node, bus) = (node.clone(), bus.clone());
            tokio::spawn(async move {
                while let Ok((s, _)) = ws.accept().await {
                    tokio::spawn(ws_conn(s, node.clone(), bus.clone()));
                }
            });
        }
        tokio::spawn(async move {
            while let Some(s) = rx.recv().await {
                let _ = bus.send(Arc::new(s));
            }
        });
        let mut svc = Svc(match cmd.spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("HARNESS ERROR: cannot start the oracle service: {e}");
                std::process::exit(3);
            }
        });
        let mut unheard = None;
        let listening = async {
            if let Some(t) = c.heard {
                let t0 = node.0.lock().unwrap().t0;
                sleep_until(t0 + Duration::from_millis(t as u64)).await;
                unheard = Some(node.0.lock().unwrap().pending().iter().map(|x| x.1.len()).sum::<usize>());
            }
        };
        tokio::join!(world(&node, &c.sc), listening);
        // the periodic refresh comes every 30 s
        let end = Instant::now() + Duration::from_secs(100) + Duration::from_millis(if c.slot_ms < 400 { 250 * c.slot_ms as u64 } else { 0 });
        let mut dead = None;
        loop {
            if let Ok(Some(s)) = svc.0.try_wait() {
                dead = Some(s);
                break;
            }
            let n = node.0.lock().unwrap().pending().len();
            if n == 0 || Instant::now() > end {
                break;
            }
            sleep(Duration::from_millis(100)).await;
        }
        match unheard {
            Some(0) => o.class("heard-by-notification"),
            Some(n) if dead.is_none() => o.fail("C30", "notified-request-not-answered", format!("{n} requests are pending 38 s after the last one was announced by a notification; the WebSocket endpoint was up for 30 s before it, only scans fail")),
            _ => {}
        }
        if let Some(s) = dead {
            o.fail("C30", "service-ended", format!("the service process ended: {s}"));
        }
        let (left, asked, sends) = {
            let n = node.0.lock().unwrap();
            (n.pending(), n.known.keys().filter(|(q, _)| own(q).is_some()).count(), n.sends)
        };
        let n: usize = left.iter().map(|x| x.1.len()).sum();
        if n > 0 && dead.is_none() {
            let i = &left[0].1[0];
            o.fail("C30", "request-never-answered", format!("{n} requests are still pending 100 s after the last trouble, e.g. {} from slot {}; the service sent {sends} transactions", Pubkey::new_from_array(i.id), i.slot));
        }
        // the statistics catch up with the next scan at the latest
        if c.read_stats && n == 0 && dead.is_none() {
            let end = Instant::now() + Duration::from_secs(100);
            loop {
                let r = get(port, "/stats").await;
                let want: BTreeMap<String, u64> = me().queues.iter().filter(|q| is_queue(&node.0.lock().unwrap().bank.get(q).data)).map(|q| (q.to_string(), 0)).collect();
                let got = r.as_ref().and_then(|(c, b)| {
                    let v: Value = serde_json::from_str(b).ok()?;
                    (*c == 200).then(|| v["queues"].as_object().map(|m| m.iter().filter_map(|(k, v)| Some((k.clone(), v.as_u64()?))).collect::<BTreeMap<_, _>>()))?
                });
                if got.as_ref() == Some(&want) {
                    o.class("stats-up-to-date");
                    // a mean of response times notifications told of
                    let avgs = r.as_ref().and_then(|(_, b)| serde_json::from_str::<Value>(b).ok()).and_then(|v| v["avg_response_slots"].as_object().cloned());
                    let n = node.0.lock().unwrap();
                    match avgs {
                        None => o.fail("C32", "average", format!("/stats gives no averages: {r:?}")),
                        Some(m) => {
                            for (k, v) in &m {
                                let range = k.parse::<Pubkey>().ok().and_then(|q| n.lat.get(&q));
                                match (v.as_f64(), range) {
                                    (Some(x), Some((a, b))) if x > *a as f64 - 1e-6 && x < *b as f64 + 1e-6 => o.class("average"),
                                    _ => o.fail("C32", "average", format!("/stats gives the average {v} for queue {k}; the response times its notifications tell of are {range:?} (least and largest)")),
                                }
                            }
                        }
                    }
                    break;
                }
                if Instant::now() > end {
                    o.fail("C32", "queue-size", format!("100 s after all requests were answered /stats says {r:?}, wanted {want:?}"));
                    break;
                }
                sleep(Duration::from_millis(200)).await;
            }
        }
        let n = node.0.lock().unwrap();
        for (p, s, m) in &n.bad {
            o.fail(p, s.clone(), m.clone());
        }
        o.nontrivial = asked > 0 && sends > 0;
        for (c, n) in [("requests", asked as u64), ("fulfilled", n.delivered), ("fulfilments-sent", n.provides), ("purges-sent", n.purges)] {
            if n > 0 {
                o.classes.push((c, n));
            }
        }
        drop(n);
        classes(&c.sc, &mut o);
        drop(svc);
        o
    })
}

pub fn run(h: &mut Harness, cases: (u64, u64)) {
    let t = if cases.0 < 56 { cases.0 as usize } else { 56 };
    h.set_threads(t);
    h.part("service", "the real binary sent transactions for requests of its queues", cases, case, |c| {
        let c = c.clone();
        run_case(&c)
    });
    h.set_threads(8);
}

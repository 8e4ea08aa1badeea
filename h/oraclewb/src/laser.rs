//! C30: the gRPC update source hands on every queue update of generated streams.
use crate::oracle::client::QueueUpdateSource;
use crate::oracle::sources::LaserstreamSource;
use crate::wb::{base, me};
use futures_util::StreamExt;
use helius_laserstream::grpc::{subscribe_update::UpdateOneof, SubscribeUpdate, SubscribeUpdateAccount, SubscribeUpdateAccountInfo, SubscribeUpdatePing, SubscribeUpdateSlot};
use helius_laserstream::LaserstreamError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use solana_program::pubkey::Pubkey;
use vcore::{Harness, Outcome};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum El {
    Queue { q: u8, count: u8, slot: u64 },
    Ping,
    Slot(u64),
    Nothing,
    Failed,
    NoAccount,
    Short(u8),
    BadKey(u8),
}
fn el() -> impl Strategy<Value = El> {
    prop_oneof![
        8 => (0..2u8, any::<u8>(), any::<u64>()).prop_map(|(q, count, slot)| El::Queue { q, count, slot }),
        2 => Just(El::Ping),
        2 => any::<u64>().prop_map(El::Slot),
        1 => Just(El::Nothing),
        1 => prop_oneof![Just(El::Failed), Just(El::NoAccount), (0..20u8).prop_map(El::Short), any::<u8>().prop_map(El::BadKey)],
    ]
}
fn update(u: Option<UpdateOneof>) -> Result<SubscribeUpdate, LaserstreamError> {
    Ok(SubscribeUpdate { filters: vec!["oracle".into()], update_oneof: u, ..Default::default() })
}
fn account(key: Vec<u8>, data: Vec<u8>, slot: u64) -> Option<UpdateOneof> {
    Some(UpdateOneof::Account(SubscribeUpdateAccount {
        account: Some(SubscribeUpdateAccountInfo { pubkey: key, data, owner: ephemeral_vrf_api::ID.to_bytes().to_vec(), ..Default::default() }),
        slot,
        is_startup: false,
    }))
}
fn c30(els: &Vec<El>) -> Outcome {
    let bank = base();
    let mut o = Outcome::default();
    let mut items = vec![];
    // (what has to come, may the stream end before it)
    let mut want: Vec<(Pubkey, Vec<u8>, u64)> = vec![];
    let mut bad_at = None;
    for e in els {
        let bad = matches!(e, El::Failed | El::NoAccount | El::Short(_) | El::BadKey(_));
        if bad && bad_at.is_none() {
            bad_at = Some(want.len());
        }
        items.push(match e {
            El::Queue { q, count, slot } => {
                let k = me().queues[*q as usize];
                let mut d = bank.get(&k).data;
                let n = d.len();
                d[n - 1] = *count; // unused space tells the updates apart
                want.push((k, d.clone(), *slot));
                update(account(k.to_bytes().to_vec(), d, *slot))
            }
            El::Ping => update(Some(UpdateOneof::Ping(SubscribeUpdatePing {}))),
            El::Slot(s) => update(Some(UpdateOneof::Slot(SubscribeUpdateSlot { slot: *s, ..Default::default() }))),
            El::Nothing => update(None),
            El::Failed => Err(LaserstreamError::StreamEnded),
            El::NoAccount => update(Some(UpdateOneof::Account(SubscribeUpdateAccount { account: None, slot: 1, is_startup: false }))),
            El::Short(n) => update(account(me().queues[0].to_bytes().to_vec(), bank.get(&me().queues[0]).data[..*n as usize % 20].to_vec(), 5)),
            El::BadKey(n) => update(account(vec![1; if *n == 32 { 31 } else { *n as usize }], bank.get(&me().queues[0]).data, 5)),
        });
    }
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let got: Vec<(Pubkey, Vec<u8>, u64, u32, u8)> = rt.block_on(async {
        let mut src = LaserstreamSource { stream: Box::pin(futures_util::stream::iter(items).fuse()) };
        let mut v = vec![];
        while let Some((k, q, d, s)) = src.next().await {
            v.push((k, d, s, q.item_count, q.index));
        }
        v
    });
    let must = bad_at.unwrap_or(want.len());
    if got.len() < must || got.len() > want.len() {
        o.fail("C30", "stream-update-lost", format!("{} updates came out, at least {must} and at most {} were in the stream", got.len(), want.len()));
    } else if let Some(i) = (0..got.len()).find(|i| (got[*i].0, &got[*i].1, got[*i].2) != (want[*i].0, &want[*i].1, want[*i].2)) {
        o.fail("C30", "stream-update-changed", format!("update {i} comes out as {} at slot {}, wanted {} at slot {}", got[i].0, got[i].2, want[i].0, want[i].2));
    }
    o.nontrivial = must > 0;
    if bad_at.is_some() {
        o.class("with-trouble");
    }
    o
}
pub fn run(h: &mut Harness) {
    h.part("grpc-stream", "an update of a queue comes before any trouble of the stream", (20_000, 500_000), || prop::collection::vec(el(), 0..14), c30);
}

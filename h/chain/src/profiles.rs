//! What each property's check generates and what it counts as non-trivial.
use crate::gen::*;
use crate::world::World;

pub struct Plan {
    pub profile: Profile,
    pub rule: &'static str,
    pub nontrivial: fn(&World) -> bool,
}

fn has(w: &World, k: &str) -> bool {
    w.stats.contains_key(k)
}

/// every operation, everything mutated now and then
pub fn generic() -> Profile {
    Profile {
        slot: 6, donate: 1, admin: 1, init: 1, add: 3, remove: 2, initq: 4, request: 12, provide: 12, purge: 4, close: 3,
        delegate: 3, undelegate: 1, finish: 3, attack: 2, raw: 2, forge: 1, mutate: 25, bare: 10, odd: 20, max_len: 40, queues: 2, same: 0, tx: 2,
    }
}
/// requests and answers on few queues, mostly honest
fn busy() -> Profile {
    Profile { slot: 8, request: 14, provide: 12, purge: 3, close: 1, delegate: 1, finish: 1, mutate: 8, odd: 10, max_len: 45, queues: 1, same: 20, ..Profile::default() }
}

pub fn plan(prop: &str) -> Option<Plan> {
    let g = generic();
    let b = busy();
    Some(match prop {
        "C07" => Plan {
            profile: Profile { provide: 30, purge: 1, mutate: 30, odd: 35, add: 1, remove: 1, queues: 2, ..b },
            rule: "a fulfilment was accepted and a fulfilment attempt was refused for one single reason",
            nontrivial: |w| has(w, "ok-provide") && ["oracle did not sign", "oracle is not registered", "queue belongs to another oracle", "no such pending request in this queue", "same slot as the request", "proof not valid under the registered key"].iter().any(|r| has(w, r)),
        },
        "C08" => Plan { profile: Profile { tx: 5, ..b }, rule: "at least two requests were accepted and one was answered or purged", nontrivial: |w| w.stats.get("ok-request").is_some_and(|n| *n >= 2) && (has(w, "ok-provide") || has(w, "purged-items")) },
        "C09" => Plan { profile: Profile { provide: 16, mutate: 5, odd: 14, ..b }, rule: "a callback was delivered", nontrivial: |w| has(w, "ok-provide") },
        "C10" => Plan { profile: Profile { provide: 18, mutate: 10, odd: 60, ..b }, rule: "a callback was delivered, or refused because it lists the oracle", nontrivial: |w| has(w, "ok-provide") || has(w, "oracle listed in callback accounts") },
        "C11" => Plan { profile: Profile { tx: 6, purge: 6, close: 2, donate: 2, queues: 2, mutate: 8, ..b }, rule: "a fee was charged and a fee was paid out", nontrivial: |w| w.requested_fee > 0 && w.paid_fee > 0 },
        "C12" => Plan { profile: Profile { slot: 14, purge: 12, provide: 5, mutate: 12, odd: 8, queues: 2, ..b }, rule: "a purge removed some requests", nontrivial: |w| has(w, "purged-items") },
        "C13" => Plan { profile: Profile { request: 40, provide: 3, initq: 4, add: 4, init: 1, mutate: 55, odd: 20, queues: 2, max_len: 25, bare: 5, ..b }, rule: "a request was accepted or refused for a single reason of this property", nontrivial: |w| has(w, "ok-request") && has(w, "rejected-for-a-single-reason") },
        "C14" => Plan { profile: Profile { request: 30, provide: 8, mutate: 12, odd: 60, initq: 2, ..b }, rule: "a request was stored and one was refused for a limit or lack of room", nontrivial: |w| has(w, "ok-request") && ["discriminator too long", "too many accounts", "arguments too long", "no room in the queue"].iter().any(|r| has(w, r)) },
        "C15" => Plan { profile: Profile { tx: 6, slot: 7, request: 22, provide: 7, purge: 6, close: 0, same: 85, mutate: 0, odd: 0, max_len: 30, ..b }, rule: "requests were accepted and one left the queue in between", nontrivial: |w| w.stats.get("ok-request").is_some_and(|n| *n >= 2) && (has(w, "ok-provide") || has(w, "purged-items")) },
        "C16" => Plan { profile: Profile { admin: 8, init: 1, add: 20, remove: 12, slot: 1, mutate: 45, odd: 40, forge: 2, bare: 30, max_len: 25, queues: 2, donate: 1, ..Profile::default() }, rule: "the registry was changed and a change was refused", nontrivial: |w| has(w, "ok-modify-oracle") && (has(w, "signer is not the upgrade authority") || has(w, "signer did not sign") || has(w, "not the program data account")) },
        "C17" => Plan { profile: Profile { tx: 10, init: 4, add: 20, remove: 14, slot: 2, donate: 4, initq: 2, close: 2, mutate: 15, odd: 35, bare: 60, max_len: 40, queues: 2, attack: 1, ..Profile::default() }, rule: "oracles were added and one removed, or an operation was refused for a single reason", nontrivial: |w| w.stats.get("ok-modify-oracle").is_some_and(|n| *n >= 2) },
        "C18" => Plan { profile: Profile { tx: 12, slot: 6, add: 5, remove: 3, initq: 30, close: 6, request: 6, purge: 3, donate: 2, attack: 1, mutate: 25, odd: 60, bare: 40, max_len: 35, queues: 3, delegate: 2, finish: 1, ..Profile::default() }, rule: "a queue was initialized", nontrivial: |w| has(w, "ok-init-queue") },
        "C19" => Plan { profile: Profile { tx: 15, slot: 6, add: 4, remove: 8, initq: 14, close: 16, request: 5, provide: 5, purge: 3, delegate: 3, finish: 3, mutate: 15, odd: 20, max_len: 40, queues: 3, bare: 5, ..Profile::default() }, rule: "a queue was closed or a close/removal was refused because something is open", nontrivial: |w| has(w, "ok-close") || has(w, "queue has pending requests") || has(w, "oracle has open queues") },
        "C20" => Plan { profile: Profile { mutate: 60, forge: 4, raw: 6, attack: 4, ..g }, rule: "an instruction was refused for a single reason", nontrivial: |w| has(w, "rejected-for-a-single-reason") },
        "C24" => Plan { profile: Profile { raw: 25, mutate: 55, odd: 60, attack: 4, max_len: 30, ..g }, rule: "an ill-formed instruction was refused", nontrivial: |w| has(w, "rejected-as-required") },
        "C25" => Plan { profile: Profile { tx: 6, delegate: 14, undelegate: 12, finish: 8, request: 10, provide: 8, slot: 5, purge: 2, close: 2, attack: 1, mutate: 30, odd: 15, max_len: 30, queues: 2, initq: 2, ..Profile::default() }, rule: "a queue was delegated or its undelegation scheduled", nontrivial: |w| has(w, "ok-delegate") || has(w, "ok-undelegate") },
        "C26" => Plan { profile: Profile { delegate: 12, finish: 12, attack: 14, request: 10, provide: 4, slot: 3, close: 2, initq: 3, donate: 2, mutate: 20, odd: 15, max_len: 30, queues: 2, bare: 10, raw: 1, ..Profile::default() }, rule: "an undelegation was completed or an attempt refused", nontrivial: |w| has(w, "ok-finish") || has(w, "rejected-as-required") },
        _ => return None,
    })
}

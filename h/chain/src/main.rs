use chain::gen::*;
use chain::profiles::*;
use chain::world::World;
use vcore::{Harness, Outcome};

fn chain_part(h: &mut Harness, prop: &'static str, name: &str, pl: &Plan, n: (u64, u64)) {
    let p = pl.profile;
    let nt: fn(&World) -> bool = pl.nontrivial;
    h.part(name, pl.rule, n, || history(p), move |c: &History| {
        let (w, v) = run_history(c, prop);
        Outcome { viols: v, nontrivial: nt(&w), classes: w.stats.iter().map(|(k, n)| (*k, *n)).collect() }
    });
}

fn main() {
    let mut h = Harness::from_env("exploration");
    let prop: &'static str = h.prop.clone().leak();
    chain::crypto::run(&mut h);
    chain::qmodel::run(&mut h);
    chain::ids::run(&mut h);
    chain::builders::run(&mut h);
    chain::crowds::parts(&mut h);
    if let Some(pl) = plan(prop) {
        chain_part(&mut h, prop, "history", &pl, (30_000, 1_500_000));
        let all = Plan { profile: generic(), rule: "a request was accepted in a history of all operations", nontrivial: |w| w.stats.contains_key("ok-request") };
        chain_part(&mut h, prop, "all-operations", &all, (10_000, 500_000));
        if ["C07", "C08", "C09", "C11", "C12", "C14", "C15", "C19"].contains(&prop) {
            h.part("crowded", "more than 60 requests were pending at once and one was answered or purged", (500, 60_000), crowded, move |c: &History| {
                let (w, v) = run_history(c, prop);
                let nt = w.stats.contains_key("over-60-pending") && (w.stats.contains_key("ok-provide") || w.stats.contains_key("purged-items"));
                Outcome { viols: v, nontrivial: nt, classes: w.stats.iter().map(|(k, n)| (*k, *n)).collect() }
            });
        }
        h.assume("the simulated runtime models account ownership, signer, writability, rent and CPI rules of the Solana runtime; transactions are atomic");
        h.assume("the delegation, magic and callback programs behave as modelled in svm.rs");
    }
    h.finish();
}

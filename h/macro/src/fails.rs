//! Structs the attribute does not support: they must not compile.
use crate::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Unsupported {
    compat: bool,
    kind: u8,
    /// how many ordinary fields are there besides
    more: u8,
    args: u8,
    name: u8,
}
pub fn strategy() -> impl Strategy<Value = Unsupported> {
    (any::<bool>(), 0u8..11, 0u8..4, 0u8..3, 0u8..6).prop_map(|(compat, kind, more, args, name)| Unsupported { compat, kind, more, args, name })
}

fn item(u: &Unsupported) -> (&'static str, String) {
    let name = STRUCTS[u.name as usize % STRUCTS.len()];
    let queue = "/// CHECK: q\n#[account(mut)] pub oracle_queue: UncheckedAccount<'info>,";
    let more: String = (0..u.more).map(|i| format!("/// CHECK: m\npub m{i}: UncheckedAccount<'info>,")).collect();
    let unnamed: String = (0..u.more).map(|_| "pub UncheckedAccount<'info>,").collect();
    match u.kind {
        0 => ("unnamed fields", format!("pub struct {name}<'info>(pub UncheckedAccount<'info>, {unnamed});")),
        1 => ("unnamed fields of other types", format!("pub struct {name}<'info>(#[account(mut)] pub Signer<'info>, {unnamed} pub Program<'info, System>);")),
        2 => ("an enum", format!("pub enum {name}<'info> {{ A(UncheckedAccount<'info>), B }}")),
        3 => ("a union", format!("pub union {name} {{ a: u8, b: u16 }}")),
        4 => ("a function", format!("pub fn {}{}() {{}}", "f_", u.more)),
        5 => ("no oracle_queue", format!("pub struct {name}<'info> {{ {more} #[account(mut)] pub payer: Signer<'info> }}")),
        6 => ("the queue under another name", format!("pub struct {name}<'info> {{ {more} /// CHECK: q\n pub {}: UncheckedAccount<'info> }}", ["oracle_queues", "queue", "oracle_queue_", "_oracle_queue"][u.more as usize % 4])),
        7 => ("another lifetime", format!("pub struct {name}<'a> {{ /// CHECK: q\n pub oracle_queue: UncheckedAccount<'a>, /// CHECK: x\n pub x: UncheckedAccount<'a> }}")),
        8 => ("a type parameter", format!("pub struct {name}<'info, T> {{ {more} {queue} pub t: std::marker::PhantomData<T> }}")),
        9 => ("a unit struct", format!("pub struct {name};")),
        _ => ("a module", format!("pub mod {name} {{ pub struct S; }}")),
    }
}

pub fn check(u: &Unsupported) -> Outcome {
    let mut o = Outcome::default();
    let scratch = Scratch::new();
    let (what, item) = item(u);
    let attr = ["#[vrf]", "#[vrf()]", "#[ephemeral_vrf_sdk::anchor::vrf]"][u.args as usize % 3];
    let src = |attr: &str| {
        format!(
            "#![allow(warnings)]\nuse anchor_lang::prelude::*; use ephemeral_vrf_sdk::anchor::vrf;\ndeclare_id!(\"{}\");\n{attr}\n{}{item}\n",
            bs58::encode([u.kind + 1; 32]).into_string(),
            if matches!(u.kind, 0 | 1 | 5 | 6 | 7 | 8 | 9) { "#[derive(vdump::Dump)]\n" } else { "" }
        )
    };
    o.class(match u.kind {
        0 | 1 => "unnamed-fields",
        2 | 3 | 4 | 10 => "not-a-struct",
        5 | 6 => "no-queue",
        7 | 8 => "other-generics",
        _ => "unit-struct",
    });
    if rustc(u.compat, &scratch.0, &src(""), false).is_err() {
        eprintln!("HARNESS ERROR: {what} does not compile without the attribute\n{}", src(""));
        std::process::exit(3);
    }
    o.nontrivial = true;
    if rustc(u.compat, &scratch.0, &src(attr), false).is_ok() {
        o.fail("C33", "unsupported-accepted", format!("{what}: the attribute compiles"));
    }
    o
}

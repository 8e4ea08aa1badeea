//! Generated accounts structs and the programs made of them.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Field {
    /// into NAMES
    pub name: u8,
    /// into the roles (or TYPES when only the attributes matter)
    pub kind: u8,
    pub mutable: bool,
    pub vis: u8,
    pub doc: u8,
    /// extra attributes, only when the struct is not executed
    pub extra: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Std {
    pub variant: u8,
    pub at: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Spec {
    pub name: u8,
    pub vis: u8,
    pub fields: Vec<Field>,
    /// program_identity, vrf_program, slot_hashes, system_program where the user wrote them
    pub std: [Option<Std>; 4],
    pub payer_name: u8,
    pub payer_at: u8,
    pub queue_variant: u8,
    pub queue_at: u8,
    pub instruction: u8,
    pub dump_only: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Batch {
    pub compat: bool,
    pub id: Vec<u8>,
    pub specs: Vec<Spec>,
}

/// Names of other fields; the first ones resemble the four the macro looks for.
pub const NAMES: [&str; 44] = [
    "program_identity_2", "program_identit", "programidentity", "_program_identity", "my_program_identity", "identity", "program_identity_",
    "vrf_program_", "vrf_programs", "vrf", "vrf_program2", "the_vrf_program", "ephemeral_vrf_program",
    "slot_hash", "slot_hashes_sysvar", "slot_hashes2", "slothashes", "recent_slot_hashes",
    "system", "system_programs", "my_system_program", "system_program_2", "systemprogram", "_system_program",
    "oracle", "queue", "oracle_queues", "oracle_queue_2", "data", "a", "b", "state", "vault", "mint", "random_account", "counter", "program", "sysvar", "r#type", "r#move", "payer2", "owner", "info", "ix",
];
pub const NEAR: usize = 24;
pub const STRUCTS: [&str; 6] = ["Ctx", "RequestRandomness", "S", "Vrf", "program_identity", "A1"];
pub const PAYERS: [&str; 5] = ["payer", "user", "authority", "signer", "fee_payer"];
const ROLES: [&str; 9] = ["free", "free_info", "signer", "system_account", "sysprog", "addr_vrf", "pda", "pda_payer", "data"];

impl Spec {
    pub fn near(&self) -> bool {
        self.fields.iter().any(|f| (f.name as usize % NAMES.len()) < NEAR)
    }
}

fn field() -> impl Strategy<Value = Field> {
    (any::<u8>(), any::<u8>(), any::<bool>(), 0u8..4, 0u8..4, any::<u8>(), prop::bool::weighted(0.5)).prop_map(|(n, kind, mutable, vis, doc, extra, near)| Field {
        name: if near { n % NEAR as u8 } else { n % NAMES.len() as u8 },
        kind,
        mutable,
        vis,
        doc,
        extra,
    })
}
fn std_field() -> impl Strategy<Value = Option<Std>> {
    prop::option::weighted(0.35, (0u8..4, any::<u8>()).prop_map(|(variant, at)| Std { variant, at }))
}
pub fn spec() -> impl Strategy<Value = Spec> {
    (
        (0u8..6, 0u8..3, prop::collection::vec(field(), 0..7), [std_field(), std_field(), std_field(), std_field()]),
        (0u8..5, any::<u8>(), 0u8..4, any::<u8>(), 0u8..4, prop::bool::weighted(0.3)),
    )
        .prop_map(|((name, vis, fields, std), (payer_name, payer_at, queue_variant, queue_at, instruction, dump_only))| Spec { name, vis, fields, std, payer_name, payer_at, queue_variant, queue_at, instruction, dump_only })
}
pub fn batch() -> impl Strategy<Value = Batch> {
    (any::<bool>(), prop::collection::vec(any::<u8>(), 32), prop::collection::vec(spec(), 1..14)).prop_map(|(compat, id, specs)| Batch { compat, id, specs })
}

/// A field as it is written, with what is expected of it.
struct Line {
    name: String,
    text: String,
    role: &'static str,
    mutable: bool,
}
fn unchecked(compat: bool, alt: bool) -> &'static str {
    if compat && alt {
        "AccountInfo<'info>"
    } else {
        "UncheckedAccount<'info>"
    }
}
fn cons(parts: &[&str]) -> String {
    let p: Vec<&str> = parts.iter().copied().filter(|p| !p.is_empty()).collect();
    if p.is_empty() {
        String::new()
    } else {
        format!("#[account({})] ", p.join(", "))
    }
}

fn lines(s: &Spec, compat: bool) -> Vec<Line> {
    let mut v: Vec<Line> = vec![];
    let payer = PAYERS[s.payer_name as usize % PAYERS.len()];
    let mut used: Vec<String> = vec![payer.into(), "oracle_queue".into()];
    for f in &s.fields {
        let name = NAMES[f.name as usize % NAMES.len()];
        if used.iter().any(|u| u == name) {
            continue;
        }
        used.push(name.into());
        let vis = ["pub ", "", "pub(crate) ", "pub(super) "][f.vis as usize % 4];
        let doc = ["/// CHECK: generated\n", "/// CHECK: the account named program_identity\n", "#[doc = \"CHECK: x\"]\n", "/// Several\n/// CHECK: lines\n"][f.doc as usize % 4];
        if s.dump_only {
            let ty = ["u64", "UncheckedAccount<'info>", "Option<Box<Account<'info, crate::Data>>>", "(u8, &'info str)", "[Pubkey; 3]", "Program<'info, System>", "fn(&u8) -> u8", "&'info [AccountInfo<'info>]"][f.kind as usize % 8];
            let extra = ["", "#[account(mut)] ", "#[account(init, payer = payer, space = 8 + 4)] #[allow(unused)] ", "#[account(mut, seeds = [b\"identity\", payer.key().as_ref()], bump = 3 @ Error::X)]\n #[account(signer)] ", "#[cfg_attr(any(), foo)] #[doc(hidden)] ", "#[account(address = ::ephemeral_vrf_sdk::compat::slot_hashes::ID)] "][f.extra as usize % 6];
            v.push(Line { name: name.into(), text: format!("{doc}{extra}{vis}{name}: {ty},\n"), role: "", mutable: false });
            continue;
        }
        let mut role = ROLES[f.kind as usize % ROLES.len()];
        let mut mutable = f.mutable;
        let m = |b: bool| if b { "mut" } else { "" };
        let text = match role {
            "free" | "free_info" => format!("{}{vis}{name}: {}", cons(&[m(mutable)]), unchecked(compat, role == "free_info")),
            "signer" => format!("{}{vis}{name}: Signer<'info>", cons(&[m(mutable)])),
            "system_account" => format!("{}{vis}{name}: SystemAccount<'info>", cons(&[m(mutable)])),
            "sysprog" => {
                mutable = false;
                format!("{vis}{name}: Program<'info, System>")
            }
            "addr_vrf" => {
                mutable = false;
                format!("{}{vis}{name}: {}", cons(&["address = ::ephemeral_vrf_sdk::consts::VRF_PROGRAM_ID"]), unchecked(compat, f.extra % 2 == 0))
            }
            "pda" => format!("{}{vis}{name}: {}", cons(&[m(mutable), "seeds = [b\"other\"]", "bump"]), unchecked(compat, f.extra % 2 == 0)),
            "pda_payer" => format!("{}{vis}{name}: {}", cons(&[m(mutable), &format!("seeds = [b\"p\", {payer}.key().as_ref()]"), "bump"]), unchecked(compat, f.extra % 2 == 0)),
            _ => format!("{}{vis}{name}: Account<'info, crate::Data>", cons(&[m(mutable)])),
        };
        if role == "free_info" {
            role = "free";
        }
        v.push(Line { name: name.into(), text: format!("{doc}{text},\n"), role, mutable });
    }
    let ins = |v: &mut Vec<Line>, at: u8, l: Line| {
        let p = at as usize % (v.len() + 1);
        v.insert(p, l);
    };
    ins(&mut v, s.payer_at, Line { name: payer.into(), text: format!("#[account(mut)]\npub {payer}: Signer<'info>,\n"), role: "signer", mutable: true });
    let addr = "address = ::ephemeral_vrf_sdk::consts::DEFAULT_QUEUE";
    let q = match s.queue_variant % 4 {
        0 => (cons(&["mut", addr]), "queue", true),
        1 => (cons(&["mut"]), "queue_free", true),
        2 => (cons(&[addr]), "queue", false),
        _ => (String::new(), "queue_free", false),
    };
    ins(&mut v, s.queue_at, Line { name: "oracle_queue".into(), text: format!("/// CHECK: queue\n{}pub oracle_queue: {},\n", q.0, unchecked(compat, s.queue_at % 2 == 0)), role: q.1, mutable: q.2 });
    for (k, st) in s.std.iter().enumerate() {
        let Some(st) = st else { continue };
        let un = unchecked(compat, st.at % 2 == 0);
        let vis = ["pub ", "", "pub(crate) "][st.at as usize % 3];
        let (text, role, mutable) = match (k, st.variant % 4) {
            (0, 0) => (format!("#[account(seeds = [b\"identity\"], bump)]\n{vis}program_identity: {un}"), "identity", false),
            (0, 1) => (format!("{vis}program_identity: {un}"), "identity_free", false),
            (0, 2) => (format!("#[account(mut, seeds = [b\"identity\"], bump)]\n{vis}program_identity: {un}"), "identity", true),
            (0, _) => (format!("#[account(seeds = [::ephemeral_vrf_sdk::consts::IDENTITY], bump)]\n{vis}program_identity: {un}"), "identity", false),
            (1, 0) => (format!("{vis}vrf_program: Program<'info, ::ephemeral_vrf_sdk::anchor::VrfProgram>"), "vrfprog", false),
            (1, 1) => (format!("{vis}vrf_program: {un}"), "vrfprog_free", false),
            (1, 2) => (format!("#[account(address = ::ephemeral_vrf_sdk::id())]\n{vis}vrf_program: {un}"), "addr_vrf", false),
            (1, _) => (format!("#[account(mut)]\n{vis}vrf_program: {un}"), "vrfprog_free", true),
            (2, 0) => (format!("#[account(address = ::ephemeral_vrf_sdk::compat::slot_hashes::ID)]\n{vis}slot_hashes: {un}"), "slothashes", false),
            (2, 1) => (format!("{vis}slot_hashes: {un}"), "slothashes_free", false),
            (2, 2) => (format!("#[account(address = base::SLOT_HASHES)]\n{vis}slot_hashes: {un}"), "slothashes", false),
            (2, _) => (format!("#[account(mut)]\n{vis}slot_hashes: {un}"), "slothashes_free", true),
            (_, 0) => (format!("{vis}system_program: Program<'info, System>"), "sysprog", false),
            (_, 1) => (format!("{vis}system_program: {un}"), "sysprog_free", false),
            (_, 2) => (format!("#[account(mut)]\n{vis}system_program: {un}"), "sysprog_free", true),
            (_, _) => (format!("{vis}system_program: Program<'info, System>"), "sysprog", false),
        };
        ins(&mut v, st.at, Line { name: STD[k].0.into(), text: format!("/// CHECK: by the user\n{text},\n"), role, mutable });
    }
    v
}
const STD: [(&str, &str); 4] = [("program_identity", "identity"), ("vrf_program", "vrfprog"), ("slot_hashes", "slothashes"), ("system_program", "sysprog")];

pub fn render(b: &Batch) -> String {
    let id = bs58::encode(&b.id).into_string();
    let mut o = format!(
        "#![allow(warnings)]\nuse anchor_lang::prelude::*;\ndeclare_id!(\"{id}\");\n#[account]\npub struct Data {{ pub x: u64 }}\n"
    );
    let mut main = String::new();
    for (n, s) in b.specs.iter().enumerate() {
        let ls = lines(s, b.compat);
        let name = STRUCTS[s.name as usize % STRUCTS.len()];
        let vis = ["pub ", "", "pub(crate) "][s.vis as usize % 3];
        let (iattr, idata) = match s.instruction % 4 {
            1 => ("#[instruction(x: u8)]\n", "&[7]"),
            2 => ("#[instruction(program_identity: u16, y: bool)]\n", "&[7, 0, 1]"),
            3 if s.dump_only => ("/// A doc of the struct\n#[instruction(x: u8)]\n#[allow(dead_code)]\n#[account(foo)]\n", "&[7]"),
            3 => ("/// A doc of the struct\n#[instruction(x: u8)]\n#[allow(dead_code)]\n", "&[7]"),
            _ => ("", "&[]"),
        };
        let body: String = ls.iter().map(|l| l.text.as_str()).collect();
        o += &format!("mod p{n} {{ use anchor_lang::prelude::*;\n#[derive(vdump::Dump)]\n{iattr}{vis}struct {name}<'info> {{\n{body}}}\npub const D: base::Dump = {name}::DUMP;\n}}\n");
        if s.dump_only {
            o += &format!("mod v{n} {{ use anchor_lang::prelude::*; use ephemeral_vrf_sdk::anchor::vrf;\n#[vrf]\n#[derive(vdump::Dump)]\n{iattr}{vis}struct {name}<'info> {{\n{body}}}\npub const D: base::Dump = {name}::DUMP;\n}}\n");
            // added exactly when missing
            main += &format!("base::compare({n}, p{n}::D, v{n}::D);\n");
            for (k, st) in s.std.iter().enumerate() {
                let _ = st;
                main += &format!("if v{n}::D.2.iter().filter(|f| f.0 == \"{0}\").count() != 1 {{ println!(\"BAD\\t{n}\\tfield {0} is not there exactly once\"); }}\n", STD[k].0);
            }
            main += &format!("if v{n}::D.2.len() != {} {{ println!(\"BAD\\t{n}\\t{{}} fields\", v{n}::D.2.len()); }}\n", ls.len() + s.std.iter().filter(|x| x.is_none()).count());
            continue;
        }
        let mut wants: Vec<(String, &str, bool)> = ls.iter().map(|l| (l.name.clone(), l.role, l.mutable)).collect();
        for (k, st) in s.std.iter().enumerate() {
            if st.is_none() {
                wants.push((STD[k].0.into(), STD[k].1, false));
            }
        }
        let keys: String = wants.iter().map(|w| format!("(\"{0}\", s.{0}.key()), ", w.0)).collect();
        let ws: String = wants.iter().map(|w| format!("(\"{}\", \"{}\", {}), ", w.0, w.1, w.2)).collect();
        let payer = PAYERS[s.payer_name as usize % PAYERS.len()];
        o += &format!(
            "mod v{n} {{ use anchor_lang::prelude::*; use ephemeral_vrf_sdk::anchor::vrf;\n#[vrf]\n#[derive(vdump::Dump, Accounts)]\n{iattr}{vis}struct {name}<'info> {{\n{body}}}\npub const D: base::Dump = {name}::DUMP;\n\
             fn make(infos: base::Infos, d: &[u8]) -> std::result::Result<{name}<'static>, String> {{\n let mut a = infos; let mut bumps = Default::default(); let mut re = std::collections::BTreeSet::new();\n {name}::try_accounts(&crate::ID, &mut a, d, &mut bumps, &mut re).map_err(|e| format!(\"{{e:?}}\"))\n}}\n\
             pub fn accept(infos: base::Infos, d: &[u8]) -> std::result::Result<base::Keys, String> {{ let s = make(infos, d)?; Ok(vec![{keys}]) }}\n\
             pub fn help(infos: base::Infos, d: &[u8], payer: &AccountInfo<'static>, ix: &ephemeral_vrf_sdk::compat::Instruction) -> std::result::Result<std::result::Result<(), anchor_lang::prelude::ProgramError>, String> {{ let s = make(infos, d)?; Ok(s.invoke_signed_vrf(payer, ix)) }}\n\
             pub const WANTS: &[base::Want] = &[{ws}];\n}}\n"
        );
        main += &format!("base::compare({n}, p{n}::D, v{n}::D);\nbase::Case {{ n: {n}, id: crate::ID, data_disc: <Data as anchor_lang::Discriminator>::DISCRIMINATOR.to_vec(), dump: v{n}::D, wants: v{n}::WANTS, ix_data: {idata}, payer: \"{payer}\", accept: v{n}::accept, help: v{n}::help }}.run();\n");
    }
    o += &format!("fn main() {{ base::start();\n{main}println!(\"END\"); }}\n");
    o
}

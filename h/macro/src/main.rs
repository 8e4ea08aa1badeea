//! C33: the `#[vrf]` attribute, by compiling generated structs with it (both Anchor flavours)
//! and running what it made of them.
mod fails;
mod spec;

use spec::*;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use vcore::{Harness, Outcome};

/// The compiled crates the generated programs are linked with.
pub struct Base {
    deps: PathBuf,
    externs: Vec<(String, PathBuf)>,
}
fn find_base(flavour: &str) -> Base {
    let manifest = vcore::verif_dir().join(format!("h/macro/base_{flavour}/Cargo.toml"));
    let out = Command::new("cargo")
        .args(["build", "--offline", "--message-format=json", "--manifest-path"])
        .arg(&manifest)
        .output()
        .expect("cargo");
    let mut externs = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if v["reason"] != "compiler-artifact" {
            continue;
        }
        let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        let want = match name.as_str() {
            "ephemeral_vrf_sdk" | "anchor_lang" | "vdump" => name.clone(),
            n if n == format!("macro_base_{flavour}") => "base".to_string(),
            _ => continue,
        };
        // the modern base crate has only one anchor, the other one has only the old one
        let file = v["filenames"].as_array().and_then(|a| a.iter().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib") || f.ends_with(".so")));
        externs.push((want, PathBuf::from(file.expect("artifact"))));
    }
    if externs.len() != 4 {
        eprintln!("HARNESS ERROR: base crate {flavour}: {externs:?}\n{}", String::from_utf8_lossy(&out.stderr));
        std::process::exit(2);
    }
    let deps = externs.iter().find(|e| e.0 == "ephemeral_vrf_sdk").unwrap().1.parent().unwrap().join("deps");
    let deps = if deps.is_dir() { deps } else { deps.parent().unwrap().to_path_buf() };
    Base { deps, externs }
}
pub fn base(compat: bool) -> &'static Base {
    static M: OnceLock<Base> = OnceLock::new();
    static C: OnceLock<Base> = OnceLock::new();
    if compat {
        C.get_or_init(|| find_base("compat"))
    } else {
        M.get_or_init(|| find_base("modern"))
    }
}
static SCRATCH: AtomicU64 = AtomicU64::new(0);
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
        let p = Path::new(&target).join(format!("macro-gen/{}-{}", std::process::id(), SCRATCH.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// Compile a program; Err is what rustc said.
pub fn rustc(compat: bool, dir: &Path, src: &str, link: bool) -> Result<PathBuf, String> {
    let b = base(compat);
    let file = dir.join("gen.rs");
    std::fs::write(&file, src).unwrap();
    let exe = dir.join("gen.out");
    // Anchor's macros look at the package they are used in
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(dir.join("Cargo.toml"), "[package]\nname = \"gen\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nanchor-lang = \"1\"\nephemeral-vrf-sdk = \"0.3\"\n").unwrap();
    let mut c = Command::new("rustc");
    c.env("CARGO_MANIFEST_DIR", dir).env("CARGO_PKG_NAME", "gen").env("CARGO_PKG_VERSION", "0.1.0").env("CARGO_CRATE_NAME", "gen");
    c.current_dir(dir).args(["--edition=2021", "--cap-lints=allow", "--crate-name=gen", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=16"]);
    c.args(["--crate-type", if link { "bin" } else { "lib" }]);
    c.args(["--emit", if link { "link" } else { "metadata" }]);
    c.arg("-L").arg(format!("dependency={}", b.deps.display()));
    for (n, p) in &b.externs {
        c.arg("--extern").arg(format!("{n}={}", p.display()));
    }
    c.arg("-o").arg(&exe).arg(&file);
    let out = c.output().expect("rustc");
    if out.status.success() {
        return Ok(exe);
    }
    let e = String::from_utf8_lossy(&out.stderr).to_string();
    if out.status.code() == Some(1) && e.contains("error") {
        return Err(e);
    }
    eprintln!("HARNESS ERROR: rustc {:?}: {e}", out.status);
    std::process::exit(3);
}

fn accepted(b: &Batch) -> Outcome {
    let mut o = Outcome::default();
    let scratch = Scratch::new();
    let src = render(b);
    if std::env::var("VERIF_DEBUG").is_ok() {
        eprintln!("{src}");
    }
    let exe = match rustc(b.compat, &scratch.0, &src, true) {
        Ok(e) => e,
        Err(e) => {
            if std::env::var("VERIF_DEBUG").is_ok() { eprintln!("{e}"); }
            let first: Vec<&str> = e.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("|") || l.contains("-->") || l.contains("= help")).take(8).collect();
            o.fail("C33", "does-not-compile", format!("a supported struct does not compile with #[vrf]: {}", first.join(" / ")));
            return o;
        }
    };
    let out = Command::new(&exe).current_dir(&scratch.0).output().expect("run");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if !out.status.success() || !text.trim_end().ends_with("END") {
        o.fail("C33", "run", format!("the compiled structs end with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
        return o;
    }
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("BAD\t") {
            o.fail("C33", "struct", format!("struct {}", r.replace('\t', ": ")));
        }
    }
    o.classes.push((if b.compat { "anchor-compat" } else { "anchor-modern" }, b.specs.len() as u64));
    for s in &b.specs {
        let std = s.std.iter().filter(|x| x.is_some()).count();
        o.class(["nothing-present", "one-present", "two-present", "three-present", "all-present"][std]);
        o.class(if s.dump_only { "attributes-only" } else { "executed" });
        if s.near() {
            o.class("near-miss-names");
        }
        if s.near() || (std > 0 && std < 4) {
            o.nontrivial = true;
        }
    }
    o
}

fn main() {
    let mut h = Harness::from_env("exploration");
    h.case_limit(300);
    base(false);
    base(true);
    h.assume("the accounts structs are those Anchor 1.0 and 0.31 accept; the invoke call of the runtime is replaced by a recorder");
    h.part("structs", "a struct of the batch has some but not all of the four accounts, or a field whose name resembles one of them", (160, 2500), batch, accepted);
    h.part("unsupported", "the struct compiles without the attribute", (64, 800), fails::strategy, fails::check);
    h.finish();
}

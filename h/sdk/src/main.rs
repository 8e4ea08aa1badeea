//! C27, C28, C35: the integration SDK in all its feature flavours, against the real program
//! and API, built without any hook.
mod consts;
mod requests;
mod rnd;

use std::ffi::CString;
use vcore::Harness;

pub const FLAVOURS: [&str; 4] = ["default", "anchor", "bc", "anchorbc"];
type CallFn = unsafe extern "C" fn(*const u8, usize, *mut u8, usize) -> i64;
pub struct Flavour {
    pub name: &'static str,
    f: CallFn,
}
impl Flavour {
    pub fn call(&self, inp: &[u8]) -> Result<Vec<u8>, String> {
        let mut out = vec![0u8; 64 + 2 * inp.len() + 512];
        let n = unsafe { (self.f)(inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len()) };
        if n < 0 {
            return Err(format!("the SDK panicked in flavour {} ({n})", self.name));
        }
        out.truncate(n as usize);
        Ok(out)
    }
}
pub fn flavours() -> &'static [Flavour] {
    static F: std::sync::OnceLock<Vec<Flavour>> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let dir = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
        FLAVOURS
            .iter()
            .map(|name| {
                let p = CString::new(format!("{dir}/debug/libflavour_{name}.so")).unwrap();
                unsafe {
                    let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
                    assert!(!h.is_null(), "cannot load {p:?}");
                    let f = libc::dlsym(h, c"flavour_call".as_ptr());
                    assert!(!f.is_null());
                    Flavour { name, f: std::mem::transmute::<*mut libc::c_void, CallFn>(f) }
                }
            })
            .collect()
    })
}

fn main() {
    let mut h = Harness::from_env("exploration");
    flavours();
    match h.prop.as_str() {
        "C27" => requests::run(&mut h),
        "C28" => rnd::run(&mut h),
        "C35" => consts::run(&mut h),
        _ => {}
    }
    h.finish();
}

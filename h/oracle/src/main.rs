//! C30-C32: the oracle service.
mod bb;
fn main() {
    let mut h = vcore::Harness::from_env("exploration");
    h.case_limit(600);
    #[cfg(feature = "wb")]
    oraclewb::wb::run(&mut h);
    #[cfg(not(feature = "wb"))]
    h.explain("the internal functions of the service have other signatures than the in-process part knows; only the real binary was run");
    let wb = cfg!(feature = "wb");
    match h.prop.as_str() {
        "C30" => bb::run(&mut h, (56, 2000)),
        "C31" => bb::run(&mut h, (if wb { 16 } else { 40 }, 400)),
        _ => bb::run(&mut h, (16, 200)),
    }
    h.finish();
}

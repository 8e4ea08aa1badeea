//! Virtual time for code that asks std for the time: on a thread that runs a simulation,
//! `std::time::Instant::now()` follows tokio's paused clock.
use std::cell::Cell;
use std::time::Duration;
thread_local! {
    static FAKE: Cell<u64> = const { Cell::new(0) };
}
/// Stands in front of libc's function for the whole harness.
///
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let f = FAKE.get();
    if f != 0 && clk == libc::CLOCK_MONOTONIC {
        (*ts).tv_sec = (f / 1_000_000_000) as _;
        (*ts).tv_nsec = (f % 1_000_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
fn real() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
/// While it lives, this thread's std time stands still except for `follow`.
pub struct Frozen;
impl Frozen {
    pub fn new() -> Frozen {
        FAKE.set(real());
        Frozen
    }
}
impl Drop for Frozen {
    fn drop(&mut self) {
        FAKE.set(0);
    }
}
/// Keep std's time within half a second of tokio's.
pub async fn follow() {
    let (t0, f0) = (tokio::time::Instant::now(), FAKE.get());
    loop {
        tokio::time::sleep(Duration::from_millis(500)).await;
        FAKE.set(f0 + t0.elapsed().as_nanos() as u64);
    }
}

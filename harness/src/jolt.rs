//! Delays at arbitrary points: a thread sends signals to the others, whose handler sleeps.
use crate::util::Rng;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Duration;

/// microseconds between two signals; 0: none
static PERIOD: AtomicU64 = AtomicU64::new(0);
/// longest sleep, in microseconds
static LONGEST: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(88172645463325252);
pub static COUNT: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_signal(_: libc::c_int) {
    let mut x = STATE.load(Relaxed);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    STATE.store(x, Relaxed);
    COUNT.fetch_add(1, Relaxed);
    let us = x % (LONGEST.load(Relaxed) + 1);
    let t = libc::timespec { tv_sec: 0, tv_nsec: us as i64 * 1000 };
    unsafe {
        let e = *libc::__errno_location();
        libc::nanosleep(&t, std::ptr::null_mut());
        *libc::__errno_location() = e;
    }
}
pub fn set(period: u64, longest: u64) {
    LONGEST.store(longest, Relaxed);
    PERIOD.store(period, Relaxed);
}
/// Start the thread which sends the signals (once per process).
pub fn start(seed: u64) {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_signal as *const () as usize;
        a.sa_flags = libc::SA_RESTART;
        libc::sigemptyset(&mut a.sa_mask);
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
    }
    std::thread::spawn(move || {
        let me = unsafe { libc::syscall(libc::SYS_gettid) };
        let pid = std::process::id();
        let mut r = Rng::new(seed);
        let mut tids: Vec<i64> = vec![];
        let mut age = 0;
        loop {
            let p = PERIOD.load(Relaxed);
            if p == 0 {
                std::thread::sleep(Duration::from_millis(2));
                continue;
            }
            if age == 0 {
                tids = std::fs::read_dir("/proc/self/task").map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect()).unwrap_or_default();
                tids.retain(|t| *t != me);
                age = 16;
            }
            age -= 1;
            if !tids.is_empty() {
                let t = *r.pick(&tids);
                unsafe { libc::syscall(libc::SYS_tgkill, pid as i64, t, libc::SIGUSR1 as i64) };
            }
            std::thread::sleep(Duration::from_micros(1 + r.below(2 * p)));
        }
    });
}

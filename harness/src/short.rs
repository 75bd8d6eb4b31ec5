//! Reads and writes of files which are done in part only, as the system is free to do: the symbols of the C library are
//! taken over by this program. On for the whole process (every thread) once `on` was called; how much is cut is random.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

static ON: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0x9E37_79B9_7F4A_7C15);
static READS: AtomicU64 = AtomicU64::new(0);
static WRITES: AtomicU64 = AtomicU64::new(0);
thread_local! { static STATE: Cell<u64> = const { Cell::new(0) }; }

pub fn on() {
    if std::env::var("JBKMON_WHOLE").is_err() && cfg!(not(jbkmon_san)) {
        ON.store(true, Relaxed);
    }
}
/// the calling thread draws from that from now on
pub fn seed(s: u64) {
    let _ = STATE.try_with(|c| c.set(s | 1));
}
/// how many reads and writes were cut short
pub fn counts() -> (u64, u64) {
    (READS.load(Relaxed), WRITES.load(Relaxed))
}
#[cfg_attr(jbkmon_san, allow(dead_code))]
fn part(fd: i32, n: usize, c: &AtomicU64) -> usize {
    if fd <= 2 || n < 2 || !ON.load(Relaxed) {
        return n;
    }
    let x = STATE.try_with(|c| {
        let mut x = c.get();
        if x == 0 { x = SEED.fetch_add(0xBF58_476D_1CE4_E5B9, Relaxed) | 1 }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        x
    });
    let Ok(x) = x else { return n };
    if x % 6 != 0 {
        return n;
    }
    c.fetch_add(1, Relaxed);
    match (x >> 8) % 4 {
        0 => 1,
        1 => n - 1,
        _ => 1 + ((x >> 16) as usize) % (n - 1),
    }
}

#[cfg(not(jbkmon_san))]
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    libc::syscall(libc::SYS_read, fd, buf, part(fd, n, &READS)) as libc::ssize_t
}
#[cfg(not(jbkmon_san))]
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t, at: libc::off64_t) -> libc::ssize_t {
    libc::syscall(libc::SYS_pread64, fd, buf, part(fd, n, &READS), at) as libc::ssize_t
}
#[cfg(not(jbkmon_san))]
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    libc::syscall(libc::SYS_write, fd, buf, part(fd, n, &WRITES)) as libc::ssize_t
}
#[cfg(not(jbkmon_san))]
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t, at: libc::off64_t) -> libc::ssize_t {
    libc::syscall(libc::SYS_pwrite64, fd, buf, part(fd, n, &WRITES), at) as libc::ssize_t
}

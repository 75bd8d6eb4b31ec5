//! Faults in the system calls of this process: a seccomp filter turns them into SIGSYS, whose handler performs them,
//! fails them, shortens them or ends the process. Works for every caller (libc or not) and every thread.
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

std::arch::global_asm!(
    ".globl jbkmon_raw_syscall",
    ".globl jbkmon_raw_ret",
    "jbkmon_raw_syscall:",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rsi, rdx",
    "mov rdx, rcx",
    "mov r10, r8",
    "mov r8, r9",
    "mov r9, [rsp + 8]",
    "syscall",
    "jbkmon_raw_ret:",
    "ret",
);
extern "C" {
    fn jbkmon_raw_syscall(nr: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64;
    fn jbkmon_raw_ret();
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Read,
    Write,
    Other,
}
const WATCHED: [(i64, &str, Class); 25] = [
    (libc::SYS_write, "write", Class::Write), (libc::SYS_pwrite64, "pwrite", Class::Write), (libc::SYS_writev, "writev", Class::Write),
    (libc::SYS_pwritev, "pwritev", Class::Write), (libc::SYS_pwritev2, "pwritev2", Class::Write),
    (libc::SYS_copy_file_range, "copy_file_range", Class::Write), (libc::SYS_sendfile, "sendfile", Class::Write), (libc::SYS_splice, "splice", Class::Write),
    (libc::SYS_read, "read", Class::Read), (libc::SYS_pread64, "pread", Class::Read), (libc::SYS_readv, "readv", Class::Read), (libc::SYS_lseek, "lseek", Class::Other),
    (libc::SYS_rename, "rename", Class::Other), (libc::SYS_renameat, "renameat", Class::Other), (libc::SYS_renameat2, "renameat2", Class::Other),
    (libc::SYS_link, "link", Class::Other), (libc::SYS_linkat, "linkat", Class::Other), (libc::SYS_unlink, "unlink", Class::Other), (libc::SYS_unlinkat, "unlinkat", Class::Other),
    (libc::SYS_ftruncate, "ftruncate", Class::Other), (libc::SYS_fsync, "fsync", Class::Other), (libc::SYS_fdatasync, "fdatasync", Class::Other),
    (libc::SYS_openat, "openat", Class::Other), (libc::SYS_open, "open", Class::Other), (libc::SYS_fallocate, "fallocate", Class::Other),
];
pub fn syscall_name(nr: u64) -> (&'static str, Class) {
    WATCHED.iter().find(|w| w.0 as u64 == nr).map(|w| (w.1, w.2)).unwrap_or(("?", Class::Other))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// nothing: only count
    Nothing,
    /// the process dies instead of doing it
    Kill,
    /// half of it is done and the process dies
    HalfKill,
    /// this and every further write fails
    FullDisk,
    /// half of it is done, then every further write fails
    HalfFullDisk,
    /// fails once
    Eio,
    Eacces,
    Eintr,
    /// half of it is done (which is allowed)
    Half,
    /// this and everything after fails
    Dead,
}
impl Fault {
    pub const ALL: [Fault; 10] = [Fault::Nothing, Fault::Kill, Fault::HalfKill, Fault::FullDisk, Fault::HalfFullDisk, Fault::Eio, Fault::Eacces, Fault::Eintr, Fault::Half, Fault::Dead];
    pub fn of(c: Class) -> &'static [Fault] {
        match c {
            Class::Write => &[Fault::Kill, Fault::HalfKill, Fault::FullDisk, Fault::HalfFullDisk, Fault::Eio, Fault::Eintr, Fault::Half, Fault::Dead],
            Class::Read => &[Fault::Kill, Fault::Eio, Fault::Eintr, Fault::Half, Fault::Dead],
            Class::Other => &[Fault::Kill, Fault::Eio, Fault::Eacces, Fault::Dead],
        }
    }
}

static BOARD: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
static ACTIVE: AtomicU64 = AtomicU64::new(0);
static TARGET: AtomicU64 = AtomicU64::new(u64::MAX);
static FAULT: AtomicUsize = AtomicUsize::new(0);
/// how much of a write which is cut short is done
static PART: AtomicU64 = AtomicU64::new(u64::MAX);
static STICKY: AtomicI64 = AtomicI64::new(0);
static mut DIR: [u8; 256] = [0; 256];
static DIR_LEN: AtomicUsize = AtomicUsize::new(0);

unsafe fn raw(nr: i64, a: [i64; 6]) -> i64 {
    jbkmon_raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5])
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}
/// 0: elsewhere, 1: an input, 2: in the directory
unsafe fn place_of_path(p: &[u8]) -> u8 {
    let n = DIR_LEN.load(Relaxed);
    let d: &[u8; 256] = &*std::ptr::addr_of!(DIR);
    let dir = &d[..n];
    if p.first().is_some_and(|c| *c != b'/') { return if contains(p, b"inputs/") { 1 } else { 2 } }
    if p.len() < n || &p[..n] != dir { return 0 }
    if contains(p, b"/inputs/") || p.ends_with(b"/inputs") { 1 } else { 2 }
}
unsafe fn place_of_fd(fd: i64) -> u8 {
    if fd < 0 { return 0 }
    let mut name = [0u8; 40];
    name[..14].copy_from_slice(b"/proc/self/fd/");
    let mut d = [0u8; 12];
    let (mut n, mut k) = (fd, 0);
    loop { d[k] = b'0' + (n % 10) as u8; n /= 10; k += 1; if n == 0 { break } }
    for i in 0..k { name[14 + i] = d[k - 1 - i] }
    let mut buf = [0u8; 512];
    let r = raw(libc::SYS_readlinkat, [libc::AT_FDCWD as i64, name.as_ptr() as i64, buf.as_mut_ptr() as i64, 512, 0, 0]);
    if r <= 0 { return 0 }
    place_of_path(&buf[..r as usize])
}
unsafe fn cstr<'a>(p: i64) -> &'a [u8] {
    let p = p as *const u8;
    let mut n = 0;
    while n < 400 && *p.add(n) != 0 { n += 1 }
    std::slice::from_raw_parts(p, n)
}
/// is it an operation of the creation on its files (counted)?
unsafe fn concerned(nr: i64, a: &[i64; 6]) -> bool {
    match nr {
        libc::SYS_read | libc::SYS_pread64 | libc::SYS_readv => place_of_fd(a[0]) != 0,
        libc::SYS_copy_file_range | libc::SYS_splice => place_of_fd(a[2]) == 2,
        libc::SYS_rename | libc::SYS_link => place_of_path(cstr(a[0])) == 2 || place_of_path(cstr(a[1])) == 2,
        libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_linkat => place_of_path(cstr(a[1])) == 2 || place_of_path(cstr(a[3])) == 2,
        libc::SYS_unlink => place_of_path(cstr(a[0])) == 2,
        libc::SYS_unlinkat => place_of_path(cstr(a[1])) == 2,
        libc::SYS_open => place_of_path(cstr(a[0])) == 2,
        libc::SYS_openat => place_of_path(cstr(a[1])) == 2,
        _ => place_of_fd(a[0]) == 2,
    }
}
unsafe fn half(nr: i64, a: &[i64; 6]) -> Option<i64> {
    let mut b = *a;
    match nr {
        libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_read | libc::SYS_pread64 => {
            if a[2] < 2 { return None }
            let p = PART.load(Relaxed);
            b[2] = if p == u64::MAX { a[2] / 2 } else { 1 + (p % (a[2] as u64 - 1)) as i64 };
        }
        libc::SYS_sendfile => { b[3] = a[3].clamp(2, 1 << 20) / 2 }
        libc::SYS_copy_file_range | libc::SYS_splice => {
            // asked for more than there is
            b[4] = 1 + a[4].min(1000) / 2
        }
        libc::SYS_writev | libc::SYS_pwritev | libc::SYS_pwritev2 | libc::SYS_readv => {
            if a[2] < 2 { return None }
            b[2] = a[2] / 2;
        }
        _ => return None,
    }
    Some(raw(nr, b))
}
unsafe fn decide(nr: i64, a: &[i64; 6]) -> i64 {
    if ACTIVE.load(Relaxed) == 0 || !concerned(nr, a) { return raw(nr, *a) }
    let board = BOARD.load(Relaxed);
    let n = (*(board as *const AtomicU64)).fetch_add(1, SeqCst);
    let class = syscall_name(nr as u64).1;
    if n < 4000 {
        // a write: with its size
        *board.add(16 + n as usize) = nr as u64 | if class == Class::Write { (a[2] as u64) << 16 } else { 0 };
    }
    let sticky = STICKY.load(SeqCst);
    if sticky == 2 { return -(libc::EIO as i64) }
    if sticky == 1 && class == Class::Write { return -(libc::ENOSPC as i64) }
    if n != TARGET.load(Relaxed) { return raw(nr, *a) }
    *board.add(1) = nr as u64 + 1;
    let die = || { raw(libc::SYS_kill, [raw(libc::SYS_getpid, [0; 6]), libc::SIGKILL as i64, 0, 0, 0, 0]); };
    match Fault::ALL[FAULT.load(Relaxed)] {
        Fault::Nothing => raw(nr, *a),
        Fault::Kill => { die(); loop {} }
        Fault::HalfKill => { half(nr, a); die(); loop {} }
        Fault::FullDisk => { STICKY.store(1, SeqCst); -(libc::ENOSPC as i64) }
        Fault::HalfFullDisk => { STICKY.store(1, SeqCst); half(nr, a).unwrap_or(-(libc::ENOSPC as i64)) }
        Fault::Eio => -(libc::EIO as i64),
        Fault::Eacces => -(libc::EACCES as i64),
        Fault::Eintr => -(libc::EINTR as i64),
        Fault::Half => half(nr, a).unwrap_or_else(|| raw(nr, *a)),
        Fault::Dead => { STICKY.store(2, SeqCst); -(libc::EIO as i64) }
    }
}
unsafe extern "C" fn on_sigsys(_: libc::c_int, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let c = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut c.uc_mcontext.gregs;
    let nr = g[libc::REG_RAX as usize];
    let a = [g[libc::REG_RDI as usize], g[libc::REG_RSI as usize], g[libc::REG_RDX as usize], g[libc::REG_R10 as usize], g[libc::REG_R8 as usize], g[libc::REG_R9 as usize]];
    let r = decide(nr, &a);
    g[libc::REG_RAX as usize] = r;
}

/// Install for this process. `board`: a shared page-aligned area (counter, syscall hit, …, list of syscalls from word 16).
pub fn install(board: *mut u64, dir: &str, target: u64, fault: usize, part: u64) -> Result<(), String> {
    unsafe {
        BOARD.store(board, Relaxed);
        let d = dir.as_bytes();
        if d.len() > 256 { return Err("directory name too long".into()) }
        let place: &mut [u8; 256] = &mut *std::ptr::addr_of_mut!(DIR);
        place[..d.len()].copy_from_slice(d);
        DIR_LEN.store(d.len(), Relaxed);
        TARGET.store(target, Relaxed);
        PART.store(part, Relaxed);
        FAULT.store(fault, Relaxed);
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_sigsys as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigemptyset(&mut a.sa_mask);
        if libc::sigaction(libc::SIGSYS, &a, std::ptr::null_mut()) != 0 { return Err("sigaction".into()) }
        let ip = jbkmon_raw_ret as *const () as usize as u64;
        let st = |code: u32, k: u32| libc::sock_filter { code: code as u16, jt: 0, jf: 0, k };
        let jeq = |k: u32, jt: u8, jf: u8| libc::sock_filter { code: (libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K) as u16, jt, jf, k };
        let ld = libc::BPF_LD | libc::BPF_W | libc::BPF_ABS;
        let ret = libc::BPF_RET | libc::BPF_K;
        let mut f = vec![
            st(ld, 8), // instruction pointer, low
            jeq(ip as u32, 0, 3),
            st(ld, 12),
            jeq((ip >> 32) as u32, 0, 1),
            st(ret, libc::SECCOMP_RET_ALLOW),
            st(ld, 0), // number
        ];
        let n = WATCHED.len();
        for (i, w) in WATCHED.iter().enumerate() { f.push(jeq(w.0 as u32, (n - i) as u8, 0)) }
        f.push(st(ret, libc::SECCOMP_RET_ALLOW));
        f.push(st(ret, libc::SECCOMP_RET_TRAP));
        let prog = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 { return Err("no_new_privs".into()) }
        if libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog as *const _) != 0 { return Err(format!("seccomp: {}", std::io::Error::last_os_error())) }
    }
    Ok(())
}
pub fn active(on: bool) {
    ACTIVE.store(on as u64, SeqCst);
}

//! Cases which may kill or block their process run in worker processes; the parent watches them.
use crate::util::*;
use std::io::{BufRead, BufReader};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// Two shared words: number of announcements, current case.
pub struct Board(*mut u64);
unsafe impl Send for Board {}
unsafe impl Sync for Board {}
impl Drop for Board {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut libc::c_void, 65536) };
    }
}
impl Board {
    pub fn open(p: &std::path::Path) -> Board {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).unwrap();
        f.set_len(65536).unwrap();
        let m = unsafe { libc::mmap(std::ptr::null_mut(), 65536, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(m != libc::MAP_FAILED);
        Board(m as *mut u64)
    }
    pub fn ptr(&self) -> *mut u64 {
        self.0
    }
    pub fn words(&self, n: usize) -> Vec<u64> {
        (0..n.min(8192)).map(|i| unsafe { std::ptr::read_volatile(self.0.add(i)) }).collect()
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(i) as *const AtomicU64) }
    }
    pub fn announce(&self, case: u64) {
        self.at(1).store(case, Ordering::Relaxed);
        self.at(0).fetch_add(1, Ordering::Release);
    }
    pub fn read(&self) -> (u64, u64) {
        (self.at(0).load(Ordering::Acquire), self.at(1).load(Ordering::Relaxed))
    }
}

#[derive(Clone)]
pub struct Job {
    pub name: String,
    pub bin: PathBuf,
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    /// no new announcement for that long: it hangs
    pub hang: Duration,
}
#[derive(Debug, Clone)]
pub enum End {
    Done,
    Crash(String),
    Hang,
}
pub struct Out {
    pub job: usize,
    pub what: Msg,
}
pub enum Msg {
    Line(String),
    /// case, how it ended, last words
    Bad(u64, End, String),
    Over,
}

fn spawn(j: &Job, board: &std::path::Path, from: u64, to: u64, err: &std::path::Path) -> Child {
    let mut c = Command::new(&j.bin);
    c.args(&j.args).arg(board).arg(from.to_string()).arg(to.to_string());
    c.envs(j.env.iter().cloned());
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(std::fs::File::create(err).unwrap());
    // its own group, so that everything it starts can be ended with it
    use std::os::unix::process::CommandExt;
    c.process_group(0);
    // ... and ended with the thread which watches it
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().expect("spawn worker")
}
pub fn last_words(p: &std::path::Path) -> String {
    let b = std::fs::read(p).unwrap_or_default();
    let all = String::from_utf8_lossy(&b[b.len().saturating_sub(60_000)..]).into_owned();
    if let Some(p) = all.find("ERROR: AddressSanitizer") {
        return all[p..].lines().take(12).map(|l| l.trim()).collect::<Vec<_>>().join(" | ").chars().take(1500).collect();
    }
    let s = String::from_utf8_lossy(&b[b.len().saturating_sub(4000)..]).into_owned();
    s.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ")
}

/// Run a range of cases once. Lines go to `line`.
pub fn run_once(j: &Job, from: u64, to: u64, mut line: impl FnMut(String)) -> (End, u64, String) {
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    std::fs::create_dir_all(scratch_root()).unwrap();
    let board = scratch_root().join(format!("board-{n}"));
    let err = scratch_root().join(format!("err-{n}"));
    let _ = std::fs::remove_file(&board);
    let b = Board::open(&board);
    b.announce(from);
    let mut c = spawn(j, &board, from, to, &err);
    let (tx, rx) = mpsc::channel();
    let so = c.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l {
                Ok(l) => { if tx.send(l).is_err() { break } }
                Err(_) => break,
            }
        }
    });
    let mut last = (b.read().0, Instant::now());
    let mut end = None;
    while end.is_none() {
        while let Ok(l) = rx.try_recv() {
            line(l);
        }
        if let Some(s) = c.try_wait().unwrap() {
            end = Some(if s.success() { End::Done } else { End::Crash(match s.signal() { Some(g) => format!("signal {g}"), None => format!("exit {}", s.code().unwrap_or(-1)) }) });
            break;
        }
        let n = b.read().0;
        if n != last.0 {
            last = (n, Instant::now());
        } else if last.1.elapsed() > j.hang {
            end = Some(End::Hang);
        }
        std::thread::sleep(Duration::from_millis(4));
    }
    unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL) };
    let _ = c.wait();
    let _ = reader.join();
    while let Ok(l) = rx.try_recv() {
        line(l);
    }
    let w = last_words(&err);
    let case = b.read().1;
    let _ = std::fs::remove_file(&board);
    let _ = std::fs::remove_file(&err);
    (end.unwrap(), case, w)
}

/// Run all jobs side by side; a job whose worker ends badly is taken up again at the next case (at most `most` times).
pub fn run_all(jobs: &[Job], most: u32, mut on: impl FnMut(Out)) {
    let (tx, rx) = mpsc::channel();
    for (k, j) in jobs.iter().cloned().enumerate() {
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut from = 0;
            for _ in 0..most {
                let t2 = tx.clone();
                let (e, case, w) = run_once(&j, from, u64::MAX, move |l| { let _ = t2.send(Out { job: k, what: Msg::Line(l) }); });
                if let End::Done = e {
                    break;
                }
                let _ = tx.send(Out { job: k, what: Msg::Bad(case, e, w) });
                from = case + 1;
            }
            let _ = tx.send(Out { job: k, what: Msg::Over });
        });
    }
    drop(tx);
    let mut live = jobs.len();
    while live > 0 {
        let Ok(o) = rx.recv() else { break };
        if let Msg::Over = o.what {
            live -= 1;
        } else {
            on(o);
        }
    }
}

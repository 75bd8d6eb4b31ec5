//! The `jbk` tool itself, run as its own process.
use std::ffi::OsStr;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn tool() -> Option<PathBuf> {
    std::env::var_os("JBKMON_CLI").map(PathBuf::from)
}

#[derive(Debug, Clone)]
pub struct Ran {
    /// None: it did not end
    pub status: Option<std::process::ExitStatus>,
    pub out: String,
    pub err: String,
}
impl Ran {
    /// how the process broke down, if it did
    pub fn broke(&self) -> Option<String> {
        let s = match self.status {
            None => return Some("did not end".into()),
            Some(s) => s,
        };
        if let Some(g) = s.signal() {
            return Some(format!("signal {g}"));
        }
        if let Some(p) = self.err.find("panicked at") {
            return Some(self.err[p..].lines().take(2).collect::<Vec<_>>().join(" ").chars().take(200).collect());
        }
        (s.code() == Some(101)).then(|| "exit 101".to_string())
    }
}

/// Panics of the tool told on its standard error are part of what is returned; `None` when there is no tool.
pub fn run<S: AsRef<OsStr>>(args: &[S], limit: Duration) -> Option<Ran> {
    let mut c = Command::new(tool()?);
    c.args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut c = c.spawn().ok()?;
    let drain = |mut r: Box<dyn Read + Send>| {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = r.read_to_end(&mut v);
            String::from_utf8_lossy(&v).into_owned()
        })
    };
    let o = drain(Box::new(c.stdout.take().unwrap()));
    let e = drain(Box::new(c.stderr.take().unwrap()));
    let t = Instant::now();
    let mut nap = 500;
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if t.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_micros(nap)),
        }
        nap = (nap * 3 / 2).min(20_000);
    };
    Some(Ran { status, out: o.join().unwrap_or_default(), err: e.join().unwrap_or_default() })
}

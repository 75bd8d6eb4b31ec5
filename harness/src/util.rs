//! Small shared tools: PRNG, JSON text, scratch directory, check context (counters, violations, evidence).
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng([u64; 4]);
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0xA5A5_5A5A_1234_5678;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn sub(seed: u64, a: u64, b: u64) -> Self {
        let mut s = seed;
        let x = splitmix(&mut s) ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let mut s = x;
        let y = splitmix(&mut s) ^ b.wrapping_mul(0xD1B5_4A32_D192_ED03);
        Rng::new(y)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.us(i + 1));
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hash64(b: &[u8]) -> u64 {
    u64::from_le_bytes(blake3::hash(b).as_bytes()[..8].try_into().unwrap())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(48) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 48 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// First difference of two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let p = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!(
        "lengths {} / {}, first difference at {p}: {} / {}",
        a.len(), b.len(), hex(&a[p..a.len().min(p + 16)]), hex(&b[p..b.len().min(p + 16)])
    )
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("JBKMON_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Scratch directory, removed on drop (and by check.sh).
pub fn scratch_root() -> PathBuf {
    match std::env::var("JBKMON_SCRATCH") {
        Ok(s) => PathBuf::from(s),
        Err(_) => {
            let p = PathBuf::from(format!("/dev/shm/jbkmon-{}", std::process::id()));
            std::env::set_var("JBKMON_SCRATCH", &p);
            p
        }
    }
}
static SCRATCH_N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        let n = SCRATCH_N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = scratch_root().join(format!("{tag}-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn p(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    pub fn u(&self, name: &str) -> camino::Utf8PathBuf {
        camino::Utf8PathBuf::from_path_buf(self.0.join(name)).unwrap()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var("JBKMON_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub level: &'static str,
    pub rule: String,
    pub start: Instant,
    pub budget: Duration,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, String>,
    pub assumptions: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub known_hit: BTreeMap<String, String>,
    pub inconclusive: u64,
    /// threads of a hung case are still running
    pub hung: bool,
    known: Vec<String>,
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64) -> Self {
        let secs = std::env::var("JBKMON_BUDGET").ok().and_then(|s| s.parse().ok());
        let budget = Duration::from_secs(secs.unwrap_or(match tier {
            Tier::Quick => match prop { "C05" | "C06" => 45, _ => 25 },
            Tier::Thorough => 600,
        }));
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings")) {
            for l in s.lines() {
                // known: property=<id> <fingerprint> -- text
                if let Some(r) = l.strip_prefix("known: property=") {
                    if let Some((p, f)) = r.split_once(' ') {
                        if p == prop {
                            known.push(f.split(" -- ").next().unwrap().trim().to_string());
                        }
                    }
                }
            }
        }
        Ctx {
            prop: prop.into(), tier, seed, level: "exploration", rule: String::new(), start: Instant::now(),
            budget, evaluations: 0, distinct: HashSet::new(), samples: vec![], counters: BTreeMap::new(),
            notes: BTreeMap::new(), assumptions: vec![], violations: vec![], known_hit: BTreeMap::new(),
            inconclusive: 0, hung: false, known,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() { quick } else { thorough }
    }
    /// Fraction of the time budget used is below f
    pub fn time_left(&self, f: f64) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * f
    }
    pub fn stop(&self) -> bool {
        self.violations.len() >= 5 || self.hung
    }
    pub fn rng(&self, a: u64, b: u64) -> Rng {
        Rng::sub(self.seed, a, b)
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.into()).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluated case. `key` identifies it; `nontrivial` by the rule of the check.
    pub fn case(&mut self, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(key);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }
    /// Report a violation. `fp` is the specific fingerprint used to match known findings.
    pub fn violation(&mut self, fp: &str, replay: &str, msg: &str) {
        if self.known.iter().any(|k| k == fp) {
            self.known_hit.insert(fp.into(), msg.into());
            return;
        }
        self.count("violations_raw", 1);
        if self.violations.iter().any(|v| v.0 == fp) || self.violations.len() >= 20 {
            return;
        }
        let dir = verif_dir().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.txt", self.prop, self.violations.len()));
        let _ = std::fs::write(
            &path,
            format!(
                "property={}\ntier={:?}\nseed={}\nfingerprint={fp}\nreplay={replay}\n{msg}\n",
                self.prop, self.tier, self.seed
            ),
        );
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        println!("  {fp}: {}", msg.chars().take(900).collect::<String>());
        self.violations.push((fp.into(), msg.into()));
    }
    /// Write the evidence file and return the exit code.
    pub fn finish(mut self) -> i32 {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let told = LOGGED.load(std::sync::atomic::Ordering::Relaxed);
        if told > 0 { self.count("messages_logged", told) }
        if self.samples.is_empty() {
            self.samples.push(jstr("none"));
        }
        let mut o = String::from("{\n");
        o += &format!(" \"property\": {},\n", jstr(&self.prop));
        o += &format!(" \"tier\": {},\n", jstr(self.q("quick", "thorough")));
        o += &format!(" \"seed\": {},\n", self.seed);
        o += &format!(" \"level\": {},\n", jstr(self.level));
        o += " \"coverage\": {\n";
        o += &format!("  \"evaluations\": {},\n", self.evaluations);
        o += &format!("  \"distinct_nontrivial\": {},\n", self.distinct.len());
        o += &format!("  \"rule\": {},\n", jstr(&self.rule));
        o += &format!("  \"inconclusive\": {},\n", self.inconclusive);
        o += "  \"observed\": {";
        o += &self.counters.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ");
        o += "},\n";
        if !self.notes.is_empty() {
            o += "  \"notes\": {";
            o += &self.notes.iter().map(|(k, v)| format!("{}: {}", jstr(k), jstr(v))).collect::<Vec<_>>().join(", ");
            o += "},\n";
        }
        o += &format!("  \"samples\": [\n   {}\n  ]\n }},\n", self.samples.join(",\n   "));
        o += &format!(
            " \"assumptions\": [{}],\n",
            self.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
        );
        o += &format!(" \"violations\": {},\n", self.violations.len());
        o += &format!(" \"wall_s\": {:.3}\n}}\n", self.start.elapsed().as_secs_f64());
        let p = dir.join(format!("{}.json", self.prop));
        if let Err(e) = std::fs::write(&p, o) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        for (fp, msg) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {fp} {}", self.prop, msg.chars().take(200).collect::<String>());
        }
        println!(
            "{} {:?} seed={}: {} evaluations, {} distinct non-trivial, {} inconclusive, {} violation(s), {:.1}s {:?}",
            self.prop, self.tier, self.seed, self.evaluations, self.distinct.len(), self.inconclusive,
            self.violations.len(), self.start.elapsed().as_secs_f64(), self.counters
        );
        if self.violations.is_empty() { 0 } else { 1 }
    }
}

thread_local! { static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
pub static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

/// All panics of all threads are recorded instead of printed.
pub fn install_panic_recorder() {
    std::panic::set_hook(Box::new(|i| {
        let m = panic_text(i);
        if let Ok(mut g) = PANICS.lock() {
            if g.len() < 10_000 {
                g.push(m.clone());
            }
        }
        if QUIET.with(|q| q.get()) == 0 && std::env::var("JBKMON_LOUD").is_ok() {
            eprintln!("panic: {m}");
        }
    }));
}
pub fn panic_text(i: &std::panic::PanicHookInfo) -> String {
    let p = i.payload();
    let m = p.downcast_ref::<&str>().map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
    let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    format!("{} at {loc}", m.chars().take(300).collect::<String>())
}

/// Run `f`, turning a panic into Err("panic: ...").
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        format!("panic: {m}")
    })
}

pub fn read(p: impl AsRef<Path>) -> Vec<u8> {
    std::fs::read(p.as_ref()).unwrap_or_else(|e| panic!("{}: {e}", p.as_ref().display()))
}

/// Run `f` on its own thread; None when it did not end within `d` (the thread is leaked).
pub fn with_deadline<T: Send + 'static>(d: Duration, f: impl FnOnce() -> T + Send + 'static) -> Option<std::thread::Result<T>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = tx.send(r);
    }).unwrap();
    rx.recv_timeout(d).ok()
}

/// The beginning of what Debug says, without formatting the rest of it (errors of the library hold whole blocks)
pub fn short_dbg(e: &dyn std::fmt::Debug, n: usize) -> String {
    struct W(String, usize);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.chars() {
                if self.1 == 0 { return Err(std::fmt::Error) }
                self.0.push(c);
                self.1 -= 1;
            }
            Ok(())
        }
    }
    let mut w = W(String::new(), n);
    let _ = std::fmt::write(&mut w, format_args!("{e:?}"));
    w.0
}
/// Same, and what is told to the user (Display) and its causes have been formatted too
pub fn short_err(e: &jubako::Error, n: usize) -> String {
    let told = short_dbg(&format_args!("{e}"), 300);
    let mut cause = std::error::Error::source(e);
    while let Some(c) = cause {
        let _ = short_dbg(&format_args!("{c}"), 100);
        cause = c.source();
    }
    if told.is_empty() { return "an error which says nothing".into() }
    short_dbg(e, n)
}

/// What the library tells its user's logger is formatted entirely, and thrown away.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        struct W;
        impl std::fmt::Write for W {
            fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) }
        }
        let _ = std::fmt::write(&mut W, *r.args());
        LOGGED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    fn flush(&self) {}
}
pub static LOGGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn listen() {
    static S: Sink = Sink;
    let _ = log::set_logger(&S);
    log::set_max_level(log::LevelFilter::Trace);
}

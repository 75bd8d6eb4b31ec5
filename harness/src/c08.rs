//! C08: the same insertions under many schedules of the compression workers and of the writer, in watched worker processes.
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::pack::*;
use crate::util::*;
use crate::worker::*;
use jubako as jbk;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ---------- the number of workers follows the number of processors the library is told of

static CPUS: AtomicUsize = AtomicUsize::new(0);
/// # Safety
/// as the function of libc it stands for
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: libc::size_t, set: *mut libc::cpu_set_t) -> libc::c_int {
    let n = CPUS.load(Relaxed);
    if n == 0 {
        let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, set);
        if r < 0 { return -1 }
        // the kernel tells how much it wrote
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, size - r as usize);
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..n { *(set as *mut u8).add(i / 8) |= 1 << (i % 8) }
    0
}

// ---------- perturbation

const POINTS: [&str; 8] = ["worker.recv", "worker.compressed", "worker.sent", "writer.recv", "writer.set", "proxy.queue", "new_cluster", "?"];
static STYLE: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicU64 = AtomicU64::new(0);
static TARGET: AtomicU64 = AtomicU64::new(0);
static EVENTS: AtomicU64 = AtomicU64::new(0);
static SEEN: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
static LANDED: [AtomicU32; 4096] = [const { AtomicU32::new(0) }; 4096];
static N_LANDED: AtomicUsize = AtomicUsize::new(0);
static SENT: AtomicU64 = AtomicU64::new(0);
static DEPTH: AtomicU64 = AtomicU64::new(0);
static FULL: AtomicU64 = AtomicU64::new(0);
static WORKERS: AtomicU64 = AtomicU64::new(1);
static MEET: AtomicU64 = AtomicU64::new(0);
static MET: AtomicU64 = AtomicU64::new(0);
static HOLDS: AtomicU64 = AtomicU64::new(0);
static DELAYS: AtomicU64 = AtomicU64::new(0);
static TIDS: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static TID: u64 = TIDS.fetch_add(1, Relaxed);
    static LOCAL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static FAILED: std::cell::Cell<Option<String>> = const { std::cell::Cell::new(None) };
}
fn rnd() -> u64 {
    LOCAL.with(|l| {
        let mut x = l.get();
        if x == 0 { x = (TID.with(|t| *t) + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ SEED.load(Relaxed) | 1 }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        l.set(x);
        x.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 20
    })
}
fn nap(us: u64) {
    let l = LEFT.load(Relaxed);
    if l == 0 { return }
    LEFT.store(l - 1, Relaxed);
    DELAYS.fetch_add(1, Relaxed);
    std::thread::sleep(Duration::from_micros(us));
}
fn hook(name: &'static str, _obj: usize, val: u64) {
    let Some(p) = POINTS.iter().position(|p| *p == name) else { return };
    at(p as u64, val)
}
fn at(p: u64, val: u64) {
    EVENTS.fetch_add(1, Relaxed);
    SEEN[p as usize].fetch_add(1, Relaxed);
    match p {
        2 => { SENT.fetch_add(1, Relaxed); }
        4 => {
            let n = N_LANDED.fetch_add(1, Relaxed);
            if n < LANDED.len() { LANDED[n].store(val as u32, Relaxed) }
        }
        5 => {
            DEPTH.fetch_max(val, Relaxed);
            if val >= 2 * WORKERS.load(Relaxed) { FULL.fetch_add(1, Relaxed); }
        }
        _ => {}
    }
    match STYLE.load(Relaxed) {
        1 => { if rnd() & 1 == 0 { std::thread::yield_now() } }
        2 => { if rnd() & 3 == 0 { nap(rnd() % 2000) } }
        // what came first ends last
        3 => { if p == 0 { nap((8 - val % 8) * 1500) } }
        4 => {
            if p == 1 && val % 5 == 0 {
                let goal = SENT.load(Relaxed) + 3;
                let t = Instant::now();
                while SENT.load(Relaxed) < goal && t.elapsed() < Duration::from_millis(25) { std::thread::sleep(Duration::from_micros(100)) }
            }
        }
        5 => { if p == 3 { nap(2500) } }
        6 => { if p <= 1 && TID.with(|t| *t) % 3 == 0 { nap(4000) } }
        7 => { if p == 6 { nap(2000) } }
        8 => {
            // everybody waits until the queue is full
            if p == 0 {
                let t = Instant::now();
                let n = FULL.load(Relaxed);
                while FULL.load(Relaxed) == n && t.elapsed() < Duration::from_millis(12) { std::thread::sleep(Duration::from_micros(50)) }
            }
        }
        9 => {
            if p == TARGET.load(Relaxed) {
                let n = MEET.fetch_add(1, Relaxed);
                let mut k = 0;
                while MEET.load(Relaxed) <= n - n % 2 + 1 && k < 50_000 { std::hint::spin_loop(); k += 1 }
                if k < 50_000 { MET.fetch_add(1, Relaxed); }
            }
        }
        10 => { if p == 2 { nap(1500) } }
        12 => {
            // one cluster is compressed after everything which can go before it has landed
            if p == 0 && val % 8 == TARGET.load(Relaxed) && HOLDS.fetch_add(1, Relaxed) < 4 {
                let (start, mut t, mut n) = (Instant::now(), Instant::now(), N_LANDED.load(Relaxed));
                while t.elapsed() < Duration::from_millis(60) && start.elapsed() < Duration::from_secs(8) {
                    std::thread::sleep(Duration::from_millis(1));
                    let m = N_LANDED.load(Relaxed);
                    if m != n { (t, n) = (Instant::now(), m) }
                }
            }
        }
        11 => { if p == TARGET.load(Relaxed) { nap(1000) } }
        _ => {}
    }
}
struct Watch;
impl jbk::creator::Progress for Watch {
    fn new_cluster(&self, c: u32, _: bool) { at(6, c as u64) }
    fn content_added(&self, _: jbk::Size) { EVENTS.fetch_add(1, Relaxed); }
}

/// The creations which follow in this process are told of `cpus` processors and disturbed in this way.
pub fn disturb(seed: u64, style: u64, target: u64, cpus: usize) {
    CPUS.store(cpus, Relaxed);
    WORKERS.store(cpus.max(2) as u64 - 1, Relaxed);
    HOLDS.store(0, Relaxed);
    SEED.store(seed, Relaxed);
    TARGET.store(target, Relaxed);
    LEFT.store(60, Relaxed);
    N_LANDED.store(0, Relaxed);
    FULL.store(0, Relaxed);
    STYLE.store(style, Relaxed);
    jbk::verif::set_hook(hook);
}
/// No more; how many times the producer met a full queue, how many delays there were.
pub fn calm() -> (u64, u64) {
    STYLE.store(0, Relaxed);
    CPUS.store(0, Relaxed);
    (FULL.swap(0, Relaxed), DELAYS.swap(0, Relaxed))
}

// ---------- insertions

pub const KINDS: [&str; 10] = ["tiny", "blocks", "few", "raw_and_compressed", "big", "late", "none_or_empty", "many_packs", "dedup", "raw_only"];
fn seq(seed: u64, k: u64, slow: bool) -> ContainerSpec {
    let mut r = Rng::sub(seed, 0xC08, k);
    let kind = k % KINDS.len() as u64;
    let comp = match (k / 2) % 5 { 0 | 1 => Comp::Zstd(1), 2 | 3 => Comp::Lz4(1), _ => Comp::Lzma(0) };
    let comp = if kind == 9 { Comp::None } else { comp };
    let scale = if slow { 4 } else { 1 };
    let mut contents: Vec<ContentSpec> = vec![];
    let num = |i: usize, n: usize| -> Vec<u8> { (0..n).map(|j| (i.wrapping_mul(2654435761) >> (8 * (j % 4))) as u8).collect() };
    let put = |v: &mut Vec<ContentSpec>, d: Vec<u8>, h: Hint, s: Src| v.push(ContentSpec { data: Arc::new(d), hint: h, src: s });
    match kind {
        0 => { for i in 0..(20 + r.us(20)) * 4095 / scale { put(&mut contents, num(i, 1 + i % 9), Hint::Yes, Src::Mem) } }
        1 => {
            // clusters of very different cost
            for i in 0..(24 + r.us(16)) / scale {
                match r.below(4) {
                    0 => { let d = r.bytes(1_200_000); put(&mut contents, d, Hint::Yes, Src::Mem) }
                    1 => put(&mut contents, vec![i as u8; 4_100_000], Hint::Yes, Src::Mem),
                    2 => { for j in 0..4095 { put(&mut contents, num(i * 5000 + j, 6), Hint::Yes, Src::Mem) } }
                    _ => { let d = num(i, 2_500_000); put(&mut contents, d, Hint::Yes, Src::File) }
                }
            }
        }
        2 => { for _ in 0..1 + r.us(9) { contents.push(gen_content(&mut r, 100_000)) } }
        3 => {
            for i in 0..(10 + r.us(14)) * 4095 / scale {
                let h = if (i / (500 + (k as usize) * 97)) % 2 == 0 { Hint::Yes } else { Hint::No };
                put(&mut contents, num(i, i % 40), h, Src::Mem);
            }
            for i in 0..12 {
                let d = r.bytes(30_000);
                put(&mut contents, d, Hint::No, if i % 2 == 0 { Src::File } else { Src::Range(5000, i) });
            }
        }
        4 => {
            for i in 0..10 / scale + 2 { put(&mut contents, num(i, 4_500_000), Hint::Yes, Src::Mem); put(&mut contents, num(i, 70_000), Hint::No, Src::File) }
        }
        5 => {
            // some compressed clusters at the beginning, then a crowd of others which need no worker
            let first = 1 + r.us(3);
            for i in 0..first * 4095 { put(&mut contents, num(i, 2), Hint::Yes, Src::Mem) }
            let nothing = Arc::new(vec![]);
            for i in 0..(64 + r.us(70)) * 4095 / scale {
                contents.push(ContentSpec { data: if i % 500 == 0 { Arc::new(num(i, 5)) } else { nothing.clone() }, hint: Hint::No, src: Src::Mem });
            }
        }
        6 => { for _ in 0..r.us(3) * 5000 { put(&mut contents, vec![], if r.bool() { Hint::Yes } else { Hint::No }, Src::Mem) } }
        7 => { for i in 0..8 * 4095 / scale { put(&mut contents, num(i, 5), Hint::Yes, Src::Mem) } }
        8 => { for i in 0..12 * 4095 / scale { put(&mut contents, num(i % 30_000, 5), Hint::Yes, Src::Mem) } }
        _ => { for i in 0..9 * 4095 / scale { put(&mut contents, num(i, 11), if i % 3 == 0 { Hint::Yes } else { Hint::No }, Src::Mem) } }
    }
    let mut extra = vec![];
    if kind == 7 {
        for id in [2u16, 3, 9] {
            let c = (0..5 * 4095 / scale).map(|i| ContentSpec { data: Arc::new(num(i + id as usize * 77_777, 4)), hint: Hint::Yes, src: Src::Mem }).collect();
            extra.push((id, if id == 3 { Comp::Lz4(1) } else { Comp::Zstd(1) }, c));
        }
    }
    let mut cfg = GenCfg::small();
    cfg.words = false;
    cfg.max_entries = 5;
    cfg.n_contents = vec![(1, contents.len() as u32)];
    let dir = gen_dir(&mut r, &cfg);
    ContainerSpec { comp, mode: Mode::ALL[(k % 3) as usize], contents, extra, dir, dedup: kind == 8 }
}
pub fn want_addrs(spec: &ContainerSpec) -> Vec<(u16, u32)> {
    let mut seen = std::collections::HashMap::new();
    let mut n = 0;
    spec.contents.iter().map(|c| {
        let mut new = || { n += 1; n - 1 };
        (1, if spec.dedup { *seen.entry(c.data.clone()).or_insert_with(new) } else { new() })
    }).collect()
}

fn once(spec: &ContainerSpec, deep: bool) -> Result<(), (String, String)> {
    let sc = Scratch::new("c08");
    let e = |a: &str, b: String| (a.to_string(), b);
    let b = build(spec, &sc.u("c.jbk"), Arc::new(Watch)).map_err(|m| e("creation failed", m))?;
    STYLE.store(0, Relaxed);
    crate::jolt::set(0, 0);
    let _ = std::fs::remove_dir_all(sc.p("inputs"));
    let w = want_addrs(spec);
    if b.addrs != w {
        let i = b.addrs.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(0);
        return Err(e("addresses", format!("insertion {i} is at {:?} instead of {:?}", b.addrs.get(i), w.get(i))));
    }
    let ask = ask_container(spec, &b);
    let (dump, contents) = guarded(|| open_dump(b.path.as_std_path(), &ask, OPTS)).and_then(|x| x).map_err(|m| e("does not read", m))?;
    verify_model(spec, &b, &dump, &contents).map_err(|m| e("reads differently", m))?;
    match guarded(|| jbk::reader::Container::new(&b.path).and_then(|c| c.check()).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(true)) => {}
        o => return Err(e("check", format!("{o:?}"))),
    }
    if deep {
        let files: Vec<_> = list(&sc).into_iter().map(|p| { let b = read(&p); (p, b) }).collect();
        crate::c14::container(spec, &b, &files, [1, 2, 3, 4], false).map_err(|m| e("independent decoder", m))?;
    }
    Ok(())
}

/// Sources which cannot be read: creation ends, and not with a pack where something is missing.
fn failing(r: &mut Rng) -> Result<String, (String, String)> {
    let sc = Scratch::new("c08f");
    let comp = match r.below(3) { 0 => Comp::Lz4(1), 1 => Comp::Lzma(0), _ => Comp::Zstd(1) };
    let workers = WORKERS.load(Relaxed);
    let n = (if matches!(comp, Comp::Lzma(_)) { 2 } else { 4 }) * workers as usize + 3 + r.us(4);
    let size = 4_200_000u64;
    let sparse = sc.p("sparse");
    std::fs::File::create(&sparse).and_then(|f| f.set_len(size)).unwrap();
    let small: Arc<[u8]> = r.bytes(3000).into();
    let big: Arc<[u8]> = vec![9u8; size as usize].into();
    // which ones fail: the first ones, one, a part of them, all
    let bad: Vec<bool> = match r.below(4) {
        0 => { let k = r.us(n); (0..n).map(|i| i <= k).collect() }
        1 => { let k = r.us(n); (0..n).map(|i| i == k).collect() }
        2 => (0..n).map(|_| r.chance(1, 3)).collect(),
        _ => vec![true; n],
    };
    let short = r.bool();
    let nbad = bad.iter().filter(|b| **b).count();
    let desc = format!("{comp:?}, {n} clusters, {nbad} sources {}, {workers} workers", if short { "shorter than declared" } else { "which cannot be read" });
    let out = sc.u("p.jbkc");
    let res = guarded(|| -> std::io::Result<()> {
        let mut c = jbk::creator::ContentPackCreator::new_with_progress(&out, 1.into(), VENDOR, Default::default(), comp.jbk(), Arc::new(Watch))?;
        for b in &bad {
            EVENTS.fetch_add(1, Relaxed);
            let input: Box<dyn jbk::creator::InputReader> = if *b {
                let mut o = std::fs::OpenOptions::new();
                let f = if short { o.read(true).open(&sparse)? } else { o.write(true).open(&sparse)? };
                Box::new(jbk::creator::InputFile::new_range(f, if short { 1000 } else { 0 }, Some(size))?)
            } else {
                Box::new(std::io::Cursor::new(big.clone()))
            };
            c.add_content(input, jbk::creator::CompHint::Yes)?;
            c.add_content(Box::new(std::io::Cursor::new(small.clone())), jbk::creator::CompHint::No)?;
        }
        c.finalize()?;
        Ok(())
    });
    match (res, nbad) {
        (Ok(Err(_)), 1..) => Ok("refused".into()),
        (Err(_), 1..) => Ok("panics".into()),
        (Ok(Ok(())), 0) => Ok("succeeds".into()),
        (Ok(Ok(())), _) => Err(("incomplete pack".into(), format!("{desc}: creation succeeds"))),
        (e, 0) => Err(("creation failed".into(), format!("{desc}: {e:?}"))),
    }
}

/// `jbkmon sched-worker BUILD TIER SEED - T N SECONDS board from to`
pub fn worker(a: &[String]) {
    let (build, seed) = (a[0].as_str(), a[2].parse::<u64>().unwrap());
    let (t, n): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let secs: f64 = a[6].parse().unwrap();
    let board = Arc::new(Board::open(Path::new(&a[7])));
    let (from, to): (u64, u64) = (a[8].parse().unwrap(), a[9].parse().unwrap());
    let slow = build != "release";
    std::panic::set_hook(Box::new(|i| {
        let m = panic_text(i);
        eprintln!("PANIC {m}");
        if let Ok(mut g) = PANICS.lock() { g.push(m) }
    }));
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
    let t0 = std::env::var("JBKMON_T0").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or_else(now);
    jbk::verif::set_hook(hook);
    crate::jolt::start(seed ^ t);
    let case = Arc::new(AtomicU64::new(from));
    {
        let (b, c) = (board.clone(), case.clone());
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            loop {
                let x = EVENTS.load(Relaxed);
                if x != last { b.announce(c.load(Relaxed)); last = x }
                std::thread::sleep(Duration::from_millis(50));
            }
        });
    }
    let only = to != u64::MAX;
    let mut cur: Option<(u64, ContainerSpec)> = None;
    let mut told = std::collections::HashSet::new();
    let mut c = if only { from } else { from + (t + n - from % n) % n };
    let stay = 3;
    while c < to {
        if !only && now() - t0 > secs { break }
        case.store(c, Relaxed);
        EVENTS.fetch_add(1, Relaxed);
        let mut r = Rng::sub(seed, 0xC08_0001, c);
        let k = (c / n / stay) * n + c % n;
        if cur.as_ref().map(|x| x.0) != Some(k) { cur = Some((k, seq(seed, k, slow))) }
        let spec = &cur.as_ref().unwrap().1;
        let cpus = *r.pick(&[1usize, 2, 2, 3, 3, 4, 5, 8, 12, 16]);
        CPUS.store(cpus, Relaxed);
        let real = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(0);
        WORKERS.store(real.max(2) as u64 - 1, Relaxed);
        let kind = k % KINDS.len() as u64;
        let style = if kind == 5 && r.chance(2, 3) || r.chance(1, 10) { 12 } else { r.below(12) };
        HOLDS.store(0, Relaxed);
        SEED.store(r.u64(), Relaxed);
        TARGET.store(if kind == 5 && style == 12 { 0 } else { r.below(7) }, Relaxed);
        LEFT.store(r.range(20, 200), Relaxed);
        N_LANDED.store(0, Relaxed);
        STYLE.store(style, Relaxed);
        if r.chance(1, 3) { crate::jolt::set(*r.pick(&[50u64, 300, 2000]), *r.pick(&[100u64, 1000, 12_000])) }
        let start = Instant::now();
        let fail = r.chance(1, 12);
        let res = guarded(|| if fail { failing(&mut r).map(|w| FAILED.with(|f| f.set(Some(w)))) } else { once(spec, r.chance(1, 5)) });
        STYLE.store(0, Relaxed);
        crate::jolt::set(0, 0);
        let mut o = std::io::stdout().lock();
        let kind = KINDS[(k % KINDS.len() as u64) as usize];
        let desc = || format!("{kind} sequence {k}: {} contents, {:?} {:?}, {} workers, perturbation {style} target {}", spec.contents.len(), spec.comp, spec.mode, WORKERS.load(Relaxed), POINTS[TARGET.load(Relaxed) as usize]);
        let err = match res { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(("panic".into(), p)) };
        if let Some((fp, m)) = err {
            if told.insert(fp.clone()) && told.len() < 6 {
                let p = PANICS.lock().unwrap().join("; ");
                let _ = writeln!(o, "V\t{fp}\t{c}\t{}: {}", desc(), format!("{m} {p}").replace(['\t', '\n'], " ").chars().take(700).collect::<String>());
            }
        }
        PANICS.lock().unwrap().clear();
        if let Some(w) = FAILED.with(|f| f.take()) {
            let _ = writeln!(o, "N\tunreadable_sources.{w}\t1");
        }
        if fail {
            let _ = o.flush();
            drop(o);
            c += if only { 1 } else { n };
            continue;
        }
        let nl = N_LANDED.load(Relaxed).min(LANDED.len());
        let ord: Vec<u32> = LANDED[..nl].iter().map(|x| x.load(Relaxed)).collect();
        let inv = ord.windows(2).filter(|w| w[1] < w[0]).count();
        let h = hash64(&ord.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
        let _ = writeln!(o, "N\tsequences.{kind}\t1\nN\tperturbation{style}\t1\nN\tworkers.{}\t1\nN\tclusters_written\t{nl}\nN\tclusters_landed_before_an_earlier_one\t{inv}\nN\tmilliseconds\t{}", WORKERS.load(Relaxed), start.elapsed().as_millis());
        let _ = writeln!(o, "N\tproducer_met_full_queue\t{}\nN\tdelays_at_arbitrary_points\t{}\nN\tdelays\t{}\nN\tmeetings_at_a_point\t{}\nM\tdeepest_queue\t{}", FULL.swap(0, Relaxed), crate::jolt::COUNT.swap(0, Relaxed), DELAYS.swap(0, Relaxed), MET.swap(0, Relaxed), DEPTH.swap(0, Relaxed));
        for (i, x) in SEEN.iter().enumerate() {
            let x = x.swap(0, Relaxed);
            if x > 0 { let _ = writeln!(o, "N\tevents.{}\t{x}", POINTS[i]); }
        }
        let _ = writeln!(o, "R\t{c}\t{h}\t{k}\t{nl}\t{}", desc());
        let _ = o.flush();
        drop(o);
        c += if only { 1 } else { n };
    }
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one creation whose clusters landed in the file in an order not seen before for its sequence of insertions, read back completely".into();
    ctx.assumptions.push("a creation during which no worker, writer or producer reports an event for 60 s (180 s under a sanitizer), injected delays being under 0.1 s each, does not terminate".into());
    let me = std::env::current_exe().unwrap();
    let mut bins = vec![("release", me, ctx.q(6u64, 6))];
    if let Ok(b) = std::env::var("JBKMON_TSAN") { bins.push(("tsan", b.into(), 4)) }
    let supp = verif_dir().join("tsan.supp");
    let t0 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
    let secs = ctx.budget.as_secs_f64();
    let only = crate::par::only_case();
    let mut jobs = vec![];
    for (name, bin, n) in &bins {
        for t in 0..*n {
            jobs.push(Job {
                name: name.to_string(), bin: PathBuf::from(bin),
                args: ["sched-worker".to_string(), name.to_string(), ctx.q("quick", "thorough").into(), ctx.seed.to_string(), "-".into(), t.to_string(), n.to_string(), secs.to_string()].to_vec(),
                env: vec![
                    ("JBKMON_T0".into(), t0.to_string()), ("JBKMON_SCRATCH".into(), scratch_root().display().to_string()), ("JBKMON_DIR".into(), verif_dir().display().to_string()),
                    ("TSAN_OPTIONS".into(), format!("halt_on_error=1 exitcode=66 history_size=4 suppressions={}", supp.display())),
                ],
                hang: Duration::from_secs(if *name == "release" { 60 } else { 180 }),
            });
        }
    }
    let mut bad = vec![];
    let mut handle = |ctx: &mut Ctx, job: usize, l: String| {
        let mut f: Vec<&str> = l.splitn(6, '\t').collect();
        f.resize(6, "");
        let name = jobs[job].name.clone();
        match f[0] {
            "N" => ctx.count(f[1], f[2].parse().unwrap_or(0)),
            "M" => ctx.max(f[1], f[2].parse().unwrap_or(0)),
            "R" => {
                // the order of one cluster is no order
                ctx.case(hash64(format!("{} {}", f[3], f[2]).as_bytes()), f[4].parse::<u64>().unwrap_or(0) >= 2);
                ctx.count(&format!("creations.build.{name}"), 1);
                if ctx.samples.len() < 8 { ctx.sample(jstr(f[5])) }
            }
            "V" => {
                let replay = format!("JBKMON_CASE={name}:{} ./check.sh C08 {}", f[2], ctx.q("quick", "thorough"));
                ctx.violation(f[1], &replay, &format!("[{name}] {}", f[3]));
            }
            _ => {}
        }
    };
    if let Some((p, c)) = only {
        let k = jobs.iter().position(|j| j.name == p).expect("build");
        for _ in 0..10 {
            let mut ls = vec![];
            let (e, _, w) = run_once(&jobs[k], c, c + 1, |l| ls.push(l));
            for l in ls { handle(ctx, k, l) }
            println!("case {c}: {e:?} {w}");
            if !matches!(e, End::Done) { ctx.violation("crash or hang", "", &format!("case {c}: {e:?} {w}")); }
        }
        return;
    }
    let slow = crate::slowly::start(ctx, false);
    run_all(&jobs, 4, |o| match o.what {
        Msg::Line(l) => handle(ctx, o.job, l),
        Msg::Bad(c, e, w) => bad.push((o.job, c, e, w)),
        Msg::Over => {}
    });
    slow.finish(ctx);
    for (j, c, e, w) in bad {
        let name = &jobs[j].name;
        let fp = match &e {
            End::Hang => "creation does not end".to_string(),
            End::Crash(s) if s == "exit 66" => {
                let sum = w.split(" | ").find(|l| l.contains("SUMMARY")).unwrap_or("").to_string();
                format!("ThreadSanitizer {}", sum.chars().filter(|c| !c.is_ascii_digit()).collect::<String>())
            }
            End::Crash(s) => format!("process died ({s})"),
            End::Done => continue,
        };
        ctx.violation(&fp, &format!("JBKMON_CASE={name}:{c} ./check.sh C08 {}", ctx.q("quick", "thorough")), &format!("[{name}] creation {c}: {e:?}: {w}"));
    }
    if ctx.evaluations == 0 && ctx.violations.is_empty() {
        println!("no creation was run");
        std::process::exit(2);
    }
}

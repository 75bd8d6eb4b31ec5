//! C07: many threads read one opened container, in watched worker processes (plain, ThreadSanitizer, AddressSanitizer).
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::pack::*;
use crate::util::*;
use crate::worker::*;
use camino::Utf8PathBuf;
use jubako as jbk;
use jbk::Pack;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

// ---------- containers

/// Bytes which tell which content they are from and where in it, and still compress.
fn mark(key: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(key ^ 0xC07);
    let tbl = r.bytes(64);
    (0..n).map(|o| tbl[(o ^ (o >> 5) ^ (o >> 11)) & 63].wrapping_add((o >> 12) as u8)).collect()
}
pub const N_WORLDS: u64 = 9;
fn name_of(k: u64) -> &'static str {
    ["tiny_zstd", "large_lz4", "tiny_lzma_many_packs", "mixed_zstd", "large_zstd", "tiny_raw", "large_lzma", "mixed_lz4_many_packs", "hundreds_of_clusters"][k as usize]
}
fn conc_spec(seed: u64, k: u64) -> ContainerSpec {
    let mut r = Rng::sub(seed, 0xC07, k);
    let c = |key: u64, n: usize, h: Hint| ContentSpec { data: Arc::new(mark(key, n)), hint: h, src: Src::Mem };
    let mut contents = vec![];
    let mut extra = vec![];
    let tiny = |contents: &mut Vec<ContentSpec>, clusters: usize, most: usize, hint: Hint| {
        for i in 0..clusters * 4095 - 100 {
            contents.push(c(i as u64, (i * 7919) % most, hint));
        }
    };
    let comp = match k {
        0 => { tiny(&mut contents, 46, 24, Hint::Yes); Comp::Zstd(1) }
        1 => {
            for i in 0..14 { contents.push(c(i, 600_000 + r.us(3_400_000), Hint::Yes)); for j in 0..6 { contents.push(c(1000 * i + j, r.us(90_000), Hint::Yes)) } }
            contents.push(c(99, 9_000_000, Hint::Yes));
            Comp::Lz4(1)
        }
        2 => { tiny(&mut contents, 44, 20, Hint::Yes); Comp::Lzma(1) }
        3 | 7 => {
            for i in 0..14 * 4095 { contents.push(c(i as u64, (i * 7919) % 260, if (i / 4095) % 2 == 0 { Hint::Yes } else { Hint::No })) }
            contents.push(c(7_000_000, 3_000_000, Hint::No));
            contents.push(c(7_000_001, 3_000_000, Hint::Yes));
            if k == 3 { Comp::Zstd(1) } else { Comp::Lz4(1) }
        }
        4 => {
            for i in 0..160 { contents.push(c(i, r.us(500_000), Hint::Yes)) }
            Comp::Zstd(1)
        }
        5 => { tiny(&mut contents, 47, 30, Hint::No); Comp::None }
        8 => {
            // a cluster is closed when the next content is too much for it: 300 clusters and more
            let big = c(5_000_000, 4 << 20, Hint::Yes);
            for i in 0..160u64 {
                for j in 0..40 { contents.push(c(i * 40 + j, 1 + r.us(120), Hint::Yes)) }
                contents.push(big.clone());
            }
            Comp::Zstd(1)
        }
        _ => {
            for i in 0..30 { contents.push(c(i, 100_000 + r.us(600_000), Hint::Yes)) }
            Comp::Lzma(1)
        }
    };
    if k == 2 || k == 7 || k == 3 {
        for p in 0..6u16 {
            let id = 2 + p * 3;
            extra.push((id, if p % 3 == 2 { Comp::None } else { Comp::Zstd(1) }, (0..30).map(|i| c(100_000 * id as u64 + i, r.us(9_000), if i % 2 == 0 { Hint::Yes } else { Hint::No })).collect::<Vec<_>>()));
        }
    }
    let mut cfg = GenCfg::small();
    cfg.words = false;
    cfg.max_entries = 40;
    cfg.max_array = 200;
    cfg.max_stores = 3;
    cfg.max_props = 6;
    cfg.n_contents = vec![(1, contents.len() as u32)];
    let dir = loop {
        let d = gen_dir(&mut r, &cfg);
        if d.vstores.len() >= 2 && d.stores.iter().any(|s| s.entries.len() > 10) { break d }
    };
    ContainerSpec { comp, mode: Mode::ALL[(k % 3) as usize], contents, extra, dir, dedup: false }
}
fn make(seed: u64, k: u64, root: &Path) -> Result<(), String> {
    let spec = conc_spec(seed, k);
    let d = Utf8PathBuf::from_path_buf(root.join(format!("{k}"))).unwrap();
    std::fs::create_dir_all(&d).unwrap();
    let b = build_simple(&spec, &d.join("c.jbk"))?;
    let _ = std::fs::remove_dir_all(d.join("inputs"));
    for (i, a) in b.addrs.iter().enumerate() {
        if *a != (1, i as u32) {
            return Err(format!("insertion {i} is at {a:?}"));
        }
    }
    let ask = ask_container(&spec, &b);
    let (dump, contents) = open_dump(b.path.as_std_path(), &ask, OPTS)?;
    verify_model(&spec, &b, &dump, &contents)
}
fn dir_ask(spec: &ContainerSpec) -> Ask {
    ask_of(&spec.dir, vec![])
}

// ---------- schedule perturbation and what is seen of the schedules

const POINTS: [&str; 16] = [
    "decode.start", "decode.chunk", "decode.publish", "read.wait", "read.ready", "read.slice", "cache.miss", "cache.set",
    "cluster.lookup", "cluster.load", "cluster.plain", "cluster.bytes", "pack.miss", "pack.set", "?", "?",
];
fn id_of(n: &str) -> usize {
    POINTS.iter().position(|p| *p == n).unwrap_or(15)
}
static STYLE: AtomicU64 = AtomicU64::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static TARGET: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicU64 = AtomicU64::new(0);
static SEEN: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
static LAST: [AtomicU64; 1024] = [const { AtomicU64::new(0) }; 1024];
static GRAMS: [AtomicU64; 256] = [const { AtomicU64::new(0) }; 256];
static PUBLISHED: [AtomicU64; 1024] = [const { AtomicU64::new(0) }; 1024];
static LOADED: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
static WAITED: AtomicU64 = AtomicU64::new(0);
static PARTIAL: AtomicU64 = AtomicU64::new(0);
static RELOADS: AtomicU64 = AtomicU64::new(0);
static DELAYS: AtomicU64 = AtomicU64::new(0);
static MEET: AtomicU64 = AtomicU64::new(0);
static MET: AtomicU64 = AtomicU64::new(0);
static TIDS: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static TID: u64 = TIDS.fetch_add(1, Relaxed);
    static LOCAL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn rnd() -> u64 {
    LOCAL.with(|l| {
        let mut x = l.get();
        if x == 0 { x = (TID.with(|t| *t) + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ SEED.load(Relaxed) | 1 }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        l.set(x);
        x.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 20
    })
}
fn nap(us: u64) {
    DELAYS.fetch_add(1, Relaxed);
    std::thread::sleep(Duration::from_micros(us));
}
fn take() -> bool {
    let l = LEFT.load(Relaxed);
    if l == 0 { return false }
    LEFT.store(l - 1, Relaxed);
    true
}
/// All of its own state is relaxed: it orders nothing which the code does not order itself.
fn hook(name: &'static str, obj: usize, val: u64) {
    let p = id_of(name);
    SEEN[p].fetch_add(1, Relaxed);
    let slot = if (8..12).contains(&p) { 512 + (val as usize & 511) } else { (obj >> 4).wrapping_mul(0x9E37_79B9) >> 7 & 511 };
    match p {
        0 => PUBLISHED[slot].store(0, Relaxed),
        2 => PUBLISHED[slot].store(val, Relaxed),
        3 => {
            let n = PUBLISHED[slot].load(Relaxed);
            if val > n { WAITED.fetch_add(1, Relaxed); } else { PARTIAL.fetch_add(1, Relaxed); }
        }
        9 => {
            let (w, b) = ((val as usize >> 6) & 7, 1u64 << (val & 63));
            if LOADED[w].fetch_or(b, Relaxed) & b != 0 { RELOADS.fetch_add(1, Relaxed); }
        }
        _ => {}
    }
    let me = TID.with(|t| *t) & 0xFFF;
    let old = LAST[slot].load(Relaxed);
    // the last two: point (4 bits) + thread (12 bits) each
    let (p1, t1, p2, t2) = (old & 15, old >> 4 & 0xFFF, old >> 16 & 15, old >> 20 & 0xFFF);
    LAST[slot].store((old << 16 | (me << 4) | p as u64) & 0xFFFF_FFFF, Relaxed);
    let g = ((p as u64) << 8 | p1 << 4 | p2) << 2 | ((t1 == me) as u64) << 1 | (t2 == t1) as u64;
    let (w, b) = ((g >> 6) as usize, 1u64 << (g & 63));
    if GRAMS[w].load(Relaxed) & b == 0 { GRAMS[w].fetch_or(b, Relaxed); }
    match STYLE.load(Relaxed) {
        1 => { if rnd() & 1 == 0 { std::thread::yield_now() } }
        2 => { if rnd() & 7 == 0 && take() { nap(rnd() % 100) } }
        3 => { if (p == 1 || p == 2) && take() { nap(30) } }
        4 => { if p as u64 == TARGET.load(Relaxed) && rnd() & 3 == 0 && take() { nap(1000) } }
        5 => { for _ in 0..rnd() % 2000 { std::hint::spin_loop() } }
        6 => { if p == 0 && take() { nap(3000 + rnd() % 9000) } else if p == 1 && rnd() & 63 == 0 && take() { nap(200) } }
        // wait for others at the same point, then go together
        8 | 9 => {
            if p as u64 == TARGET.load(Relaxed) {
                let most = 1 + SEED.load(Relaxed) % 4;
                let n = MEET.fetch_add(1, Relaxed);
                let until = n - n % (most + 1) + most;
                let mut k = 0;
                while MEET.load(Relaxed) <= until && k < 20_000 { std::hint::spin_loop(); k += 1 }
                if k < 20_000 { MET.fetch_add(1, Relaxed); }
            }
        }
        7 => { if (3..6).contains(&p) || p >= 8 { if rnd() & 15 == 0 && take() { nap(50) } else { std::thread::yield_now() } } }
        _ => {}
    }
}

// ---------- one round

struct Pk<'a> {
    id: u16,
    contents: &'a [ContentSpec],
}
#[derive(Clone, Copy, Debug)]
enum Pattern {
    Uniform,
    SameContent,
    SameCluster,
    Scan,
    FewHot,
    BigOnes,
    Gang,
}
struct Round<'a> {
    packs: Vec<Pk<'a>>,
    big: Vec<usize>,
    pattern: Pattern,
    focus: u64,
    focus_of_step: u64,
    ask: &'a Ask,
    pristine: &'a Dump,
    quota: u64,
    pool: Mutex<Vec<(usize, usize, jbk::reader::ByteRegion)>>,
    fails: Mutex<Vec<(String, String)>>,
    ops: AtomicU64,
    bytes: AtomicU64,
    stop: AtomicBool,
    slow: bool,
    threads: u64,
    arrived: AtomicU64,
}
impl Round<'_> {
    fn fail(&self, fp: &str, m: String) {
        self.stop.store(true, Relaxed);
        let mut f = self.fails.lock().unwrap();
        if f.len() < 4 { f.push((fp.into(), m)) }
    }
    fn choose(&self, r: &mut Rng, t: usize, step: u64) -> (usize, usize) {
        let p = if self.packs.len() > 1 && r.chance(1, 4) { r.us(self.packs.len()) } else { 0 };
        let n = self.packs[p].contents.len();
        let i = match self.pattern {
            Pattern::Uniform => r.us(n),
            Pattern::SameContent => {
                let mut f = Rng::new(self.focus ^ (step / self.focus_of_step));
                return if self.big.is_empty() || f.bool() { (0, f.us(self.packs[0].contents.len())) } else { (0, *f.pick(&self.big)) };
            }
            Pattern::SameCluster => {
                let mut f = Rng::new(self.focus ^ (step / self.focus_of_step));
                let b = f.us(n);
                (b + r.us(200)).min(n - 1)
            }
            Pattern::Scan => ((step as usize * (1 + t % 3) * (n / 97 + 1)) + t * n / 11) % n,
            Pattern::FewHot => if r.chance(3, 4) { Rng::new(self.focus).us(n).wrapping_add(r.us(4) * (n / 5)) % n } else { r.us(n) },
            // all threads together to a cluster nobody has touched for long
            Pattern::Gang => {
                if !self.big.is_empty() && Rng::new(self.focus ^ step).chance(1, 3) { return (0, self.big[step as usize % self.big.len()]) }
                let n = self.packs[0].contents.len();
                let k = n / 4095 + 1;
                return (0, ((step as usize * 7 + self.focus as usize % k) % k * 4095 + r.us(60)).min(n - 1));
            }
            Pattern::BigOnes => if !self.big.is_empty() && p == 0 { *r.pick(&self.big) } else { r.us(n) },
        };
        (p, i)
    }
    /// A look at a region of which the bytes are known.
    fn view(&self, r: &mut Rng, what: &str, reg: &jbk::reader::ByteRegion, want: &[u8]) -> bool {
        let n = want.len();
        if reg.size().into_u64() != n as u64 {
            self.fail("size", format!("{what}: size {} instead of {n}", reg.size().into_u64()));
            return false;
        }
        let cap = if r.chance(1, 24) { if self.slow { 200_000 } else { 5_000_000 } } else { 12_000 };
        let bad = |how: String, got: &[u8], want: &[u8]| self.fail(&format!("wrong bytes from {}", how.split(' ').next().unwrap()), format!("{what}: {how}: {}", diff(got, want)));
        let err = |how: &str, e: String| self.fail(&format!("{how} failed"), format!("{what}: {how}: {e}"));
        let (o, m) = {
            // small, anything, up to the end, whole
            let o = r.us(n + 1);
            let m = match r.below(4) { 0 => r.us(100).min(n - o), 1 => r.us(n - o + 1), 2 => n - o, _ => n };
            if m == n { (0, n) } else { (o, m) }
        };
        let (o, m) = if m > cap { if r.bool() { (n - cap.min(n - o), cap.min(n - o)) } else { (o, cap) } } else { (o, m) };
        self.bytes.fetch_add(m as u64, Relaxed);
        match r.below(5) {
            0 | 1 => match reg.get_slice(jbk::Offset::from(o), m) {
                Ok(s) => { if s[..] != want[o..o + m] { bad(format!("slice {o}+{m}"), &s, &want[o..o + m]); return false } }
                Err(e) => { err("slice", format!("{o}+{m} of {n}: {e:?}")); return false }
            },
            2 => {
                // streamed with reads of any size, maybe left before its end
                let cut = reg.cut(jbk::Offset::from(o), jbk::Size::from(m));
                let mut s = cut.stream();
                let mut got = Vec::with_capacity(m);
                let most = *r.pick(&[1usize, 7, 300, 5000, 100_000]);
                let leave = r.chance(1, 4);
                let until = if most < 8 { m.min(400) } else if leave { m / 2 } else { m };
                let mut buf = vec![0u8; most];
                while got.len() < until {
                    let k = 1 + r.us(most);
                    match s.read(&mut buf[..k]) {
                        Ok(0) => break,
                        Ok(x) => got.extend_from_slice(&buf[..x]),
                        Err(e) => { err("stream", format!("{o}+{m} of {n} after {}: {e:?}", got.len())); return false }
                    }
                }
                if got[..] != want[o..o + got.len().min(m)] || got.len() < until || got.len() > m { bad(format!("stream {o}+{m}"), &got, &want[o..o + m]); return false }
            }
            3 => {
                let mut s = reg.stream();
                let k = m.min(20_000);
                let mut v = vec![0u8; k];
                if let Err(e) = s.read_exact(&mut v) { err("read_exact", format!("0+{k} of {n}: {e:?}")); return false }
                if v[..] != want[..k] { bad(format!("read_exact 0+{k}"), &v, &want[..k]); return false }
            }
            _ => {
                // two slices held at the same time, the first looked at again after the second
                let (a, b) = (reg.get_slice(jbk::Offset::from(o), m), reg.get_slice(jbk::Offset::from(n - n.min(64)), n.min(64)));
                match (a, b) {
                    (Ok(a), Ok(b)) => {
                        if b[..] != want[n - n.min(64)..] { bad("end".into(), &b, &want[n - n.min(64)..]); return false }
                        if a[..] != want[o..o + m] { bad(format!("held slice {o}+{m}"), &a, &want[o..o + m]); return false }
                    }
                    (a, b) => { err("slice", format!("{o}+{m} of {n}: {:?} {:?}", a.err().map(|e| format!("{e:?}")), b.err().map(|e| format!("{e:?}")))); return false }
                }
            }
        }
        true
    }
    fn thread(&self, cs: &[Arc<jbk::reader::Container>], t: usize, seed: u64, bar: &Barrier) {
        let mut r = Rng::sub(seed, 0x7EAD, t as u64);
        let mut held: Vec<(usize, usize, jbk::reader::ByteRegion)> = vec![];
        bar.wait();
        for step in 0..self.quota {
            if self.stop.load(Relaxed) { break }
            self.ops.fetch_add(1, Relaxed);
            let gang = matches!(self.pattern, Pattern::Gang);
            if gang {
                self.arrived.fetch_add(1, Relaxed);
                let mut k = 0;
                while self.arrived.load(Relaxed) < (step + 1) * self.threads && !self.stop.load(Relaxed) {
                    k += 1;
                    if k > 300 { std::thread::yield_now() } else { std::hint::spin_loop() }
                }
            }
            let c = &cs[(step as usize + if gang { 0 } else { t }) % cs.len()];
            match if gang && r.chance(7, 8) { 39 } else { r.below(40) } {
                0 => {
                    let (d, _) = dump_container(c, self.ask, DumpOpts { typed: r.bool(), content_bytes: false });
                    let x = diff_dump(self.pristine, &d);
                    if let Some(x) = x.first() { self.fail("different entry values", format!("thread {t}: {x}")) }
                    if n_vals(&d) == 0 { self.fail("nothing read", "no value in the dump".into()) }
                }
                1 => {
                    let p = &self.packs[r.us(self.packs.len())];
                    let i = p.contents.len() as u32 + r.below(3) as u32;
                    match c.get_bytes(jbk::ContentAddress::new(p.id.into(), i.into())) {
                        Ok(Some(jbk::reader::MayMissPack::FOUND(None))) => {}
                        o => self.fail("foreign content", format!("content {i} of pack {}: {}", p.id, match o { Ok(Some(jbk::reader::MayMissPack::FOUND(_))) => "found".into(), Ok(Some(_)) => "missing pack".into(), Ok(None) => "no such pack".into(), Err(e) => format!("{e:?}") })),
                    }
                }
                2 if step % 16 == 0 && !self.slow => {
                    match c.check() { Ok(true) => {} o => self.fail("check", format!("{:?}", o.map_err(|e| e.to_string()))) }
                }
                3..=6 if !held.is_empty() => {
                    let k = r.us(held.len());
                    let (p, i, reg) = &held[k];
                    self.view(&mut r, &format!("kept region of content {}:{i}", self.packs[*p].id), reg, &self.packs[*p].contents[*i].data);
                    if r.bool() { held.swap_remove(k); }
                }
                7..=9 => {
                    // regions opened by another thread
                    let x = { let mut g = self.pool.lock().unwrap(); if g.is_empty() { None } else { let k = r.us(g.len()); Some(g.swap_remove(k)) } };
                    if let Some((p, i, reg)) = x {
                        self.view(&mut r, &format!("shared region of content {}:{i}", self.packs[p].id), &reg, &self.packs[p].contents[i].data);
                        if r.bool() { self.pool.lock().unwrap().push((p, i, reg)) }
                    }
                }
                10 => {
                    // straight from the pack
                    let p = &self.packs[r.us(self.packs.len())];
                    let i = r.us(p.contents.len());
                    match c.get_pack(p.id.into()) {
                        Ok(Some(jbk::reader::MayMissPack::FOUND(k))) => {
                            if k.get_content_count().into_u64() != p.contents.len() as u64 { self.fail("content count", format!("pack {}", p.id)) }
                            match k.get_content((i as u32).into()) {
                                Ok(Some(reg)) => { self.view(&mut r, &format!("content {}:{i} of the pack", p.id), &reg, &p.contents[i].data); }
                                o => self.fail("not found", format!("content {}:{i}: {:?}", p.id, o.map(|o| o.is_some()).map_err(|e| e.to_string()))),
                            }
                        }
                        _ => self.fail("pack not found", format!("pack {}", p.id)),
                    }
                }
                _ => {
                    let (p, i) = self.choose(&mut r, t, step);
                    match c.get_bytes(jbk::ContentAddress::new(self.packs[p].id.into(), (i as u32).into())) {
                        Ok(Some(jbk::reader::MayMissPack::FOUND(Some(reg)))) => {
                            self.view(&mut r, &format!("content {}:{i}", self.packs[p].id), &reg, &self.packs[p].contents[i].data);
                            match r.below(6) {
                                0 => { if held.len() > 60 { held.clear() } held.push((p, i, reg)) }
                                1 => { let mut g = self.pool.lock().unwrap(); if g.len() < 60 { g.push((p, i, reg)) } }
                                _ => {}
                            }
                        }
                        Ok(Some(jbk::reader::MayMissPack::FOUND(None))) => self.fail("not found", format!("content {}:{i} is not found", self.packs[p].id)),
                        Ok(Some(_)) => self.fail("pack not found", format!("pack of content {}:{i} is missing", self.packs[p].id)),
                        Ok(None) => self.fail("pack not found", format!("no pack for content {}:{i}", self.packs[p].id)),
                        Err(e) => self.fail("reading failed", format!("content {}:{i}: {e:?}", self.packs[p].id)),
                    }
                }
            }
        }
        // what is held outlives the others' work
        for (p, i, reg) in &held {
            if self.stop.load(Relaxed) { break }
            self.view(&mut r, &format!("kept region of content {}:{i}, at the end", self.packs[*p].id), reg, &self.packs[*p].contents[*i].data);
        }
    }
}

/// `jbkmon conc-worker BUILD TIER SEED WORLDS T N SECONDS board from to`
pub fn worker(a: &[String]) {
    let (build, seed) = (a[0].as_str(), a[2].parse::<u64>().unwrap());
    let root = PathBuf::from(&a[3]);
    let (t, n): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let secs: f64 = a[6].parse().unwrap();
    let board = Arc::new(Board::open(Path::new(&a[7])));
    let (from, to): (u64, u64) = (a[8].parse().unwrap(), a[9].parse().unwrap());
    let slow = build != "release";
    std::panic::set_hook(Box::new(|i| {
        let m = panic_text(i);
        eprintln!("PANIC {m}");
        if let Ok(mut g) = PANICS.lock() { g.push(m) }
    }));
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
    let t0 = std::env::var("JBKMON_T0").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or_else(now);
    jbk::verif::set_hook(hook);
    crate::jolt::start(seed ^ t);
    let case = Arc::new(AtomicU64::new(from));
    let ops_all = Arc::new(AtomicU64::new(0));
    {
        let (b, c, o) = (board.clone(), case.clone(), ops_all.clone());
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            loop {
                let x = o.load(Relaxed);
                if x != last { b.announce(c.load(Relaxed)); last = x }
                std::thread::sleep(Duration::from_millis(50));
            }
        });
    }
    let only = to != u64::MAX;
    let mut spec: Option<(u64, ContainerSpec, Dump)> = None;
    // a run of consecutive rounds on the same world
    let stay = 3;
    let mut told = std::collections::HashSet::new();
    let mut c = if only { from } else { from + (t + n - from % n) % n };
    while c < to {
        if !only && now() - t0 > secs { break }
        case.store(c, Relaxed);
        ops_all.fetch_add(1, Relaxed);
        let mut r = Rng::sub(seed, 0xC07_0001, c);
        let k = (c / n / stay + c % n) % N_WORLDS;
        let main = Utf8PathBuf::from_path_buf(root.join(format!("{k}")).join("c.jbk")).unwrap();
        if spec.as_ref().map(|s| s.0) != Some(k) {
            STYLE.store(0, Relaxed);
            let s = conc_spec(seed, k);
            let d = open_dump(main.as_std_path(), &dir_ask(&s), DumpOpts { typed: true, content_bytes: false }).map(|d| d.0).unwrap_or_default();
            spec = Some((k, s, d));
        }
        let (_, s, pristine) = spec.as_ref().unwrap();
        let ask = dir_ask(s);
        let threads = *r.pick(if slow { &[2usize, 3, 4, 8, 12] } else { &[2, 3, 4, 8, 16, 32, 48] });
        let style = r.below(10);
        STYLE.store(style, Relaxed);
        SEED.store(r.u64(), Relaxed);
        TARGET.store(if style >= 8 { *r.pick(&[3u64, 4, 5, 6, 7, 8, 10, 10, 11, 12, 13]) } else { r.below(14) }, Relaxed);
        LEFT.store(if style == 6 { 16 } else { r.range(50, 400) }, Relaxed);
        for l in &LOADED { l.store(0, Relaxed) }
        let mut packs = vec![Pk { id: 1, contents: &s.contents }];
        for (id, _, cs) in &s.extra { packs.push(Pk { id: *id, contents: cs }) }
        let big: Vec<usize> = s.contents.iter().enumerate().filter(|c| c.1.data.len() > 60_000).map(|c| c.0).collect();
        let pattern = *r.pick(&[Pattern::Uniform, Pattern::SameContent, Pattern::SameContent, Pattern::SameCluster, Pattern::Scan, Pattern::Scan, Pattern::FewHot, Pattern::BigOnes, Pattern::Gang, Pattern::Gang, Pattern::Gang]);
        let total = match (slow, pattern) { (true, _) => 600, (_, Pattern::Gang) => 1500, _ => 4000 };
        let rd = Round {
            packs, big, pattern, focus: r.u64(), focus_of_step: 1 + r.below(12), ask: &ask, pristine, quota: (total / threads as u64).max(20),
            pool: Mutex::new(vec![]), fails: Mutex::new(vec![]), ops: AtomicU64::new(0), bytes: AtomicU64::new(0), stop: AtomicBool::new(false), slow, threads: threads as u64, arrived: AtomicU64::new(0),
        };
        let n_cont = if r.chance(1, 5) { 2 } else { 1 };
        let mut cs = vec![];
        for _ in 0..n_cont {
            match jbk::reader::Container::new(&main) {
                Ok(c) => cs.push(Arc::new(c)),
                Err(e) => rd.fail("does not open", format!("{e:?}")),
            }
        }
        if r.chance(1, 4) { crate::jolt::set(*r.pick(&[30u64, 200, 1000]), *r.pick(&[50u64, 500, 5000])) }
        let start = Instant::now();
        let tseed = r.u64();
        if cs.len() == n_cont {
            let bar = Barrier::new(threads);
            let (rd, bar) = (&rd, &bar);
            let ops_all = &ops_all;
            std::thread::scope(|sc| {
                for th in 0..threads {
                    let cs = cs.clone();
                    sc.spawn(move || {
                        if let Err(e) = guarded(|| rd.thread(&cs, th, tseed, bar)) {
                            let p = PANICS.lock().unwrap().last().cloned().unwrap_or_default();
                            rd.fail(&format!("panic {}", crate::par::panic_class(&p)), format!("thread {th}: {e} ({p})"));
                        }
                    });
                }
                cs.clear();
                // progress of the threads is progress of the worker
                let mut last = 0;
                let quota = rd.quota * threads as u64;
                let mut idle = 0;
                while rd.ops.load(Relaxed) < quota && !rd.stop.load(Relaxed) && idle < 400 {
                    let x = rd.ops.load(Relaxed);
                    if x != last { ops_all.fetch_add(1, Relaxed); last = x; idle = 0 } else { idle += 1 }
                    std::thread::sleep(Duration::from_millis(5));
                }
            });
        }
        crate::jolt::set(0, 0);
        let mut o = std::io::stdout().lock();
        let fails = rd.fails.into_inner().unwrap();
        for (fp, m) in fails {
            if told.insert(fp.clone()) && told.len() < 6 {
                let _ = writeln!(o, "V\t{fp}\t{c}\tworld {} {threads} threads {pattern:?} perturbation {style} target {}: {}", name_of(k), POINTS[TARGET.load(Relaxed) as usize], m.replace(['\t', '\n'], " "));
            }
        }
        for p in PANICS.lock().unwrap().drain(..) {
            let fp = format!("panic {}", crate::par::panic_class(&p));
            if told.insert(fp.clone()) && told.len() < 6 {
                let _ = writeln!(o, "V\t{fp}\t{c}\tworld {}: a thread panicked: {}", name_of(k), p.replace(['\t', '\n'], " "));
            }
        }
        let _ = writeln!(o, "N\trounds.{}\t1\nN\trounds.perturbation{style}\t1\nN\trounds.{pattern:?}\t1\nN\toperations\t{}\nN\tbytes_compared\t{}\nN\tmilliseconds\t{}", name_of(k), rd.ops.load(Relaxed), rd.bytes.load(Relaxed), start.elapsed().as_millis());
        let _ = writeln!(o, "N\treads_waiting_for_decoding\t{}\nN\treads_of_decoded_data\t{}\nN\tclusters_loaded_again\t{}\nN\tdelays_at_arbitrary_points\t{}\nN\tdelays\t{}\nN\tmeetings_at_a_point\t{}", WAITED.swap(0, Relaxed), PARTIAL.swap(0, Relaxed), RELOADS.swap(0, Relaxed), crate::jolt::COUNT.swap(0, Relaxed), DELAYS.swap(0, Relaxed), MET.swap(0, Relaxed));
        for (i, x) in SEEN.iter().enumerate() {
            let x = x.swap(0, Relaxed);
            if x > 0 { let _ = writeln!(o, "N\tevents.{}\t{x}", POINTS[i]); }
        }
        let g: String = GRAMS.iter().map(|g| format!("{:x}", g.load(Relaxed))).collect::<Vec<_>>().join(",");
        let _ = writeln!(o, "G\t{g}");
        let _ = writeln!(o, "R\t{c}\t{threads}\t{}", rd.ops.load(Relaxed));
        let _ = o.flush();
        drop(o);
        c += if only { 1 } else { n };
    }
    let _ = std::io::stdout().flush();
    // no destructors: threads may still be decoding
    unsafe { libc::_exit(0) }
}

pub fn run(ctx: &mut Ctx) {
    if ctx.quick() && std::env::var("JBKMON_BUDGET").is_err() { ctx.budget = Duration::from_secs(45) }
    ctx.rule = "one round: at least two threads reading a freshly opened container, under its own seed, threads, pattern and perturbation, with every byte compared".into();
    ctx.assumptions.push("a data race or a memory error is what ThreadSanitizer / AddressSanitizer report for the executions run; a round whose threads make no progress for 60 s (release) or 180 s (sanitizers), injected delays being under 0.5 s, counts as blocked".into());
    let root = scratch_root().join("conc");
    let seed = ctx.seed;
    let errs: Vec<String> = std::thread::scope(|s| {
        let root = &root;
        let h: Vec<_> = (0..N_WORLDS).map(|k| s.spawn(move || guarded(|| make(seed, k, root)).and_then(|x| x).err().map(|e| format!("{}: {e}", name_of(k))))).collect();
        h.into_iter().filter_map(|h| h.join().unwrap()).collect()
    });
    if let Some(e) = errs.first() {
        ctx.violation("read back by one thread", "", e);
        return;
    }
    let me = std::env::current_exe().unwrap();
    let mut bins = vec![("release", me, 3u64)];
    for (name, var, n) in [("tsan", "JBKMON_TSAN", 3), ("asan", "JBKMON_ASAN", 2)] {
        if let Ok(b) = std::env::var(var) { bins.push((name, b.into(), n)) }
    }
    let supp = verif_dir().join("tsan.supp");
    let t0 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
    let secs = ctx.budget.as_secs_f64();
    let only = crate::par::only_case();
    let mut jobs = vec![];
    for (name, bin, n) in &bins {
        for t in 0..*n {
            jobs.push(Job {
                name: name.to_string(), bin: bin.clone(),
                args: ["conc-worker".to_string(), name.to_string(), ctx.q("quick", "thorough").into(), seed.to_string(), root.display().to_string(), t.to_string(), n.to_string(), secs.to_string()].to_vec(),
                env: vec![
                    ("JBKMON_T0".into(), t0.to_string()), ("JBKMON_SCRATCH".into(), scratch_root().display().to_string()), ("JBKMON_DIR".into(), verif_dir().display().to_string()),
                    ("TSAN_OPTIONS".into(), format!("halt_on_error=1 exitcode=66 history_size=4 suppressions={}", supp.display())),
                    ("ASAN_OPTIONS".into(), "exitcode=67 detect_leaks=0 allocator_may_return_null=0".into()),
                ],
                hang: Duration::from_secs(if *name == "release" { 60 } else { 180 }),
            });
        }
    }
    let mut grams = vec![0u64; 256];
    let mut bad = vec![];
    let mut handle = |ctx: &mut Ctx, job: usize, l: String| {
        let mut f: Vec<&str> = l.splitn(4, '\t').collect();
        f.resize(4, "");
        let name = jobs[job].name.clone();
        match f[0] {
            "N" => ctx.count(f[1], f[2].parse().unwrap_or(0)),
            "G" => for (a, b) in grams.iter_mut().zip(f[1].split(',')) { *a |= u64::from_str_radix(b, 16).unwrap_or(0) },
            "R" => {
                ctx.case(hash64(format!("{name} {}", f[1]).as_bytes()), f[2].parse::<u64>().unwrap_or(0) >= 2);
                ctx.count(&format!("rounds.build.{name}"), 1);
                if ctx.samples.len() < 6 { ctx.sample(jstr(&format!("{name}: round {} with {} threads, {} operations", f[1], f[2], f[3]))) }
            }
            "V" => {
                let replay = format!("JBKMON_CASE={name}:{} ./check.sh C07 {}", f[2], ctx.q("quick", "thorough"));
                ctx.violation(f[1], &replay, &format!("[{name}] {}", f[3]));
            }
            _ => {}
        }
    };
    if let Some((p, c)) = only {
        let k = jobs.iter().position(|j| j.name == p).expect("build");
        for _ in 0..10 {
            let mut ls = vec![];
            let (e, _, w) = run_once(&jobs[k], c, c + 1, |l| ls.push(l));
            for l in ls { handle(ctx, k, l) }
            println!("case {c}: {e:?} {w}");
            if !matches!(e, End::Done) { ctx.violation("crash or hang", "", &format!("case {c}: {e:?} {w}")); }
        }
        return;
    }
    let slow = crate::slowly::start(ctx, true);
    run_all(&jobs, 4, |o| match o.what {
        Msg::Line(l) => handle(ctx, o.job, l),
        Msg::Bad(c, e, w) => bad.push((o.job, c, e, w)),
        Msg::Over => {}
    });
    slow.finish(ctx);
    for (j, c, e, w) in bad {
        let name = &jobs[j].name;
        let (fp, what) = match &e {
            End::Hang => ("readers do not end".to_string(), "no thread made progress".to_string()),
            End::Crash(s) if s == "exit 66" => ("ThreadSanitizer".into(), "data race".into()),
            End::Crash(s) if s == "exit 67" => ("AddressSanitizer".into(), "memory error".into()),
            End::Crash(s) => (format!("process died ({s})"), "crash".into()),
            End::Done => continue,
        };
        let sum = w.split(" | ").find(|l| l.contains("SUMMARY")).unwrap_or("").to_string();
        ctx.violation(&format!("{fp} {}", sum.chars().filter(|c| !c.is_ascii_digit()).collect::<String>()), &format!("JBKMON_CASE={name}:{c} ./check.sh C07 {}", ctx.q("quick", "thorough")), &format!("[{name}] round {c}: {what}: {w}"));
    }
    ctx.count("orders_of_three_events_seen", grams.iter().map(|g| g.count_ones() as u64).sum());
    if ctx.evaluations == 0 && ctx.violations.is_empty() {
        println!("no round was run");
        std::process::exit(2);
    }
}

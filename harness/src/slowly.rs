//! Creations and readings during which nothing happens for seconds, at every place where somebody may be slow: the user between two
//! calls, a callback, a worker, the writer, the decompression. They run beside the other executions of C07 and C08 and mostly sleep.
use crate::builder::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

/// (point, events until it, milliseconds)
static PLAN: Mutex<Vec<(&'static str, u64, u64)>> = Mutex::new(Vec::new());
static STOPS: AtomicU64 = AtomicU64::new(0);
fn hook(name: &'static str, _obj: usize, _val: u64) {
    let mut ms = 0;
    if let Ok(mut p) = PLAN.lock() {
        for x in p.iter_mut().filter(|x| x.0 == name && x.1 > 0) {
            x.1 -= 1;
            if x.1 == 0 { ms = ms.max(x.2) }
        }
    }
    if ms > 0 { stop(ms) }
}
fn stop(ms: u64) {
    STOPS.fetch_add(1, Relaxed);
    std::thread::sleep(Duration::from_millis(ms));
}

/// Callbacks which take their time.
struct Idle { what: u64, left: AtomicU64, ms: u64 }
impl Idle {
    fn at(&self, what: u64) {
        if what == self.what && self.left.fetch_update(Relaxed, Relaxed, |x| x.checked_sub(1)) == Ok(1) { stop(self.ms) }
    }
}
impl jbk::creator::Progress for Idle {
    fn new_cluster(&self, _: u32, _: bool) { self.at(1) }
    fn handle_cluster(&self, _: u32, _: bool) { self.at(2) }
    fn handle_cluster_written(&self, _: u32) { self.at(3) }
    fn content_added(&self, _: jbk::Size) { self.at(4) }
}

fn comp_of(r: &mut Rng) -> Comp { match r.below(3) { 0 => Comp::Zstd(1), 1 => Comp::Lz4(1), _ => Comp::Lzma(0) } }

/// One creation which stops for `ms` at one place.
fn creation(seed: u64, i: u64, ms: u64) -> Result<String, (String, String)> {
    let mut r = Rng::sub(seed, 0x510, i);
    let sc = Scratch::new("slow");
    let comp = comp_of(&mut r);
    let n = 4095 * (3 + r.us(5)) + r.us(4000);
    let items: Vec<(Arc<[u8]>, bool)> = (0..n).map(|k| {
        let v: Vec<u8> = (0..1 + k % 7).map(|j| (k.wrapping_mul(2654435761) >> (8 * (j % 4))) as u8).collect();
        (v.into(), k % 8190 < 4500 || r.chance(2, 3))
    }).collect();
    // where
    let what = i % 7;
    let at = match r.below(4) { 0 => 1, 1 => n - 1, 2 => 4095 * (1 + r.us(3)) + r.us(3), _ => 1 + r.us(n - 1) };
    let idle = Arc::new(Idle { what, left: AtomicU64::new(if what == 4 { at as u64 } else { 1 + r.below(3) }), ms });
    let place = ["between two insertions", "in new_cluster", "in handle_cluster", "in handle_cluster_written", "in content_added", "before the first insertion", "before finalize"][what as usize];
    let desc = format!("{n} contents, {comp:?}, {ms} ms without anything {place}{}", if what == 0 { format!(" (after {at})") } else { String::new() });
    let p = sc.u("p.jbkc");
    let e = |a: &str, m: String| (a.to_string(), format!("{desc}: {m}"));
    let r = guarded(|| -> std::io::Result<Vec<(u16, u32)>> {
        let mut c = jbk::creator::ContentPackCreator::new_with_progress(&p, 1.into(), VENDOR, Default::default(), comp.jbk(), idle)?;
        if what == 5 { stop(ms) }
        let mut a = vec![];
        for (k, (d, y)) in items.iter().enumerate() {
            if what == 0 && k == at { stop(ms) }
            let x = c.add_content(Box::new(std::io::Cursor::new(d.clone())), if *y { jbk::creator::CompHint::Yes } else { jbk::creator::CompHint::No })?;
            a.push((x.pack_id.into_u16(), x.content_id.into_u32()));
        }
        if what == 6 { stop(ms) }
        c.finalize()?;
        Ok(a)
    });
    let a = match r { Ok(Ok(a)) => a, x => return Err(e("creation failed", format!("{x:?}"))) };
    if let Some(k) = (0..n).find(|k| a[*k] != (1, *k as u32)) {
        return Err(e("addresses", format!("insertion {k} is at {:?}", a[k])));
    }
    match guarded(|| -> Result<(), String> {
        let pk = open_content_pack(&p)?;
        for (k, (d, _)) in items.iter().enumerate() {
            let b = pk.get_content((k as u32).into()).map_err(|e| format!("content {k}: {e:?}"))?.ok_or(format!("no content {k}"))?;
            let got = b.get_slice(jbk::Offset::zero(), d.len()).map_err(|e| format!("content {k}: {e:?}"))?;
            if b.size().into_u64() != d.len() as u64 || got[..] != d[..] { return Err(format!("content {k}: {} bytes {}", b.size().into_u64(), hex(&got))) }
        }
        use jbk::Pack;
        match pk.check() { Ok(true) => Ok(()), x => Err(format!("check: {x:?}")) }
    }) {
        Ok(Ok(())) => Ok(desc),
        Ok(Err(m)) | Err(m) => Err(e("reads differently", m)),
    }
}

/// Readings of the same pack which stop for `ms` in the middle, some threads at once.
fn reading(seed: u64, i: u64, ms: u64) -> Result<String, (String, String)> {
    use std::io::Read;
    let mut r = Rng::sub(seed, 0x511, i);
    let sc = Scratch::new("slow");
    let comp = comp_of(&mut r);
    let n = 6 + r.us(4);
    let contents: Vec<ContentSpec> = (0..n).map(|k| {
        let len = 200_000 + r.us(1_800_000);
        let d: Vec<u8> = (0..len / 4 + 1).flat_map(|j| ((j as u32).wrapping_mul(40503) ^ (k as u32) << 27 ^ (j as u32 / 64) << 8).to_le_bytes()).take(len).collect();
        ContentSpec { data: Arc::new(d), hint: if k % 4 == 3 { Hint::No } else { Hint::Yes }, src: Src::Mem }
    }).collect();
    let desc = format!("{n} contents, {comp:?}, {ms} ms without anything while reading");
    let e = |a: &str, m: String| (a.to_string(), format!("{desc}: {m}"));
    build_pack(&sc.u("p.jbkc"), 1, comp, &contents, false, Sink::Named, Arc::new(())).map_err(|m| e("creation failed", m))?;
    let pk = open_content_pack(&sc.u("p.jbkc")).map_err(|m| e("does not open", m))?;
    let res = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64).map(|t| {
            let (pk, contents) = (&pk, &contents);
            let mut r = Rng::sub(seed, i, t);
            s.spawn(move || guarded(|| -> Result<(), String> {
                for round in 0..2 {
                    let k = r.us(n);
                    let d = &contents[k].data;
                    let x = |m: String| format!("content {k} of {} bytes, thread {t}, round {round}: {m}", d.len());
                    let b = pk.get_content((k as u32).into()).map_err(|e| x(format!("{e:?}")))?.ok_or(x("none".into()))?;
                    let cut = *r.pick(&[0usize, 12, 4096, d.len() / 2, d.len() - 1]);
                    let mut st = b.stream();
                    let mut head = vec![0; cut];
                    st.read_exact(&mut head).map_err(|e| x(format!("read_exact: {e:?}")))?;
                    if round == 0 { stop(ms) }
                    let mut tail = vec![];
                    st.read_to_end(&mut tail).map_err(|e| x(format!("read_to_end after {cut}: {e:?}")))?;
                    head.extend(tail);
                    if head != **d { return Err(x(format!("stream after {cut}: {}", diff(&head, d)))) }
                    let got = b.get_slice(jbk::Offset::zero(), d.len()).map_err(|e| x(format!("get_slice: {e:?}")))?;
                    if got[..] != d[..] { return Err(x(format!("slice: {}", diff(&got, d)))) }
                }
                Ok(())
            }).and_then(|x| x))
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect::<Result<Vec<_>, _>>()
    });
    res.map(|_| desc.clone()).map_err(|m| e("reads differently", m))
}

pub struct Slow { rx: mpsc::Receiver<(u64, Result<String, (String, String)>)>, n: u64, end: Instant, what: &'static str }

/// Starts all of them; `finish` waits for them and judges.
pub fn start(ctx: &Ctx, read: bool) -> Slow {
    let ds: Vec<u64> = ctx.q(vec![1_200, 2_600, 5_500, 11_000], vec![1_200, 2_600, 5_500, 11_000, 32_000, 61_500, 121_000]);
    let pts: &[&'static str] = if read { &["decode.start", "decode.chunk", "decode.publish", "cache.miss", "cache.set", "cluster.load", "cluster.plain"] } else { &["worker.recv", "worker.compressed", "worker.sent", "writer.recv", "writer.set", "proxy.queue"] };
    let mut r = Rng::sub(ctx.seed, 0x512, read as u64);
    *PLAN.lock().unwrap() = pts.iter().flat_map(|p| [(*p, 1 + r.below(6), 2_600), (*p, 7 + r.below(9), *ds.iter().filter(|d| **d < 40_000).last().unwrap())]).collect();
    jbk::verif::set_hook(hook);
    let (tx, rx) = mpsc::channel();
    let n = ds.len() as u64 * if read { 3 } else { 7 };
    for i in 0..n {
        let (tx, ms, seed) = (tx.clone(), ds[(i / if read { 3 } else { 7 }) as usize], ctx.seed);
        std::thread::spawn(move || { let _ = tx.send((i, if read { reading(seed, i, ms) } else { creation(seed, i, ms) })); });
    }
    let most = *ds.last().unwrap();
    Slow { rx, n, end: Instant::now() + Duration::from_millis(4 * most + 100_000), what: if read { "reading" } else { "creation" } }
}
impl Slow {
    pub fn finish(self, ctx: &mut Ctx) {
        let mut seen = vec![false; self.n as usize];
        while seen.iter().any(|s| !s) {
            let Ok((i, r)) = self.rx.recv_timeout(self.end.saturating_duration_since(Instant::now())) else { break };
            seen[i as usize] = true;
            match r {
                Ok(d) => { ctx.case(hash64(format!("slow {i} {d}").as_bytes()), true); ctx.count(&format!("slow_{}s", self.what), 1) }
                Err((fp, m)) => {
                    let p = PANICS.lock().unwrap().iter().take(3).cloned().collect::<Vec<_>>().join("; ");
                    ctx.violation(&fp, &format!("./check.sh {} {}", ctx.prop, ctx.q("quick", "thorough")), &format!("[slow] {m} {p}"));
                }
            }
        }
        let left = seen.iter().filter(|s| !**s).count();
        if left > 0 {
            ctx.violation(&format!("{} does not end", self.what), &format!("./check.sh {} {}", ctx.prop, ctx.q("quick", "thorough")), &format!("[slow] {left} of {} with stops of some seconds are not over", self.n));
        }
        ctx.count("stops_of_seconds", STOPS.load(Relaxed));
    }
}

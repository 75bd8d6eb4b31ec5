//! C13: all views of a stored content agree.
use crate::builder::*;
use crate::model::*;
use crate::par::*;
use crate::util::*;
use jubako as jbk;
use jbk::reader::{ByteRegion, ByteSlice, ByteStream};
use std::io::Read;
use std::sync::Arc;

/// positions that are likely to matter in n bytes
fn pos(r: &mut Rng, n: usize) -> usize {
    let c = match r.below(8) {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(1),
        3 => 1,
        4 => { let b = 4096 * (r.us(4 + n / 4096)); (b + r.us(3)).saturating_sub(1) }
        5 => r.us(n.min(20) + 1),
        _ => r.us(n + 1),
    };
    c.min(n)
}
fn range(r: &mut Rng, n: usize) -> (usize, usize) {
    let a = pos(r, n);
    let l = pos(r, n - a);
    (a, l)
}

struct Bad(String);
type R<T> = Result<T, Bad>;
macro_rules! bad { ($($a:tt)*) => { return Err(Bad(format!($($a)*))) } }

fn eq(what: &str, got: &[u8], want: &[u8]) -> R<()> {
    if got != want {
        bad!("{what}: {}", diff(got, want));
    }
    Ok(())
}

struct St {
    ops: u64,
    bytes: u64,
    trace: Vec<String>,
}
impl St {
    fn op(&mut self, s: String) {
        self.ops += 1;
        if self.trace.len() < 60 {
            self.trace.push(s);
        }
    }
}

fn check_stream(r: &mut Rng, st: &mut St, mut s: ByteStream, want: &[u8]) -> R<()> {
    let n = want.len();
    let mut at = 0usize;
    let book = |s: &ByteStream, at: usize| -> R<()> {
        if (s.size(), s.offset(), s.size_left()) != (n as u64, at as u64, (n - at) as u64) {
            bad!("stream after {at} of {n} bytes: size {} offset {} left {}", s.size(), s.offset(), s.size_left());
        }
        Ok(())
    };
    book(&s, 0)?;
    let mut steps = 0;
    loop {
        steps += 1;
        let want_n = match r.below(7) { 0 => 0, 1 => 1, 2 => 4096, 3 => r.us(10), 4 => n - at, 5 => pos(r, n), _ => r.us(9000) };
        match r.below(5) {
            0 if want_n <= n - at => {
                let mut b = vec![0xEE; want_n];
                st.op(format!("read_exact({want_n})@{at}"));
                if let Err(e) = s.read_exact(&mut b) {
                    bad!("read_exact({want_n}) at {at} of {n}: {e:?}");
                }
                eq(&format!("read_exact({want_n}) at {at} of {n}"), &b, &want[at..at + want_n])?;
                at += want_n;
            }
            1 if r.chance(1, 6) || steps > 40 => {
                let mut b = vec![];
                st.op(format!("read_to_end@{at}"));
                if let Err(e) = s.read_to_end(&mut b) {
                    bad!("read_to_end at {at} of {n}: {e:?}");
                }
                eq(&format!("read_to_end at {at} of {n}"), &b, &want[at..])?;
                at = n;
            }
            2 => {
                let mut b = vec![];
                st.op(format!("take({want_n})@{at}"));
                if let Err(e) = s.by_ref().take(want_n as u64).read_to_end(&mut b) {
                    bad!("take({want_n}) at {at} of {n}: {e:?}");
                }
                let e = (at + want_n).min(n);
                eq(&format!("take({want_n}) at {at} of {n}"), &b, &want[at..e])?;
                at = e;
            }
            _ => {
                // one read: anything up to the buffer, not 0 before the end
                let mut b = vec![0xEE; want_n + 8];
                st.op(format!("read({want_n})@{at}"));
                let k = match s.read(&mut b[..want_n]) {
                    Ok(k) => k,
                    Err(e) => bad!("read({want_n}) at {at} of {n}: {e:?}"),
                };
                if k > want_n.min(n - at) || (k == 0 && want_n > 0 && at < n) {
                    bad!("read({want_n}) at {at} of {n} returns {k}");
                }
                eq(&format!("read({want_n}) at {at} of {n}"), &b[..k], &want[at..at + k])?;
                if b[want_n..].iter().any(|x| *x != 0xEE) {
                    bad!("read({want_n}) wrote past the buffer");
                }
                at += k;
            }
        }
        book(&s, at)?;
        if at == n {
            let mut b = [0u8; 16];
            match s.read(&mut b) {
                Ok(0) => {}
                o => bad!("read at the end of {n}: {o:?}"),
            }
            book(&s, at)?;
            st.bytes += n as u64;
            return Ok(());
        }
        if steps > 60 {
            return Ok(());
        }
    }
}

fn check_slice(r: &mut Rng, st: &mut St, s: &ByteSlice, want: &[u8], depth: usize) -> R<()> {
    let n = want.len();
    if s.size().into_u64() != n as u64 {
        bad!("slice of {n} bytes has size {}", s.size().into_u64());
    }
    for _ in 0..1 + r.us(4) {
        match r.below(6) {
            0 | 1 => {
                let (a, l) = range(r, n);
                st.op(format!("slice.get_slice({a},{l}) of {n}"));
                match s.get_slice((a as u64).into(), l) {
                    Ok(b) => eq(&format!("slice.get_slice({a},{l}) of {n}"), &b, &want[a..a + l])?,
                    Err(e) => bad!("slice.get_slice({a},{l}) of {n}: {e:?}"),
                }
                st.bytes += l as u64;
            }
            2 if depth > 0 => {
                let (a, l) = range(r, n);
                st.op(format!("slice.cut({a},{l}) of {n}"));
                check_slice(r, st, &s.cut((a as u64).into(), (l as u64).into()), &want[a..a + l], depth - 1)?;
            }
            3 => {
                st.op(format!("slice.stream of {n}"));
                check_stream(r, st, s.stream(), want)?;
            }
            4 if depth > 0 => {
                st.op(format!("region from slice of {n}"));
                check_region(r, st, &ByteRegion::from(s.clone()), want, depth - 1)?;
            }
            _ if depth > 0 => {
                st.op(format!("stream from region from slice of {n}"));
                check_stream(r, st, ByteStream::from(ByteRegion::from(s.clone())), want)?;
            }
            _ => {}
        }
    }
    Ok(())
}

fn check_region(r: &mut Rng, st: &mut St, s: &ByteRegion, want: &[u8], depth: usize) -> R<()> {
    let n = want.len();
    if s.size().into_u64() != n as u64 {
        bad!("region of {n} bytes has size {}", s.size().into_u64());
    }
    for _ in 0..1 + r.us(4) {
        match r.below(7) {
            0 | 1 => {
                let (a, l) = range(r, n);
                st.op(format!("region.get_slice({a},{l}) of {n}"));
                match s.get_slice((a as u64).into(), l) {
                    Ok(b) => eq(&format!("region.get_slice({a},{l}) of {n}"), &b, &want[a..a + l])?,
                    Err(e) => bad!("region.get_slice({a},{l}) of {n}: {e:?}"),
                }
                st.bytes += l as u64;
            }
            2 if depth > 0 => {
                let (a, l) = range(r, n);
                st.op(format!("region.cut({a},{l}) of {n}"));
                check_slice(r, st, &s.cut((a as u64).into(), (l as u64).into()), &want[a..a + l], depth - 1)?;
            }
            3 => {
                st.op(format!("region.stream of {n}"));
                check_stream(r, st, s.stream(), want)?;
            }
            4 if depth > 0 => {
                st.op(format!("region.as_slice of {n}"));
                check_slice(r, st, &s.as_slice(), want, depth - 1)?;
            }
            5 => {
                st.op(format!("stream from region of {n}"));
                check_stream(r, st, ByteStream::from(s.clone()), want)?;
            }
            _ => {
                // two streams advance independently
                let (mut a, mut b) = (s.stream(), s.stream());
                let (mut ra, mut rb) = (vec![], vec![]);
                let k = pos(r, n);
                st.op(format!("two streams of {n}"));
                let e = a.by_ref().take(k as u64).read_to_end(&mut ra).and_then(|_| b.read_to_end(&mut rb)).and_then(|_| a.read_to_end(&mut ra));
                if let Err(e) = e {
                    bad!("two streams of {n}: {e:?}");
                }
                eq("first of two streams", &ra, want)?;
                eq("second of two streams", &rb, want)?;
                st.bytes += 2 * n as u64;
            }
        }
    }
    Ok(())
}

fn programs(rec: &mut Rec, r: &mut Rng, get: &dyn Fn(usize) -> Result<ByteRegion, String>, contents: &[ContentSpec], n: usize, what: &str) {
    for k in 0..n {
        let i = r.us(contents.len());
        let mut st = St { ops: 0, bytes: 0, trace: vec![] };
        let res = match get(i) {
            Err(e) => Err(Bad(e)),
            Ok(reg) => {
                let mut f = || check_region(r, &mut st, &reg, &contents[i].data, 4);
                match guarded(&mut f) {
                    Ok(x) => x,
                    Err(p) => Err(Bad(p)),
                }
            }
        };
        if let Err(Bad(m)) = res {
            let class: String = m.split(|c: char| c.is_ascii_digit() || c == ':').next().unwrap_or("").trim().into();
            rec.violation(&format!("views: {class}"), format!("{what}: content {i} {:?}, program {k}: {m}; operations {:?}", contents[i], st.trace));
            return;
        }
        rec.count("operations", st.ops);
        rec.count("bytes_compared", st.bytes);
        rec.case(hash64(format!("{:?}{:?}", contents[i], st.trace).as_bytes()), st.ops > 0);
        if k == 0 {
            rec.sample(format!("{what}: content {:?}: {:?}", contents[i], st.trace).chars().take(500).collect());
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a program of at least one view operation on one content; distinct by content description and operation trace".into();
    phase("pack", 0.6, u64::MAX).min(60).run(ctx, move |i, r, rec| {
        let comp = match i % 4 { 0 => Comp::None, 1 => Comp::Lz4(1), 2 => Comp::Zstd(1), _ => Comp::Lzma(0) };
        let big = i % 9 == 0;
        let n = 1 + r.us(if big { 3 } else { 12 });
        let contents: Vec<ContentSpec> = (0..n).map(|_| {
            let mut c = gen_content(r, if big { 6 << 20 } else { 70_000 });
            if big && r.bool() {
                c.data = Arc::new(gen_data(r, (1 << 20) + 17));
            }
            c.hint = *r.pick(&[Hint::Yes, Hint::No]);
            c
        }).collect();
        let sc = Scratch::new("c13");
        let what = format!("pack {comp:?}");
        match build_pack(&sc.u("p.jbkc"), 1, comp, &contents, false, Sink::Atomic, Arc::new(())).and_then(|b| Ok((open_content_pack(&b.path)?, b))) {
            Err(e) => rec.violation("setup", e),
            Ok((p, b)) => programs(rec, r, &|i| match p.get_content(b.addrs[i].1.into()) {
                Ok(Some(x)) => Ok(x),
                o => Err(format!("no content {:?}", o.map(|x| x.is_some()))),
            }, &contents, if big { 8 } else { 40 }, &what),
        }
    });
    // a content pack inside a container inside a file which begins with something else
    phase("embedded", 1.0, u64::MAX).min(30).run(ctx, move |i, r, rec| {
        let sc = Scratch::new("c13e");
        let mut cfg = GenCfg::small();
        cfg.max_entries = 2;
        cfg.sorted = Some(false);
        let n = 1 + r.us(8);
        let mut s = gen_container(r, &mut cfg, n, 40_000, true);
        s.dedup = false;
        s.mode = if i % 3 == 2 { Mode::No } else { Mode::One };
        let out = sc.u("c.jbk");
        let b = match build_simple(&s, &out) {
            Ok(b) => b,
            Err(e) => return rec.violation("setup", e),
        };
        if i % 3 == 1 {
            let l = r.us(6000);
            let mut v = r.bytes(l);
            v.extend(read(&out));
            std::fs::write(&out, v).unwrap();
        }
        match jbk::reader::Container::new(&b.path) {
            Err(e) => rec.violation("setup", format!("{e:?}")),
            Ok(c) => programs(rec, r, &|i| match c.get_bytes(jbk::ContentAddress::new(b.addrs[i].0.into(), b.addrs[i].1.into())) {
                Ok(Some(jbk::reader::MayMissPack::FOUND(Some(x)))) => Ok(x),
                o => Err(format!("no content {:?}", o.map(|x| x.is_some()))),
            }, &s.contents, 30, &format!("{:?} {:?} embedded={}", s.mode, s.comp, i % 3 == 1)),
        }
    });
    // contents beyond 4 GiB, alone or after another one (sparse inputs)
    phase("huge", 1.0, 2).min(2).threads(2).run(ctx, huge_case);
}

/// Mostly zeros, with islands of bytes.
struct Islands(Vec<(u64, Vec<u8>)>);
impl Islands {
    fn at(&self, from: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        for (p, b) in &self.0 {
            let (s, e) = ((*p).max(from), (p + b.len() as u64).min(from + n as u64));
            if s < e { v[(s - from) as usize..(e - from) as usize].copy_from_slice(&b[(s - p) as usize..(e - p) as usize]) }
        }
        v
    }
}
fn huge_case(case: u64, r: &mut Rng, rec: &mut Rec) {
    use std::os::unix::fs::FileExt;
    let sc = Scratch::new("c13h");
    let g4 = 1u64 << 32;
    let n = g4 + 5_000_000 + r.below(1000);
    let p = sc.u("sparse");
    let f = std::fs::File::create(&p).unwrap();
    f.set_len(n).unwrap();
    let mut isl = Islands(vec![]);
    for at in [0u64, 4090, (1 << 20) - 300, 1 << 31, g4 - 3000, g4 - 20, g4 + 4000, g4 + 1_000_000, n - 900] {
        let b = r.bytes(800);
        if isl.0.last().is_some_and(|x| x.0 + 800 > at) { continue }
        f.write_all_at(&b, at).unwrap();
        isl.0.push((at, b));
    }
    drop(f);
    let (comp, hint) = if case % 2 == 0 { (Comp::None, Hint::No) } else { (Comp::Zstd(-5), Hint::Yes) };
    let desc = format!("huge {comp:?} content of {n}");
    let out = sc.u("huge.jbkc");
    let small = r.bytes(3000);
    let res = guarded(|| -> std::io::Result<jbk::ContentAddress> {
        let mut c = jbk::creator::ContentPackCreator::new(&out, 1.into(), VENDOR, Default::default(), comp.jbk())?;
        c.add_content(Box::new(std::io::Cursor::new(small.clone())), hint.jbk())?;
        let a = c.add_content(Box::new(jbk::creator::InputFile::open(&p)?), hint.jbk())?;
        drop(c.finalize()?);
        Ok(a)
    });
    rec.case(hash64(desc.as_bytes()), true);
    let a = match res {
        Ok(Ok(a)) => a,
        Ok(Err(e)) if e.kind() == std::io::ErrorKind::StorageFull || e.raw_os_error() == Some(12) => return rec.inconclusive(&format!("no room for it: {e}")),
        e => return rec.violation("setup", format!("{desc}: {e:?}")),
    };
    let pk = match open_content_pack(&out) { Ok(p) => p, Err(e) => return rec.violation("setup", format!("{desc}: {e}")) };
    let reg = match pk.get_content(a.content_id) { Ok(Some(x)) => x, o => return rec.violation("setup", format!("{desc}: {:?}", o.map(|x| x.is_some()))) };
    let mut st = St { ops: 0, bytes: 0, trace: vec![] };
    let res = guarded(|| huge_views(r, &mut st, &reg, n, &isl));
    if let Ok(Err(Bad(m))) | Err(m) = res {
        let class: String = m.split(|c: char| c.is_ascii_digit() || c == ':').next().unwrap_or("").trim().into();
        rec.violation(&format!("views: {class}"), format!("{desc}: {m}; operations {:?}", st.trace));
    }
    rec.count("operations", st.ops);
    rec.count("operations_on_huge_contents", st.ops);
    rec.count("bytes_compared", st.bytes);
    rec.max("content_size", n);
    rec.sample(format!("{desc}: {:?}", st.trace).chars().take(500).collect());
}
/// The whole of it as a stream.
fn huge_stream(st: &mut St, mut s: ByteStream, from: u64, n: u64, isl: &Islands, how: &str) -> R<()> {
    let zero = vec![0u8; 1 << 20];
    let mut b = vec![0u8; 1 << 20];
    let mut at = 0u64;
    st.op(how.into());
    loop {
        if (s.size(), s.offset(), s.size_left()) != (n, at, n - at) {
            bad!("{how}: stream after {at} of {n} bytes: size {} offset {} left {}", s.size(), s.offset(), s.size_left());
        }
        let k = match s.read(&mut b) { Ok(k) => k, Err(e) => bad!("{how}: read at {at} of {n}: {e:?}") };
        if k as u64 > n - at || (k == 0 && at < n) { bad!("{how}: read at {at} of {n} returns {k}") }
        if k == 0 { return Ok(()) }
        let abs = from + at;
        let same = if isl.0.iter().all(|(p, x)| p + x.len() as u64 <= abs || *p >= abs + k as u64) { b[..k] == zero[..k] } else { b[..k] == isl.at(abs, k)[..] };
        if !same { bad!("{how}: read at {at} of {n}: {}", diff(&b[..k], &isl.at(abs, k))) }
        at += k as u64;
        st.bytes += k as u64;
    }
}
fn huge_views(r: &mut Rng, st: &mut St, reg: &ByteRegion, n: u64, isl: &Islands) -> R<()> {
    if reg.size().into_u64() != n { bad!("region of {n} bytes has size {}", reg.size().into_u64()) }
    if reg.as_slice().size().into_u64() != n { bad!("slice of {n} bytes has size {}", reg.as_slice().size().into_u64()) }
    let g4 = 1u64 << 32;
    for k in 0..120 {
        let around = match k % 4 { 0 => g4 - 2000 + r.below(4000), 1 => isl.0[r.us(isl.0.len())].0 + r.below(900), 2 => r.below(n), _ => g4 + r.below(n - g4) };
        let a = around.saturating_sub(r.below(600)).min(n);
        let l = (r.below(if k % 7 == 0 { 200_000 } else { 3000 })).min(n - a);
        let want = isl.at(a, l as usize);
        st.op(format!("window {a}+{l}"));
        match reg.get_slice(a.into(), l as usize) {
            Ok(v) => eq(&format!("region.get_slice({a},{l})"), &v, &want)?,
            Err(e) => bad!("region.get_slice({a},{l}): {e:?}"),
        }
        match reg.as_slice().get_slice(a.into(), l as usize) {
            Ok(v) => eq(&format!("slice.get_slice({a},{l})"), &v, &want)?,
            Err(e) => bad!("slice.get_slice({a},{l}): {e:?}"),
        }
        check_slice(r, st, &reg.cut(a.into(), l.into()), &want, 3)?;
        // a cut of a cut, both beyond or around the border
        let b = a - r.below(a.min(g4 + 1) + 1);
        let big = reg.cut(b.into(), (n - b).into());
        if big.size().into_u64() != n - b { bad!("cut({b},{}) has size {}", n - b, big.size().into_u64()) }
        check_slice(r, st, &big.cut((a - b).into(), l.into()), &want, 2)?;
        check_region(r, st, &ByteRegion::from(big.cut((a - b).into(), l.into())), &want, 2)?;
        match ByteRegion::from(big.clone()).get_slice((a - b).into(), l as usize) {
            Ok(v) => eq(&format!("region of cut({b}).get_slice({},{l})", a - b), &v, &want)?,
            Err(e) => bad!("region of cut({b}).get_slice({},{l}): {e:?}", a - b),
        }
        // the beginning of a stream with everything after it
        for (how, mut s) in [("cut.stream", reg.cut(a.into(), (n - a).into()).stream()), ("region of cut.stream", ByteRegion::from(reg.cut(a.into(), (n - a).into())).stream()), ("stream from region of cut", ByteStream::from(ByteRegion::from(reg.cut(a.into(), (n - a).into()))))] {
            let mut v = vec![0u8; l as usize];
            if let Err(e) = s.read_exact(&mut v) { bad!("{how} at {a} of {n}: read_exact({l}): {e:?}") }
            eq(&format!("{how} at {a}: {l} bytes"), &v, &want)?;
            if (s.size(), s.offset(), s.size_left()) != (n - a, l, n - a - l) {
                bad!("{how} at {a} of {n} after {l} bytes: size {} offset {} left {}", s.size(), s.offset(), s.size_left());
            }
        }
        st.bytes += 6 * l;
    }
    huge_stream(st, reg.stream(), 0, n, isl, "region.stream")?;
    let a = r.below(4_000_000);
    huge_stream(st, reg.cut(a.into(), (n - a).into()).stream(), a, n - a, isl, "cut.stream")
}

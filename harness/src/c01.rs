//! C01: stored content reads back byte-identical at the returned address.
use crate::builder::*;
use crate::model::*;
use crate::par::*;
use crate::util::*;
use jubako as jbk;
use jbk::reader::MayMissPack;
use std::sync::Arc;

fn spec(data: Vec<u8>, hint: Hint, src: Src) -> ContentSpec {
    ContentSpec { data: Arc::new(data), hint, src }
}
fn key(comp: Comp, c: &[ContentSpec], tag: u64) -> u64 {
    let mut h = blake3::Hasher::new();
    h.update(format!("{comp:?} {tag}").as_bytes());
    for x in c {
        h.update(format!("{} {:?} {:?}", x.data.len(), x.hint, x.src).as_bytes());
        h.update(&x.data[..x.data.len().min(64)]);
    }
    u64::from_le_bytes(h.finalize().as_bytes()[..8].try_into().unwrap())
}
fn stats(rec: &mut Rec, c: &[ContentSpec], comp: Comp) {
    rec.count("contents", c.len() as u64);
    rec.count("bytes", c.iter().map(|x| x.data.len() as u64).sum());
    rec.max("content_size", c.iter().map(|x| x.data.len() as u64).max().unwrap_or(0));
    rec.max("contents_in_pack", c.len() as u64);
    rec.count(&format!("packs.{}", ["none", "lz4", "lzma", "zstd"][comp.byte() as usize]), 1);
    rec.count("empty_contents", c.iter().filter(|x| x.data.is_empty()).count() as u64);
    rec.count("from_file", c.iter().filter(|x| x.src != Src::Mem).count() as u64);
}

/// Read everything back from a content pack and compare with what was handed over.
pub fn check_pack(rec: &mut Rec, r: &mut Rng, p: &jbk::reader::ContentPack, contents: &[ContentSpec], addrs: &[(u16, u32)], dedup: bool, what: &str) {
    let n = p.get_content_count().into_u32();
    let expect = if dedup {
        let mut s: Vec<_> = addrs.iter().map(|a| a.1).collect();
        s.sort();
        s.dedup();
        s.len()
    } else {
        contents.len()
    };
    if n as usize != expect {
        rec.violation("content count", format!("{what}: pack reports {n} contents, {expect} were inserted"));
    }
    let mut order: Vec<usize> = (0..contents.len()).collect();
    if r.bool() {
        r.shuffle(&mut order);
    }
    for i in order {
        let c = &contents[i];
        match p.get_content(addrs[i].1.into()) {
            Err(e) => rec.violation("content error", format!("{what}: content {i} {c:?} at {:?}: {e:?}", addrs[i])),
            Ok(None) => rec.violation("content absent", format!("{what}: content {i} {c:?} at {:?}: no such content", addrs[i])),
            Ok(Some(reg)) => {
                if reg.size().into_u64() != c.data.len() as u64 {
                    rec.violation("content size", format!("{what}: content {i} {c:?} has size {}", reg.size().into_u64()));
                }
                match crate::dump::read_region(&reg) {
                    Err(e) => rec.violation("content read", format!("{what}: content {i} {c:?}: {e}")),
                    Ok(b) if b != c.data.as_slice() => {
                        rec.violation("content bytes", format!("{what}: content {i} {c:?} at {:?}: {}", addrs[i], diff(&b, &c.data)))
                    }
                    Ok(_) => rec.count("contents_verified", 1),
                }
            }
        }
        if rec.violations.len() > 5 {
            return;
        }
    }
    for past in [n, n.saturating_add(1), n.saturating_add(2 + r.below(5000) as u32), u32::MAX, u32::MAX - 1, n | 0x8000_0000, n | 0x0100_0000, n | 0x1_0000] {
        if past < n {
            continue;
        }
        match p.get_content(past.into()) {
            Ok(None) => rec.count("past_end_none", 1),
            Ok(Some(x)) => rec.violation("past end bytes", format!("{what}: address {past} of {n} contents gives a content of {} bytes", x.size().into_u64())),
            Err(e) => rec.violation("past end error", format!("{what}: address {past} of {n} contents: {e:?}")),
        }
    }
}

fn one_pack(rec: &mut Rec, r: &mut Rng, comp: Comp, contents: &[ContentSpec], dedup: bool, what: &str) {
    let sc = Scratch::new("c01");
    let sink = *r.pick(&[Sink::Named, Sink::Atomic]);
    let id = *r.pick(&[1u16, 1, 1, 0, 2, 255, 256, 65535]);
    let desc = format!("{what} {comp:?} dedup={dedup} {sink:?} id={id} contents={:?}", contents.iter().take(12).collect::<Vec<_>>());
    match build_pack(&sc.u("p.jbkc"), id, comp, contents, dedup, sink, Arc::new(())) {
        Err(e) => rec.violation("creation failed", format!("{desc}: {e}; recent panics {:?}", recent_panics())),
        Ok(b) => {
            if b.addrs.iter().any(|a| a.0 != id) {
                rec.violation("address pack id", format!("{desc}: {:?}", b.addrs.iter().find(|a| a.0 != id)));
            }
            match open_content_pack(&b.path) {
                Err(e) => rec.violation("open failed", format!("{desc}: {e}")),
                Ok(p) => check_pack(rec, r, &p, contents, &b.addrs, dedup, &desc),
            }
        }
    }
    stats(rec, contents, comp);
    rec.case(key(comp, contents, dedup as u64), !contents.is_empty());
    rec.sample(desc.chars().take(300).collect());
}

/// every compression and a spread of levels
pub fn all_comps() -> Vec<Comp> {
    let mut v = vec![Comp::None];
    v.extend([0, 3, 9, 15].map(Comp::Lz4));
    v.extend([0, 1, 6, 9].map(Comp::Lzma));
    v.extend([-22, -7, 0, 1, 5, 12, 19, 22].map(Comp::Zstd));
    v
}

fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    // compressible, every 4 bytes still tell their position
    let base = r.u64() as u32;
    let mut v = Vec::with_capacity(n + 4);
    let mut i = 0u32;
    while v.len() < n {
        v.extend_from_slice(&((base ^ (i >> 4)).to_le_bytes()));
        i += 1;
    }
    v.truncate(n);
    v
}

fn sources(r: &mut Rng, rec: &mut Rec) {
    use std::io::{Read, Seek, SeekFrom};
    let sc = Scratch::new("c01s");
    let comp = gen_comp(r, true);
    let out = sc.u("p.jbkc");
    let n = 2 + r.us(12);
    // what the content may read back as
    let mut want: Vec<Vec<Vec<u8>>> = vec![];
    let mut addrs = vec![];
    let mut shrink = vec![];
    let mut desc = format!("{comp:?}");
    let dedup = r.chance(1, 4);
    let res = guarded(|| -> std::io::Result<()> {
        let c = jbk::creator::ContentPackCreator::new(&out, 1.into(), VENDOR, Default::default(), comp.jbk())?;
        enum A { D(jbk::creator::CachedContentAdder<jbk::creator::ContentPackCreator<jbk::creator::NamedFile>>), P(jbk::creator::ContentPackCreator<jbk::creator::NamedFile>) }
        let mut c = if dedup { A::D(jbk::creator::CachedContentAdder::new(c, std::rc::Rc::new(()))) } else { A::P(c) };
        for i in 0..n {
            let len = match r.below(5) { 0 => r.us(3), 1 => 1 + r.us(200_000), _ => 1 + r.us(9000) };
            let d = gen_data(r, len);
            let hint = *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
            let mut alt = vec![d.clone()];
            let file = r.bool();
            let mut input: Box<dyn jbk::creator::InputReader> = if file {
                let p = sc.p(&format!("in{i}"));
                let (b, a) = if r.bool() { (0, 0) } else { (r.us(5000), r.us(3)) };
                let mut v = vec![0xB5; b];
                v.extend_from_slice(&d);
                v.resize(v.len() + a, 0x5B);
                std::fs::write(&p, &v)?;
                if r.chance(1, 6) { shrink.push((i, p.clone(), r.below(v.len() as u64 + 1))) }
                Box::new(jbk::creator::InputFile::new_range(std::fs::File::open(&p)?, b as u64, Some(d.len() as u64))?)
            } else {
                Box::new(std::io::Cursor::new(d.clone()))
            };
            let how = r.below(6);
            let k = r.us(d.len() + 1);
            match how {
                0 => { let mut b = vec![0; k]; input.read_exact(&mut b)? }
                1 => { input.seek(SeekFrom::Start(k as u64))?; }
                2 => { input.seek(SeekFrom::End(-(k as i64)))?; }
                3 => { let mut b = vec![]; input.read_to_end(&mut b)?; if b != d { rec.violation("input", format!("the source gives {} when read", diff(&b, &d))) } }
                _ => {}
            }
            if how < 4 && dedup {
                alt.push(d[match how { 2 => d.len() - k, 3 => d.len(), _ => k }..].to_vec());
            }
            desc += &format!(" [{} bytes {hint:?} {} moved {how} {k}]", d.len(), if file { "file" } else { "memory" });
            let a = match &mut c { A::P(c) => c.add_content(input, hint.jbk())?, A::D(c) => jbk::creator::ContentAdder::add_content(c, input, hint.jbk())? };
            want.push(alt);
            addrs.push(a.content_id.into_u32());
            rec.count(if how < 4 { "sources_moved" } else { "sources_plain" }, 1);
        }
        for (_, p, to) in &shrink {
            std::fs::OpenOptions::new().write(true).open(p)?.set_len(*to)?;
            rec.count("sources_shrunk", 1);
        }
        let c = match c { A::P(c) => c, A::D(c) => c.into_inner() };
        drop(c.finalize()?);
        Ok(())
    });
    desc += &format!(" dedup={dedup} shrunk {:?}", shrink.iter().map(|x| (x.0, x.2)).collect::<Vec<_>>());
    rec.case(hash64(desc.as_bytes()), true);
    match res {
        Ok(Ok(())) => {}
        e if !shrink.is_empty() => return rec.count(if matches!(e, Ok(_)) { "shrunk_source_refused" } else { "shrunk_source_panics" }, 1),
        e => return rec.violation("creation failed", format!("{desc}: {e:?}")),
    }
    let p = match open_content_pack(&out) {
        Ok(p) => p,
        Err(e) => return rec.violation("open failed", format!("{desc}: {e}")),
    };
    for (i, (alt, a)) in want.iter().zip(&addrs).enumerate() {
        // what a file held when its content was asked for is not known
        if shrink.iter().any(|s| s.0 == i) { continue }
        match p.get_content((*a).into()).map(|x| x.map(|x| crate::dump::read_region(&x))) {
            Ok(Some(Ok(v))) if alt.contains(&v) => rec.count("contents_verified", 1),
            Ok(Some(Ok(v))) => rec.violation("content bytes", format!("{desc}: content {i}: {}", diff(&v, &alt[0]))),
            o => rec.violation("content read", format!("{desc}: content {i}: {:?}", o.map(|x| x.map(|x| x.is_ok())))),
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a pack or container with at least one content inserted; distinct by compression, adder, and the sequence of (length, hint, source, head bytes)".into();
    let thorough = !ctx.quick();
    // --- deterministic grid of boundary sequences
    let comps = all_comps();
    let nc = comps.len() as u64;
    let grid_shapes = 9u64;
    phase("grid", 0.45, nc * grid_shapes).min(nc * grid_shapes).run(ctx, move |i, r, rec| {
        // expensive levels only with the cheap shapes
        let comp = comps[(i % nc) as usize];
        let slow = matches!(comp, Comp::Lzma(l) if l > 1) || matches!(comp, Comp::Zstd(l) if l > 12) || matches!(comp, Comp::Lz4(l) if l > 9);
        let hint = |r: &mut Rng| *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
        let m = 1usize << 20;
        let c: Vec<ContentSpec> = match i / nc {
            // blob count limit of a cluster, raw and compressed interleaved
            0 | 1 if slow => (0..50).map(|k| spec(text(r, k % 11), hint(r), Src::Mem)).collect(),
            0 => { let n = *r.pick(&[4094usize, 4095, 4096, 4097]); (0..n).map(|k| spec(text(r, k % 5), Hint::Yes, Src::Mem)).collect() }
            1 => { let n = 4095 * 2 + r.us(3); (0..n).map(|k| spec(text(r, (k * 7) % 6), hint(r), Src::Mem)).collect() }
            // cluster size limit
            2 if slow => vec![spec(text(r, 300_000), Hint::Yes, Src::Mem), spec(text(r, 70_000), Hint::Yes, Src::File)],
            2 => {
                let a = *r.pick(&[4 * m - 1, 4 * m, 4 * m + 1, 4 * m - 2]);
                vec![spec(text(r, a), Hint::Yes, Src::Mem), spec(vec![7], Hint::Yes, Src::Mem), spec(vec![], Hint::Yes, Src::Mem), spec(text(r, 3), Hint::No, Src::Mem), spec(text(r, 4 * m), Hint::Yes, Src::Range(13, 5)), spec(vec![], Hint::Yes, Src::Mem), spec(vec![1], Hint::Yes, Src::Mem)]
            }
            3 if slow => vec![spec(vec![], Hint::Yes, Src::Mem)],
            3 => {
                // several sizes summing around the limit
                let s = *r.pick(&[m, m + 1, m - 1, 4 * m / 3]);
                (0..6).map(|_| spec(text(r, s), Hint::Yes, Src::Mem)).collect()
            }
            // offset widths of raw and compressed clusters
            4 => { let t = *r.pick(&[254usize, 255, 256, 257]); vec![spec(text(r, t - 9), hint(r), Src::Mem), spec(text(r, 9), hint(r), Src::Mem), spec(vec![], hint(r), Src::File)] }
            5 => { let t = *r.pick(&[65_534usize, 65_535, 65_536, 65_537]); let h = hint(r); vec![spec(text(r, t - 100), h, Src::File), spec(text(r, 100), h, Src::Mem), spec(vec![], h, Src::Mem)] }
            6 if slow => vec![spec(r.bytes(5000), Hint::Yes, Src::File)],
            6 => { let t = *r.pick(&[(1usize << 24) - 1, 1 << 24, (1 << 24) + 1]); vec![spec(text(r, t - 100), Hint::No, Src::Mem), spec(text(r, 100), Hint::No, Src::File), spec(vec![9; 3], Hint::Yes, Src::Mem), spec(text(r, 77), Hint::No, Src::Range(1, 1))] }
            // nothing, only empty contents
            7 => (0..r.us(4)).map(|_| spec(vec![], hint(r), *r.pick(&[Src::Mem, Src::File, Src::Range(5, 5)]))).collect(),
            // decode chunk size, entropy window
            _ => [4095usize, 4096, 4097, 8191, 8192, 8193, 12288, 1, 0].iter().map(|n| { let d = gen_data(r, *n); spec(d, hint(r), Src::Range(100, 100)) }).collect(),
        };
        one_pack(rec, r, comp, &c, false, &format!("grid shape {}", i / nc));
    });
    // --- contents which are almost the same, through both adders
    let sizes = [1usize, 64, 300, 1024, 4097, 65_540, 1 << 20, (4 << 20) + 40, 5 << 20];
    let ns = sizes.len() as u64;
    phase("twins", 0.5, ns * 4).min(ns * 4).run(ctx, move |i, r, rec| {
        let n = sizes[(i % ns) as usize] + r.us(3);
        let dedup = (i / ns) % 2 == 0;
        let comp = if n > 1 << 20 { *r.pick(&[Comp::None, Comp::Zstd(-5), Comp::Zstd(1)]) } else { gen_comp(r, true) };
        let mut c: Vec<ContentSpec> = twins(r, n).into_iter().map(|d| spec(d, *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]), *r.pick(&[Src::Mem, Src::File, Src::Range(3, 3)]))).collect();
        let again: Vec<ContentSpec> = (0..3).map(|_| c[r.us(c.len())].clone()).collect();
        c.extend(again);
        one_pack(rec, r, comp, &c, dedup, "twins");
        rec.count("twin_contents", c.len() as u64);
    });
    // --- sources which have been read or moved before they are handed over, or which shrink afterwards
    phase("sources", 0.55, u64::MAX).min(60).run(ctx, move |_, r, rec| sources(r, rec));
    // --- random sequences straight into a pack
    phase("seq", 0.7, u64::MAX).min(40).run(ctx, move |i, r, rec| {
        let big = r.chance(1, 12);
        let comp = gen_comp(r, !(thorough && i % 5 == 0));
        let n = match r.below(6) { 0 => 1, 1 => r.us(400), 2 => 2 + r.us(3), _ => r.us(40) };
        let max = if big { 5 << 20 } else if n > 60 { 3000 } else { 200_000 };
        let mut c: Vec<_> = (0..n.min(if big { 8 } else { n })).map(|_| gen_content(r, max)).collect();
        // repetitions
        for _ in 0..r.us(4) {
            if !c.is_empty() {
                let mut x = c[r.us(c.len())].clone();
                x.hint = *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
                x.src = *r.pick(&[Src::Mem, Src::File, Src::Range(9, 4)]);
                let at = r.us(c.len() + 1);
                c.insert(at, x);
            }
        }
        let dedup = r.chance(1, 3);
        one_pack(rec, r, comp, &c, dedup, "seq");
    });
    // --- through the high-level creator and the container reader, all packagings, with additional packs
    phase("container", 1.0, u64::MAX).min(24).run(ctx, move |i, r, rec| {
        let sc = Scratch::new("c01c");
        let mut cfg = GenCfg::small();
        cfg.max_entries = 3;
        let n = r.us(30);
        let mut s = gen_container(r, &mut cfg, n, 30_000, true);
        s.mode = Mode::ALL[(i % 3) as usize];
        let desc = format!("container {:?} {:?} dedup={} contents={:?} extra={:?}", s.mode, s.comp, s.dedup, s.contents, s.extra);
        let b = match build_simple(&s, &sc.u("c.jbk")) {
            Err(e) if e.contains("Cannot sort") => return rec.inconclusive(&e),
            Err(e) => return rec.violation("creation failed", format!("{desc}: {e}")),
            Ok(b) => b,
        };
        let c = match jbk::reader::Container::new(&b.path) {
            Err(e) => return rec.violation("open failed", format!("{desc}: {e:?}")),
            Ok(c) => c,
        };
        let mut packs = vec![(1u16, &s.contents, &b.addrs, s.dedup)];
        for ((id, _, cs), a) in s.extra.iter().zip(&b.extra_addrs) {
            packs.push((*id, cs, a, false));
        }
        for (id, contents, addrs, dedup) in packs {
            if addrs.iter().any(|a| a.0 != id) {
                rec.violation("address pack id", format!("{desc}: pack {id} gives {addrs:?}"));
            }
            match c.get_pack(id.into()) {
                Ok(Some(MayMissPack::FOUND(p))) => check_pack(rec, r, p, contents, addrs, dedup, &desc),
                o => rec.violation("pack not found", format!("{desc}: pack {id}: {:?}", o.map(|x| x.is_some()))),
            }
            for (i, x) in contents.iter().enumerate() {
                let a = jbk::ContentAddress::new(addrs[i].0.into(), addrs[i].1.into());
                match c.get_bytes(a) {
                    Ok(Some(MayMissPack::FOUND(Some(reg)))) => match crate::dump::read_region(&reg) {
                        Ok(v) if v == x.data.as_slice() => rec.count("contents_verified_by_address", 1),
                        o => rec.violation("content bytes", format!("{desc}: {i}: {:?}", o.map(|v| diff(&v, &x.data)))),
                    },
                    o => rec.violation("content absent", format!("{desc}: {i} at {:?}: {:?}", addrs[i], o.map(|x| x.map(|x| match x { MayMissPack::FOUND(p) => format!("found {}", p.is_some()), _ => "missing".into() })))),
                }
            }
            let past = addrs.iter().map(|a| a.1 + 1).max().unwrap_or(0);
            for q in [past, past + 1, u32::MAX] {
                match c.get_bytes(jbk::ContentAddress::new(id.into(), q.into())) {
                    Ok(Some(MayMissPack::FOUND(None))) => rec.count("past_end_none", 1),
                    o => rec.violation("past end", format!("{desc}: pack {id} address {q}: {:?}", o.map(|x| x.map(|x| match x { MayMissPack::FOUND(p) => format!("found {}", p.is_some()), _ => "missing".into() })))),
                }
            }
            stats(rec, contents, s.comp);
        }
        rec.case(key(s.comp, &s.contents, s.mode as u64 + 10), !s.contents.is_empty());
        rec.sample(desc.chars().take(300).collect());
    });
    // --- hundreds (thorough: thousands) of clusters
    let crowds = if thorough { 6 } else { 2 };
    phase("crowd", 1.0, crowds).min(crowds).threads(2).run(ctx, move |i, r, rec| crowd_case(i, thorough, r, rec));
    // --- past 4 GiB: blob offsets on 5 bytes, sources past 4 GiB in their file (sparse inputs)
    let huge = if thorough { 8 } else { 4 };
    phase("huge", 1.0, huge).min(huge).threads(4).run(ctx, |i, r, rec| huge_case(i, r, rec));
}

/// Contents and sources beyond 4 GiB. case 0: a raw content, 1: a compressed one, 2: small ranges of a huge file,
/// 3: two raw contents together beyond 4 GiB, then again.
fn huge_case(i: u64, r: &mut Rng, rec: &mut Rec) {
    use std::os::unix::fs::FileExt;
    let sc = Scratch::new("c01h");
    let kind = i % 4;
    let g4 = 1u64 << 32;
    let fsize = match kind { 3 => g4 / 2 + 70_000 + r.below(1000), 2 => g4 + 9_000_000, _ => g4 + 12_345 + r.below(1000) };
    let p = sc.u("sparse");
    let f = std::fs::File::create(&p).unwrap();
    f.set_len(fsize).unwrap();
    // islands of bytes which tell their position
    let mut islands: Vec<(u64, Vec<u8>)> = vec![];
    let mut spots = vec![0u64, 4000, 1 << 16, 1 << 24, g4 / 2 - 500, g4 / 2 + 10_000, g4 - 700, g4 + 2000, fsize - 600];
    for _ in 0..6 { spots.push(r.below(fsize)) }
    for at in spots {
        if at + 600 > fsize || islands.iter().any(|x| x.0.abs_diff(at) < 700) { continue }
        let b = r.bytes(600);
        f.write_all_at(&b, at).unwrap();
        islands.push((at, b));
    }
    drop(f);
    let at = |from: u64, n: usize| -> Vec<u8> {
        let mut v = vec![0u8; n];
        for (p, b) in &islands {
            for (k, x) in b.iter().enumerate() {
                let q = p + k as u64;
                if q >= from && q < from + n as u64 { v[(q - from) as usize] = *x }
            }
        }
        v
    };
    let comp = if kind == 1 { Comp::Zstd(-5) } else { *r.pick(&[Comp::None, Comp::Zstd(-5), Comp::Lz4(1)]) };
    let hint = if kind == 1 { Hint::Yes } else { Hint::No };
    let out = sc.u("huge.jbkc");
    let desc = format!("huge kind {kind} {comp:?} file of {fsize}");
    let small = text(r, 5000);
    let cur = |v: &Vec<u8>| Box::new(std::io::Cursor::new(v.clone()));
    // (address, origin in the file, size)
    let mut big: Vec<(jbk::ContentAddress, u64, u64)> = vec![];
    let mut little = vec![];
    let res = guarded(|| -> std::io::Result<()> {
        let mut c = jbk::creator::ContentPackCreator::new(&out, 1.into(), VENDOR, Default::default(), comp.jbk())?;
        little.push(c.add_content(cur(&small), hint.jbk())?);
        let n = match kind { 2 => 14, 3 => 2, _ => 1 };
        for k in 0..n {
            let (o, s) = match kind {
                2 => { let (p, _) = islands[r.us(islands.len())]; let o = (p + r.below(700)).saturating_sub(50); (o, (1 + r.below(if k % 3 == 0 { 5_000_000 } else { 2000 })).min(fsize - o)) }
                _ => (0, fsize),
            };
            let h = if kind == 2 { *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]) } else { Hint::No };
            let h = if kind == 1 { Hint::Yes } else { h };
            let f = std::fs::File::open(&p)?;
            let input = if o == 0 && s == fsize { jbk::creator::InputFile::new(f)? } else if o + s == fsize { jbk::creator::InputFile::new_range(f, o, None)? } else { jbk::creator::InputFile::new_range(f, o, Some(s))? };
            big.push((c.add_content(Box::new(input), h.jbk())?, o, s));
            little.push(c.add_content(cur(&small), hint.jbk())?);
        }
        little.push(c.add_content(cur(&small), Hint::Yes.jbk())?);
        drop(c.finalize()?);
        Ok(())
    });
    rec.case(hash64(format!("{desc} {:?}", big.iter().map(|b| (b.1, b.2)).collect::<Vec<_>>()).as_bytes()), true);
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) if e.kind() == std::io::ErrorKind::StorageFull || e.raw_os_error() == Some(12) => return rec.inconclusive(&format!("no room for it: {e}")),
        e => return rec.violation("creation failed", format!("{desc}: {e:?}")),
    }
    let pk = match open_content_pack(&out) {
        Ok(p) => p,
        Err(e) => return rec.violation("open failed", format!("{desc}: {e}")),
    };
    for a in &little {
        match pk.get_content(a.content_id).map(|r| r.map(|r| crate::dump::read_region(&r))) {
            Ok(Some(Ok(v))) if v == small => rec.count("contents_verified", 1),
            o => rec.violation("content bytes", format!("{desc}: a small content beside: {:?}", o.map(|x| x.map(|x| x.map(|v| diff(&v, &small)))))),
        }
    }
    for (a, o, s) in &big {
        let reg = match pk.get_content(a.content_id) {
            Ok(Some(x)) => x,
            x => { rec.violation("content absent", format!("{desc}: range {o}+{s}: {:?}", x.map(|x| x.is_some()))); continue }
        };
        if reg.size().into_u64() != *s {
            rec.violation("content size", format!("{desc}: range {o}+{s} has size {}", reg.size().into_u64()));
            continue;
        }
        rec.max("content_size", *s);
        // pieces around the islands and the ends
        let mut cuts: Vec<(u64, usize)> = vec![(0, 900.min(*s as usize)), (s - 900.min(*s), 900.min(*s as usize))];
        for (p, _) in &islands {
            let b = p.saturating_sub(40).max(*o);
            if b < o + s { cuts.push((b - o, (o + s - b).min(700) as usize)) }
        }
        for (b, n) in cuts {
            match reg.get_slice(b.into(), n) {
                Ok(v) if *v == at(o + b, n)[..] => rec.count("slices_of_huge", 1),
                Ok(v) => rec.violation("content bytes", format!("{desc}: range {o}+{s} at {b}+{n}: {}", diff(&v, &at(o + b, n)))),
                Err(e) => rec.violation("content read", format!("{desc}: range {o}+{s} at {b}+{n}: {e:?}")),
            }
        }
        if *s < 6_000_000 {
            match crate::dump::read_region(&reg) {
                Ok(v) if v == at(*o, *s as usize) => rec.count("contents_verified", 1),
                x => rec.violation("content bytes", format!("{desc}: range {o}+{s}: {:?}", x.map(|v| diff(&v, &at(*o, *s as usize))))),
            }
        }
    }
}

/// The content `i` of a crowd: it tells its index.
fn crowd_data(seed: u64, i: u64, out: &mut Vec<u8>) {
    out.clear();
    let x = (i ^ seed).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    if x >> 60 == 0 { return }
    out.extend_from_slice(&i.to_le_bytes()[..if i >> 24 == 0 { 3 } else { 4 }]);
    for k in 0..(x >> 61) { out.push((x >> (8 * (k % 4))) as u8) }
}
/// A pack of more than a million contents, thus of hundreds of clusters; read in order, at random, and jumping by powers of two clusters.
fn crowd_case(case: u64, thorough: bool, r: &mut Rng, rec: &mut Rec) {
    let n: u64 = if thorough && case == 0 { (1 << 24) + 5000 } else { 4095 * (if thorough { 1030 + r.below(80) } else { 262 + r.below(40) }) + r.below(4095) };
    let comp = *[Comp::Zstd(1), Comp::Lz4(1), Comp::None, Comp::Zstd(-5), Comp::Lzma(0)].get((case % 5) as usize).unwrap();
    // all compressed, or one block out of two is not
    let mixed = case % 2 == 1;
    let hint = |i: u64| if mixed && (i / 3000) % 2 == 1 { Hint::No } else { Hint::Yes };
    let seed = r.u64();
    let sc = Scratch::new("c01w");
    let out = sc.u("crowd.jbkc");
    let desc = format!("crowd of {n} contents {comp:?} mixed={mixed}");
    let mut buf = vec![];
    let clusters = Arc::new(Clusters(Default::default()));
    let res = guarded(|| -> std::io::Result<()> {
        let mut c = jbk::creator::ContentPackCreator::new_with_progress(&out, 1.into(), VENDOR, Default::default(), comp.jbk(), clusters.clone())?;
        for i in 0..n {
            crowd_data(seed, i, &mut buf);
            let a = c.add_content(Box::new(std::io::Cursor::new(buf.clone())), hint(i).jbk())?;
            if a.content_id.into_u32() as u64 != i || a.pack_id.into_u16() != 1 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("insertion {i} is at {a:?}")));
            }
        }
        drop(c.finalize()?);
        Ok(())
    });
    match res {
        Ok(Ok(())) => {}
        e => return rec.violation("creation failed", format!("{desc}: {e:?}")),
    }
    let p = match open_content_pack(&out) {
        Err(e) => return rec.violation("open failed", format!("{desc}: {e}")),
        Ok(p) => p,
    };
    if p.get_content_count().into_u32() as u64 != n {
        rec.violation("content count", format!("{desc}: pack reports {} contents", p.get_content_count().into_u32()));
    }
    let mut want = vec![];
    let mut look = |i: u64, rec: &mut Rec| {
        crowd_data(seed, i, &mut want);
        match p.get_content((i as u32).into()) {
            Ok(Some(reg)) => {
                let len = reg.size().into_u64();
                if len != want.len() as u64 { return rec.violation("content size", format!("{desc}: content {i} has size {len} instead of {}", want.len())) }
                match reg.get_slice(jbk::Offset::zero(), want.len()) {
                    Ok(v) if *v == want[..] => rec.count("contents_of_crowd_verified", 1),
                    Ok(v) => rec.violation("content bytes", format!("{desc}: content {i}: {}", diff(&v, &want))),
                    Err(e) => rec.violation("content read", format!("{desc}: content {i}: {e:?}")),
                }
            }
            o => rec.violation("content absent", format!("{desc}: content {i}: {:?}", o.map(|x| x.is_some()))),
        }
    };
    for i in 0..n {
        look(i, rec);
        if rec.violations.len() > 5 { return }
    }
    let jumps = if thorough { 40_000 } else { 8_000 };
    for k in 0..jumps {
        let a = r.below(n);
        look(a, rec);
        let far = 4095u64 << r.below(11);
        for b in [a + far, a.wrapping_sub(far), a ^ (1 << r.below(24))] {
            if b < n && (k % 3 == 0 || b % 2 == 0) { look(b, rec) }
        }
        if rec.violations.len() > 5 { return }
    }
    rec.max("contents_in_pack", n);
    rec.max("clusters_in_pack", clusters.0.load(std::sync::atomic::Ordering::Relaxed));
    rec.case(hash64(format!("{desc} {seed}").as_bytes()), true);
    rec.sample(desc);
}
struct Clusters(std::sync::atomic::AtomicU64);
impl jbk::creator::Progress for Clusters {
    fn new_cluster(&self, _: u32, _: bool) { self.0.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
}

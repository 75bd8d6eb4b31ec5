//! C16: the compression hint decides how a content is stored; the deduplicating adder stores identical contents once.
use crate::builder::*;
use crate::model::*;
use crate::par::*;
use crate::util::*;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

/// `file`: bytes of the file; `pack`: the decoded content pack in it
pub fn check_storage(
    rec: &mut Rec, file: &[u8], pack: &indep::Pack, c: &indep::Content, comp: Comp, contents: &[ContentSpec], addrs: &[(u16, u32)], dedup: bool,
    what: &str,
) {
    let mut first: HashMap<&[u8], (u16, u32)> = HashMap::new();
    let mut by_addr: HashMap<(u16, u32), &[u8]> = HashMap::new();
    for (i, (s, a)) in contents.iter().zip(addrs).enumerate() {
        let d = s.data.as_slice();
        let desc = |m: String| format!("{what}: content {i} {s:?} at {a:?}: {m}");
        let new = match first.get(d) {
            None => {
                first.insert(d, *a);
                true
            }
            Some(p) => {
                if dedup && p != a {
                    rec.violation("identical contents, two addresses", desc(format!("first was given {p:?}")));
                } else if dedup {
                    rec.count("shared_addresses", 1);
                }
                !dedup
            }
        };
        if let Some(o) = by_addr.insert(*a, d) {
            if o != d || !dedup {
                rec.violation("different contents, one address", desc(format!("also given to {} bytes", o.len())));
            }
        }
        if !new {
            continue;
        }
        let Some((cl, bl)) = c.infos.get(a.1 as usize) else {
            rec.violation("content not stored", desc(format!("pack has {} contents", c.infos.len())));
            continue;
        };
        let cluster = &c.clusters[*cl as usize];
        let must_raw = comp == Comp::None || s.hint == Hint::No;
        let must_comp = comp != Comp::None && s.hint == Hint::Yes;
        if must_raw {
            if cluster.compression != 0 {
                rec.violation("not stored raw", desc(format!("pack {comp:?}: cluster {cl} has compression {}", cluster.compression)));
            } else {
                let (b, e) = cluster.blobs[*bl as usize];
                let at = (pack.offset + cluster.stored_start) as usize;
                match file.get(at + b..at + e) {
                    Some(x) if x == d => rec.count("verbatim", 1),
                    Some(x) => rec.violation("not verbatim", desc(diff(x, d))),
                    None => rec.violation("not verbatim", desc("outside of the file".into())),
                }
            }
        } else if must_comp {
            if cluster.compression != comp.byte() {
                rec.violation("not stored compressed", desc(format!("pack {comp:?}: cluster {cl} has compression {}", cluster.compression)));
            } else {
                rec.count("compressed", 1);
            }
        } else {
            if cluster.compression != 0 && cluster.compression != comp.byte() {
                rec.violation("foreign compression", desc(format!("pack {comp:?}: cluster {cl} has compression {}", cluster.compression)));
            }
            rec.count(if cluster.compression == 0 { "detect_raw" } else { "detect_compressed" }, 1);
        }
        match c.get(a.1 as usize) {
            Ok(x) if x == d => {}
            o => rec.violation("stored bytes differ", desc(format!("{:?}", o.map(|x| diff(x, d))))),
        }
        if rec.violations.len() > 5 {
            return;
        }
    }
    if dedup && c.infos.len() != first.len() {
        rec.violation("stored more than once", format!("{what}: {} distinct contents, {} stored", first.len(), c.infos.len()));
    }
    // no blob shared or unused
    let blobs: HashSet<_> = c.infos.iter().collect();
    let total: usize = c.clusters.iter().map(|c| c.blobs.len()).sum();
    if blobs.len() != c.infos.len() || total != c.infos.len() {
        rec.violation("blobs", format!("{what}: {} contents on {} distinct blobs of {total}", c.infos.len(), blobs.len()));
    }
    for (i, cl) in c.clusters.iter().enumerate() {
        if cl.compression != 0 && cl.compression != comp.byte() {
            rec.violation("foreign compression", format!("{what}: cluster {i} has compression {} in a pack {comp:?}", cl.compression));
        }
        rec.count(&format!("clusters.{}", ["none", "lz4", "lzma", "zstd"][cl.compression.min(3) as usize]), 1);
    }
}

fn gen_seq(r: &mut Rng, n: usize, max: usize) -> Vec<ContentSpec> {
    let mut c: Vec<ContentSpec> = (0..n).map(|_| gen_content(r, max)).collect();
    for _ in 0..r.us(1 + n / 2) {
        if !c.is_empty() {
            // the same bytes again, from elsewhere and with another hint; or almost the same
            let mut x = c[r.us(c.len())].clone();
            x.hint = *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
            x.src = *r.pick(&[Src::Mem, Src::File, Src::Range(11, 2), Src::Range(4096, 0)]);
            if r.chance(1, 3) && !x.data.is_empty() {
                let mut d = x.data.to_vec();
                let k = *r.pick(&[0, d.len() - 1, d.len() / 2]);
                d[k] ^= 1 << r.below(8);
                x.data = Arc::new(d);
            }
            let at = r.us(c.len() + 1);
            c.insert(at, x);
        }
    }
    c
}

fn one(rec: &mut Rec, r: &mut Rng, comp: Comp, contents: &[ContentSpec], dedup: bool, what: &str) {
    let sc = Scratch::new("c16");
    let sink = *r.pick(&[Sink::Named, Sink::Atomic]);
    let desc = format!("{what} {comp:?} dedup={dedup} {sink:?} contents={:?}", contents.iter().take(10).collect::<Vec<_>>());
    match build_pack(&sc.u("p.jbkc"), 1, comp, contents, dedup, sink, Arc::new(())) {
        Err(e) => rec.violation("creation failed", format!("{desc}: {e}")),
        Ok(b) => {
            let file = read(&b.path);
            match indep::decode_pack(&file, 0) {
                Err(e) => rec.violation("undecodable", format!("{desc}: {e}")),
                Ok(p) => match &p.body {
                    indep::Body::Content(c) => check_storage(rec, &file, &p, c, comp, contents, &b.addrs, dedup, &desc),
                    _ => rec.violation("undecodable", format!("{desc}: not a content pack")),
                },
            }
        }
    }
    rec.count("contents", contents.len() as u64);
    rec.count("packs", 1);
    rec.case(hash64(format!("{comp:?} {dedup} {contents:?}").as_bytes()), !contents.is_empty());
    rec.sample(desc.chars().take(300).collect());
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a content pack with at least one content inserted; distinct by compression, adder and sequence of (length, hint, source)".into();
    let comps = crate::c01::all_comps();
    let nc = comps.len() as u64;
    phase("grid", 0.4, nc * 6).min(nc * 6).run(ctx, move |i, r, rec| {
        let comp = comps[(i % nc) as usize];
        let dedup = (i / nc) % 2 == 1;
        let slow = matches!(comp, Comp::Lzma(l) if l > 1) || matches!(comp, Comp::Zstd(l) if l > 12) || matches!(comp, Comp::Lz4(l) if l > 9);
        let c: Vec<ContentSpec> = match i / nc / 2 {
            // every hint x entropy x size class
            0 => {
                let mut v = vec![];
                for h in [Hint::Yes, Hint::No, Hint::Detect] {
                    for n in [0usize, 1, 2, 100, 4095, 4096, 4097, 9000] {
                        v.push(ContentSpec { data: Arc::new(r.bytes(n)), hint: h, src: Src::Mem });
                        v.push(ContentSpec { data: Arc::new(vec![n as u8; n]), hint: h, src: Src::File });
                        v.push(ContentSpec { data: Arc::new(gen_data(r, n)), hint: h, src: Src::Range(7, 7) });
                    }
                }
                r.shuffle(&mut v);
                v
            }
            // over the blob limit of a cluster, hints alternate
            1 => (0..if slow { 300 } else { 9000 }).map(|k: usize| ContentSpec { data: Arc::new((k as u32 / 2).to_le_bytes().to_vec()), hint: if k % 3 == 0 { Hint::No } else { Hint::Yes }, src: Src::Mem }).collect(),
            // over the cluster size limit (the deduplicating adder streams these)
            _ => {
                let m = 4usize << 20;
                let sz = if slow { vec![100_000, 5000] } else { vec![m - 1, m, m + 1, m] };
                let mut v = vec![];
                for n in sz {
                    let mut d = vec![0u8; n];
                    let tag = r.u64().to_le_bytes();
                    d[n - 8..].copy_from_slice(&tag);
                    let d = Arc::new(d);
                    for src in [Src::Mem, Src::File, Src::Range(9, 9)] {
                        v.push(ContentSpec { data: d.clone(), hint: *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]), src });
                    }
                }
                v
            }
        };
        one(rec, r, comp, &c, dedup, "grid");
    });
    // contents which are almost the same, twice each, in a row or far apart
    let sizes = [1usize, 64, 300, 1024, 4097, 65_540, 1 << 20, (4 << 20) + 40, 5 << 20];
    let ns = sizes.len() as u64;
    phase("twins", 0.55, ns * 3).min(ns * 3).run(ctx, move |i, r, rec| {
        let n = sizes[(i % ns) as usize] + r.us(3);
        let comp = if n > 1 << 20 { *r.pick(&[Comp::None, Comp::Zstd(-5), Comp::Zstd(1)]) } else { gen_comp(r, true) };
        let mut c: Vec<ContentSpec> = vec![];
        let t = twins(r, n);
        for round in 0..2 {
            for d in &t {
                let x = ContentSpec { data: Arc::new(d.clone()), hint: *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]), src: *r.pick(&[Src::Mem, Src::File, Src::Range(3, 3)]) };
                if round == 0 || n < 1 << 20 || r.chance(1, 2) {
                    c.push(x);
                }
            }
        }
        if i / ns == 1 {
            r.shuffle(&mut c);
        }
        one(rec, r, comp, &c, i / ns != 2, "twins");
        rec.count("twin_contents", c.len() as u64);
    });
    // big contents which are the same up to some place (all but the first is on that side of a limit of so many bytes)
    let nb = ctx.q(3, 6);
    phase("big_twins", 0.6, nb).min(nb).threads(3).run(ctx, |i, r, rec| {
        let n = ([70usize, 140, 300, 65, 600, 1100][i as usize] << 20) + r.us(5000);
        let base = { let mut v = r.bytes(1 << 20); let b = v.clone(); while v.len() < n { let k = (n - v.len()).min(b.len()); v.extend_from_slice(&b[..k]); } v };
        let mut at = vec![n - 1];
        if n < 400 << 20 { at.push((n / 2).max((64 << 20) + 1) + r.us(1 << 20)) }
        let mut c = vec![Arc::new(base.clone())];
        for p in at {
            let mut v = base.clone();
            v[p.min(n - 1)] ^= 1;
            c.push(Arc::new(v));
        }
        drop(base);
        let mut k = vec![];
        for round in 0..2usize {
            for d in &c {
                k.push(ContentSpec { data: d.clone(), hint: *r.pick(&[Hint::Yes, Hint::No]), src: if round == 0 { Src::Mem } else { Src::Range(5, 5) } });
            }
        }
        one(rec, r, Comp::None, &k, true, "big twins");
        rec.max("twin_bytes", n as u64);
    });
    // very many distinct contents, then each of them again
    let nm = ctx.q(2, 4);
    phase("many", 0.65, nm).min(nm).run(ctx, |i, r, rec| {
        let n = [12_000usize, 70_000, 140_000, 300_000][i as usize] + r.us(50);
        let tag = r.bytes(3);
        let mut k: Vec<ContentSpec> = (0..n)
            .map(|i| {
                let mut d = (i as u32).to_le_bytes().to_vec();
                d.extend_from_slice(&tag);
                ContentSpec { data: Arc::new(d), hint: *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]), src: Src::Mem }
            })
            .collect();
        for j in 0..n {
            let mut x = k[if i % 2 == 0 { j } else { n - 1 - j }].clone();
            x.hint = *r.pick(&[Hint::Yes, Hint::No, Hint::Detect]);
            k.push(x);
        }
        one(rec, r, Comp::Zstd(1), &k, true, "many");
        rec.max("distinct_in_one_pack", n as u64);
    });
    // whatever the workers and the writer do meanwhile: few workers, slow ones, a slow writer, the queue full
    let np = ctx.q(15, 300);
    phase("pressure", 0.72, np).min(8).threads(1).run(ctx, |i, r, rec| {
        let comp = match i % 3 { 0 => Comp::Zstd(1), 1 => Comp::Lzma(0), _ => Comp::Lz4(1) };
        let n = 4095 * (8 + r.us(8)) + r.us(4095);
        let tag = r.bytes(2);
        let raw = *r.pick(&[0u64, 1, 5]);
        let c: Vec<ContentSpec> = (0..n)
            .map(|k| {
                let mut d = (k as u32 / 2).to_le_bytes().to_vec();
                d.extend_from_slice(&tag);
                ContentSpec { data: Arc::new(d), hint: if r.below(10) < raw { Hint::No } else { Hint::Yes }, src: Src::Mem }
            })
            .collect();
        let style = [6u64, 11, 5, 8, 2][(i % 5) as usize];
        crate::c08::disturb(r.u64(), style, r.below(5), 2 + r.us(3));
        if style == 11 { crate::c08::disturb(r.u64(), 11, 0, 2) }
        one(rec, r, comp, &c, i % 4 == 1, "pressure");
        let (full, delays) = crate::c08::calm();
        rec.count("producer_met_full_queue", full);
        rec.count("delays", delays);
    });
    phase("seq", 0.75, u64::MAX).min(40).run(ctx, move |_, r, rec| {
        let comp = gen_comp(r, true);
        let n = match r.below(5) { 0 => 1, 1 => r.us(200), _ => r.us(30) };
        let c = gen_seq(r, n, if n > 60 { 2000 } else { 100_000 });
        let dedup = r.bool();
        one(rec, r, comp, &c, dedup, "seq");
    });
    phase("container", 1.0, u64::MAX).min(16).run(ctx, move |i, r, rec| {
        let sc = Scratch::new("c16c");
        let mut cfg = GenCfg::small();
        cfg.max_entries = 2;
        cfg.sorted = Some(false);
        let mut s = gen_container(r, &mut cfg, 0, 5000, true);
        let n = r.us(20);
        s.contents = gen_seq(r, n, 5000);
        s.mode = Mode::ALL[(i % 3) as usize];
        s.dedup = r.bool();
        let desc = format!("container {:?} {:?} dedup={} contents={:?} extra={:?}", s.mode, s.comp, s.dedup, s.contents, s.extra);
        match build_simple(&s, &sc.u("c.jbk")) {
            Err(e) => rec.violation("creation failed", format!("{desc}: {e}")),
            Ok(b) => {
                let main = if s.mode == Mode::One { b.path.clone() } else { b.path.with_extension("jbkc") };
                let mut files = vec![(main, s.comp, &s.contents, &b.addrs, s.dedup)];
                for (((_, comp, c), a), p) in s.extra.iter().zip(&b.extra_addrs).zip(&b.extra_paths) {
                    files.push((p.clone(), *comp, c, a, false));
                }
                for (p, comp, contents, addrs, dedup) in files {
                    let Ok(bytes) = std::fs::read(&p) else {
                        rec.violation("file absent", format!("{desc}: {p}"));
                        continue;
                    };
                    match indep::decode_file(&bytes) {
                        Err(e) => rec.violation("undecodable", format!("{desc}: {p}: {e}")),
                        Ok(f) => {
                            let cs = f.contents();
                            if cs.len() != 1 {
                                rec.violation("content packs", format!("{desc}: {p} holds {}", cs.len()));
                            } else {
                                check_storage(rec, &bytes, cs[0].0, cs[0].1, comp, contents, addrs, dedup, &desc);
                            }
                        }
                    }
                }
                rec.count("containers", 1);
                rec.case(hash64(desc.as_bytes()), !s.contents.is_empty());
            }
        }
    });
}

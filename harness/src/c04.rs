//! C04: created packs verify; altering checksummed bytes makes the checks fail.
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::pack::*;
use crate::par::*;
use crate::util::*;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use jbk::Pack;
use std::os::unix::fs::FileExt;
use std::sync::Arc;

fn e<T>(r: jbk::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}").chars().take(160).collect())
}
/// The pack's own check, the pack being a file of its own.
fn check_pack(p: &Utf8Path, kind: indep::Kind) -> Result<bool, String> {
    guarded(|| match kind {
        indep::Kind::Content => e(open_content_pack(p)?.check()),
        indep::Kind::Directory => e(e(open_dir(p.as_std_path()))?.pack.check()),
        _ => {
            let r: jbk::Reader = jbk::FileSource::open(p).map_err(|e| e.to_string())?.into();
            e(e(jbk::reader::ManifestPack::new(r))?.check())
        }
    })?
}
/// The check of whatever is in the file, as a container pack
fn check_file(p: &Utf8Path) -> Result<bool, String> {
    guarded(|| e(jbk::tools::open_pack(p).and_then(|c| c.check())))?
}
/// `jbk check`: Ok(whether it says that the pack is ok)
fn tool_check(p: &Utf8Path) -> Option<Result<bool, String>> {
    let o = crate::cli::run(&["check", p.as_str()], std::time::Duration::from_secs(120))?;
    Some(match o.broke() {
        Some(b) => Err(b),
        None if o.out.trim_end().ends_with("is ok") => Ok(true),
        None if o.err.is_empty() => Ok(false),
        None => Err(o.err),
    })
}
/// one in so many
fn tool_due(x: u64) -> bool {
    crate::cli::tool().is_some() && hash64(&x.to_le_bytes()) % 67 == 0
}
fn check_container(p: &Utf8Path) -> Result<bool, String> {
    try_check(p)
}

/// What an alteration is applied to, with every check which must notice it.
struct Target {
    /// file to alter, and where the pack begins in it
    file: Utf8PathBuf,
    base: u64,
    kind: indep::Kind,
    bytes: Arc<Vec<u8>>,
    /// covered byte positions of the pack as ranges
    covered: Vec<(u64, u64)>,
    /// an altered copy of the pack alone
    alone: Utf8PathBuf,
    /// container to check
    main: Utf8PathBuf,
    desc: String,
}
impl Target {
    fn n(&self) -> u64 {
        self.covered.iter().map(|c| c.1 - c.0).sum()
    }
    fn nth(&self, mut i: u64) -> u64 {
        for (a, b) in &self.covered {
            if i < b - a {
                return a + i;
            }
            i -= b - a;
        }
        unreachable!()
    }
    fn is_covered(&self, p: u64) -> bool {
        self.covered.iter().any(|c| c.0 <= p && p < c.1)
    }
}

fn covered(b: &[u8]) -> Result<Vec<(u64, u64)>, String> {
    let p = indep::decode_pack(b, 0)?;
    let end = p.header.check_pos + 37;
    let mut out = vec![];
    let mut at = 0;
    if let indep::Body::Manifest(m) = &p.body {
        let mut pos: Vec<_> = m.packs.iter().map(|i| i.pos).collect();
        pos.sort();
        for q in pos {
            out.push((at, q + 38));
            at = q + 256;
        }
    }
    out.push((at, end));
    Ok(out)
}

fn targets(w: &World) -> Result<Vec<Target>, String> {
    let mut out = vec![];
    let files: Vec<_> = list(&w.sc);
    let mut n = 0;
    for f in &files {
        let b = read(f);
        let d = indep::decode_file(&b)?;
        for p in &d.packs {
            // offsets are those of the file
            let (a, z) = (p.offset as usize, (p.offset + p.header.size) as usize);
            let bytes = b[a..z].to_vec();
            let alone = w.sc.u(&format!("alone-{n}"));
            n += 1;
            std::fs::write(&alone, &bytes).map_err(|e| e.to_string())?;
            out.push(Target {
                file: f.clone(), base: a as u64, kind: p.header.kind, covered: covered(&bytes)?, bytes: Arc::new(bytes), alone,
                main: w.built.path.clone(), desc: format!("{:?} of {:?} {:?} in {}", p.header.kind, w.spec.mode, w.spec.comp, f.file_name().unwrap()),
            });
        }
    }
    Ok(out)
}

/// Apply `edits` (position in the pack, new bytes), run all checks, undo.
fn alter(rec: &mut Rec, t: &Target, edits: &[(u64, Vec<u8>)], what: &str, own: bool) -> bool {
    let put = |p: &Utf8Path, base: u64, undo: bool| {
        let f = std::fs::OpenOptions::new().write(true).open(p).unwrap();
        let it: Box<dyn Iterator<Item = &(u64, Vec<u8>)>> = if undo { Box::new(edits.iter().rev()) } else { Box::new(edits.iter()) };
        for (pos, v) in it {
            let old = &t.bytes[*pos as usize..*pos as usize + v.len()];
            f.write_all_at(if undo { old } else { v }, base + pos).unwrap();
        }
    };
    let mut ok = true;
    let mut see = |name: &str, r: Result<bool, String>, rec: &mut Rec| match r {
        Ok(true) => {
            let at: Vec<_> = edits.iter().take(3).map(|(p, v)| format!("{p}: {} -> {}", hex(&t.bytes[*p as usize..*p as usize + v.len().min(8)]), hex(&v[..v.len().min(8)]))).collect();
            rec.violation(&format!("{name} succeeds on an altered {:?}", t.kind), format!("{}: {what} at {at:?} (check block at {})", t.desc, t.covered.last().unwrap().1 - 37));
            ok = false;
        }
        Ok(false) => rec.count(&format!("{name}.false"), 1),
        Err(x) if x.starts_with("panic") => rec.count(&format!("{name}.panic"), 1),
        Err(_) => rec.count(&format!("{name}.error"), 1),
    };
    if own {
        put(&t.alone, 0, false);
        see("pack check", check_pack(&t.alone, t.kind), rec);
        put(&t.alone, 0, true);
    }
    put(&t.file, t.base, false);
    see("container check", check_container(&t.main), rec);
    see("file check", check_file(&t.file), rec);
    if tool_due(edits[0].0 ^ hash64(t.desc.as_bytes()) ^ hash64(&edits[0].1) ^ (what.len() as u64) << 40) {
        if let Some(v) = tool_check(&t.file) {
            see("jbk check", v, rec);
        }
    }
    put(&t.file, t.base, true);
    ok
}

fn pristine(rec: &mut Rec, w: &World, ts: &[Target]) -> bool {
    let mut ok = true;
    let mut see = |name: &str, r: Result<bool, String>, d: &str, rec: &mut Rec| {
        if r != Ok(true) {
            rec.violation(&format!("pristine {name}"), format!("{d}: {r:?}"));
            ok = false;
        } else {
            rec.count("pristine_checks_true", 1);
        }
    };
    see("container check", check_container(&w.built.path), "container", rec);
    for t in ts {
        see("pack check", check_pack(&t.alone, t.kind), &t.desc, rec);
        see("file check", check_file(&t.file), &t.desc, rec);
        see("file check", check_file(&t.alone), &t.desc, rec);
        if tool_due(hash64(&t.bytes[..t.bytes.len().min(64)]) | 1) {
            if let Some(v) = tool_check(&t.file) {
                see("jbk check", v, &t.desc, rec);
            }
        }
    }
    ok
}

fn spec(r: &mut Rng, k: u64, max: usize) -> ContainerSpec {
    let ne = r.us(3);
    let mut s = gen_multi(r, Mode::ALL[k as usize % 3], ne, max);
    s.comp = match (k / 3) % 4 { 0 => Comp::None, 1 => Comp::Lz4(1), 2 => Comp::Lzma(1), _ => Comp::Zstd(1) };
    s
}
fn ready(rec: &mut Rec, tag: &str, s: ContainerSpec) -> Option<(World, Vec<Target>)> {
    let w = match world(tag, s) {
        Ok(w) => w,
        Err(x) => { rec.violation("creation", x); return None }
    };
    let ts = match targets(&w) {
        Ok(t) => t,
        Err(x) => { rec.violation("layout", x); return None }
    };
    if !pristine(rec, &w, &ts) {
        return None;
    }
    Some((w, ts))
}

/// Any container: pristine checks, and alterations of any shape.
fn sampled(rec: &mut Rec, r: &mut Rng, k: u64, max: usize, per: usize) {
    let s = spec(r, k, max);
    let Some((w, ts)) = ready(rec, "c04s", s) else { return };
    rec.case(hash64(format!("{:?}", w.spec).as_bytes()), true);
    rec.count("containers", 1);
    rec.max("pack_bytes", ts.iter().map(|t| t.bytes.len() as u64).max().unwrap_or(0));
    for _ in 0..per {
        let t = &ts[r.us(ts.len())];
        let n = t.n();
        let len = t.bytes.len() as u64;
        let mut what = String::new();
        let mut edits: Vec<(u64, Vec<u8>)> = vec![];
        let keep = |edits: &mut Vec<(u64, Vec<u8>)>, a: u64, v: Vec<u8>| {
            // only covered bytes are altered
            let mut i = 0;
            while i < v.len() {
                if t.is_covered(a + i as u64) {
                    let mut j = i;
                    while j < v.len() && t.is_covered(a + j as u64) { j += 1; }
                    edits.push((a + i as u64, v[i..j].to_vec()));
                    i = j;
                } else {
                    i += 1;
                }
            }
        };
        match r.below(8) {
            0 => { let p = t.nth(r.below(n)); what = "flip".into(); edits.push((p, vec![t.bytes[p as usize] ^ (1 << r.below(8))])); }
            1 => {
                what = "several bytes".into();
                let mut ps: Vec<u64> = (0..1 + r.us(6)).map(|_| t.nth(r.below(n))).collect();
                ps.sort(); ps.dedup();
                for p in ps { edits.push((p, vec![t.bytes[p as usize].wrapping_add(1 + r.below(255) as u8)])); }
            }
            2 => {
                what = "zeroed range".into();
                let p = t.nth(r.below(n)); let l = (1 + r.below(200)).min(len - p);
                keep(&mut edits, p, vec![0; l as usize]);
            }
            3 => {
                what = "random range".into();
                let p = t.nth(r.below(n)); let l = (1 + r.below(500)).min(len - p);
                keep(&mut edits, p, r.bytes(l as usize));
            }
            4 => {
                // around the ends of the checked range and at usual buffer sizes
                what = "boundary".into();
                let cp = t.covered.last().unwrap().1 - 37;
                let b = *r.pick(&[0, 1, 63, 64, 127, 128, cp - 1, cp, cp + 1, cp + 32, cp + 33, cp + 36, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 262143, 262144, 1 << 20, (4 << 20) - 1, 4 << 20]);
                let p = if t.is_covered(b) { b } else { t.nth(n - 1) };
                edits.push((p, vec![t.bytes[p as usize] ^ 0x80]));
            }
            5 => {
                // metadata altered with its block's checksum made right again
                what = "re-checksummed".into();
                recrc(&mut edits, t, r);
            }
            6 => {
                // two parts exchanged
                what = "exchanged".into();
                let l = 1 + r.below(64.min(n / 2));
                let (a, b) = (t.nth(r.below(n)), t.nth(r.below(n)));
                let (a, b) = (a.min(b), a.max(b));
                if a + l <= b && b + l <= len {
                    let (x, y) = (t.bytes[a as usize..(a + l) as usize].to_vec(), t.bytes[b as usize..(b + l) as usize].to_vec());
                    keep(&mut edits, a, y);
                    keep(&mut edits, b, x);
                }
            }
            _ => {
                // sum preserving: add to a byte, remove from another
                what = "sum kept".into();
                let (a, b) = (t.nth(r.below(n)), t.nth(r.below(n)));
                if a != b {
                    let d = 1 + r.below(255) as u8;
                    edits.push((a, vec![t.bytes[a as usize].wrapping_add(d)]));
                    edits.push((b, vec![t.bytes[b as usize].wrapping_sub(d)]));
                }
            }
        }
        edits.retain(|(p, v)| t.bytes[*p as usize..*p as usize + v.len()] != v[..]);
        if edits.is_empty() {
            continue;
        }
        rec.count("alterations", 1);
        rec.count(&format!("alterations.{what}"), 1);
        if !alter(rec, t, &edits, &what, true) {
            return;
        }
    }
}

/// Alter a block of metadata and make its CRC right, keeping to blocks inside of the hashed range.
fn recrc(edits: &mut Vec<(u64, Vec<u8>)>, t: &Target, r: &mut Rng) {
    let Ok(p) = indep::decode_pack(&t.bytes, 0) else { return };
    // (position, size without crc, bytes which may be altered)
    let mut blocks: Vec<(u64, u64, u64)> = vec![(0, 60, 60), (64, 60, 60)];
    match &p.body {
        indep::Body::Manifest(m) => blocks.extend(m.packs.iter().map(|i| (i.pos, 252, 38))),
        indep::Body::Content(c) => {
            if !c.infos.is_empty() {
                let pos = u64::from_le_bytes(t.bytes[64..72].try_into().unwrap());
                blocks.push((pos, 4 * c.infos.len() as u64, 4 * c.infos.len() as u64));
            }
            if !c.clusters.is_empty() {
                let pos = u64::from_le_bytes(t.bytes[72..80].try_into().unwrap());
                blocks.push((pos, 8 * c.clusters.len() as u64, 8 * c.clusters.len() as u64));
            }
        }
        _ => {}
    }
    let (pos, size, free) = *r.pick(&blocks);
    if pos + size + 4 > t.bytes.len() as u64 {
        return;
    }
    let at = pos as usize;
    // not a block after all (another layout): leave it
    if indep::crc(&t.bytes[at..at + size as usize]).to_be_bytes() != t.bytes[at + size as usize..at + size as usize + 4] {
        return;
    }
    let mut v = t.bytes[at..at + size as usize].to_vec();
    if pos == 0 && r.chance(1, 2) {
        // another size of the pack
        let n = t.bytes.len() as u64;
        let z = match r.below(6) { 0 => n - 1, 1 => n - 64, 2 => n / 2, 3 => 128 + r.below(n), 4 => n + 1, _ => n - 1 - r.below(n / 2) };
        v[32..40].copy_from_slice(&z.to_le_bytes());
    } else { for _ in 0..1 + r.us(2) {
        let i = r.below(free) as usize;
        // neither kind, identity (another pack, not this one altered) nor the place of the check block (moves the checked range)
        if pos == 0 && (i < 4 || (10..26).contains(&i) || (40..48).contains(&i)) {
            continue;
        }
        v[i] ^= 1 << r.below(8);
    } }
    if v == t.bytes[at..at + size as usize] {
        return;
    }
    let c = indep::crc(&v).to_be_bytes();
    if free < size {
        // the location and crc of a pack info are not covered; they still have to agree for the alteration to go as far as possible
        edits.push((pos, v[..free as usize].to_vec()));
        edits.push((pos + size, c.to_vec()));
    } else {
        v.extend(c);
        edits.push((pos, v));
    }
}

/// Files of one pack which lost their end, or got bytes behind it and an altered byte.
fn cut_files(rec: &mut Rec, r: &mut Rng, k: u64) {
    let mut s = spec(r, 3 * k + 1 + k % 2, 3000);
    if s.mode == Mode::One { s.mode = Mode::No }
    let Some((w, ts)) = ready(rec, "c04t", s) else { return };
    rec.case(hash64(format!("t{:?}", w.spec).as_bytes()), true);
    for t in &ts {
        let whole = read(&t.file);
        if t.base != 0 || whole.len() != t.bytes.len() {
            continue;
        }
        let end = t.covered.last().unwrap().1;
        for j in 0..8 {
            let n = match j { 0 => end - 1, 1 => end - 37, 2 => end - 38, 3 => end - 5, 4 => 128, _ => 128 + r.below(end - 128) };
            let mut b = whole.clone();
            let what = if j < 6 {
                b.truncate(n as usize);
                format!("cut to {n} of {} bytes", whole.len())
            } else {
                let p = t.nth(r.below(t.n()));
                b[p as usize] ^= 1 << r.below(8);
                let x = 1 + r.us(5000);
                b.extend(r.bytes(x));
                format!("{x} bytes behind, byte {p} altered")
            };
            std::fs::write(&t.file, &b).unwrap();
            for (name, c) in [("container check", check_container(&t.main)), ("file check", check_file(&t.file)), ("pack check", check_pack(&t.file, t.kind))] {
                match c {
                    Ok(true) => rec.violation(&format!("{name} succeeds on a {:?} file of another size", t.kind), format!("{}: {what} (check block at {})", t.desc, end - 37)),
                    Ok(false) => rec.count(&format!("{name}.false"), 1),
                    Err(_) => rec.count(&format!("{name}.error"), 1),
                }
            }
            std::fs::write(&t.file, &whole).unwrap();
            rec.count("alterations", 1);
            rec.count("alterations.file_size", 1);
        }
    }
}

/// Every covered byte of a small container, with each mask.
fn exhaustive(rec: &mut Rec, r: &mut Rng, k: u64, masks: &[u8], most: u64) {
    let mut s = spec(r, k, 200);
    s.contents.truncate(4);
    s.extra.truncate(1);
    let Some((w, ts)) = ready(rec, "c04x", s) else { return };
    rec.case(hash64(format!("x{:?}", w.spec).as_bytes()), true);
    rec.count("containers_exhaustive", 1);
    let total: u64 = ts.iter().map(|t| t.n()).sum();
    if total > most {
        rec.inconclusive += 1;
        return;
    }
    for t in &ts {
        for i in 0..t.n() {
            let p = t.nth(i);
            for m in masks {
                rec.count("alterations", 1);
                rec.count("alterations.every_byte", 1);
                if !alter(rec, t, &[(p, vec![t.bytes[p as usize] ^ m])], "flip", true) {
                    return;
                }
            }
            rec.case(hash64(format!("{k}/{}/{p}", t.desc).as_bytes()), true);
        }
        rec.count(&format!("positions.{:?}", t.kind), t.n());
    }
    rec.sample(format!("every one of {total} covered bytes of {:?} x masks {masks:02x?}", w.spec));
}

/// Big packs: alterations far from the beginning (mapped regions, buffer boundaries).
fn big(rec: &mut Rec, r: &mut Rng, k: u64) {
    let mut s = spec(r, k, 100);
    let n = *r.pick(&[1 << 20, (4 << 20) - 100, 5 << 20, 9 << 20]);
    s.dedup = false;
    s.contents = vec![
        ContentSpec { data: Arc::new(r.bytes(n)), hint: Hint::No, src: Src::Mem },
        ContentSpec { data: Arc::new(gen_data(r, 3000)), hint: Hint::Yes, src: Src::Mem },
    ];
    let Some((w, ts)) = ready(rec, "c04b", s) else { return };
    rec.case(hash64(format!("b{:?}", w.spec).as_bytes()), true);
    rec.count("containers_big", 1);
    let Some(t) = ts.iter().max_by_key(|t| t.bytes.len()) else { return };
    rec.max("pack_bytes", t.bytes.len() as u64);
    let cp = t.covered.last().unwrap().1 - 37;
    for i in 0..12 {
        let p = match i {
            0 => cp - 1,
            1 => cp / 2,
            2 => cp,
            3 => (4 << 20) - 1,
            4 => 4 << 20,
            5 => 128,
            _ => r.below(cp),
        }.min(cp + 36);
        rec.count("alterations", 1);
        rec.count("alterations.big", 1);
        if !alter(rec, t, &[(p, vec![t.bytes[p as usize] ^ 1])], "flip in a big pack", i % 4 == 0) {
            return;
        }
    }
}

/// Content packs of hundreds of megabytes, and above 4 GiB: a byte far inside.
fn huge(rec: &mut Rec, r: &mut Rng, k: u64) {
    let sc = Scratch::new("c04h");
    let size = match k { 0 => 130u64 << 20, 1 => (1u64 << 32) + (3 << 20), 2 => 330 << 20, 3 => 1100 << 20, _ => (2u64 << 30) + 77 } + r.below(5000);
    let (src, p) = (sc.u("sparse"), sc.u("p.jbkc"));
    let seed = r.bytes(3000);
    let made = guarded(|| -> std::io::Result<()> {
        let f = std::fs::File::create(&src)?;
        f.set_len(size)?;
        f.write_all_at(&seed, 0)?;
        let mut c = jbk::creator::ContentPackCreator::new(&p, 1.into(), VENDOR, Default::default(), jbk::creator::Compression::None)?;
        c.add_content(Box::new(jbk::creator::InputFile::new(std::fs::File::open(&src)?)?), Hint::No.jbk())?;
        drop(c.finalize()?);
        Ok(())
    });
    match made {
        Ok(Ok(())) => {}
        Ok(Err(e)) if e.kind() == std::io::ErrorKind::StorageFull || e.raw_os_error() == Some(12) => return rec.inconclusive(&format!("no room for it: {e}")),
        e => return rec.violation("creation", format!("pack of {size} bytes: {e:?}")),
    }
    let _ = std::fs::remove_file(&src);
    let f = std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
    let mut h = [0u8; 8];
    f.read_exact_at(&mut h, 40).unwrap();
    let cp = u64::from_le_bytes(h);
    rec.max("pack_bytes", cp);
    let mut at: Vec<u64> = [24u32, 26, 27, 28, 29, 30, 31, 32].iter().map(|b| (1u64 << b) + 1).filter(|p| *p < cp).collect();
    at.push(cp - 1);
    at.push(cp - 200);
    at.push(cp / 3 * 2 + r.below(cp / 4));
    if size > 1 << 30 { at = at.split_off(at.len() - 4) }
    let checks = |rec: &mut Rec, want: bool, what: &str, both: bool| {
        let mut l = vec![("pack check", check_pack(&p, indep::Kind::Content))];
        if both { l.push(("file check", check_file(&p))) }
        for (n, c) in l {
            if want == (c == Ok(true)) {
                rec.count(if want { "pristine_checks_true" } else { "huge_checks_not_true" }, 1);
            } else if want {
                rec.violation(&format!("pristine {n}"), format!("pack of {cp} bytes: {c:?}"));
            } else {
                rec.violation(&format!("{n} succeeds on an altered Content"), format!("pack of {cp} bytes: {what}"));
            }
        }
    };
    checks(rec, true, "", true);
    rec.case(hash64(format!("huge {size}").as_bytes()), true);
    for (j, q) in at.into_iter().enumerate() {
        let mut b = [0u8];
        f.read_exact_at(&mut b, q).unwrap();
        f.write_all_at(&[b[0] ^ 4], q).unwrap();
        checks(rec, false, &format!("byte {q} altered"), j == 0);
        f.write_all_at(&b, q).unwrap();
        rec.count("alterations", 1);
        rec.count("alterations.huge", 1);
    }
}

/// Packs made by the lower level creators, alone.
fn alone(rec: &mut Rec, r: &mut Rng, k: u64) {
    let sc = Scratch::new("c04a");
    let p = sc.u("pack");
    let kind;
    if k % 2 == 0 {
        let comp = gen_comp(r, true);
        let n = r.us(30);
        let c: Vec<_> = (0..n).map(|_| gen_content(r, 3000)).collect();
        let sink = if r.bool() { Sink::Named } else { Sink::Atomic };
        if let Err(x) = build_pack(&p, *r.pick(&[1, 2, 300, 65535]), comp, &c, r.bool(), sink, Arc::new(())) {
            return rec.violation("creation", x);
        }
        kind = indep::Kind::Content;
    } else {
        let mut cfg = GenCfg::medium();
        cfg.words = true;
        let d = gen_dir(r, &cfg);
        if let Err(x) = build_directory(&d, &p) {
            return rec.violation("creation", x);
        }
        kind = indep::Kind::Directory;
    }
    let bytes = Arc::new(read(&p));
    rec.case(hash64(&bytes), true);
    rec.count("packs_alone", 1);
    for (n, c) in [("pack check", check_pack(&p, kind)), ("file check", check_file(&p))] {
        if c != Ok(true) {
            return rec.violation(&format!("pristine {n}"), format!("{kind:?} alone: {c:?}"));
        }
        rec.count("pristine_checks_true", 1);
    }
    let cov = match covered(&bytes) { Ok(c) => c, Err(x) => return rec.violation("layout", x) };
    let t = Target { file: p.clone(), base: 0, kind, bytes, covered: cov, alone: p.clone(), main: p.clone(), desc: format!("{kind:?} alone") };
    for _ in 0..20 {
        let q = t.nth(r.below(t.n()));
        rec.count("alterations", 1);
        if !alter(rec, &t, &[(q, vec![t.bytes[q as usize].wrapping_add(1 + r.below(255) as u8)])], "byte", true) {
            return;
        }
    }
}

/// A container of more packs than a byte can count.
fn packs(rec: &mut Rec, r: &mut Rng, k: u64) {
    let mode = [Mode::No, Mode::One, Mode::Two][(k % 3) as usize];
    let mut s = gen_multi(r, mode, 0, 300);
    let n = *r.pick(&[254u16, 255, 256, 257, 300]) + r.below(3) as u16;
    s.extra = (2..2 + n).map(|id| (id, Comp::None, vec![gen_content(r, 60)])).collect();
    let Some((_w, ts)) = ready(rec, "c04p", s) else { return };
    rec.max("packs_in_container", ts.len() as u64);
    rec.case(hash64(format!("packs {n} {k}").as_bytes()), true);
    let Some(m) = ts.iter().position(|t| matches!(t.kind, indep::Kind::Manifest)) else { return rec.violation("layout", "no manifest".to_string()) };
    for x in 0..60 {
        let t = &ts[if x % 3 < 2 { m } else { r.us(ts.len()) }];
        let mut edits = vec![];
        let what = if x % 3 == 1 {
            recrc(&mut edits, t, r);
            "checked block with the right CRC"
        } else {
            let q = t.nth(if x % 2 == 0 { t.n() - 1 - r.below((t.n() / 4).max(1)) } else { r.below(t.n()) });
            edits.push((q, vec![t.bytes[q as usize].wrapping_add(1 + r.below(255) as u8)]));
            "byte"
        };
        if edits.is_empty() {
            continue;
        }
        rec.count("alterations", 1);
        if !alter(rec, t, &edits, what, true) {
            return;
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a container (or pack) whose pristine checks were evaluated, or one covered byte position of it altered with every mask".into();
    ctx.assumptions.push("the covered range is [0, check_info_pos) and the 37-byte check block of each pack, without the location and CRC of each pack info of the manifest".into());
    ctx.assumptions.push("alterations which forge the hash in the check block, or replace the check block by the one of 'no check', are not made; nor is a pack given another identity together with the right CRC (it then is another pack, and the one of the container is missing)".into());
    let q = ctx.quick();
    if ctx.quick() && std::env::var("JBKMON_BUDGET").is_err() { ctx.budget = std::time::Duration::from_secs(55) }
    let nh = ctx.q(2, 5);
    phase("huge", 0.5, nh).min(nh).threads(2).run(ctx, |i, r, rec| huge(rec, r, i));
    phase("exhaustive", 0.55, ctx.q(48, 4000)).min(12).run(ctx, move |i, r, rec| {
        let masks: &[u8] = if q { &[0x01, 0xFF] } else { &[1, 2, 4, 8, 16, 32, 64, 128, 0xFF, 0x55] };
        exhaustive(rec, r, i, masks, if q { 6000 } else { 60_000 })
    });
    phase("big", 0.65, ctx.q(24, 400)).min(6).run(ctx, |i, r, rec| big(rec, r, i));
    phase("packs", 0.7, ctx.q(6, 400)).min(3).threads(1).run(ctx, |i, r, rec| packs(rec, r, i));
    phase("alone", 0.75, ctx.q(400, 20_000)).min(20).run(ctx, |i, r, rec| alone(rec, r, i));
    phase("files", 0.8, ctx.q(400, 20_000)).min(20).run(ctx, |i, r, rec| cut_files(rec, r, i));
    phase("sampled", 1.0, ctx.q(5000, 200_000)).min(24).run(ctx, |i, r, rec| {
        let max = if i % 7 == 0 { 200_000 } else { 3000 };
        sampled(rec, r, i, max, 60)
    });
}

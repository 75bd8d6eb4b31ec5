//! C10: a container reads the same however its packs are packaged.
use crate::builder::build_at;
use crate::dump::*;
use crate::model::*;
use crate::pack::*;
use crate::par::*;
use crate::util::*;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use jbk::reader::{MayMissPack, PackLocatorTrait};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// keys which name identities made anew by each creation
fn norm(d: &Dump) -> Dump {
    d.iter()
        .filter(|(k, _)| *k != "container.uuid" && *k != "dir.uuid" && *k != "dir.size")
        .map(|(k, v)| {
            let v = match v {
                Item::Val(s) if k.starts_with("pack") && s.starts_with("count ") => {
                    let w: Vec<&str> = s.split(' ').collect();
                    Item::Val(format!("{} {} {}", w[0], w[1], w[6..].join(" ")))
                }
                v => v.clone(),
            };
            (k.clone(), v)
        })
        .collect()
}

fn compare(rec: &mut Rec, desc: &str, p: &Utf8Path, ask: &Ask, dump: &Dump, contents: &Contents, same_ids: bool, check: bool) -> bool {
    match try_dump(p, ask) {
        Err(e) => {
            rec.violation("container does not open", format!("{desc}: {e}"));
            return false;
        }
        Ok((d, c)) => {
            let v = if same_ids { dump_eq(dump, &d) } else { dump_eq(&norm(dump), &norm(&d)) };
            for x in v.into_iter().chain(contents_eq(contents, &c)).take(3) {
                rec.violation("reads differently", format!("{desc}: {x}"));
            }
            rec.count("dumps_compared", 1);
            rec.count("items_compared", d.len() as u64);
        }
    }
    if check {
        match try_check(p) {
            Ok(true) => rec.count("checks_true", 1),
            o => rec.violation("container check", format!("{desc}: {o:?}")),
        }
    }
    true
}

/// The same insertions in the three modes of the creator, plain and at the end of another file.
fn modes(rec: &mut Rec, r: &mut Rng) {
    let ne = r.us(3);
    let mut spec = gen_multi(r, Mode::One, ne, 3000);
    let mut first: Option<World> = None;
    for m in Mode::ALL {
        spec.mode = m;
        let w = match world("c10m", spec.clone()) {
            Ok(w) => w,
            Err(e) => return rec.violation("creation", format!("{m:?}: {e}")),
        };
        let desc = format!("mode {m:?} + {ne} extra packs");
        compare(rec, &desc, &w.built.path, &w.ask, &w.dump, &w.contents, true, true);
        let mut b = prefix(r);
        let d2 = format!("{desc} behind {} bytes", b.len());
        b.extend(read(&w.built.path));
        let p = w.sc.u("carrier");
        std::fs::write(&p, b).unwrap();
        compare(rec, &d2, &p, &w.ask, &w.dump, &w.contents, true, true);
        if let Some(f) = &first {
            compare(rec, &format!("{desc} against {:?}", f.spec.mode), &w.built.path, &w.ask, &f.dump, &f.contents, false, false);
        } else {
            first = Some(w);
        }
        rec.case(hash64(format!("{desc} {:?}", spec.contents).as_bytes()), true);
    }
}

/// Any partition of the packs in files: concatenated or alone, behind other data or not, decoys where nothing should be looked for.
fn repack(rec: &mut Rec, r: &mut Rng, k: u64) {
    let ne = r.us(4);
    let spec = gen_multi(r, Mode::No, ne, 2000);
    let w = match world("c10", spec) { Ok(w) => w, Err(e) => return rec.violation("creation", e) };
    let ps = match pieces(&w) { Ok(p) => p, Err(e) => return rec.violation("setup", e) };
    let n = ps.len();
    let full = k % 3 == 0;
    let orders: Vec<Vec<usize>> = if full && n <= 4 { perms(n) } else { (0..6).map(|_| { let mut v: Vec<_> = (0..n).collect(); r.shuffle(&mut v); v }).collect() };
    for (on, order) in orders.iter().enumerate() {
        let dir = w.sc.u(&format!("o{on}"));
        std::fs::create_dir_all(&dir).unwrap();
        // group 0 is the file at hand (with the manifest)
        let groups: Vec<usize> = ps.iter().enumerate().map(|(i, _)| if i == 0 || full { 0 } else { r.us(3) }).collect();
        let names = ["main.jbk", "sub/other.bin", "third"];
        std::fs::create_dir_all(dir.join("sub")).unwrap();
        let mut desc = format!("order {order:?} groups {groups:?} kinds {:?}", ps.iter().map(|p| p.id).collect::<Vec<_>>());
        // recorded locations
        let mut locs = vec![];
        let mut decoys = vec![];
        for (i, p) in ps.iter().enumerate().skip(1) {
            if groups[i] == 0 {
                let l = match r.below(6) {
                    0 => String::new(),
                    1 => "nothing/there".into(),
                    2 => { std::fs::create_dir_all(dir.join(format!("d{i}"))).unwrap(); format!("d{i}") }
                    3 => { std::fs::write(dir.join(format!("d{i}")), r.bytes(300)).unwrap(); format!("d{i}") }
                    4 => {
                        // a pack with the same identity but other bytes: looked for inside first
                        let mut b = p.bytes.as_ref().clone();
                        if let Ok(indep::Pack { body: indep::Body::Content(c), .. }) = indep::decode_pack(&b, 0) {
                            for cl in &c.clusters {
                                let (s, e) = (cl.stored_start as usize, (cl.stored_start + cl.stored_size) as usize);
                                for x in &mut b[s..e] { *x ^= 0x55; }
                            }
                        }
                        std::fs::write(dir.join(format!("d{i}")), b).unwrap();
                        format!("d{i}")
                    }
                    _ => {
                        match foreign_pack(r, &dir) { Ok(b) => std::fs::write(dir.join(format!("d{i}")), b).unwrap(), Err(e) => return rec.violation("setup", e) }
                        format!("d{i}")
                    }
                };
                decoys.push(l.clone());
                locs.push((p.uuid, l));
            } else {
                let l = if r.chance(1, 6) { dir.join(names[groups[i]]).to_string() } else { names[groups[i]].to_string() };
                if l.len() > 213 { return }
                locs.push((p.uuid, l));
            }
        }
        let manifest = match relocate(&ps[0], &locs) { Ok(m) => m, Err(e) => return rec.violation("setup", e) };
        for g in 0..3 {
            let members: Vec<usize> = order.iter().copied().filter(|i| groups[*i] == g).collect();
            if members.is_empty() {
                continue;
            }
            let mut ins = vec![];
            for i in &members {
                let p = dir.join(format!("in{i}"));
                let mut b = if r.chance(1, 3) { prefix(r) } else { vec![] };
                b.extend_from_slice(if *i == 0 { &manifest } else { &ps[*i].bytes });
                std::fs::write(&p, b).unwrap();
                ins.push(p);
            }
            if r.chance(1, 3) {
                // packs of somebody else in the same file
                let p = dir.join(format!("foreign{g}"));
                match foreign_pack(r, &dir) { Ok(b) => std::fs::write(&p, b).unwrap(), Err(e) => return rec.violation("setup", e) }
                ins.insert(r.us(ins.len() + 1), p);
                desc += &format!(" foreign pack in {g}");
            }
            let out = dir.join(names[g]);
            if ins.len() == 1 && r.bool() {
                std::fs::rename(&ins[0], &out).unwrap();
                desc += &format!(" {g} alone");
            } else if ins.len() > 2 && r.chance(1, 3) {
                // concat of concats
                let h = 1 + r.us(ins.len() - 1);
                let t = dir.join("half");
                if let Err(e) = concat(rec, r, &ins[..h], &t).and_then(|_| {
                    let mut v = vec![t.clone()];
                    v.extend_from_slice(&ins[h..]);
                    r.shuffle(&mut v);
                    concat(rec, r, &v, &out)
                }) {
                    return rec.violation("concat failed", format!("{desc}: {e:?}"));
                }
                desc += &format!(" {g} twice concatenated");
            } else {
                if let Err(e) = concat(rec, r, &ins, &out) {
                    return rec.violation("concat failed", format!("{desc}: {e:?}"));
                }
                rec.count("concats", 1);
            }
            if r.chance(1, 3) {
                let mut b = prefix(r);
                desc += &format!(" {g} behind {} bytes", b.len());
                b.extend(read(&out));
                std::fs::write(&out, b).unwrap();
            }
            for p in ins {
                let _ = std::fs::remove_file(p);
            }
        }
        desc += &format!(" recorded locations of packs inside: {decoys:?}");
        let main = dir.join(names[0]);
        compare(rec, &desc, &main, &w.ask, &w.dump, &w.contents, true, true);
        rec.count("packagings", 1);
        rec.max("packs", n as u64);
        rec.case(hash64(desc.as_bytes()), true);
        if on == 0 {
            rec.sample(desc.chars().take(300).collect());
        }
        locator(rec, r, &w, &ps, &main, &groups, &locs, &desc);
        let _ = std::fs::remove_dir_all(&dir);
        if rec.violations.len() > 3 {
            return;
        }
    }
}

/// Concatenate, by the library or (now and then) by `jbk concat`.
fn concat(rec: &mut Rec, r: &mut Rng, ins: &[Utf8PathBuf], out: &Utf8Path) -> Result<(), String> {
    if crate::cli::tool().is_some() && r.chance(1, 8) {
        let _ = std::fs::remove_file(out);
        let mut a: Vec<&str> = vec!["concat"];
        let o = ["-o", out.as_str()];
        if r.bool() { a.extend(o); }
        a.extend(ins.iter().map(|p| p.as_str()));
        if a[1] != "-o" { a.extend(o); }
        let x = crate::cli::run(&a, Duration::from_secs(120)).ok_or("no tool")?;
        rec.count("concats_by_the_tool", 1);
        if x.broke().is_some() || !out.exists() {
            return Err(format!("jbk concat: {x:?}"));
        }
        return Ok(());
    }
    jbk::tools::concat(ins, out).map_err(|e| format!("{e:?}"))
}

struct Spy {
    packs: Vec<(uuid::Uuid, Utf8PathBuf)>,
    calls: Mutex<Vec<(uuid::Uuid, String)>>,
}
impl PackLocatorTrait for Spy {
    fn locate(&self, uuid: uuid::Uuid, helper: &str) -> jbk::Result<Option<jbk::Reader>> {
        self.calls.lock().unwrap().push((uuid, helper.into()));
        match self.packs.iter().find(|p| p.0 == uuid) {
            None => Ok(None),
            Some((_, p)) => Ok(Some(jbk::FileSource::open(p)?.into())),
        }
    }
}
/// Own locator: asked (with the identity and the recorded location) only for what the file at hand does not hold.
fn locator(rec: &mut Rec, r: &mut Rng, w: &World, ps: &[Piece], main: &Utf8Path, groups: &[usize], locs: &[(indep::Uuid, String)], desc: &str) {
    let dir = main.parent().unwrap().join("spy");
    std::fs::create_dir_all(&dir).unwrap();
    let mut packs = vec![];
    for (i, p) in ps.iter().enumerate().skip(1) {
        let f = dir.join(format!("{i}"));
        if groups[i] == 0 {
            // would be wrong bytes
            match foreign_pack(r, &dir) { Ok(b) => std::fs::write(&f, b).unwrap(), Err(e) => return rec.violation("setup", e) }
        } else {
            std::fs::write(&f, p.bytes.as_slice()).unwrap();
        }
        packs.push((uuid_of(&p.uuid), f));
    }
    let spy = Arc::new(Spy { packs, calls: Default::default() });
    let res = guarded(|| {
        let c = jbk::reader::Container::new_with_locator(main, spy.clone()).map_err(|e| format!("{e:?}"))?;
        Ok::<_, String>(dump_container(&c, &w.ask, OPTS))
    });
    match res {
        Ok(Ok((d, c))) => {
            for x in dump_eq(&w.dump, &d).into_iter().chain(contents_eq(&w.contents, &c)).take(3) {
                rec.violation("reads differently through a locator", format!("{desc}: {x}"));
            }
        }
        o => rec.violation("does not open through a locator", format!("{desc}: {:?}", o.map(|x| x.map(|_| ())))),
    }
    for (u, h) in spy.calls.lock().unwrap().iter() {
        match locs.iter().position(|l| uuid_of(&l.0) == *u) {
            None => rec.violation("locator asked for an unknown pack", format!("{desc}: {u} {h:?}")),
            Some(i) => {
                if groups[i + 1] == 0 {
                    rec.violation("looked outside for a pack held by the file", format!("{desc}: {u} {h:?}"));
                }
                if locs[i].1 != *h {
                    rec.violation("locator not given the recorded location", format!("{desc}: {u} {h:?} instead of {:?}", locs[i].1));
                }
                rec.count("locator_calls", 1);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Identity decides, not the location: a file at the recorded location which is another pack is not the pack.
fn identity(rec: &mut Rec, r: &mut Rng) {
    let spec = gen_multi(r, Mode::Two, 1, 800);
    let w = match world("c10i", spec) { Ok(w) => w, Err(e) => return rec.violation("creation", e) };
    let ps = match pieces(&w) { Ok(p) => p, Err(e) => return rec.violation("setup", e) };
    // swap the two content packs' files: each is at the other's location
    let (a, b) = (w.sc.u("").join(&ps[2].location), w.sc.u("").join(&ps[3].location));
    let t = w.sc.u("swap");
    std::fs::rename(&a, &t).unwrap();
    std::fs::rename(&b, &a).unwrap();
    std::fs::rename(&t, &b).unwrap();
    let desc = "two content pack files swapped";
    match guarded(|| {
        let c = jbk::reader::Container::new(&w.built.path).map_err(|e| format!("{e:?}"))?;
        let mut v = vec![];
        for p in &ps[2..4] {
            v.push(match c.get_pack(p.id.unwrap().into()) {
                Ok(Some(MayMissPack::MISSING(i))) => i.uuid == uuid_of(&p.uuid),
                o => return Err(format!("pack {:?}: {}", p.id, match o { Ok(Some(_)) => "found".to_string(), Ok(None) => "unknown".into(), Err(e) => format!("{e:?}") })),
            });
        }
        Ok(v)
    }) {
        Ok(Ok(v)) if v == [true, true] => rec.count("swapped", 1),
        o => rec.violation("pack taken by location", format!("{desc}: {o:?}")),
    }
    // both packs in one file, both locations tell that file
    let both = w.sc.u("both");
    let mut v = vec![a, b];
    r.shuffle(&mut v);
    if let Err(e) = jbk::tools::concat(&v, &both) {
        return rec.violation("concat failed", format!("{e:?}"));
    }
    for p in &v { std::fs::remove_file(p).unwrap(); std::fs::copy(&both, p).unwrap(); }
    compare(rec, "both content packs in each file", &w.built.path, &w.ask, &w.dump, &w.contents, true, true);
    rec.case(r.u64(), true);
}

/// More packs in one file than a byte can count: packs of the container itself, or of somebody else around them.
fn many(rec: &mut Rec, r: &mut Rng, k: u64) {
    let own = k % 2 == 0;
    let mut spec = gen_multi(r, Mode::No, 2, 800);
    if own {
        spec.extra = (2u16..2 + 256 + r.us(20) as u16).map(|id| (id, Comp::None, vec![gen_content(r, 200)])).collect();
        r.shuffle(&mut spec.extra);
    }
    let w = match world("c10y", spec) { Ok(w) => w, Err(e) => return rec.violation("creation", e) };
    let ps = match pieces(&w) { Ok(p) => p, Err(e) => return rec.violation("setup", e) };
    let dir = w.sc.u("m");
    std::fs::create_dir_all(&dir).unwrap();
    let locs: Vec<_> = ps.iter().skip(1).map(|p| (p.uuid, if r.bool() { String::new() } else { "nothing".into() })).collect();
    let manifest = match relocate(&ps[0], &locs) { Ok(m) => m, Err(e) => return rec.violation("setup", e) };
    let mut ins = vec![];
    for (i, p) in ps.iter().enumerate() {
        let f = dir.join(format!("in{i}"));
        std::fs::write(&f, if i == 0 { &manifest } else { p.bytes.as_slice() }).unwrap();
        ins.push(f);
    }
    if !own {
        let n = *r.pick(&[253usize, 254, 260, 300]);
        for i in 0..n {
            let f = dir.join(format!("foreign{i}"));
            match foreign_pack(r, &dir) { Ok(b) => std::fs::write(&f, b).unwrap(), Err(e) => return rec.violation("setup", e) }
            ins.push(f);
        }
    }
    for kind in ["at the end", "at the beginning", "anywhere"] {
        r.shuffle(&mut ins);
        match kind {
            "at the end" => ins.sort_by_key(|p| p.file_name().unwrap().starts_with("in")),
            "at the beginning" => ins.sort_by_key(|p| p.file_name().unwrap().starts_with("for")),
            _ => {}
        }
        let out = dir.join("many.jbk");
        let desc = format!("{} packs concatenated, {} of the container, {kind}", ins.len(), ps.len());
        if let Err(e) = concat(rec, r, &ins, &out) {
            return rec.violation("concat failed", format!("{desc}: {e:?}"));
        }
        compare(rec, &desc, &out, &w.ask, &w.dump, &w.contents, true, true);
        // concatenated once more, with itself split in two parts
        let h = ins.len() / 2;
        let (a, b) = (dir.join("a"), dir.join("b"));
        if let Err(e) = jbk::tools::concat(&ins[..h], &a).and_then(|_| jbk::tools::concat(&ins[h..], &b)).and_then(|_| jbk::tools::concat(&[b.clone(), a.clone()], &out)) {
            return rec.violation("concat failed", format!("{desc}, in two steps: {e:?}"));
        }
        compare(rec, &format!("{desc}, in two steps"), &out, &w.ask, &w.dump, &w.contents, true, true);
        rec.max("packs_in_one_file", ins.len() as u64);
        rec.case(hash64(format!("{desc}{k}").as_bytes()), true);
    }
}

/// At the end of a file so big that 32 bits cannot tell where the container is.
fn far(rec: &mut Rec, r: &mut Rng, k: u64) {
    use std::os::unix::fs::FileExt;
    let mode = Mode::ALL[(k % 3) as usize];
    let ne = r.us(3);
    let spec = gen_multi(r, mode, ne, 3000);
    let w = match world("c10f", spec) { Ok(w) => w, Err(e) => return rec.violation("creation", e) };
    let b = read(&w.built.path);
    for t in [31u32, 32] {
        let at = match r.below(3) { 0 => (1u64 << t) - r.below(b.len() as u64 + 1), 1 => (1 << t) + r.below(10_000), _ => (1 << t) + (r.below(40) << 30) };
        let p = w.sc.u("far");
        let f = std::fs::File::create(&p).unwrap();
        f.write_all_at(b"#!/bin/sh\n", 0).unwrap();
        f.write_all_at(&b, at).unwrap();
        drop(f);
        let desc = format!("mode {mode:?} + {ne} extra packs behind {at} bytes");
        compare(rec, &desc, &p, &w.ask, &w.dump, &w.contents, true, true);
        rec.max("bytes_before", at);
        rec.case(hash64(desc.as_bytes()), true);
        std::fs::remove_file(&p).unwrap();
    }
}

/// Concatenated with a pack of somebody else which is bigger than 32 bits can tell.
fn huge(rec: &mut Rec, r: &mut Rng, i: u64) {
    use std::os::unix::fs::FileExt;
    let spec = gen_multi(r, Mode::One, 1, 3000);
    let w = match world("c10h", spec) { Ok(w) => w, Err(e) => return rec.violation("creation", e) };
    let dir = w.sc.u("h");
    std::fs::create_dir_all(&dir).unwrap();
    let mut small = match foreign_pack(r, &dir) { Ok(b) => b, Err(e) => return rec.violation("setup", e) };
    let size = (1u64 << 32) + r.below(1000);
    small[32..40].copy_from_slice(&size.to_le_bytes());
    small[40..48].copy_from_slice(&(size - 101).to_le_bytes());
    let c = indep::crc(&small[..60]);
    small[60..64].copy_from_slice(&c.to_be_bytes());
    let big = dir.join("big");
    let f = std::fs::File::create(&big).unwrap();
    f.write_all_at(&small[..small.len() - 64], 0).unwrap();
    let tail: Vec<u8> = small[..64].iter().rev().copied().collect();
    f.write_all_at(&tail, size - 64).unwrap();
    drop(f);
    let out = w.sc.u("out");
    let mut ins = vec![big.clone(), w.built.path.clone()];
    if i % 4 == 3 { ins.swap(0, 1) }
    if let Err(e) = jbk::tools::concat(&ins, &out) {
        return rec.violation("concat failed", format!("with a pack of {size} bytes: {e:?}"));
    }
    std::fs::remove_file(&big).unwrap();
    compare(rec, &format!("with a pack of {size} bytes, before: {}", ins[0] == big), &out, &w.ask, &w.dump, &w.contents, true, true);
    std::fs::remove_file(&out).unwrap();
    rec.max("bytes_before", size);
    rec.case(r.u64(), true);
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a container re-packaged in at least one other way; distinct by partition, order, prefixes and locations".into();
    phase("modes", 0.2, u64::MAX).min(16).run(ctx, |_, r, rec| modes(rec, r));
    phase("repack", 0.85, u64::MAX).min(64).run(ctx, |i, r, rec| repack(rec, r, i));
    phase("far", 0.86, 60).min(6).run(ctx, |i, r, rec| far(rec, r, i));
    if !cfg!(debug_assertions) {
        phase("huge", 0.87, ctx.q(1, 4)).min(1).threads(1).run(ctx, |i, r, rec| huge(rec, r, i));
    }
    phase("many", 0.9, 40).min(4).threads(2).run(ctx, |i, r, rec| many(rec, r, i));
    // every relative path below is from here
    let here = scratch_root().join("cwd");
    std::fs::create_dir_all(&here).unwrap();
    std::env::set_current_dir(&here).unwrap();
    phase("names", 0.95, u64::MAX).min(200).run(ctx, |i, r, rec| names(rec, r, i));
    phase("identity", 1.0, u64::MAX).min(8).run(ctx, |_, r, rec| identity(rec, r));
    ctx.assumptions.push("a carrier file does not start with a pack's magic (else it is that pack which is opened)".into());
}

const NAMES: [&str; 16] = ["c.jbk", "c.jbkc", "c.jbkd", "c.jbkm", "c", ".c", "c.", "c..jbkd", "c.tar.jbk", "\u{e9}t\u{e9} \u{8a9e}.jbk", "a b.jbk", "-c.jbk", "c.jbkc.jbkc", "C.JBKC", "jbkc", ".jbkc"];

/// Wherever the files are put and whatever their names, the container reads as it was written, from every path to it.
fn names(rec: &mut Rec, r: &mut Rng, i: u64) {
    let sc = Scratch::new("c10n");
    let top = Utf8PathBuf::from_path_buf(sc.0.clone()).unwrap();
    // one time out of three, from the directory itself: the names are bare (only this thread changes of directory)
    if (i / 3) % 3 == 1 {
        std::thread::scope(|s| {
            s.spawn(|| {
                // SAFETY: nothing but a system call
                if unsafe { libc::unshare(libc::CLONE_FS) } != 0 || std::env::set_current_dir(&top).is_err() {
                    return rec.count("no_directory_of_its_own", 1);
                }
                rec.count("bare_names", 1);
                names_in(rec, r, i, &top, true)
            });
        })
    } else {
        names_in(rec, r, i, &top, false)
    }
}
fn names_in(rec: &mut Rec, r: &mut Rng, i: u64, top: &Utf8Path, bare: bool) {
    for d in ["a/b", "x", "x/y", "in"] { std::fs::create_dir_all(top.join(d)).unwrap() }
    std::os::unix::fs::symlink("x/y", top.join("link")).unwrap();
    let name = NAMES[(i / 3) as usize % NAMES.len()];
    let mode = Mode::ALL[i as usize % 3];
    // a relative path to the scratch directory
    let rel = if bare { Utf8PathBuf::new() } else { Utf8PathBuf::from(format!("../{}", top.file_name().unwrap())) };
    let dir = match r.below(if bare { 3 } else { 10 }) {
        n if bare && n < 3 => [rel.clone(), rel.clone(), rel.join("link")][n as usize].clone(),
        0 => top.to_owned(),
        1 => top.join("a/b"),
        2 => top.join("./a/b/"),
        3 => rel.clone(),
        4 => rel.join("a/b"),
        5 => top.join("x//y"),
        6 => top.join("a/../x"),
        7 => top.join("link"),
        8 => top.join("link/../y"),
        _ => rel.join("x/../a/./b"),
    };
    let n_extra = if i % 2 == 0 { 0 } else { r.us(3) };
    let mut spec = gen_multi(r, mode, n_extra, 20_000);
    spec.dedup = false;
    let out = dir.join(name);
    let extra: Vec<Utf8PathBuf> = spec.extra.iter().map(|e| {
        let f = format!("e{}{}", e.0, r.pick(&["", ".jbkc", ".x y"]));
        match r.below(6) { 0 => dir.join(f), 5 => top.join("link").join(f), 1 => top.join("x").join(f), 2 => top.join("a/b").join(f), 3 => top.join(f), _ => rel.join("x/y").join(f) }
    }).collect();
    let desc = format!("names: {mode:?} {out} extra {extra:?}");
    rec.case(hash64(desc.as_bytes()), true);
    let b = match build_at(&spec, &out, &top.join("in"), &extra) {
        Ok(b) => b,
        Err(e) if e.contains("Cannot sort") => return rec.inconclusive(&e),
        Err(e) => return rec.violation("names: creation failed", format!("{desc}: {e}; {:?}", recent_panics())),
    };
    let ask = ask_container(&spec, &b);
    let canon = |p: &Utf8Path| Utf8PathBuf::from_path_buf(std::fs::canonicalize(p).unwrap_or_default()).unwrap();
    let mut first: Option<(Dump, Contents)> = None;
    let there = canon(&out).strip_prefix(canon(top)).unwrap_or(Utf8Path::new("?")).to_owned();
    for p in [out.clone(), canon(&out), Utf8PathBuf::from(".").join(rel.join(there))] {
        match try_dump(&p, &ask) {
            Err(e) => return rec.violation("names: not readable", format!("{desc}: as {p}: {e}")),
            Ok((d, c)) => {
                if let Err(e) = verify_model(&spec, &b, &d, &c) {
                    let files: Vec<_> = walk(top);
                    return rec.violation("names: reads differently", format!("{desc}: as {p}: {e}; files {files:?}"));
                }
                if let Some(f) = &first {
                    if let Some(x) = dump_eq(&f.0, &d).first().or(contents_eq(&f.1, &c).first()) {
                        return rec.violation("names: reads differently", format!("{desc}: as {p}: {x}"));
                    }
                }
                first = Some((d, c));
            }
        }
        match try_check(&p) {
            Ok(true) => {}
            o => return rec.violation("names: check", format!("{desc}: as {p}: {o:?}")),
        }
        rec.count("read_by_a_path", 1);
    }
    rec.count("names", 1);
    if i < 3 { rec.sample(desc) }
}
fn walk(d: &Utf8Path) -> Vec<String> {
    let mut v = vec![];
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let p = Utf8PathBuf::from_path_buf(e.path()).unwrap();
        if p.is_dir() && !p.is_symlink() { if p.file_name() != Some("in") { v.extend(walk(&p)) } } else { v.push(p.to_string()) }
    }
    v
}

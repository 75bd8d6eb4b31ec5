//! C11: an unavailable pack is reported as missing, and everything else still reads.
use crate::dump::*;
use crate::model::*;
use crate::pack::*;
use crate::par::*;
use crate::util::*;
use jubako as jbk;
use jbk::reader::{MayMissPack, PackLocatorTrait};
use std::collections::BTreeSet;
use std::sync::Arc;

struct Only {
    packs: Vec<(uuid::Uuid, camino::Utf8PathBuf)>,
}
impl PackLocatorTrait for Only {
    fn locate(&self, uuid: uuid::Uuid, _helper: &str) -> jbk::Result<Option<jbk::Reader>> {
        match self.packs.iter().find(|p| p.0 == uuid) {
            None => Ok(None),
            Some((_, p)) => Ok(Some(jbk::FileSource::open(p)?.into())),
        }
    }
}

/// what the manifest says about the pack, from the independent decoder
fn same_info(i: &jbk::reader::PackInfo, p: &indep::PackInfo) -> bool {
    i.uuid == uuid_of(&p.uuid)
        && i.pack_size.into_u64() == p.size
        && i.pack_id.into_u16() == p.id
        && i.pack_group == p.group
        && i.pack_location.as_str() == p.location
        && format!("{:?}", i.pack_kind).to_lowercase().starts_with("content")
}

fn check_one(rec: &mut Rec, desc: &str, c: &jbk::reader::Container, w: &World, infos: &[indep::PackInfo], lost: &BTreeSet<u16>, order: &[usize]) {
    let mut all: Vec<(u16, u32)> = w.ask.packs.clone();
    all = order.iter().filter_map(|i| all.get(*i).copied()).collect();
    for (id, n) in all {
        let info = infos.iter().find(|i| i.id == id && i.kind == indep::Kind::Content).unwrap();
        let gone = lost.contains(&id);
        match guarded(|| c.get_pack(id.into())) {
            Ok(Ok(Some(MayMissPack::MISSING(p)))) => {
                if !gone {
                    rec.violation("available pack missing", format!("{desc}: pack {id}"));
                } else if !same_info(&p, info) {
                    rec.violation("wrong description", format!("{desc}: pack {id}: {} instead of {info:?}", info_repr(&p, true)));
                } else {
                    rec.count("missing_packs", 1);
                }
            }
            Ok(Ok(Some(MayMissPack::FOUND(_)))) if !gone => rec.count("found_packs", 1),
            Ok(Ok(Some(MayMissPack::FOUND(_)))) => rec.violation("unavailable pack found", format!("{desc}: pack {id}")),
            Ok(Ok(None)) => rec.violation("pack unknown", format!("{desc}: pack {id}")),
            Ok(Err(e)) => rec.violation("pack error", format!("{desc}: pack {id} gone={gone}: {e:?}")),
            Err(e) => rec.violation("panic", format!("{desc}: pack {id} gone={gone}: {e}")),
        }
        for i in 0..n + 2 {
            let a = jbk::ContentAddress::new(id.into(), i.into());
            let k = format!("pack{id}/{i}");
            match guarded(|| c.get_bytes(a)) {
                Err(e) => rec.violation("panic", format!("{desc}: content {id}/{i} gone={gone}: {e}")),
                Ok(Err(e)) => rec.violation("content error", format!("{desc}: content {id}/{i} gone={gone}: {e:?}")),
                Ok(Ok(None)) => rec.violation("content unknown", format!("{desc}: content {id}/{i} gone={gone}")),
                Ok(Ok(Some(MayMissPack::MISSING(p)))) => {
                    if !gone {
                        rec.violation("available content missing", format!("{desc}: content {id}/{i}"));
                    } else if !same_info(&p, info) {
                        rec.violation("wrong description", format!("{desc}: content {id}/{i}: {} instead of {info:?}", info_repr(&p, true)));
                    } else {
                        rec.count("missing_contents", 1);
                    }
                }
                Ok(Ok(Some(MayMissPack::FOUND(x)))) => {
                    if gone {
                        rec.violation("unavailable content found", format!("{desc}: content {id}/{i}"));
                        continue;
                    }
                    match (x, w.dump.get(&k)) {
                        (None, Some(Item::Val(v))) if v == "no such content" => rec.count("past_end", 1),
                        (Some(reg), Some(Item::Val(v))) if *v == format!("size {}", reg.size().into_u64()) => {
                            match (read_region(&reg), w.contents.get(&(id, i))) {
                                (Ok(b), Some(Ok(e))) if b == *e => rec.count("contents_read", 1),
                                (g, e) => rec.violation("content bytes", format!("{desc}: content {id}/{i}: {:?} / {:?}", g.map(|b| b.len()), e.map(|e| e.as_ref().map(|b| b.len())))),
                            }
                        }
                        (x, e) => rec.violation("content differs", format!("{desc}: content {id}/{i}: {:?} instead of {e:?}", x.map(|r| r.size().into_u64()))),
                    }
                }
            }
            if rec.violations.len() > 4 {
                return;
            }
        }
    }
    // ids which are in no manifest
    for id in [0u16, 6, 99, 101, 254, 257, 999, 65533, 65535] {
        if !infos.iter().any(|i| i.id == id && i.kind == indep::Kind::Content) {
            match guarded(|| c.get_pack(id.into()).map(|x| x.is_none())) {
                Ok(Ok(true)) => rec.count("unknown_packs", 1),
                o => rec.violation("unknown pack", format!("{desc}: pack {id}: {o:?}")),
            }
            match guarded(|| c.get_bytes(jbk::ContentAddress::new(id.into(), 0.into())).map(|x| x.is_none())) {
                Ok(Ok(true)) => {}
                o => rec.violation("unknown pack", format!("{desc}: content of pack {id}: {o:?}")),
            }
        }
    }
    // entries
    match guarded(|| {
        let ask = Ask { indexes: w.ask.indexes.clone(), packs: vec![] };
        dump_container(c, &ask, OPTS).0
    }) {
        Err(e) => rec.violation("panic", format!("{desc}: entries: {e}")),
        Ok(d) => {
            for (k, v) in &w.dump {
                if !k.starts_with("pack") && d.get(k) != Some(v) {
                    rec.violation("entry differs", format!("{desc}: {k}: {:?} instead of {v:?}", d.get(k)));
                }
            }
            rec.count("entry_items", d.len() as u64);
        }
    }
}

fn one(rec: &mut Rec, r: &mut Rng, k: u64) {
    let mode = [Mode::Two, Mode::No, Mode::One][(k % 3) as usize];
    let ne = if mode == Mode::One { 1 + r.us(4) } else { r.us(4) };
    let spec = gen_multi(r, mode, ne, 1500);
    let w = match world("c11", spec) { Ok(w) => w, Err(e) => return rec.violation("creation", e) };
    let d = read(&w.built.path);
    let d = match indep::decode_file(&d) { Ok(d) => d, Err(e) => return rec.violation("undecodable", e) };
    let infos = d.manifest().unwrap().1.packs.clone();
    // packs which are in files of their own
    let apart: Vec<&indep::PackInfo> = infos.iter().filter(|i| i.kind == indep::Kind::Content && !i.location.is_empty()).collect();
    let keep = w.sc.u("keep");
    std::fs::create_dir_all(&keep).unwrap();
    let path = |i: &indep::PackInfo| w.sc.u("").join(&i.location);
    for i in &apart {
        std::fs::rename(path(i), keep.join(i.id.to_string())).unwrap();
    }
    let n = apart.len();
    let subsets: Vec<u32> = if n <= 3 { (0..1u32 << n).collect() } else { (0..8).map(|_| r.below(1 << n) as u32).chain([(1 << n) - 1]).collect() };
    for s in subsets {
        let mut lost = BTreeSet::new();
        let mut how = vec![];
        let mut infos = infos.clone();
        let mut back = vec![];
        for (b, i) in apart.iter().enumerate() {
            let p = path(i);
            let _ = std::fs::remove_file(&p);
            let _ = std::fs::remove_dir_all(&p);
            if s >> b & 1 == 0 {
                std::fs::copy(keep.join(i.id.to_string()), &p).unwrap();
                continue;
            }
            lost.insert(i.id);
            how.push(match r.below(10) {
                0 | 1 => "removed",
                8 | 9 => {
                    // the pack stays where it was, but the manifest does not tell so anymore
                    std::fs::copy(keep.join(i.id.to_string()), &p).unwrap();
                    let long = "l".repeat(213);
                    let to = *r.pick(&["", "", "", "/", ".", "..", "nowhere/at/all", "a\0b", "日本", long.as_str()]);
                    match guarded(|| jbk::tools::set_location(&w.built.path, uuid_of(&i.uuid), to.into()).map_err(|e| format!("{e:?}"))) {
                        Ok(Ok(Some(_))) => {}
                        o => return rec.violation("setup", format!("set_location: {o:?}")),
                    }
                    back.push(*i);
                    infos.iter_mut().find(|x| x.uuid == i.uuid).unwrap().location = to.into();
                    if to.is_empty() { "no location" } else { "wrong location" }
                }
                2 => { std::fs::create_dir(&p).unwrap(); "directory" }
                3 => {
                    match foreign_pack(r, &keep) { Ok(b) => std::fs::write(&p, b).unwrap(), Err(e) => return rec.violation("setup", e) }
                    "another pack"
                }
                4 => {
                    let t = keep.join("t");
                    match foreign_pack(r, &keep) { Ok(b) => std::fs::write(&t, b).unwrap(), Err(e) => return rec.violation("setup", e) }
                    if let Err(e) = jbk::tools::concat(&[&t, &t], &p) { return rec.violation("setup", format!("{e:?}")) }
                    "a container without it"
                }
                5 => { std::os::unix::fs::symlink(keep.join("does-not-exist"), &p).unwrap(); "dangling link" }
                6 => {
                    // some other pack of the same container
                    let o = apart[r.us(n)];
                    if o.id == i.id { std::fs::copy(&w.built.path, &p).unwrap(); "the manifest's own file" } else {
                        std::fs::copy(keep.join(o.id.to_string()), &p).unwrap();
                        "another pack of the container"
                    }
                }
                _ => {
                    std::fs::write(&p, b"").unwrap();
                    std::fs::remove_file(&p).unwrap();
                    "removed"
                }
            });
        }
        // the manifest's own file at a content location: in OneFile mode it may hold the wanted pack
        let desc = format!("{mode:?} packs {:?} lost {lost:?} ({how:?})", w.ask.packs);
        let mut order: Vec<usize> = (0..w.ask.packs.len()).collect();
        r.shuffle(&mut order);
        match guarded(|| jbk::reader::Container::new(&w.built.path).map_err(|e| format!("{e:?}"))) {
            Ok(Ok(c)) => {
                check_one(rec, &desc, &c, &w, &infos, &lost, &order);
                match guarded(|| c.check().map_err(|e| format!("{e:?}"))) {
                    Ok(Ok(true)) => rec.count("checks_true", 1),
                    o => rec.violation("container check", format!("{desc}: {o:?}")),
                }
                // a second look gives the same answers
                if r.chance(1, 4) {
                    r.shuffle(&mut order);
                    check_one(rec, &format!("{desc} (again)"), &c, &w, &infos, &lost, &order);
                }
            }
            o => rec.violation("container does not open", format!("{desc}: {:?}", o.map(|x| x.map(|_| ())))),
        }
        // through a locator which knows only the available ones
        if r.chance(1, 3) {
            let mut packs: Vec<_> = apart.iter().filter(|i| !lost.contains(&i.id)).map(|i| (uuid_of(&i.uuid), keep.join(i.id.to_string()))).collect();
            for i in infos.iter().filter(|i| i.kind == indep::Kind::Directory && !i.location.is_empty()) {
                packs.push((uuid_of(&i.uuid), path(i)));
            }
            // packs wrapped in a container file cannot be handed as such: only plain ones
            let plain = packs.iter().all(|p| indep::decode_file(&read(&p.1)).is_ok_and(|f| f.container.is_none()));
            if plain {
                match guarded(|| jbk::reader::Container::new_with_locator(&w.built.path, Arc::new(Only { packs })).map_err(|e| format!("{e:?}"))) {
                    Ok(Ok(c)) => {
                        check_one(rec, &format!("{desc} through a locator"), &c, &w, &infos, &lost, &order);
                        rec.count("locator_worlds", 1);
                    }
                    o => rec.violation("container does not open", format!("{desc} through a locator: {:?}", o.map(|x| x.map(|_| ())))),
                }
            }
        }
        // damage to a pack which is present is seen by the check of the container
        let present: Vec<&&indep::PackInfo> = apart.iter().filter(|i| !lost.contains(&i.id)).collect();
        if !present.is_empty() {
            let i = *r.pick(&present);
            let mut b = read(path(i));
            if let Ok(f) = indep::decode_file(&b) {
                if let Some(p) = f.pack(&i.uuid) {
                    let at = p.offset + r.below(p.header.check_pos);
                    b[at as usize] ^= 1 << r.below(8);
                    std::fs::write(path(i), &b).unwrap();
                    match guarded(|| jbk::reader::Container::new(&w.built.path).and_then(|c| c.check()).map_err(|e| format!("{e:?}"))) {
                        Ok(Ok(true)) => rec.violation("damage not seen by the container check", format!("{desc}: pack {} byte {at}", i.id)),
                        _ => rec.count("damage_seen", 1),
                    }
                }
            }
        }
        for i in back {
            let _ = jbk::tools::set_location(&w.built.path, uuid_of(&i.uuid), i.location.as_str().into());
        }
        rec.case(hash64(format!("{desc} {k}").as_bytes()), !lost.is_empty());
        rec.max("packs_apart", n as u64);
        if !lost.is_empty() {
            rec.sample(desc.chars().take(300).collect());
        }
        if rec.violations.len() > 4 {
            return;
        }
    }
}

/// Garbage at the location of a pack: the container still opens, everything else still reads, never wrong bytes.
fn garbage(rec: &mut Rec, r: &mut Rng, k: u64) {
    let mode = [Mode::Two, Mode::No][(k % 2) as usize];
    let spec = { let n = 1 + r.us(3); gen_multi(r, mode, n, 1500) };
    let w = match world("c11g", spec) { Ok(w) => w, Err(e) => return rec.violation("creation", e) };
    let d = read(&w.built.path);
    let d = match indep::decode_file(&d) { Ok(d) => d, Err(e) => return rec.violation("undecodable", e) };
    let infos = d.manifest().unwrap().1.packs.clone();
    let apart: Vec<indep::PackInfo> = infos.iter().filter(|i| i.kind == indep::Kind::Content && !i.location.is_empty()).cloned().collect();
    let bad = r.pick(&apart).clone();
    let p = w.sc.u("").join(&bad.location);
    let orig = read(&p);
    let b = match r.below(5) {
        0 => vec![],
        1 => r.bytes(20),
        2 => { let n = r.us(5000); r.bytes(n) }
        3 => orig[..r.us(orig.len())].to_vec(),
        _ => vec![0; orig.len()],
    };
    let desc = format!("{mode:?} pack {} replaced by {} bytes which are no pack", bad.id, b.len());
    std::fs::write(&p, b).unwrap();
    match guarded(|| jbk::reader::Container::new(&w.built.path).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(c)) => {
            let ask = Ask { indexes: w.ask.indexes.clone(), packs: w.ask.packs.iter().filter(|p| p.0 != bad.id).copied().collect() };
            match guarded(|| dump_container(&c, &ask, OPTS)) {
                Err(e) => rec.violation("panic", format!("{desc}: {e}")),
                Ok((d, cs)) => {
                    let pre = format!("pack{}", bad.id);
                    for (k, v) in &w.dump {
                        if *k != pre && !k.starts_with(&format!("{pre}/")) && d.get(k) != Some(v) {
                            rec.violation("item differs", format!("{desc}: {k}: {:?} instead of {v:?}", d.get(k)));
                        }
                    }
                    for (k, v) in &w.contents {
                        if k.0 != bad.id && cs.get(k) != Some(v) {
                            rec.violation("content differs", format!("{desc}: {k:?}"));
                        }
                    }
                }
            }
            let n = w.ask.packs.iter().find(|p| p.0 == bad.id).unwrap().1;
            for i in 0..n {
                match guarded(|| c.get_bytes(jbk::ContentAddress::new(bad.id.into(), i.into())).map(|x| match x { Some(MayMissPack::FOUND(Some(_))) => 1, Some(MayMissPack::MISSING(_)) => 2, _ => 3 })) {
                    Err(e) => rec.violation("panic", format!("{desc}: content {i}: {e}")),
                    Ok(Ok(1)) => rec.violation("content of nothing", format!("{desc}: content {i} found")),
                    Ok(Ok(2)) => rec.count("garbage_missing", 1),
                    _ => rec.count("garbage_error", 1),
                }
            }
        }
        o => rec.violation("container does not open", format!("{desc}: {:?}", o.map(|x| x.map(|_| ())))),
    }
    rec.case(hash64(format!("{desc} {k}").as_bytes()), true);
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a container opened with at least one of its content packs unavailable; distinct by container and way of losing it".into();
    phase("subsets", 0.85, u64::MAX).min(48).run(ctx, |i, r, rec| one(rec, r, i));
    phase("garbage", 1.0, u64::MAX).min(32).run(ctx, |i, r, rec| garbage(rec, r, i));
    ctx.assumptions.push("unavailable: nothing at the recorded location, not a file, or a file holding only other packs; a location holding no pack at all may also answer with an error for that pack's contents".into());
}

//! C12: rewriting a pack location changes only that location; the manifest stays valid.
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::pack::*;
use crate::par::*;
use crate::util::*;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use jbk::Pack;

/// admissible: any UTF-8 text of at most 213 bytes
pub fn gen_location(r: &mut Rng) -> String {
    let max = match r.below(6) {
        0 => return String::new(),
        1 => *r.pick(&[1usize, 2, 211, 212, 213]),
        2 => 213,
        _ => r.us(214),
    };
    let alpha: Vec<char> = match r.below(4) {
        0 => "abcdefghijklmnopqrstuvwxyz/._-0123456789".chars().collect(),
        1 => "é日本😀\u{7f}\u{80}\u{7ff}\u{ffff}ß/ ".chars().collect(),
        2 => "\0\n\t jbkmdcC\u{1}".chars().collect(),
        _ => "a/".chars().collect(),
    };
    let mut s = String::new();
    loop {
        let c = *r.pick(&alpha);
        if s.len() + c.len_utf8() > max {
            break;
        }
        s.push(c);
    }
    s
}

/// A location, often a near variant of the one there (or the same).
fn next_location(r: &mut Rng, old: &str) -> String {
    let mut s = old.to_string();
    match r.below(12) {
        0 => {}
        1 => s = s.to_uppercase(),
        2 => s = s.to_lowercase(),
        3 => s = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        4 => { s.pop(); }
        5 => s.push(*r.pick(&['\0', ' ', '/', 'x', '\n'])),
        6 => s.insert(0, *r.pick(&['\0', ' ', '/', 'x', '.'])),
        7 => s = s.trim().trim_matches('\0').to_string(),
        8 if !s.is_empty() => {
            // another character in one place
            let mut v: Vec<char> = s.chars().collect();
            let i = r.us(v.len());
            v[i] = if v[i] == 'q' { 'r' } else { 'q' };
            s = v.into_iter().collect();
        }
        9 => s = s.chars().rev().collect(),
        _ => return gen_location(r),
    }
    if s.len() > 213 { gen_location(r) } else { s }
}

fn open_manifest(p: &Utf8Path) -> Result<jbk::reader::ManifestPack, String> {
    guarded(|| {
        let c = jbk::tools::open_pack(p).map_err(|e| format!("{e:?}"))?;
        let r = c.get_manifest_pack_reader().map_err(|e| format!("{e:?}"))?.ok_or("no manifest")?;
        jbk::reader::ManifestPack::new(r).map_err(|e| format!("{e:?}"))
    })?
}
fn infos(m: &jbk::reader::ManifestPack) -> Vec<(jbk::reader::PackInfo, Option<Vec<u8>>)> {
    let mut v = vec![m.get_directory_pack_info().clone()];
    v.extend(m.get_pack_infos().iter().cloned());
    v.into_iter().map(|i| { let f = m.get_pack_free_data_uuid(i.uuid).ok().flatten().map(|x| x.to_vec()); (i, f) }).collect()
}

/// A file holding a manifest, and where the packs it needs are.
struct Target {
    w: World,
    file: Utf8PathBuf,
    what: String,
    /// packs inside the file: their location does not matter to read them
    inside: Vec<indep::Uuid>,
}

fn gen_target(r: &mut Rng, k: u64) -> Result<Target, String> {
    let mode = Mode::ALL[(k % 3) as usize];
    let n_extra = r.us(4);
    let w = world("c12", gen_multi(r, mode, n_extra, 600))?;
    let ps = pieces(&w)?;
    let mut file = w.built.path.clone();
    let mut what = format!("{mode:?}+{n_extra}");
    match (k / 3) % 4 {
        0 => {}
        1 => {
            // everything of the directory side concatenated in one file, any order
            let mut v = vec![w.built.path.clone()];
            v.extend(list(&w.sc).into_iter().filter(|p| *p != w.built.path && r.bool()));
            r.shuffle(&mut v);
            let out = w.sc.u("concat.jbk");
            jbk::tools::concat(&v, &out).map_err(|e| format!("concat: {e:?}"))?;
            what += &format!(" concat of {}", v.len());
            file = out;
        }
        2 => {
            let mut b = prefix(r);
            what += &format!(" behind {} bytes", b.len());
            b.extend(read(&file));
            file = w.sc.u("carrier.bin");
            std::fs::write(&file, b).unwrap();
        }
        _ => {
            // the manifest alone in its file, everything else beside it
            file = w.sc.u("alone.jbkm");
            let mut b = if r.bool() { prefix(r) } else { vec![] };
            what += &format!(" manifest alone behind {} bytes", b.len());
            b.extend_from_slice(&ps[0].bytes);
            std::fs::write(&file, b).unwrap();
        }
    }
    let d = indep::decode_file(&read(&file))?;
    let inside = d.packs.iter().map(|p| p.header.uuid).collect();
    Ok(Target { w, file, what, inside })
}

/// The same rewrite by `jbk locate`, on a copy of the file as it was: it must come out the same.
#[allow(clippy::too_many_arguments)]
fn tool_rewrite(rec: &mut Rec, t: &Target, before: &[u8], after: &[u8], uuid: uuid::Uuid, known: bool, loc: &str, d: &str) -> bool {
    let p = t.w.sc.u("by-the-tool.jbk");
    std::fs::write(&p, before).unwrap();
    let limit = std::time::Duration::from_secs(60);
    let u = uuid.to_string();
    let Some(o) = crate::cli::run(&["locate", "--", p.as_str(), &u, loc], limit) else { return true };
    let got = read(&p);
    if let Some(b) = o.broke() {
        rec.violation("jbk locate broke down", format!("{d}: {b}"));
        return false;
    }
    if got != after {
        rec.violation("jbk locate rewrites differently", format!("{d}: {}; it said {:?} {:?}", diff(after, &got), o.out, o.err));
        return false;
    }
    rec.count(if known { "tool_rewrites" } else { "tool_unknown_packs" }, 1);
    // asking changes nothing and tells the location there is now
    let plain = !loc.is_empty() && loc.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !t.w.sc.u(loc).exists();
    let Some(o) = crate::cli::run(&["locate", "--", p.as_str(), &u], limit) else { return true };
    if read(&p) != got {
        rec.violation("jbk locate changes the file it is asked about", format!("{d}: {}", diff(&got, &read(&p))));
        return false;
    }
    if known && plain {
        // (it has nothing to say about the directory pack)
        if !o.out.is_empty() && !o.out.contains(loc) {
            rec.violation("jbk locate tells another location", format!("{d}: {:?} {:?}", o.out, o.err));
            return false;
        }
        rec.count("tool_tells_location", !o.out.is_empty() as u64);
    }
    let _ = std::fs::remove_file(&p);
    true
}

fn rewrites(rec: &mut Rec, r: &mut Rng, k: u64) {
    let t = match gen_target(r, k) {
        Ok(t) => t,
        Err(e) => return rec.violation("setup", e),
    };
    let desc = t.what.clone();
    let pristine = read(&t.file);
    let d = match indep::decode_file(&pristine) {
        Ok(d) => d,
        Err(e) => return rec.violation("undecodable", format!("{desc}: {e}")),
    };
    let (mp, m) = d.manifest().unwrap();
    let ps: Vec<_> = m.packs.clone();
    let start = match open_manifest(&t.file) {
        Ok(m) => infos(&m),
        Err(e) => return rec.violation("manifest does not open", format!("{desc}: {e}")),
    };
    let mut locs: Vec<String> = ps.iter().map(|p| p.location.clone()).collect();
    let openable = try_dump(&t.file, &t.w.ask).is_ok();
    let mut before = pristine.clone();
    let n = 1 + r.us(8);
    for step in 0..n {
        let what = r.below(12);
        let (uuid, target): (uuid::Uuid, Option<usize>) = match what {
            0 => (uuid::Uuid::from_bytes(r.bytes(16).try_into().unwrap()), None),
            1 => (uuid_of(&mp.header.uuid), None),
            2 => {
                // one bit away from a pack which is there
                let mut u = r.pick(&ps).uuid;
                let b = r.us(128);
                u[b / 8] ^= 1 << (b % 8);
                if ps.iter().any(|p| p.uuid == u) { continue }
                (uuid_of(&u), None)
            }
            _ => { let i = r.us(ps.len()); (uuid_of(&ps[i].uuid), Some(i)) }
        };
        let long = r.chance(1, 16);
        let loc = if long { "L".repeat(*r.pick(&[214usize, 215, 217, 255, 256, 300])) } else { match target { Some(i) => next_location(r, &locs[i]), None => gen_location(r) } };
        let d = format!("{desc}: step {step}: {uuid} -> {} bytes {loc:?}", loc.len());
        let res = guarded(|| jbk::tools::set_location(&t.file, uuid, loc.as_str().into()).map_err(|e| format!("{e:?}")));
        let after = read(&t.file);
        rec.count("rewrites", 1);
        if long && target.is_some() {
            // not admissible: whatever the answer, the manifest is not to be harmed
            match open_manifest(&t.file).and_then(|m| m.check().map_err(|e| format!("{e:?}"))) {
                Ok(true) => {}
                o => rec.violation("harmed by a too long location", format!("{d}: {o:?}")),
            }
            if after != before {
                rec.violation("altered by a too long location", format!("{d}: {}", diff(&before, &after)));
                return;
            }
            rec.count("too_long_refused", 1);
            continue;
        }
        let res = match res {
            Ok(Ok(v)) => v,
            o => return rec.violation("set_location failed", format!("{d}: {o:?}")),
        };
        if k % 4 == 1 && r.chance(1, 3) && !loc.contains('\0') && !tool_rewrite(rec, &t, &before, &after, uuid, target.is_some(), &loc, &d) {
            return;
        }
        match target {
            None => {
                rec.count("unknown_packs", 1);
                if let Some(x) = res {
                    rec.violation("unknown pack accepted", format!("{d}: {x:?}"));
                }
                if after != before {
                    return rec.violation("unknown pack changed the file", format!("{d}: {}", diff(&before, &after)));
                }
            }
            Some(i) => {
                match res {
                    None => return rec.violation("known pack refused", d),
                    Some((_, old)) if old.as_str() != locs[i] => rec.violation("wrong old location", format!("{d}: {old:?} instead of {:?}", locs[i])),
                    Some(_) => {}
                }
                locs[i] = loc.clone();
                // only the location field of that pack and its block's CRC may differ
                if after.len() != before.len() {
                    return rec.violation("file size changed", format!("{d}: {} -> {}", before.len(), after.len()));
                }
                // `pos` of a decoded pack info is relative to the pack
                let base = (mp.offset + ps[i].pos) as usize;
                for (p, (a, b)) in before.iter().zip(&after).enumerate() {
                    if a != b && !(base + 38..base + 256).contains(&p) {
                        return rec.violation("byte outside of the location changed", format!("{d}: byte {p}, pack info at {base}"));
                    }
                }
                rec.max("location_len", loc.len() as u64);
            }
        }
        // an independent look: every block still verifies and only the locations changed
        match indep::decode_file(&after) {
            Err(e) => return rec.violation("undecodable after rewrite", format!("{d}: {e}")),
            Ok(f) => {
                let m2 = f.manifest().unwrap().1;
                for (i, (a, b)) in ps.iter().zip(&m2.packs).enumerate() {
                    let mut a = a.clone();
                    a.location = locs[i].clone();
                    if format!("{a:?}") != format!("{b:?}") || m2.packs.len() != ps.len() {
                        rec.violation("pack description changed", format!("{d}: {b:?} instead of {a:?}"));
                    }
                }
            }
        }
        match open_manifest(&t.file) {
            Err(e) => return rec.violation("manifest does not open", format!("{d}: {e}")),
            Ok(m) => {
                match guarded(|| m.check()) {
                    Ok(Ok(true)) => rec.count("manifest_checks_true", 1),
                    o => return rec.violation("manifest check", format!("{d}: {o:?}")),
                }
                let now = infos(&m);
                if now.len() != start.len() {
                    rec.violation("pack count changed", format!("{d}: {}", now.len()));
                }
                for (a, b) in start.iter().zip(&now) {
                    let i = ps.iter().position(|p| uuid_of(&p.uuid) == a.0.uuid).unwrap();
                    if b.0.pack_location.as_str() != locs[i] {
                        rec.violation("location read back", format!("{d}: {:?} instead of {:?}", b.0.pack_location.as_str(), locs[i]));
                    }
                    if info_repr(&a.0, false) != info_repr(&b.0, false) || a.1 != b.1 {
                        rec.violation("pack description changed", format!("{d}: {} instead of {}", info_repr(&b.0, false), info_repr(&a.0, false)));
                    }
                }
            }
        }
        before = after;
        if rec.violations.len() > 3 {
            return;
        }
    }
    // Everything inside the file still reads whatever the locations say (separate packs may be lost).
    let all_inside = ps.iter().all(|p| t.inside.contains(&p.uuid));
    if openable && all_inside {
        match try_dump(&t.file, &t.w.ask) {
            Err(e) => rec.violation("container does not open", format!("{desc}: {e}")),
            Ok((d, c)) => {
                for x in dump_eq(&t.w.dump, &d).into_iter().chain(contents_eq(&t.w.contents, &c)).take(3) {
                    rec.violation("content changed", format!("{desc}: {x}"));
                }
                rec.count("full_dumps", 1);
            }
        }
        match try_check(&t.file) {
            Ok(true) => {}
            o => rec.violation("container check", format!("{desc}: {o:?}")),
        }
    }
    rec.case(hash64(format!("{desc} {locs:?}").as_bytes()), n > 0);
    rec.sample(format!("{desc}; {n} rewrites, last locations {:?}", locs.iter().map(|l| l.chars().take(12).collect::<String>()).collect::<Vec<_>>()));
}

/// Move the packs beside the manifest elsewhere, tell the manifest, everything reads.
fn moves(rec: &mut Rec, r: &mut Rng, k: u64) {
    let mode = [Mode::Two, Mode::No][(k % 2) as usize];
    let ne = 1 + r.us(3);
    let w = match gen_multi_world(r, mode, ne) {
        Ok(w) => w,
        Err(e) => return rec.violation("setup", e),
    };
    let ps = match pieces(&w) { Ok(p) => p, Err(e) => return rec.violation("setup", e) };
    let desc = format!("moves {mode:?}+{ne}");
    let mut cur: Vec<(usize, String)> = ps.iter().enumerate().filter(|(i, p)| *i > 0 && !p.location.is_empty()).map(|(i, p)| (i, p.location.clone())).collect();
    let rounds = 1 + r.us(3);
    for round in 0..rounds {
        for (i, loc) in cur.iter_mut() {
            if r.chance(1, 3) {
                continue;
            }
            let name = match r.below(5) {
                0 => format!("sub{round}/p{i}.jbk"),
                1 => format!("日本 é{round}-{i}"),
                2 => format!("./x/../p{round}{i}.bin"),
                3 => { let n = 213 - 12; format!("{}/p{round}{i:02}.bin", "d".repeat(n)) }
                _ => format!("{}", w.sc.u(&format!("abs{round}-{i}"))),
            };
            if name.len() > 213 {
                continue;
            }
            let to = w.sc.u("").join(&name);
            let _ = std::fs::create_dir_all(w.sc.u("x"));
            std::fs::create_dir_all(to.parent().unwrap()).unwrap();
            std::fs::rename(w.sc.u("").join(&*loc), &to).unwrap();
            match guarded(|| jbk::tools::set_location(&w.built.path, uuid_of(&ps[*i].uuid), name.as_str().into()).map_err(|e| format!("{e:?}"))) {
                Ok(Ok(Some((_, old)))) if old.as_str() == loc.as_str() => {}
                o => return rec.violation("set_location failed", format!("{desc}: {name:?} {o:?} (old {loc:?})")),
            }
            *loc = name;
            rec.count("moves", 1);
        }
        match try_dump(&w.built.path, &w.ask) {
            Err(e) => return rec.violation("container does not open", format!("{desc}: {cur:?}: {e}")),
            Ok((d, c)) => {
                for x in dump_eq(&w.dump, &d).into_iter().chain(contents_eq(&w.contents, &c)).take(3) {
                    rec.violation("content changed", format!("{desc}: {cur:?}: {x}"));
                }
                rec.count("full_dumps", 1);
            }
        }
        match try_check(&w.built.path) {
            Ok(true) => {}
            o => rec.violation("container check", format!("{desc}: {cur:?}: {o:?}")),
        }
    }
    rec.case(hash64(format!("{desc} {cur:?}").as_bytes()), true);
    rec.sample(format!("{desc} {cur:?}").chars().take(200).collect());
}
fn gen_multi_world(r: &mut Rng, mode: Mode, ne: usize) -> Result<World, String> {
    world("c12m", gen_multi(r, mode, ne, 600))
}

/// Manifests made through the manifest creator: many packs, free data, any first location.
fn made(rec: &mut Rec, r: &mut Rng) {
    let sc = Scratch::new("c12k");
    let n = match r.below(8) { 0 => 1, 1 => 200, 2 => 254 + r.us(5), 3 => 300 + r.us(400), _ => 2 + r.us(20) };
    let mut mc = jbk::creator::ManifestPackCreator::new(VENDOR, Default::default());
    let pb = match build_pack(&sc.u("p.jbkc"), 1, Comp::None, &[], false, Sink::Named, std::sync::Arc::new(())) {
        Ok(p) => p,
        Err(e) => return rec.violation("setup", e),
    };
    let (dd, _) = match build_directory(&DirSpec::default(), &sc.u("d.jbkd")) {
        Ok(x) => x,
        Err(e) => return rec.violation("setup", e),
    };
    let mut uuids = vec![];
    let dpos = r.us(n);
    for i in 0..n {
        let mut u = [0u8; 16];
        u.copy_from_slice(&r.bytes(16));
        let u = uuid::Uuid::from_bytes(u);
        uuids.push(u);
        let (kind, id) = if i == dpos { (dd.pack_kind, 0u16) } else { (pb.data.pack_kind, i as u16 + 1) };
        let nf = if n > 250 { 6 + r.us(3) } else { *r.pick(&[0usize, 1, 24, 200]) };
        let data = jbk::creator::PackData {
            uuid: u, pack_size: (r.u64() >> 20).into(), pack_kind: kind, pack_id: id.into(), free_data: r.bytes(nf),
            check_info: if r.bool() { pb.data.check_info } else { dd.check_info },
        };
        mc.add_pack(data, gen_location(r));
    }
    let file = sc.u("m.jbkm");
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&file).unwrap();
    match guarded(|| mc.finalize(&mut f).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(_)) => {}
        o => return rec.violation("setup", format!("manifest of {n} packs: {o:?}")),
    }
    drop(f);
    let m = match open_manifest(&file) { Ok(m) => m, Err(e) => return rec.violation("manifest does not open", e) };
    let start = infos(&m);
    let mut locs: std::collections::HashMap<uuid::Uuid, String> = start.iter().map(|i| (i.0.uuid, i.0.pack_location.as_str().to_string())).collect();
    let steps = 1 + r.us(6);
    for s in 0..steps {
        let u = match r.below(4) { 0 => uuids[0], 1 => uuids[n - 1], _ => *r.pick(&uuids) };
        let loc = next_location(r, &locs[&u]);
        let d = format!("made manifest of {n} packs, step {s}, {u} -> {loc:?}");
        match guarded(|| jbk::tools::set_location(&file, u, loc.as_str().into()).map_err(|e| format!("{e:?}"))) {
            Ok(Ok(Some((_, old)))) if old.as_str() == locs[&u] => {}
            o => return rec.violation("set_location failed", format!("{d}: {o:?}")),
        }
        locs.insert(u, loc);
        rec.count("rewrites", 1);
        match open_manifest(&file) {
            Err(e) => return rec.violation("manifest does not open", format!("{d}: {e}")),
            Ok(m) => {
                match guarded(|| m.check()) {
                    Ok(Ok(true)) => rec.count("manifest_checks_true", 1),
                    o => return rec.violation("manifest check", format!("{d}: {o:?}")),
                }
                for (a, b) in start.iter().zip(&infos(&m)) {
                    if b.0.pack_location.as_str() != locs[&a.0.uuid] || info_repr(&a.0, false) != info_repr(&b.0, false) || a.1 != b.1 {
                        rec.violation("pack description changed", format!("{d}: {} instead of {}", info_repr(&b.0, true), info_repr(&a.0, true)));
                    }
                }
            }
        }
    }
    rec.max("packs_in_manifest", n as u64);
    rec.case(hash64(format!("{n} {locs:?}").as_bytes()), true);
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a sequence of at least one rewrite on a manifest; distinct by packaging and the final locations".into();
    phase("rewrites", 0.6, u64::MAX).min(96).run(ctx, |i, r, rec| rewrites(rec, r, i));
    phase("moves", 0.85, u64::MAX).min(24).run(ctx, |i, r, rec| moves(rec, r, i));
    phase("made", 1.0, u64::MAX).min(24).run(ctx, |_, r, rec| made(rec, r));
    ctx.assumptions.push("a location is admissible when it is UTF-8 text of at most 213 bytes (the width of its field)".into());
}

//! Packaging tools shared by the monitors: build a container with its packs as separate files, assemble, move.
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::util::*;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use std::sync::Arc;

/// One small container with 1..=3 content packs (ids may be far apart), built in `mode`.
pub fn gen_multi(r: &mut Rng, mode: Mode, n_extra: usize, max_content: usize) -> ContainerSpec {
    let mut cfg = GenCfg::small();
    cfg.words = false;
    let comp = gen_comp(r, true);
    let some = |r: &mut Rng, lo: usize, hi: usize| {
        let n = r.range(lo as u64, hi as u64) as usize;
        (0..n).map(|_| gen_content(r, max_content)).collect::<Vec<_>>()
    };
    let contents = some(r, 0, 6);
    let mut ids: Vec<u16> = vec![];
    let mut extra = vec![];
    for _ in 0..n_extra {
        let id = loop {
            let id = *r.pick(&[2u16, 3, 4, 5, 7, 100, 255, 256, 1000, 65534, 65535]);
            if !ids.contains(&id) {
                break id;
            }
        };
        ids.push(id);
        extra.push((id, gen_comp(r, true), some(r, 0, 5)));
    }
    cfg.n_contents = vec![(1, contents.len() as u32)];
    cfg.n_contents.extend(extra.iter().map(|e| (e.0, e.2.len() as u32)));
    let dir = gen_dir(r, &cfg);
    ContainerSpec { comp, mode, contents, extra, dir, dedup: r.chance(1, 4) }
}

pub struct World {
    pub sc: Scratch,
    pub spec: ContainerSpec,
    pub built: Built,
    pub ask: Ask,
    /// dump of the container as created
    pub dump: Dump,
    pub contents: Contents,
}
pub const OPTS: DumpOpts = DumpOpts { typed: false, content_bytes: true };

/// Build a container and its dump, which must match the model for contents.
pub fn world(tag: &str, spec: ContainerSpec) -> Result<World, String> {
    let sc = Scratch::new(tag);
    let built = build_simple(&spec, &sc.u("c.jbk"))?;
    let _ = std::fs::remove_dir_all(sc.p("inputs"));
    let ask = ask_container(&spec, &built);
    let (dump, contents) = open_dump(built.path.as_std_path(), &ask, OPTS)?;
    verify_model(&spec, &built, &dump, &contents)?;
    Ok(World { sc, spec, built, ask, dump, contents })
}

/// Contents and entries of a dump against the model.
pub fn verify_model(spec: &ContainerSpec, b: &Built, dump: &Dump, contents: &Contents) -> Result<(), String> {
    let mut all = vec![(1u16, &spec.contents, &b.addrs)];
    for ((id, _, c), a) in spec.extra.iter().zip(&b.extra_addrs) {
        all.push((*id, c, a));
    }
    for (id, cs, addrs) in all {
        for (c, a) in cs.iter().zip(addrs) {
            if a.0 != id {
                return Err(format!("address {a:?} of pack {id}"));
            }
            match contents.get(a) {
                Some(Ok(v)) if v == c.data.as_slice() => {}
                Some(Ok(v)) => return Err(format!("content {a:?}: {}", diff(v, &c.data))),
                o => return Err(format!("content {a:?} {c:?}: {o:?}")),
            }
        }
    }
    // entries as multisets (sorted stores come in another order)
    for (n, i) in spec.dir.indexes.iter().enumerate() {
        let s = &spec.dir.stores[i.store];
        if i.count as usize != s.entries.len() || spec.dir.indexes.iter().position(|x| x.name == i.name) != Some(n) {
            continue;
        }
        let mut want: Vec<_> = s.entries.iter().map(|e| tuple_of_spec(s, e)).collect();
        let mut got = vec![];
        for e in 0..i.count {
            got.push(tuple_of_dump(dump, s, &format!("index{n}[{}]#{e}", i.name))?);
        }
        want.sort();
        got.sort();
        if want != got {
            return Err(format!("entries of index {n}: {got:?} instead of {want:?}"));
        }
    }
    Ok(())
}

/// Differences between two dumps over all their keys.
pub fn dump_eq(a: &Dump, b: &Dump) -> Vec<String> {
    let mut v = vec![];
    for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
        if a.get(k) != b.get(k) {
            v.push(format!("{k}: {:?} / {:?}", a.get(k), b.get(k)));
        }
    }
    v
}
pub fn contents_eq(a: &Contents, b: &Contents) -> Vec<String> {
    let mut v = vec![];
    for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
        match (a.get(k), b.get(k)) {
            (Some(Ok(x)), Some(Ok(y))) if x == y => {}
            (Some(Ok(x)), Some(Ok(y))) => v.push(format!("content {k:?}: {}", diff(x, y))),
            (x, y) => v.push(format!("content {k:?}: {:?} / {:?}", x.map(|x| x.as_ref().map(|b| b.len())), y.map(|x| x.as_ref().map(|b| b.len())))),
        }
    }
    v
}

pub fn uuid_of(u: &indep::Uuid) -> uuid::Uuid {
    uuid::Uuid::from_bytes(*u)
}

/// A pack taken out of whatever file holds it.
#[derive(Clone)]
pub struct Piece {
    pub uuid: indep::Uuid,
    pub kind: indep::Kind,
    pub id: Option<u16>,
    pub bytes: Arc<Vec<u8>>,
    pub location: String,
}

/// The manifest and every pack of the container, cut out of the files with the independent decoder.
pub fn pieces(w: &World) -> Result<Vec<Piece>, String> {
    let mut files = vec![read(&w.built.path)];
    for p in list(&w.sc) {
        if p != w.built.path {
            files.push(read(&p));
        }
    }
    let mut all: Vec<Piece> = vec![];
    for f in &files {
        let d = indep::decode_file(f)?;
        for p in &d.packs {
            let (a, b) = (p.offset as usize, (p.offset + p.header.size) as usize);
            all.push(Piece { uuid: p.header.uuid, kind: p.header.kind, id: None, bytes: Arc::new(f[a..b].to_vec()), location: String::new() });
        }
    }
    let d = indep::decode_file(&files[0])?;
    let (_, m) = d.manifest().ok_or("no manifest")?;
    for i in &m.packs {
        let p = all.iter_mut().find(|p| p.uuid == i.uuid).ok_or("pack of the manifest is in no file")?;
        p.id = Some(i.id);
        p.location = i.location.clone();
    }
    // manifest first, then in the manifest's order
    let mut out: Vec<Piece> = all.iter().filter(|p| p.kind == indep::Kind::Manifest).cloned().collect();
    for i in &m.packs {
        out.push(all.iter().find(|p| p.uuid == i.uuid).unwrap().clone());
    }
    Ok(out)
}

/// Regular files of the scratch directory
pub fn list(sc: &Scratch) -> Vec<Utf8PathBuf> {
    let mut v: Vec<_> = std::fs::read_dir(&sc.0).unwrap().map(|e| Utf8PathBuf::from_path_buf(e.unwrap().path()).unwrap()).filter(|p| p.is_file()).collect();
    v.sort();
    v
}

/// Container open + dump, everything guarded.
pub fn try_dump(p: &Utf8Path, ask: &Ask) -> Result<(Dump, Contents), String> {
    guarded(|| open_dump(p.as_std_path(), ask, OPTS))?
}
pub fn try_check(p: &Utf8Path) -> Result<bool, String> {
    guarded(|| jbk::reader::Container::new(p).and_then(|c| c.check()).map_err(|e| format!("{e:?}")))?
}

/// the bytes at the front of a carrier file: anything but something which looks like a pack
pub fn prefix(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 1,
        1 => *r.pick(&[63usize, 64, 65, 127, 128, 129, 4095, 4096, 4097]),
        2 => r.us(100_000),
        _ => r.us(700),
    };
    let mut v = match r.below(4) {
        0 => vec![0u8; n],
        1 => { let mut v = r.bytes(n); if v.len() >= 4 { v[..4].copy_from_slice(b"\x7fELF"); } v }
        2 => b"#!/bin/sh\nexec something --long\n".iter().cycle().take(n).copied().collect(),
        _ => r.bytes(n),
    };
    if v.starts_with(b"jbk") {
        v[0] = b'J';
    }
    v
}

/// Write a location into a manifest's bytes (own code, with the block's CRC).
pub fn patch_location(manifest: &mut [u8], info_pos: usize, loc: &str) {
    let b = loc.as_bytes();
    assert!(b.len() <= 213);
    let f = &mut manifest[info_pos + 38..info_pos + 252];
    f.fill(0);
    f[0] = b.len() as u8;
    f[1..1 + b.len()].copy_from_slice(b);
    let c = indep::crc(&manifest[info_pos..info_pos + 252]);
    manifest[info_pos + 252..info_pos + 256].copy_from_slice(&c.to_be_bytes());
}
/// The manifest piece with the location of each pack (by uuid) replaced.
pub fn relocate(m: &Piece, locs: &[(indep::Uuid, String)]) -> Result<Vec<u8>, String> {
    let mut b = m.bytes.as_ref().clone();
    let p = indep::decode_pack(&b, 0)?;
    let indep::Body::Manifest(mm) = &p.body else { return Err("not a manifest".into()) };
    for i in &mm.packs {
        if let Some((_, l)) = locs.iter().find(|l| l.0 == i.uuid) {
            patch_location(&mut b, i.pos as usize, l);
        }
    }
    Ok(b)
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
/// A content pack which has nothing to do with the container.
pub fn foreign_pack(r: &mut Rng, dir: &Utf8Path) -> Result<Vec<u8>, String> {
    let n = 1 + r.us(4);
    let c: Vec<_> = (0..n).map(|_| gen_content(r, 300)).collect();
    let p = dir.join("foreign.tmp");
    build_pack(&p, 1, Comp::None, &c, false, Sink::Named, Arc::new(()))?;
    let b = read(&p);
    let _ = std::fs::remove_file(&p);
    Ok(b)
}

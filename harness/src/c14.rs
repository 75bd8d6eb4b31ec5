//! C14: written bytes follow the documented layout; old files keep reading the same.
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::pack::*;
use crate::par::*;
use crate::util::*;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use jbk::Pack;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Arc;

fn val_of(v: &indep::Val) -> V {
    match v {
        indep::Val::U(v) => V::U(*v),
        indep::Val::S(v) => V::S(*v),
        indep::Val::C(p, c) => V::C(*p, *c),
        indep::Val::A(v) => V::A(v.clone()),
    }
}
fn tuple_of_indep(s: &StoreSpec, e: &indep::Entry, names: &[String]) -> Result<String, String> {
    let variant = match e.variant {
        None => None,
        Some(v) => Some(s.variants.iter().position(|x| Some(x.0) == names.get(v as usize).map(|n| n.as_str())).ok_or("unknown variant")?),
    };
    let mut v: Vec<String> = e.values.iter().map(|(n, v)| format!("{n}={}", v_repr(&val_of(v)))).collect();
    v.sort();
    Ok(format!("{:?} {}", variant.map(|i| s.variants[i].0), v.join(" ")))
}

/// The directory, as the independent decoder sees it, against what was written.
fn directory(spec: &DirSpec, d: &indep::Directory) -> Result<u64, String> {
    let mut n = 0;
    if d.entry_stores.len() != spec.stores.len() || d.indexes.len() != spec.indexes.len() || d.value_stores.len() != spec.vstores.len() {
        return Err(format!(
            "{} entry stores, {} indexes, {} value stores instead of {}, {}, {}",
            d.entry_stores.len(), d.indexes.len(), d.value_stores.len(), spec.stores.len(), spec.indexes.len(), spec.vstores.len()
        ));
    }
    for (v, k) in d.value_stores.iter().zip(&spec.vstores) {
        if matches!(v, indep::ValueStore::Plain(_)) != (*k == VsKind::Plain) {
            return Err(format!("value store is not {k:?}"));
        }
    }
    for (i, w) in d.indexes.iter().zip(&spec.indexes) {
        let got = (&i.name, i.store as usize, i.count, i.offset, i.free, i.key);
        let want = (&w.name, w.store, w.count, w.offset, w.free, w.key);
        if got != want {
            return Err(format!("index {got:?} instead of {want:?}"));
        }
        n += 1;
    }
    for (k, (e, w)) in d.entry_stores.iter().zip(&spec.stores).enumerate() {
        let names: Vec<String> = e.variants.iter().map(|v| v.0.clone()).collect();
        let mut got = vec![];
        for x in &e.entries {
            got.push(tuple_of_indep(w, x, &names).map_err(|m| format!("store {k}: {m}"))?);
        }
        let mut want: Vec<String> = w.entries.iter().map(|x| tuple_of_spec(w, x)).collect();
        if w.sort.is_some() {
            got.sort();
            want.sort();
        }
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("store {k}: {} entries for {}, entry {at}: {:?} instead of {:?}", got.len(), want.len(), got.get(at), want.get(at)));
        }
        // declared properties are those of the schema
        let mut a: Vec<&str> = e.common.iter().filter(|p| p.kind != indep::PropKind::Padding).map(|p| p.name.as_str()).collect();
        let mut b: Vec<&str> = w.common.iter().map(|p| p.name).collect();
        a.sort();
        b.sort();
        if a != b && !e.entries.is_empty() {
            return Err(format!("store {k}: properties {a:?} instead of {b:?}"));
        }
        n += e.entries.iter().map(|e| e.values.len() as u64).sum::<u64>();
    }
    Ok(n)
}

pub struct Seen {
    uuid: indep::Uuid,
    contents: u64,
    values: u64,
}
/// All files of a container, by the independent decoder, against the model. `vendor` of the packs.
pub fn container(spec: &ContainerSpec, b: &Built, files: &[(Utf8PathBuf, Vec<u8>)], vendor: [u8; 4], old: bool) -> Result<Seen, String> {
    let mut all = vec![];
    for (p, f) in files {
        all.push((p, if old { indep::decode_file_old(f) } else { indep::decode_file(f) }.map_err(|e| format!("{}: {e}", p.file_name().unwrap_or("")))?));
    }
    let (mp, mf, m) = all
        .iter()
        .find_map(|(p, f)| f.manifest().map(|m| (p, m.0, m.1)))
        .ok_or("no manifest")?;
    let mut seen = Seen { uuid: mf.header.uuid, contents: 0, values: 0 };
    if *mp != &b.path {
        return Err("the manifest is not in the entry-point file".into());
    }
    let n_packs = 2 + spec.extra.len();
    if m.packs.len() != n_packs {
        return Err(format!("{} packs in the manifest instead of {n_packs}", m.packs.len()));
    }
    let mut want: Vec<(u16, &Vec<ContentSpec>, &Vec<(u16, u32)>)> = vec![(1, &spec.contents, &b.addrs)];
    for ((id, _, c), a) in spec.extra.iter().zip(&b.extra_addrs) {
        want.push((*id, c, a));
    }
    for (p, f) in &all {
        for pk in &f.packs {
            if pk.header.vendor != vendor || pk.header.flags != 0 {
                return Err(format!("{p}: vendor {:?} flags {}", pk.header.vendor, pk.header.flags));
            }
        }
    }
    for i in &m.packs {
        let (file, f, pk) = all
            .iter()
            .find_map(|(p, f)| f.pack(&i.uuid).map(|k| (p, f, k)))
            .ok_or_else(|| format!("pack {} of the manifest is in no file", i.id))?;
        if i.size != pk.header.size || i.kind != pk.header.kind || i.check != pk.check || i.group != 0 {
            return Err(format!("pack info {i:?} of a pack {:?} check {:?}", pk.header, pk.check.map(|c| hex(&c))));
        }
        // where it is recorded is where it is
        let same = *file == *mp;
        let _ = f;
        if !same {
            let dir = mp.parent().unwrap();
            if dir.join(&i.location) != **file {
                return Err(format!("pack {} is in {file} but recorded at {:?}", i.id, i.location));
            }
        }
        match &pk.body {
            indep::Body::Directory(d) => {
                if i.id != 0 {
                    return Err(format!("directory pack has id {}", i.id));
                }
                seen.values += directory(&spec.dir, d)?;
            }
            indep::Body::Content(c) => {
                let (_, cs, addrs) = want.iter().find(|w| w.0 == i.id).ok_or_else(|| format!("content pack {}", i.id))?;
                for (s, a) in cs.iter().zip(addrs.iter()) {
                    if a.1 as usize >= c.infos.len() {
                        return Err(format!("content {a:?} but {} contents", c.infos.len()));
                    }
                    let got = c.get(a.1 as usize)?;
                    if got != s.data.as_slice() {
                        return Err(format!("content {a:?} {s:?}: {}", diff(got, &s.data)));
                    }
                    seen.contents += 1;
                }
                let n = addrs.iter().map(|a| a.1 + 1).max().unwrap_or(0) as usize;
                if c.infos.len() != n {
                    return Err(format!("{} contents in pack {} instead of {n}", c.infos.len(), i.id));
                }
            }
            _ => return Err("manifest in a manifest".into()),
        }
    }
    Ok(seen)
}

fn files_of(sc: &Scratch) -> Vec<(Utf8PathBuf, Vec<u8>)> {
    list(sc).into_iter().map(|p| (p.clone(), read(&p))).collect()
}

fn generated(rec: &mut Rec, r: &mut Rng, k: u64) {
    let mut cfg = if k % 3 == 0 { GenCfg::medium() } else { GenCfg::small() };
    let nc = if k % 16 == 5 { 4000 + r.us(5000) } else { r.us(20) };
    let max = if nc > 1000 { 40 } else if k % 8 == 1 { 3 << 20 } else { 5000 };
    let mut spec = gen_container(r, &mut cfg, nc, max, k % 5 != 0);
    spec.mode = Mode::ALL[(k % 3) as usize];
    judge(rec, &spec, "c14", None);
}
/// `told`: what tells it, when it is too big to be shown
fn judge(rec: &mut Rec, spec: &ContainerSpec, name: &str, told: Option<String>) {
    let sc = Scratch::new(name);
    let show = || told.clone().unwrap_or_else(|| format!("{spec:?}"));
    let b = match build_simple(spec, &sc.u("c.jbk")) {
        Ok(b) => b,
        Err(e) => return rec.violation("creation", format!("{e}; {}", show()).chars().take(900).collect::<String>()),
    };
    let _ = std::fs::remove_dir_all(sc.p("inputs"));
    let files = files_of(&sc);
    let desc = format!("{:?} {:?} {} contents {} extra", spec.mode, spec.comp, spec.contents.len(), spec.extra.len());
    match container(spec, &b, &files, [1, 2, 3, 4], false) {
        Err(e) => rec.violation("not the documented layout", format!("{desc}: {e}")),
        Ok(s) => {
            rec.count("containers_decoded", 1);
            rec.max("bytes_of_a_container", files.iter().map(|f| f.1.len() as u64).sum());
            rec.count("contents_compared", s.contents);
            rec.count("values_compared", s.values);
            rec.count(&format!("mode.{:?}", spec.mode), 1);
            rec.count(&format!("compression.{}", spec.comp.byte()), 1);
            rec.case(hash64(show().as_bytes()), s.contents + s.values > 0);
            rec.sample(format!("{desc}: {} contents, {} values", s.contents, s.values));
            // identity seen by the reader
            match guarded(|| jbk::reader::Container::new(&b.path).map(|c| c.uuid()).map_err(|e| format!("{e:?}"))) {
                Ok(Ok(u)) if u.as_bytes() == &s.uuid => {}
                o => rec.violation("container identity", format!("{desc}: {o:?} but the manifest is {}", hex(&s.uuid))),
            }
        }
    }
}

/// Everything the lower level creators take: vendor ids, free data, identities, locations, many packs.
fn frames(rec: &mut Rec, r: &mut Rng) {
    let sc = Scratch::new("c14f");
    let v: [u8; 4] = r.bytes(4).try_into().unwrap();
    let vendor = jbk::VendorId::new(v);
    let free = |r: &mut Rng| -> [u8; 24] { r.bytes(24).try_into().unwrap() };
    let (fd, fc, fm, fk) = (free(r), free(r), free(r), free(r));
    let in_container = r.bool();
    let spec = { let mut c = GenCfg::small(); c.ext_addr = true; gen_dir(r, &c) };
    let n = r.us(6);
    let contents: Vec<_> = (0..n).map(|_| gen_content(r, 400)).collect();
    let comp = gen_comp(r, true);
    let did = *r.pick(&[0u16, 1, 77]);
    let cid = *r.pick(&[1u16, 2, 255, 256, 65535]);
    let loc: String = (0..r.us(214)).map(|i| if i % 9 == 8 { '/' } else { (b'a' + r.us(26) as u8) as char }).collect();
    let (pf1, pf2) = (r.bytes(*r.clone().pick(&[0usize, 3, 24, 300])), r.bytes(5));
    let desc = format!("vendor {v:02x?}, content pack {cid}, {n} contents {comp:?}, in container: {in_container}");
    let res = guarded(|| -> Result<Vec<u8>, String> {
        use jbk::creator::PackRecipient;
        let es = |e: &dyn std::fmt::Debug| format!("{e:?}");
        let mut dp = jbk::creator::DirectoryPackCreator::new(did.into(), vendor, fd.into());
        populate(&spec, &mut dp);
        let dp = dp.finalize().map_err(|e| es(&e))?;
        let mut a = vec![];
        macro_rules! content {
            ($f:expr) => {{
                let mut c = jbk::creator::ContentPackCreator::new_from_output($f, cid.into(), vendor, fc.into(), comp.jbk()).map_err(|e| es(&e))?;
                for (i, s) in contents.iter().enumerate() {
                    let inp = input(s, &Utf8PathBuf::from_path_buf(sc.0.clone()).unwrap(), i).map_err(|e| es(&e))?;
                    let x = c.add_content(inp, s.hint.jbk()).map_err(|e| es(&e))?;
                    a.push((x.pack_id.into_u16(), x.content_id.into_u32()));
                }
                c.finalize().map_err(|e| es(&e))?
            }};
        }
        let manifest = |mut d: jbk::creator::PackData, mut c: jbk::creator::PackData| {
            let mut m = jbk::creator::ManifestPackCreator::new(vendor, fm.into());
            d.free_data = pf1.clone();
            c.free_data = pf2.clone();
            m.add_pack(d, loc.clone());
            m.add_pack(c, "x");
            m
        };
        let out = sc.u("out");
        if in_container {
            let k = jbk::creator::ContainerPackCreator::new(&out, fk.into()).map_err(|e| es(&e))?;
            let f = k.into_file().map_err(|e| es(&e))?;
            let (f, cd) = content!(f);
            let k = f.close(cd.uuid).map_err(|e| es(&e))?;
            let mut f = k.into_file().map_err(|e| es(&e))?;
            let dd = dp.write(&mut *f).map_err(|e| es(&e))?;
            let k = f.close(dd.uuid).map_err(|e| es(&e))?;
            let mut f = k.into_file().map_err(|e| es(&e))?;
            let mu = manifest(dd, cd).finalize(&mut f).map_err(|e| es(&e))?;
            let k = f.close(mu).map_err(|e| es(&e))?;
            k.finalize().map_err(|e| es(&e))?.close_file().map_err(|e| es(&e))?;
        } else {
            let f = jbk::creator::AtomicOutFile::new(sc.u("pc")).map_err(|e| es(&e))?;
            let (f, cd) = content!(f);
            f.close_file().map_err(|e| es(&e))?;
            let mut f = jbk::creator::AtomicOutFile::new(sc.u("pd")).map_err(|e| es(&e))?;
            let dd = dp.write(&mut *f).map_err(|e| es(&e))?;
            f.close_file().map_err(|e| es(&e))?;
            let (cu, du) = (cd.uuid, dd.uuid);
            let mut f = jbk::creator::AtomicOutFile::new(sc.u("pm")).map_err(|e| es(&e))?;
            let mu = manifest(dd, cd).finalize(&mut f).map_err(|e| es(&e))?;
            f.close_file().map_err(|e| es(&e))?;
            let mut k = jbk::creator::ContainerPackCreator::new(&out, fk.into()).map_err(|e| es(&e))?;
            for (u, n) in [(cu, "pc"), (du, "pd"), (mu, "pm")] {
                k.add_pack(u, &mut std::fs::File::open(sc.p(n)).map_err(|e| es(&e))?).map_err(|e| es(&e))?;
            }
            k.finalize().map_err(|e| es(&e))?.close_file().map_err(|e| es(&e))?;
        }
        let b = read(&out);
        let f = indep::decode_file(&b)?;
        let (mp, m) = f.manifest().ok_or("no manifest")?;
        let d = f.directory().ok_or("no directory")?;
        let (cp, c) = *f.contents().first().ok_or("no content pack")?;
        let want = |ok: bool, what: &str| if ok { Ok(()) } else { Err(what.to_string()) };
        want(f.packs.len() == 3 && f.packs.iter().all(|p| p.header.vendor == v), "vendor of the packs")?;
        want(d.free == fd, "free data of the directory")?;
        want(c.free == fc, "free data of the content pack")?;
        want(m.free == fm, "free data of the manifest")?;
        want(f.container_free == fk, "free data of the container")?;
        want(m.packs.len() == 2, "number of packs")?;
        let i = m.packs.iter().find(|i| i.kind == indep::Kind::Directory).ok_or("directory info")?;
        want(i.id == did && i.location == loc && i.free == pf1, "directory pack info")?;
        let i = m.packs.iter().find(|i| i.kind == indep::Kind::Content).ok_or("content info")?;
        want(i.id == cid && i.location == "x" && i.free == pf2 && i.uuid == cp.header.uuid && i.check == cp.check && i.size == cp.header.size, "content pack info")?;
        directory(&spec, d)?;
        for (s, a) in contents.iter().zip(&a) {
            want(a.0 == cid && c.get(a.1 as usize)? == s.data.as_slice(), "content")?;
        }
        // and the same by the reader
        let con = jbk::reader::Container::new(&out).map_err(|e| es(&e))?;
        want(con.uuid().as_bytes() == &mp.header.uuid, "reader: identity")?;
        want(con.get_directory_pack().get_free_data()[..] == fd[..], "reader: directory free data")?;
        want(con.get_directory_pack().app_vendor_id() == vendor, "reader: vendor")?;
        match con.get_pack(cid.into()).map_err(|e| es(&e))? {
            Some(jbk::reader::MayMissPack::FOUND(p)) => {
                want(p.get_free_data() == &fc[..], "reader: content free data")?;
                want(p.uuid().as_bytes() == &cp.header.uuid && p.size().into_u64() == cp.header.size, "reader: content pack identity")?;
            }
            _ => return Err("reader: no content pack".into()),
        }
        let k = jbk::tools::open_pack(&out).map_err(|e| es(&e))?;
        let mr = k.get_manifest_pack_reader().map_err(|e| es(&e))?.ok_or("no manifest")?;
        let m2 = jbk::reader::ManifestPack::new(mr).map_err(|e| es(&e))?;
        want(m2.get_free_data()[..] == fm[..], "reader: manifest free data")?;
        for i in &m.packs {
            let g = m2.get_pack_free_data_uuid(uuid_of(&i.uuid)).map_err(|e| es(&e))?;
            want(g.as_ref().map(|g| &g[..]) == Some(&i.free[..]), "reader: free data of a pack")?;
        }
        Ok(b)
    });
    match res {
        Ok(Ok(b)) => {
            rec.count("frames", 1);
            rec.case(hash64(&b), true);
        }
        Ok(Err(e)) | Err(e) => rec.violation("not the documented layout", format!("{desc}: {e}")),
    }
}

/// Manifests of any number of packs: every field of every description, by the independent decoder and by the reader.
fn manifests(rec: &mut Rec, r: &mut Rng) {
    let sc = Scratch::new("c14m");
    let n = match r.below(6) { 0 => 1, 1 => 250 + r.us(12), 2 => 257 + r.us(600), _ => 2 + r.us(30) };
    let res = guarded(|| -> Result<u64, String> {
        let es = |e: &dyn std::fmt::Debug| format!("{e:?}");
        let pb = build_pack(&sc.u("p"), 1, Comp::None, &[], false, Sink::Named, Arc::new(()))?;
        let (dd, _) = build_directory(&DirSpec::default(), &sc.u("d"))?;
        let (pc, dc) = (indep::decode_pack(&read(&sc.u("p")), 0)?.check, indep::decode_pack(&read(&sc.u("d")), 0)?.check);
        let fm: [u8; 24] = r.bytes(24).try_into().unwrap();
        let mut mc = jbk::creator::ManifestPackCreator::new(jbk::VendorId::new([7, 8, 9, 1]), fm.into());
        let dpos = r.us(n);
        let mut want = vec![];
        let shared = r.bytes(9);
        let first = *r.pick(&[1usize, 1, 200, 65535 - n]);
        for i in 0..n {
            let u: [u8; 16] = r.bytes(16).try_into().unwrap();
            let dir = i == dpos;
            let of_dir = r.bool();
            let free = match r.below(5) { 0 => shared.clone(), 1 => vec![], _ => { let n = 1 + r.us(12); r.bytes(n) } };
            let (kind, id) = if dir { (dd.pack_kind, *r.pick(&[0u16, 3, 300])) } else { (pb.data.pack_kind, (first + i) as u16) };
            let size = r.u64() >> (8 + r.below(50));
            let loc = crate::c12::gen_location(r);
            let data = jbk::creator::PackData {
                uuid: uuid::Uuid::from_bytes(u), pack_size: size.into(), pack_kind: kind, pack_id: id.into(), free_data: free.clone(),
                check_info: if of_dir { dd.check_info } else { pb.data.check_info },
            };
            mc.add_pack(data, loc.clone());
            want.push((u, dir, id, size, free, loc, if of_dir { dc } else { pc }));
        }
        let file = sc.u("m");
        let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&file).map_err(|e| es(&e))?;
        let uuid = mc.finalize(&mut f).map_err(|e| es(&e))?;
        drop(f);
        let b = read(&file);
        let p = indep::decode_pack(&b, 0)?;
        let indep::Body::Manifest(m) = &p.body else { return Err("not a manifest".into()) };
        if p.header.uuid != *uuid.as_bytes() || m.free != fm || m.packs.len() != n {
            return Err(format!("manifest of {n} packs: identity, free data or number of packs ({})", m.packs.len()));
        }
        for (i, (g, w)) in m.packs.iter().zip(&want).enumerate() {
            let k = if w.1 { indep::Kind::Directory } else { indep::Kind::Content };
            if g.uuid != w.0 || g.kind != k || g.id != w.2 || g.size != w.3 || g.free != w.4 || g.location != w.5 || g.check != w.6 || g.group != 0 {
                return Err(format!("description {i} of {n}: uuid {:02x?} id {} size {} free {:02x?} location {:?} check {:02x?} instead of {w:02x?}", g.uuid, g.id, g.size, g.free, g.location, g.check));
            }
        }
        // and the reader
        let m = jbk::reader::ManifestPack::new(jbk::FileSource::open(&file).map_err(|e| es(&e))?.into()).map_err(|e| es(&e))?;
        for (i, w) in want.iter().enumerate() {
            let g = if w.1 { m.get_directory_pack_info() } else { m.get_content_pack_info_uuid(uuid::Uuid::from_bytes(w.0)).ok_or("unknown pack")? };
            let free = m.get_pack_free_data_uuid(g.uuid).map_err(|e| es(&e))?;
            if g.uuid.as_bytes() != &w.0 || g.pack_id.into_u16() != w.2 || g.pack_size.into_u64() != w.3 || g.pack_location.as_str() != w.5 || free.as_ref().map(|f| &f[..]) != Some(&w.4[..]) {
                return Err(format!("reader: description {i} of {n}: {g:?} {free:?} instead of {w:?}"));
            }
        }
        rec.max("packs_in_manifest", n as u64);
        Ok(hash64(&b))
    });
    match res {
        Ok(Ok(h)) => rec.case(h, true),
        Ok(Err(e)) | Err(e) => rec.violation("manifest not the documented layout", format!("{n} packs: {}", e.chars().take(900).collect::<String>())),
    }
}

// ---------- reference corpus

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == '%' || c == '\t' || c == '\n' || c == '\r' {
            let _ = write!(o, "%{:02x}", c as u32);
        } else {
            o.push(c);
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c == '%' {
            let h: String = [i.next().unwrap_or('0'), i.next().unwrap_or('0')].iter().collect();
            o.push(u8::from_str_radix(&h, 16).unwrap_or(b'?') as char);
        } else {
            o.push(c);
        }
    }
    o
}
/// Logical content as lines; nothing which depends on how the library prints its own types.
fn logical(d: &Dump, cs: &Contents, m: &jbk::reader::ManifestPack) -> Result<BTreeMap<String, String>, String> {
    let mut o = BTreeMap::new();
    for (k, v) in d {
        if k == "dir.vendor" {
            continue;
        }
        let Item::Val(v) = v else { return Err(format!("{k}: {v:?}")) };
        let v = v.split(" kind ").next().unwrap();
        o.insert(format!("d {k}"), v.to_string());
    }
    for ((p, c), b) in cs {
        let b = b.as_ref().map_err(|e| format!("content {p}/{c}: {e}"))?;
        o.insert(format!("c {p}/{c}"), format!("{} {}", b.len(), blake3::hash(b).to_hex()));
    }
    let mut v = vec![m.get_directory_pack_info()];
    v.extend(m.get_pack_infos().iter());
    for i in v {
        o.insert(
            format!("p {}", i.uuid),
            format!("id {} size {} group {} location {}", i.pack_id.into_u16(), i.pack_size.into_u64(), i.pack_group, i.pack_location.as_str()),
        );
    }
    Ok(o)
}
fn read_logical(main: &Utf8Path, ask: &Ask) -> Result<BTreeMap<String, String>, String> {
    guarded(|| {
        let (d, c) = open_dump(main.as_std_path(), ask, DumpOpts { typed: true, content_bytes: true })?;
        let k = jbk::tools::open_pack(main).map_err(|e| format!("{e:?}"))?;
        let mr = k.get_manifest_pack_reader().map_err(|e| format!("{e:?}"))?.ok_or("no manifest")?;
        let m = jbk::reader::ManifestPack::new(mr).map_err(|e| format!("{e:?}"))?;
        logical(&d, &c, &m)
    })?
}
fn ask_lines(a: &Ask) -> String {
    let mut o = String::new();
    for i in &a.indexes {
        let _ = writeln!(o, "index\t{}\t{}", esc(&i.name), i.count);
        for (n, t, v) in &i.props {
            let _ = writeln!(o, "prop\t{}\t{t}\t{}", esc(n), v.map(|v| format!("={}", esc(v))).unwrap_or_default());
        }
    }
    for (p, n) in &a.packs {
        let _ = writeln!(o, "pack\t{p}\t{n}");
    }
    o
}
fn parse_expected(s: &str) -> (Ask, BTreeMap<String, String>) {
    let mut a = Ask::default();
    let mut e = BTreeMap::new();
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "index" => a.indexes.push(AskIndex { name: unesc(f[1]), count: f[2].parse().unwrap(), props: vec![] }),
            "prop" => {
                let v = f[3].strip_prefix('=').map(|v| intern(&unesc(v)));
                a.indexes.last_mut().unwrap().props.push((intern(&unesc(f[1])), f[2].chars().next().unwrap(), v));
            }
            "pack" => a.packs.push((f[1].parse().unwrap(), f[2].parse().unwrap())),
            "=" => { e.insert(unesc(f[1]), unesc(f[2])); }
            _ => {}
        }
    }
    (a, e)
}

fn corpus_spec(r: &mut Rng, k: u64) -> ContainerSpec {
    let mode = Mode::ALL[(k % 3) as usize];
    let comp = match (k / 3) % 4 { 0 => Comp::None, 1 => Comp::Lz4(r.below(10) as u32), 2 => Comp::Lzma(r.below(7) as u32), _ => Comp::Zstd(r.range(0, 25) as i32 - 5) };
    let mut cfg = if k >= 24 { GenCfg::medium() } else { GenCfg::small() };
    cfg.max_entries = 25;
    cfg.ext_addr = true;
    let mut contents: Vec<ContentSpec> = (0..r.us(12)).map(|_| gen_content(r, 600)).collect();
    if k % 12 == 3 {
        // many blobs: more than one cluster
        contents = (0..4300).map(|i| ContentSpec { data: Arc::new(vec![b'a' + (i % 26) as u8; i % 3]), hint: Hint::Yes, src: Src::Mem }).collect();
    }
    if k % 6 == 1 {
        let big = if comp == Comp::None { 3000 } else { 5_000_000 };
        contents.push(ContentSpec { data: Arc::new(vec![b'z'; 70_000 + r.us(big)]), hint: Hint::Yes, src: Src::Mem });
        contents.push(ContentSpec { data: Arc::new(b"some words over and over ".iter().cycle().take(big / 10).copied().collect()), hint: Hint::Yes, src: Src::Mem });
    }
    if k % 12 == 6 {
        contents.push(ContentSpec { data: Arc::new(r.bytes(66_000)), hint: Hint::No, src: Src::Mem });
    }
    let mut extra = vec![];
    if k % 4 == 2 {
        extra.push((2u16, gen_comp(r, true), (0..r.us(4)).map(|_| gen_content(r, 400)).collect::<Vec<_>>()));
        extra.push((300u16, gen_comp(r, true), (0..r.us(4)).map(|_| gen_content(r, 400)).collect::<Vec<_>>()));
    }
    cfg.n_contents = vec![(1, contents.len() as u32)];
    let dir = gen_dir(r, &cfg);
    ContainerSpec { comp, mode, contents, extra, dir, dedup: r.chance(1, 4) }
}

/// `jbkmon gen-corpus DIR N`, linked with the pinned version: containers which the independent decoder decodes to the
/// model and, when the pinned reader can open that packaging, which it reads as the model too.
/// `jbkmon fill-corpus DIR N`, linked with a reader which opens all packagings: what is expected (checked with the model).
pub fn gen_corpus(dir: &str, n: u64, fill: bool) {
    let root = Utf8PathBuf::from(dir);
    for k in 0..n {
        let mut r = Rng::sub(20, 14, k);
        let out = root.join(format!("{k:03}"));
        let at: u64 = if fill { String::from_utf8(read(out.join("attempt"))).unwrap().parse().unwrap() } else { 0 };
        for attempt in 0.. {
            let spec = corpus_spec(&mut r, k);
            if fill && attempt < at {
                continue;
            }
            let sc = Scratch::new("corpus");
            let b = match build_simple(&spec, &sc.u("c.jbk")) {
                Ok(b) => b,
                Err(e) => { eprintln!("{k}.{attempt}: {e}"); assert!(!fill); continue }
            };
            let _ = std::fs::remove_dir_all(sc.p("inputs"));
            let ask = ask_container(&spec, &b);
            if fill {
                let main = out.join("c.jbk");
                let (d, c) = open_dump(main.as_std_path(), &ask, OPTS).unwrap();
                verify_model(&spec, &b, &d, &c).unwrap();
                let l = read_logical(&main, &ask).unwrap();
                let mut t = ask_lines(&ask);
                for (k, v) in &l {
                    let _ = writeln!(t, "=\t{}\t{}", esc(k), esc(v));
                }
                std::fs::write(out.join("expected.txt"), t).unwrap();
                std::fs::remove_file(out.join("attempt")).unwrap();
                break;
            }
            let good = guarded(|| -> Result<_, String> {
                container(&spec, &b, &files_of(&sc), [1, 2, 3, 4], true)?;
                if spec.mode == Mode::One && spec.extra.is_empty() {
                    let (d, c) = open_dump(b.path.as_std_path(), &ask, OPTS)?;
                    verify_model(&spec, &b, &d, &c)?;
                }
                Ok(())
            });
            match good { Ok(Ok(())) => {}, o => { eprintln!("{k}.{attempt}: {o:?}"); continue } };
            std::fs::create_dir_all(&out).unwrap();
            for (p, f) in files_of(&sc) {
                std::fs::write(out.join(p.file_name().unwrap()), f).unwrap();
            }
            std::fs::write(out.join("attempt"), attempt.to_string()).unwrap();
            break;
        }
    }
}

fn corpus(rec: &mut Rec, i: u64, items: &[Utf8PathBuf]) {
    let item = &items[i as usize];
    let name = item.file_name().unwrap().to_string();
    let (ask, want) = parse_expected(&String::from_utf8(read(item.join("expected.txt"))).unwrap());
    let sc = Scratch::new("c14c");
    for e in std::fs::read_dir(item).unwrap() {
        let p = e.unwrap().path();
        if p.file_name().unwrap() != "expected.txt" {
            std::fs::copy(&p, sc.p(p.file_name().unwrap().to_str().unwrap())).unwrap();
        }
    }
    let main = sc.u("c.jbk");
    let mut comp = Vec::new();
    for (p, f) in files_of(&sc) {
        match indep::decode_file_old(&f) {
            Err(e) => rec.violation("corpus file does not decode", format!("{name}/{p}: {e}")),
            Ok(d) => {
                for (_, c) in d.contents() {
                    for cl in &c.clusters {
                        comp.push(cl.compression);
                    }
                }
            }
        }
    }
    match read_logical(&main, &ask) {
        Err(e) => rec.violation("old file does not read", format!("{name}: {e}")),
        Ok(got) => {
            for k in want.keys().chain(got.keys().filter(|k| !want.contains_key(*k))) {
                if got.get(k) != want.get(k) {
                    rec.violation("old file reads differently", format!("{name}: {k}: {:?} instead of {:?}", got.get(k), want.get(k)));
                    break;
                }
            }
            rec.count("corpus_items_compared", want.len() as u64);
            rec.count("corpus_files", 1);
            for c in comp {
                rec.count(&format!("corpus_clusters.{c}"), 1);
            }
            rec.case(hash64(name.as_bytes()), true);
        }
    }
    match try_check(&main) {
        Ok(true) => rec.count("corpus_checks_true", 1),
        o => rec.violation("old file does not verify", format!("{name}: {o:?}")),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a generated container whose every file was decoded by the independent decoder and compared with the model, or a corpus container compared item by item".into();
    ctx.assumptions.push("harness/indep (which shares no code with the library) implements the documented layout; corpus/ was written and read by the pinned version, and kept only where its model, its reader and the independent decoder agreed".into());
    let mut items: Vec<Utf8PathBuf> = std::fs::read_dir(verif_dir().join("corpus"))
        .map(|d| d.map(|e| Utf8PathBuf::from_path_buf(e.unwrap().path()).unwrap()).filter(|p| p.is_dir()).collect())
        .unwrap_or_default();
    items.sort();
    if items.is_empty() {
        println!("no corpus");
        std::process::exit(2);
    }
    let n = items.len() as u64;
    let items = Arc::new(items);
    phase("corpus", 0.5, n).min(n).run(ctx, move |i, _, rec| corpus(rec, i, &items));
    phase("frames", 0.65, u64::MAX).min(48).run(ctx, |_, r, rec| frames(rec, r));
    let nv = ctx.q(1, 12);
    phase("vast", 0.68, nv).min(nv).threads(2).run(ctx, |i, r, rec| {
        // every kind of block which grows with the container, beyond 4 MiB (and beyond 16 MiB)
        let mode = Mode::ALL[r.us(3)];
        let d = crate::vast::Dim { entries: 70_000 + r.us(10_000), values: 20 + r.us(8), value: 900_000 + r.us(60_000), contents: if i % 4 == 3 { 4_300_000 } else { 1_150_000 }, mode };
        judge(rec, &crate::vast::spec(r, d), "vast", Some(format!("{d:?}")));
    });
    phase("manifests", 0.72, u64::MAX).min(24).run(ctx, |_, r, rec| manifests(rec, r));
    phase("generated", 1.0, u64::MAX).min(48).run(ctx, |i, r, rec| generated(rec, r, i));
}

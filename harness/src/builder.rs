//! Hands a model to the real creator.
use crate::model::*;
use crate::util::*;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use jbk::creator::schema;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const VENDOR: jbk::VendorId = jbk::VendorId::new([1, 2, 3, 4]);

pub type Entry = jbk::creator::BasicEntry<&'static str, &'static str>;
pub type Handle = jbk::Bound<jbk::EntryIdx>;

pub fn input(c: &ContentSpec, dir: &Utf8Path, n: usize) -> std::io::Result<Box<dyn jbk::creator::InputReader>> {
    Ok(match c.src {
        Src::Mem => Box::new(std::io::Cursor::new(c.data.as_ref().clone())),
        Src::File => {
            let p = dir.join(format!("in-{n}"));
            std::fs::write(&p, c.data.as_slice())?;
            Box::new(jbk::creator::InputFile::open(&p)?)
        }
        Src::Range(b, a) => {
            let p = dir.join(format!("in-{n}"));
            let mut v = Vec::with_capacity(b + c.data.len() + a);
            v.resize(b, 0xB5);
            v.extend_from_slice(&c.data);
            v.resize(v.len() + a, 0x5B);
            std::fs::write(&p, &v)?;
            let f = std::fs::File::open(&p)?;
            // with nothing after, exercise the "until the end" form
            let size = if a == 0 { None } else { Some(c.data.len() as u64) };
            Box::new(jbk::creator::InputFile::new_range(f, b as u64, size)?)
        }
    })
}

/// The entry store creator: populates the directory pack from the model.
pub struct DirCreator {
    spec: DirSpec,
    handles: Arc<Mutex<Vec<Vec<Handle>>>>,
}
impl jbk::creator::EntryStoreTrait for DirCreator {
    fn finalize(self: Box<Self>, dp: &mut jbk::creator::DirectoryPackCreator) {
        let h = populate(&self.spec, dp);
        *self.handles.lock().unwrap() = h;
    }
}

pub fn jval(v: &V, vows: &[Vec<jbk::Vow<jbk::EntryIdx>>]) -> jbk::Value {
    match v {
        V::U(v) => jbk::Value::Unsigned(*v),
        V::S(v) => jbk::Value::Signed(*v),
        V::A(v) => jbk::Value::Array(v.as_slice().into()),
        V::C(p, c) => jbk::Value::Content(jbk::ContentAddress::new((*p).into(), (*c).into())),
        V::UW(v) => jbk::Value::UnsignedWord((*v).into()),
        V::SW(v) => jbk::Value::SignedWord((*v).into()),
        V::Ref(s, e) => jbk::Value::UnsignedWord(vows[*s][*e].bind().into()),
    }
}

pub fn populate(spec: &DirSpec, dp: &mut jbk::creator::DirectoryPackCreator) -> Vec<Vec<Handle>> {
    let vs: Vec<jbk::creator::StoreHandle> = spec
        .vstores
        .iter()
        .map(|k| match k {
            VsKind::Plain => jbk::creator::ValueStore::new_plain(None),
            VsKind::Indexed => jbk::creator::ValueStore::new_indexed(),
        })
        .collect();
    let prop = |p: &PropSpec| match &p.t {
        PType::U => schema::Property::new_uint(p.name),
        PType::S => schema::Property::new_sint(p.name),
        PType::A { fixed, store } => schema::Property::new_array(*fixed, vs[*store].clone(), p.name),
        PType::C => schema::Property::new_content_address(p.name),
    };
    let vows: Vec<Vec<jbk::Vow<jbk::EntryIdx>>> =
        spec.stores.iter().map(|s| s.entries.iter().map(|_| jbk::Vow::new(jbk::EntryIdx::from(0))).collect()).collect();
    // entries hold their own vow: hand each one over, keep bound handles
    let bound: Vec<Vec<Handle>> = vows.iter().map(|v| v.iter().map(|w| w.bind()).collect()).collect();
    let uses_ref = spec.stores.iter().any(|s| s.entries.iter().any(|e| e.vals.iter().any(|v| matches!(v.1, V::Ref(..)))));
    let mut created = vec![];
    let mut handles = vec![];
    // values are built first for all stores (they bind to the vows), then the vows move into the entries
    let mut all_vals: Vec<Vec<HashMap<&'static str, jbk::Value>>> = spec
        .stores
        .iter()
        .map(|s| s.entries.iter().map(|e| e.vals.iter().map(|(n, v)| (*n, jval(v, &vows))).collect()).collect())
        .collect();
    for ((s, vows), vals) in spec.stores.iter().zip(vows).zip(all_vals.drain(..)) {
        let sch = schema::Schema::new(
            schema::CommonProperties::new(s.common.iter().map(prop).collect()),
            s.variants.iter().map(|(n, p)| (*n, schema::VariantProperties::new(p.iter().map(prop).collect()))).collect(),
            s.sort.clone(),
        );
        let mut es: Box<jbk::creator::EntryStore<&'static str, &'static str, Entry>> =
            Box::new(jbk::creator::EntryStore::new(sch, if s.entries.len() % 2 == 0 { None } else { Some(1) }));
        let mut hs = vec![];
        for ((e, vow), v) in s.entries.iter().zip(vows).zip(vals) {
            let vn = e.variant.map(|i| s.variants[i].0);
            let entry = if uses_ref {
                Entry::new_from_schema_idx(&es.schema, vow, vn, v)
            } else {
                Entry::new_from_schema(&es.schema, vn, v)
            };
            hs.push(es.add_entry(entry));
        }
        handles.push(hs);
        created.push(es);
    }
    drop(bound);
    for v in vs {
        dp.add_value_store(v);
    }
    let mut ids = vec![];
    for es in created {
        ids.push(dp.add_entry_store(es));
    }
    for i in &spec.indexes {
        dp.create_index(
            &i.name,
            i.free.into(),
            i.key.into(),
            ids[i.store],
            i.count.into(),
            jbk::EntryIdx::from(i.offset).into(),
        );
    }
    handles
}

pub struct Built {
    pub path: Utf8PathBuf,
    /// address returned for each inserted content of pack 1, then of the extra packs
    pub addrs: Vec<(u16, u32)>,
    pub extra_addrs: Vec<Vec<(u16, u32)>>,
    /// final position reported by the handle of each entry
    pub positions: Vec<Vec<u32>>,
    pub extra_paths: Vec<Utf8PathBuf>,
}

fn addr(a: jbk::ContentAddress) -> (u16, u32) {
    (a.pack_id.into_u16(), a.content_id.into_u32())
}

pub fn extra_creator(
    id: u16, comp: Comp, contents: &[ContentSpec], path: &Utf8Path, in_dir: &Utf8Path,
) -> Result<(jbk::creator::ContentPackCreator<dyn jbk::creator::PackRecipient>, Vec<(u16, u32)>), String> {
    let f: Box<dyn jbk::creator::PackRecipient> = jbk::creator::AtomicOutFile::new(path).map_err(|e| e.to_string())?;
    let mut c = jbk::creator::ContentPackCreator::new_from_output(f, id.into(), VENDOR, Default::default(), comp.jbk())
        .map_err(|e| e.to_string())?;
    let mut a = vec![];
    for (i, s) in contents.iter().enumerate() {
        let inp = input(s, in_dir, 100_000 * id as usize + i).map_err(|e| e.to_string())?;
        a.push(addr(c.add_content(inp, s.hint.jbk()).map_err(|e| e.to_string())?));
    }
    Ok((c, a))
}

/// Create the container of `spec` at `out` with the high-level creator. Panics are turned into errors.
pub fn build(spec: &ContainerSpec, out: &Utf8Path, progress: Arc<dyn jbk::creator::Progress>) -> Result<Built, String> {
    guarded(|| build_inner(spec, out, progress, &out.parent().unwrap().join("inputs"), None))?
}
/// With the paths of the files of the additional packs, and where to put the sources.
pub fn build_at(spec: &ContainerSpec, out: &Utf8Path, in_dir: &Utf8Path, extra: &[Utf8PathBuf]) -> Result<Built, String> {
    guarded(|| build_inner(spec, out, Arc::new(()), in_dir, Some(extra)))?
}
pub fn build_simple(spec: &ContainerSpec, out: &Utf8Path) -> Result<Built, String> {
    build(spec, out, Arc::new(()))
}

fn build_inner(spec: &ContainerSpec, out: &Utf8Path, progress: Arc<dyn jbk::creator::Progress>, in_dir: &Utf8Path, at: Option<&[Utf8PathBuf]>) -> Result<Built, String> {
    let dir = out.parent().unwrap();
    std::fs::create_dir_all(in_dir).map_err(|e| e.to_string())?;
    let mut creator = jbk::creator::BasicCreator::new(out, spec.mode.jbk(), VENDOR, spec.comp.jbk(), progress)
        .map_err(|e| format!("{e:?}"))?;
    let mut addrs = vec![];
    if spec.dedup {
        use jbk::creator::ContentAdder;
        let mut c = jbk::creator::CachedContentAdder::new(creator, std::rc::Rc::new(()));
        for (i, s) in spec.contents.iter().enumerate() {
            let inp = input(s, in_dir, i).map_err(|e| e.to_string())?;
            addrs.push(addr(ContentAdder::add_content(&mut c, inp, s.hint.jbk()).map_err(|e| e.to_string())?));
        }
        creator = c.into_inner();
    } else {
        for (i, s) in spec.contents.iter().enumerate() {
            let inp = input(s, in_dir, i).map_err(|e| e.to_string())?;
            addrs.push(addr(creator.add_content(inp, s.hint.jbk()).map_err(|e| e.to_string())?));
        }
    }
    let mut extra = vec![];
    let mut extra_addrs = vec![];
    let mut extra_paths = vec![];
    for (k, (id, comp, contents)) in spec.extra.iter().enumerate() {
        let p = match at { Some(a) => a[k].clone(), None => dir.join(format!("extra-{id}.jbkc")) };
        let (c, a) = extra_creator(*id, *comp, contents, &p, in_dir)?;
        extra.push(c);
        extra_addrs.push(a);
        extra_paths.push(p);
    }
    let handles = Arc::new(Mutex::new(vec![]));
    let dc = Box::new(DirCreator { spec: spec.dir.clone(), handles: handles.clone() });
    creator.finalize(dc, extra).map_err(|e| format!("{e:?}"))?;
    let positions = handles.lock().unwrap().iter().map(|v: &Vec<Handle>| v.iter().map(|h| h.get().into_u32()).collect()).collect();
    Ok(Built { path: out.to_path_buf(), addrs, extra_addrs, positions, extra_paths })
}

/// Only a directory pack, as its own file.
pub fn build_directory(spec: &DirSpec, out: &Utf8Path) -> Result<(jbk::creator::PackData, Vec<Vec<u32>>), String> {
    guarded(|| {
        let mut dp = jbk::creator::DirectoryPackCreator::new(0.into(), VENDOR, Default::default());
        let h = populate(spec, &mut dp);
        let fin = dp.finalize().map_err(|e| e.to_string())?;
        let mut f = jbk::creator::AtomicOutFile::new(out).map_err(|e| e.to_string())?;
        let pd = fin.write(&mut *f).map_err(|e| format!("{e:?}"))?;
        use jbk::creator::PackRecipient;
        f.close_file().map_err(|e| format!("{e:?}"))?;
        let pos = h.iter().map(|v| v.iter().map(|h| h.get().into_u32()).collect()).collect();
        Ok((pd, pos))
    })?
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sink {
    /// ContentPackCreator::new on a path
    Named,
    /// atomic file
    Atomic,
}

pub struct PackBuilt {
    pub path: Utf8PathBuf,
    pub addrs: Vec<(u16, u32)>,
    pub data: jbk::creator::PackData,
}

fn add_all<A: jbk::creator::ContentAdder>(a: &mut A, contents: &[ContentSpec], in_dir: &Utf8Path) -> Result<Vec<(u16, u32)>, String> {
    let mut v = vec![];
    for (i, s) in contents.iter().enumerate() {
        let inp = input(s, in_dir, i).map_err(|e| e.to_string())?;
        v.push(addr(a.add_content(inp, s.hint.jbk()).map_err(|e| format!("add_content {i}: {e}"))?));
        if s.src != Src::Mem {
            // the creator holds its own descriptor
            let _ = std::fs::remove_file(in_dir.join(format!("in-{i}")));
        }
    }
    Ok(v)
}

/// Only a content pack.
pub fn build_pack(
    out: &Utf8Path, id: u16, comp: Comp, contents: &[ContentSpec], dedup: bool, sink: Sink, progress: Arc<dyn jbk::creator::Progress>,
) -> Result<PackBuilt, String> {
    guarded(|| {
        let in_dir = out.parent().unwrap().join("inputs");
        std::fs::create_dir_all(&in_dir).map_err(|e| e.to_string())?;
        fn go<O: jbk::creator::PackRecipient + 'static>(
            o: Box<O>, id: u16, comp: Comp, contents: &[ContentSpec], dedup: bool, in_dir: &Utf8Path, progress: Arc<dyn jbk::creator::Progress>,
        ) -> Result<(Box<O>, Vec<(u16, u32)>, jbk::creator::PackData), String> {
            let mut c = jbk::creator::ContentPackCreator::new_from_output_with_progress(o, id.into(), VENDOR, Default::default(), comp.jbk(), progress)
                .map_err(|e| e.to_string())?;
            let addrs;
            if dedup {
                let mut a = jbk::creator::CachedContentAdder::new(c, std::rc::Rc::new(()));
                addrs = add_all(&mut a, contents, in_dir)?;
                c = a.into_inner();
            } else {
                addrs = add_all(&mut c, contents, in_dir)?;
            }
            let (o, d) = c.finalize().map_err(|e| format!("finalize: {e}"))?;
            Ok((o, addrs, d))
        }
        use jbk::creator::PackRecipient;
        let (addrs, data) = match sink {
            Sink::Named => {
                let mut c = jbk::creator::ContentPackCreator::new_with_progress(out, id.into(), VENDOR, Default::default(), comp.jbk(), progress)
                    .map_err(|e| e.to_string())?;
                let addrs;
                if dedup {
                    let mut a = jbk::creator::CachedContentAdder::new(c, std::rc::Rc::new(()));
                    addrs = add_all(&mut a, contents, &in_dir)?;
                    c = a.into_inner();
                } else {
                    addrs = add_all(&mut c, contents, &in_dir)?;
                }
                let (o, d) = c.finalize().map_err(|e| format!("finalize: {e}"))?;
                o.close_file().map_err(|e| format!("{e:?}"))?;
                (addrs, d)
            }
            _ => {
                let f = jbk::creator::AtomicOutFile::new(out).map_err(|e| e.to_string())?;
                let (o, a, d) = go(f, id, comp, contents, dedup, &in_dir, progress)?;
                o.close_file().map_err(|e| format!("{e:?}"))?;
                (a, d)
            }
        };
        Ok(PackBuilt { path: out.to_path_buf(), addrs, data })
    })?
}

pub fn open_content_pack(p: &Utf8Path) -> Result<jbk::reader::ContentPack, String> {
    let r: jbk::Reader = jbk::FileSource::open(p).map_err(|e| e.to_string())?.into();
    jbk::reader::ContentPack::new(r).map_err(|e| format!("{e:?}"))
}

//! Logical dump of a container through the public reader API.
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jbk::reader::builder::{ArrayProperty, ContentProperty, IntProperty, PropertyBuilderTrait, SignedProperty};
use jbk::reader::{EntryTrait, MayMissPack, Range};
use jbk::Pack;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Val(String),
    Err(String),
}
pub type Dump = BTreeMap<String, Item>;

thread_local!(static TOLD: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
/// The text of an error; only of the first ones of a dump (some hold a whole block, and formatting it takes time).
fn short(e: impl std::fmt::Debug) -> String {
    if TOLD.replace(TOLD.get().saturating_add(1)) > 60 {
        return "an error".into();
    }
    crate::util::short_dbg(&e, 120)
}
macro_rules! put {
    ($d:expr, $k:expr, $r:expr) => {{
        let k = $k;
        match $r {
            Ok(v) => { $d.insert(k, Item::Val(v)); }
            Err(e) => { $d.insert(k, Item::Err(short(e))); }
        }
    }};
}

pub fn bytes_repr(b: &[u8]) -> String {
    if b.len() <= 40 {
        format!("{}:{}", b.len(), hex(b))
    } else {
        format!("{}:#{:016x}", b.len(), hash64(b))
    }
}

pub fn v_repr(v: &V) -> String {
    match v {
        V::U(v) | V::UW(v) => format!("u{v}"),
        V::S(v) | V::SW(v) => format!("s{v}"),
        V::A(v) => format!("a{}", bytes_repr(v)),
        V::C(p, c) => format!("c{p}/{c}"),
        V::Ref(..) => unreachable!(),
    }
}
pub fn val_repr(v: &jbk::Value) -> String {
    match v {
        jbk::Value::Content(c) => format!("c{}/{}", c.pack_id.into_u16(), c.content_id.into_u32()),
        jbk::Value::Unsigned(v) => format!("u{v}"),
        jbk::Value::Signed(v) => format!("s{v}"),
        jbk::Value::Array(a) => format!("a{}", bytes_repr(a.as_bytes())),
        _ => "?word".into(),
    }
}

/// What to ask for (taken from the model, never from the possibly damaged file).
#[derive(Clone, Debug, Default)]
pub struct Ask {
    pub indexes: Vec<AskIndex>,
    /// (pack id, number of contents)
    pub packs: Vec<(u16, u32)>,
}
#[derive(Clone, Debug)]
pub struct AskIndex {
    pub name: String,
    pub count: u32,
    /// every property name of the store, with its type letter when common
    pub props: Vec<(&'static str, char, Option<&'static str>)>,
}

pub fn ptype_char(t: &PType) -> char {
    match t {
        PType::U => 'u',
        PType::S => 's',
        PType::A { .. } => 'a',
        PType::C => 'c',
    }
}

pub fn ask_of(spec: &DirSpec, packs: Vec<(u16, u32)>) -> Ask {
    let indexes = spec
        .indexes
        .iter()
        .map(|i| {
            let s = &spec.stores[i.store];
            let mut props: Vec<_> = s.common.iter().map(|p| (p.name, ptype_char(&p.t), None)).collect();
            for (n, v) in &s.variants {
                props.extend(v.iter().map(|p| (p.name, ptype_char(&p.t), Some(*n))));
            }
            AskIndex { name: i.name.clone(), count: i.count, props }
        })
        .collect();
    Ask { indexes, packs }
}
pub fn ask_container(spec: &ContainerSpec, b: &crate::builder::Built) -> Ask {
    let distinct = |a: &[(u16, u32)]| a.iter().map(|x| x.1 + 1).max().unwrap_or(0);
    let mut packs = vec![(1, distinct(&b.addrs))];
    for ((id, ..), a) in spec.extra.iter().zip(&b.extra_addrs) {
        packs.push((*id, distinct(a)));
    }
    ask_of(&spec.dir, packs)
}

fn typed(
    store: &jbk::reader::EntryStore, vs: &jbk::reader::ValueStorage, idx: jbk::EntryIdx, name: &'static str, t: char,
    variant: Option<&'static str>,
) -> jbk::Result<Option<String>> {
    let layout = store.layout();
    let p = match variant {
        None => layout.common.get(name),
        Some(v) => match layout.get_variant(v) {
            None => return Ok(None),
            Some(l) => l.get(name),
        },
    };
    let p = match p {
        None => return Ok(None),
        Some(p) => p,
    };
    let parser = match store.get_entry_reader(idx) {
        None => return Ok(None),
        Some(p) => p,
    };
    Ok(match t {
        'u' => {
            let b: Option<IntProperty> = p.as_builder(vs)?;
            match b { None => None, Some(b) => Some(format!("u{}", b.create(&parser)?)) }
        }
        's' => {
            let b: Option<SignedProperty> = p.as_builder(vs)?;
            match b { None => None, Some(b) => Some(format!("s{}", b.create(&parser)?)) }
        }
        'a' => {
            let b: Option<ArrayProperty> = p.as_builder(vs)?;
            match b {
                None => None,
                Some(b) => {
                    let a = b.create(&parser)?;
                    Some(format!("a{}", val_repr(&jbk::reader::RawValue::Array(a).get()?).split_off(1)))
                }
            }
        }
        _ => {
            let b: Option<ContentProperty> = p.as_builder(vs)?;
            match b {
                None => None,
                Some(b) => {
                    let c = b.create(&parser)?;
                    Some(format!("c{}/{}", c.pack_id.into_u16(), c.content_id.into_u32()))
                }
            }
        }
    })
}

#[derive(Clone, Copy, Default)]
pub struct DumpOpts {
    pub typed: bool,
    /// also record the error of each failing item in the key space (always)
    pub content_bytes: bool,
}

pub fn dump_dir(
    d: &mut Dump, ask: &Ask, dp: &std::sync::Arc<jbk::reader::DirectoryPack>, vs: &jbk::reader::ValueStorage,
    get_store: &dyn Fn(&jbk::reader::Index) -> jbk::Result<jbk::reader::EntryStore>, opts: DumpOpts,
) {
    TOLD.set(0);
    put!(d, "dir.free".into(), Ok::<_, ()>(bytes_repr(dp.get_free_data())));
    put!(d, "dir.uuid".into(), Ok::<_, ()>(format!("{}", dp.uuid())));
    put!(d, "dir.size".into(), Ok::<_, ()>(format!("{}", dp.size().into_u64())));
    put!(d, "dir.vendor".into(), Ok::<_, ()>(format!("{:?}", dp.app_vendor_id())));
    for (n, ai) in ask.indexes.iter().enumerate() {
        let k = format!("index{n}[{}]", ai.name);
        if let Ok(i) = dp.get_index((n as u32).into()) {
            d.insert(format!("{k}.byid"), Item::Val(format!("{}+{} in {}", i.offset().into_u32(), i.size().into_u32(), i.get_store_id().into_u32())));
        } else {
            d.insert(format!("{k}.byid"), Item::Err("err".into()));
        }
        let idx = match dp.get_index_from_name(&ai.name) {
            Err(e) => { d.insert(k, Item::Err(short(e))); continue }
            Ok(None) => { d.insert(k, Item::Val("no such index".into())); continue }
            Ok(Some(i)) => i,
        };
        d.insert(k.clone(), Item::Val(format!(
            "offset {} count {} size {} store {} empty {}",
            idx.offset().into_u32(), idx.count().into_u32(), idx.size().into_u32(), idx.get_store_id().into_u32(), idx.is_empty()
        )));
        let store = match get_store(&idx) {
            Err(e) => { d.insert(format!("{k}.store"), Item::Err(short(e))); continue }
            Ok(s) => s,
        };
        let layout = store.layout();
        let mut names: Vec<String> = layout.common.iter().map(|(n, _)| n.to_string()).collect();
        names.sort();
        let mut s = format!("{names:?}");
        let mut vnames: Vec<(u8, String)> = vec![];
        if let Some(vp) = &layout.variant_part {
            vnames = vp.names.iter().map(|(n, i)| (*i, n.to_string())).collect();
            vnames.sort();
            s += &format!(" variants {} {vnames:?}", vp.len());
            for v in vp.variants.iter() {
                let mut names: Vec<String> = v.iter().map(|(n, _)| n.to_string()).collect();
                names.sort();
                s += &format!("{names:?}");
            }
        }
        d.insert(format!("{k}.layout"), Item::Val(s));
        let builder = match jbk::reader::builder::AnyBuilder::new(store.clone(), vs) {
            Err(e) => { d.insert(format!("{k}.builder"), Item::Err(short(e))); continue }
            Ok(b) => b,
        };
        // one past the end must not exist
        let n_ask = idx.count().into_u32().min(ai.count + 2);
        for e in 0..n_ask.max(ai.count) + 2 {
            let ek = format!("{k}#{e}");
            let entry = match idx.get_entry(&builder, e.into()) {
                Err(err) => { d.insert(ek, Item::Err(short(err))); continue }
                Ok(None) => { d.insert(ek, Item::Val("no entry".into())); continue }
                Ok(Some(en)) => en,
            };
            d.insert(ek.clone(), Item::Val("entry".into()));
            let vid = entry.get_variant_id();
            let mut this_variant = None;
            match vid {
                Err(er) => { d.insert(format!("{ek}.variant"), Item::Err(short(er))); }
                Ok(None) => { d.insert(format!("{ek}.variant"), Item::Val("none".into())); }
                Ok(Some(v)) => {
                    let name = vnames.iter().find(|x| x.0 == v.into_u8()).map(|x| x.1.clone());
                    d.insert(format!("{ek}.variant"), Item::Val(format!("{} {name:?}", v.into_u8())));
                    this_variant = name;
                }
            }
            for (name, t, of_variant) in &ai.props {
                if of_variant.is_some() && *of_variant != this_variant.as_deref() && this_variant.is_some() {
                    continue;
                }
                let r = entry.get_value(name);
                let it = match r {
                    Err(er) => Item::Err(short(er)),
                    Ok(None) => Item::Val("absent".into()),
                    Ok(Some(raw)) => match raw.get() {
                        Err(er) => Item::Err(short(er)),
                        Ok(v) => Item::Val(val_repr(&v)),
                    },
                };
                let pk = format!("{ek}.{name}");
                if opts.typed {
                    let it2 = match typed(&store, vs, idx.offset() + jbk::EntryIdx::from(e), name, *t, *of_variant) {
                        Err(er) => Item::Err(short(er)),
                        Ok(None) => Item::Val("absent".into()),
                        Ok(Some(v)) => Item::Val(v),
                    };
                    d.insert(format!("{pk}/typed"), it2);
                }
                d.insert(pk, it);
            }
        }
    }
}

/// Raw bytes of contents are kept apart: (pack, content) -> bytes or error
pub type Contents = BTreeMap<(u16, u32), Result<Vec<u8>, String>>;

pub fn read_region(r: &jbk::reader::ByteRegion) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let mut v = vec![];
    r.stream().read_to_end(&mut v).map_err(short)?;
    Ok(v)
}

pub fn info_repr(p: &jbk::reader::PackInfo, with_location: bool) -> String {
    format!(
        "uuid {} size {} id {} kind {:?} group {} check {:?} free {:?}{}",
        p.uuid, p.pack_size.into_u64(), p.pack_id.into_u16(), p.pack_kind, p.pack_group, p.check_info_pos, p.free_data_id,
        if with_location { format!(" location {:?}", p.pack_location.as_str()) } else { String::new() }
    )
}

pub fn dump_container(c: &jbk::reader::Container, ask: &Ask, opts: DumpOpts) -> (Dump, Contents) {
    let mut d = Dump::new();
    let mut cs = Contents::new();
    put!(d, "container.uuid".into(), Ok::<_, ()>(c.uuid().to_string()));
    put!(d, "container.packs".into(), Ok::<_, ()>(format!("{}", c.pack_count().into_u16())));
    let es = c.get_entry_storage().clone();
    dump_dir(&mut d, ask, c.get_directory_pack(), c.get_value_storage(), &|i| i.get_store(&es), opts);
    for (id, n) in &ask.packs {
        let k = format!("pack{id}");
        match c.get_pack((*id).into()) {
            Err(e) => { d.insert(k.clone(), Item::Err(short(e))); }
            Ok(None) => { d.insert(k.clone(), Item::Val("unknown".into())); }
            Ok(Some(MayMissPack::MISSING(p))) => { d.insert(k.clone(), Item::Val(format!("missing {}", info_repr(&p, true)))); }
            Ok(Some(MayMissPack::FOUND(p))) => {
                d.insert(k.clone(), Item::Val(format!(
                    "count {} uuid {} size {} free {} kind {:?} version {:?}",
                    p.get_content_count().into_u32(), p.uuid(), p.size().into_u64(), bytes_repr(p.get_free_data()), p.kind(), p.version()
                )));
            }
        }
        let mut refused = 0u32;
        for i in 0..n + 2 {
            // a pack which does not open is tried (and its blocks are verified) again for each content: some are enough
            if refused > 200 && i % 97 != 0 {
                continue;
            }
            let ck = format!("{k}/{i}");
            match c.get_bytes(jbk::ContentAddress::new((*id).into(), i.into())) {
                Err(e) => {
                    refused += 1;
                    d.insert(ck, Item::Err(short(&e)));
                    cs.insert((*id, i), Err(short(e)));
                }
                Ok(None) => { d.insert(ck, Item::Val("unknown pack".into())); }
                Ok(Some(MayMissPack::MISSING(p))) => { d.insert(ck, Item::Val(format!("missing pack {}", p.uuid))); }
                Ok(Some(MayMissPack::FOUND(None))) => { d.insert(ck, Item::Val("no such content".into())); }
                Ok(Some(MayMissPack::FOUND(Some(r)))) => {
                    refused = 0;
                    d.insert(ck, Item::Val(format!("size {}", r.size().into_u64())));
                    if opts.content_bytes {
                        cs.insert((*id, i), read_region(&r));
                    }
                }
            }
        }
    }
    (d, cs)
}

pub fn open_dump(p: &Path, ask: &Ask, opts: DumpOpts) -> Result<(Dump, Contents), String> {
    let c = jbk::reader::Container::new(p).map_err(short)?;
    Ok(dump_container(&c, ask, opts))
}

/// Expected dump of the entries of an unsorted directory (exact sequence), for the given keys.
pub fn expect_entries(spec: &DirSpec, order: &[Vec<usize>]) -> Vec<(String, String)> {
    let mut out = vec![];
    for (n, i) in spec.indexes.iter().enumerate() {
        let s = &spec.stores[i.store];
        // with duplicate index names the first one answers
        let first = spec.indexes.iter().position(|x| x.name == i.name).unwrap();
        if first != n {
            continue;
        }
        let k = format!("index{n}[{}]", i.name);
        out.push((k.clone(), format!("offset {} count {} size {} store {} empty {}", i.offset, i.count, i.count, i.store, i.count == 0)));
        for e in 0..i.count {
            let ent = &s.entries[order[i.store][(i.offset + e) as usize]];
            let ek = format!("{k}#{e}");
            out.push((ek.clone(), "entry".into()));
            out.push((format!("{ek}.variant"), match ent.variant {
                None => "none".into(),
                Some(v) => format!("{v} {:?}", Some(s.variants[v].0.to_string())),
            }));
            for (name, v) in &ent.vals {
                out.push((format!("{ek}.{name}"), v_repr(v)));
            }
        }
        for e in i.count..i.count + 2 {
            out.push((format!("{k}#{e}"), "no entry".into()));
        }
    }
    out
}

/// Structural items of `got` which have a value that differs from the pristine dump.
pub fn diff_dump(pristine: &Dump, got: &Dump) -> Vec<String> {
    let mut v = vec![];
    for (k, i) in got {
        if let Item::Val(x) = i {
            match pristine.get(k) {
                Some(Item::Val(y)) if x == y => {}
                o => v.push(format!("{k}: {x} instead of {o:?}")),
            }
        }
    }
    v
}
pub fn n_vals(d: &Dump) -> usize {
    d.values().filter(|i| matches!(i, Item::Val(_))).count()
}

pub struct DirFile {
    pub pack: std::sync::Arc<jbk::reader::DirectoryPack>,
    pub vs: std::sync::Arc<jbk::reader::ValueStorage>,
    pub get_store: Box<dyn Fn(&jbk::reader::Index) -> jbk::Result<jbk::reader::EntryStore>>,
}
/// A directory pack alone in its file.
pub fn open_dir(p: &Path) -> jbk::Result<DirFile> {
    let r: jbk::Reader = jbk::FileSource::open(p)?.into();
    let pack = std::sync::Arc::new(jbk::reader::DirectoryPack::new(r)?);
    let es = pack.create_entry_storage();
    let vs = pack.create_value_storage();
    Ok(DirFile { pack, vs, get_store: Box::new(move |i| i.get_store(&es)) })
}
pub fn dump_dir_file(p: &Path, ask: &Ask, opts: DumpOpts) -> Result<Dump, String> {
    let f = open_dir(p).map_err(short)?;
    let mut d = Dump::new();
    dump_dir(&mut d, ask, &f.pack, &f.vs, &*f.get_store, opts);
    Ok(d)
}

/// One entry as a comparable text: variant and the value of each of its properties.
pub fn tuple_of_spec(s: &StoreSpec, e: &EntrySpec) -> String {
    let mut v: Vec<String> = e.vals.iter().map(|(n, v)| format!("{n}={}", v_repr(v))).collect();
    v.sort();
    format!("{:?} {}", e.variant.map(|i| s.variants[i].0), v.join(" "))
}
/// Same from a dump (properties which are not the entry's must be absent)
pub fn tuple_of_dump(d: &Dump, s: &StoreSpec, k: &str) -> Result<String, String> {
    let get = |key: String| match d.get(&key) {
        Some(Item::Val(v)) => Ok(v.clone()),
        o => Err(format!("{key}: {o:?}")),
    };
    if get(k.to_string())? != "entry" {
        return Err(format!("{k}: {:?}", d.get(k)));
    }
    let vt = get(format!("{k}.variant"))?;
    let variant = if vt == "none" { None } else {
        let i: usize = vt.split(' ').next().unwrap().parse().map_err(|_| vt.clone())?;
        if i >= s.variants.len() {
            return Err(format!("{k}: variant {vt}"));
        }
        if vt != format!("{i} {:?}", Some(s.variants[i].0.to_string())) {
            return Err(format!("{k}: variant {vt}"));
        }
        Some(i)
    };
    let mut v = vec![];
    for p in s.props_of(variant) {
        v.push(format!("{}={}", p.name, get(format!("{k}.{}", p.name))?));
    }
    v.sort();
    Ok(format!("{:?} {}", variant.map(|i| s.variants[i].0), v.join(" ")))
}

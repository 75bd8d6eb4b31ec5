//! C05 and C06: damaged files, read in worker processes.
use crate::builder::*;
use crate::cli;
use crate::dump::*;
use crate::model::*;
use crate::pack::*;
use crate::util::*;
use crate::worker::*;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use jbk::Pack;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Hash)]
pub enum Damage {
    Flip(usize, u8),
    Fill(usize, usize, u8),
    Rand(usize, usize, u64),
    Multi(Vec<(usize, u8)>),
    Trunc(usize),
    Extend(usize, u64),
    Replace(usize, u64),
    /// bytes lost: from, how many
    Lost(usize, usize),
    /// bytes come in: where, how many
    Added(usize, usize, u64),
    /// bytes overwritten by those of another place: from, to, how many
    Copied(usize, usize, usize),
    /// two blocks exchanged: where, how many bytes
    Exchanged(usize, usize, usize),
    /// the first bytes are those of this file, the others those of another one
    Mixed(usize, Arc<Vec<u8>>, usize),
}
impl Damage {
    pub fn name(&self) -> &'static str {
        match self {
            Damage::Flip(..) => "flip",
            Damage::Fill(..) => "zeroed",
            Damage::Rand(..) => "overwritten",
            Damage::Multi(..) => "several",
            Damage::Trunc(..) => "truncated",
            Damage::Extend(..) => "extended",
            Damage::Replace(..) => "not_a_container",
            Damage::Lost(..) => "bytes_lost",
            Damage::Added(..) => "bytes_inserted",
            Damage::Copied(..) => "bytes_misplaced",
            Damage::Exchanged(..) => "blocks_exchanged",
            Damage::Mixed(..) => "half_replaced",
        }
    }
    pub fn apply(&self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        match self {
            Damage::Flip(p, m) => v[*p] ^= m,
            Damage::Fill(p, n, x) => v[*p..p + n].fill(*x),
            Damage::Rand(p, n, s) => { let r = Rng::new(*s).bytes(*n); v[*p..p + n].copy_from_slice(&r) }
            Damage::Multi(e) => { for (p, m) in e { v[*p] ^= m } }
            Damage::Trunc(n) => v.truncate(*n),
            Damage::Lost(p, n) => { v.drain(*p..p + n); }
            Damage::Added(p, n, s) => {
                let mut r = Rng::new(*s);
                let t = match r.below(3) { 0 => vec![0; *n], 1 => { let q = r.us(v.len()); v[q..(q + n).min(v.len())].to_vec() } _ => r.bytes(*n) };
                v.splice(*p..*p, t);
            }
            Damage::Exchanged(a, b, n) => { let t = v[*a..a + n].to_vec(); v.copy_within(*b..b + n, *a); v[*b..b + n].copy_from_slice(&t) }
            Damage::Mixed(n, o, m) => { v.truncate(*n); v.extend_from_slice(&o[*m..]) }
            Damage::Copied(a, b, n) => v.copy_within(*a..a + n, *b),
            Damage::Extend(n, s) => {
                let mut r = Rng::new(*s);
                match r.below(5) {
                    0 => v.resize(v.len() + n, 0),
                    1 => { let t = v[v.len() - (*n).min(v.len())..].to_vec(); v.extend(t) }
                    2 => { let t = v[..(*n).min(v.len())].to_vec(); v.extend(t) }
                    3 => {
                        // garbage which ends as the mirrored header does
                        let mut t = r.bytes(*n);
                        let k = t.len();
                        for (i, x) in b"jbkC".iter().enumerate() { if i < k { t[k - 1 - i] = *x } }
                        v.extend(t)
                    }
                    _ => v.extend(r.bytes(*n)),
                }
            }
            Damage::Replace(n, s) => {
                let mut r = Rng::new(*s);
                v = r.bytes(*n);
                match r.below(4) {
                    0 => v.fill(0),
                    1 => { for (i, x) in b"jbkC".iter().enumerate() { if i < v.len() { v[i] = *x } } }
                    2 => { let k = v.len(); for (i, x) in b"jbkm".iter().enumerate() { if i < k { v[k - 1 - i] = *x } } }
                    _ => {}
                }
            }
        }
        v
    }
}

// ---------- worlds on disk: files, and what to ask

fn enc(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn dec(s: &str) -> String {
    String::from_utf8((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()
}
fn write_ask(p: &Path, a: &Ask, meta: &str) {
    let mut o = format!("meta {meta}\n");
    for i in &a.indexes {
        o += &format!("index {} {}\n", i.count, enc(&i.name));
        for (n, t, v) in &i.props {
            o += &format!("prop {t} {} {}\n", enc(n), v.map(|v| format!("={}", enc(v))).unwrap_or_default());
        }
    }
    for (p, n) in &a.packs {
        o += &format!("pack {p} {n}\n");
    }
    std::fs::write(p, o).unwrap();
}
fn read_ask(p: &Path) -> (Ask, String) {
    let mut a = Ask::default();
    let mut meta = String::new();
    for l in String::from_utf8(read(p)).unwrap().lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "meta" => meta = l[5..].into(),
            "index" => a.indexes.push(AskIndex { name: dec(f[2]), count: f[1].parse().unwrap(), props: vec![] }),
            "prop" => {
                let v = f[3].strip_prefix('=').map(|v| intern(&dec(v)));
                a.indexes.last_mut().unwrap().props.push((intern(&dec(f[2])), f[1].chars().next().unwrap(), v));
            }
            _ => a.packs.push((f[1].parse().unwrap(), f[2].parse().unwrap())),
        }
    }
    (a, meta)
}

pub fn world_spec(r: &mut Rng, k: u64, big: bool) -> ContainerSpec {
    let mode = Mode::ALL[(k % 3) as usize];
    let mut cfg = GenCfg::small();
    cfg.words = false;
    cfg.max_entries = if big { 300 } else { 6 };
    if big {
        cfg.max_array = 300;
        cfg.max_stores = 2;
        cfg.max_props = 8;
    }
    let comp = match (k / 3) % 4 { 0 => Comp::Zstd(1), 1 => Comp::Lz4(1), 2 => Comp::Lzma(1), _ => Comp::None };
    let text = |r: &mut Rng, n: usize| ContentSpec { data: Arc::new(gen_data(r, n)), hint: Hint::Yes, src: Src::Mem };
    let mut contents = vec![];
    if big {
        contents.push(ContentSpec { data: Arc::new((0..90_000u32).map(|i| (i * 7 / 3) as u8 ^ (i >> 9) as u8).collect()), hint: Hint::Yes, src: Src::Mem });
        contents.push(ContentSpec { data: Arc::new(r.bytes(30_000)), hint: Hint::No, src: Src::Mem });
        contents.push(ContentSpec { data: Arc::new(r.bytes(9_000)), hint: Hint::Yes, src: Src::Mem });
        for i in 0..1500 {
            contents.push(ContentSpec { data: Arc::new(vec![i as u8; i % 4]), hint: if i % 2 == 0 { Hint::Yes } else { Hint::No }, src: Src::Mem });
        }
    } else {
        for _ in 0..2 + r.us(3) {
            let n = r.us(60);
            contents.push(text(r, n));
        }
        contents.push(ContentSpec { data: Arc::new(r.bytes(20)), hint: Hint::No, src: Src::Mem });
    }
    let mut extra = vec![];
    if k % 5 == 1 {
        extra.push((2u16, Comp::Zstd(1), vec![text(r, 30)]));
    }
    cfg.n_contents = vec![(1, contents.len() as u32)];
    // at least one entry and, usually, both kinds of value stores
    let dir = loop {
        let d = gen_dir(r, &cfg);
        if d.stores.iter().any(|s| s.entries.len() >= if big { 100 } else { 2 }) && (k % 4 == 3 || d.vstores.len() >= 2) {
            break d;
        }
    };
    ContainerSpec { comp, mode, contents, extra, dir, dedup: false }
}
/// A container whose checked blocks (content infos, entries, value stores) are bigger than 64 KiB,
/// of a round number of bytes or not.
fn huge_spec(r: &mut Rng, k: u64) -> ContainerSpec {
    let round = k % 2 == 0;
    let n = if round { 17_408 } else { 20_011 };
    let contents: Vec<_> = (0..n).map(|i| ContentSpec { data: Arc::new(vec![i as u8; (i % 5 == 0) as usize]), hint: if i % 3000 < 1500 { Hint::Yes } else { Hint::No }, src: Src::Mem }).collect();
    let p = |n, t| PropSpec { name: n, t };
    let (ne, nv) = if round { (8704, 544) } else { (9001, 600) };
    let ids = StoreSpec {
        common: vec![p("id", PType::U)],
        entries: (0..ne).map(|i| EntrySpec { variant: None, vals: vec![("id", V::U(r.u64() | (i << 60)))] }).collect(),
        ..Default::default()
    };
    let names = StoreSpec {
        common: vec![p("name", PType::A { fixed: 0, store: 0 }), p("other", PType::A { fixed: 0, store: 1 }), p("content", PType::C)],
        entries: (0..nv)
            .map(|i| EntrySpec { variant: None, vals: vec![("name", V::A(r.bytes(128))), ("other", V::A(r.bytes(128))), ("content", V::C(1, i * 31))] })
            .collect(),
        ..Default::default()
    };
    let ix = |n: &str, store, count| IndexSpec { name: n.into(), store, offset: 0, count, key: 0, free: [1, 2, 3, 4] };
    let dir = DirSpec {
        vstores: vec![VsKind::Plain, VsKind::Indexed],
        indexes: vec![ix("ids", 0, ne as u32), ix("names", 1, nv as u32)],
        stores: vec![ids, names],
    };
    ContainerSpec { comp: if round { Comp::None } else { Comp::Zstd(1) }, mode: Mode::ALL[(k % 3) as usize], contents, extra: vec![], dir, dedup: false }
}
/// Build the worlds; each is a directory with `ask.txt` and `files/`.
fn make_worlds(ctx: &mut Ctx, root: &Path, n_small: u64, n_big: u64, n_huge: u64) -> Result<(), String> {
    for k in 0..n_small + n_big + n_huge {
        let mut r = ctx.rng(0xDA, k);
        let big = k >= n_small;
        let w = loop {
            let huge = k >= n_small + n_big;
            let spec = if huge { huge_spec(&mut r, k) } else { world_spec(&mut r, k, big) };
            match world("dmg", spec) {
                Err(e) => return Err(e),
                Ok(w) => {
                    let total: usize = list(&w.sc).iter().map(|p| read(p).len()).sum();
                    if big || total < 9000 { break w }
                }
            }
        };
        let d = root.join(format!("{k:03}"));
        std::fs::create_dir_all(d.join("files")).unwrap();
        for p in list(&w.sc) {
            std::fs::copy(&p, d.join("files").join(p.file_name().unwrap())).unwrap();
        }
        write_ask(&d.join("ask.txt"), &w.ask, &format!("{} {:?} {:?} {} contents {} extra", if k >= n_small + n_big { "big-blocks" } else if big { "big" } else { "small" }, w.spec.mode, w.spec.comp, w.spec.contents.len(), w.spec.extra.len()));
    }
    Ok(())
}

struct Wd {
    name: String,
    meta: String,
    ask: Ask,
    files: Vec<(String, Vec<u8>)>,
    blocks: Vec<std::sync::OnceLock<Vec<(usize, usize)>>>,
    pairs: Vec<std::sync::OnceLock<Vec<(usize, usize, usize)>>>,
}
impl Wd {
    /// the checked blocks of a file
    fn blocks(&self, f: usize) -> &Vec<(usize, usize)> {
        self.blocks[f].get_or_init(|| indep::blocks_of(&self.files[f].1).unwrap_or_default())
    }
    fn pairs(&self, f: usize) -> &Vec<(usize, usize, usize)> {
        self.pairs[f].get_or_init(|| {
            let b = self.blocks(f);
            let mut v = vec![];
            for (i, x) in b.iter().enumerate() {
                for y in &b[i + 1..] {
                    if x.1 == y.1 && x.0 + x.1 <= y.0 {
                        v.push((x.0, y.0, x.1));
                    }
                }
            }
            v
        })
    }
}
fn load_worlds(root: &Path) -> Vec<Wd> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(root).unwrap().map(|e| e.unwrap().path()).filter(|p| p.join("ask.txt").exists()).collect();
    v.sort();
    v.iter()
        .map(|d| {
            let (ask, meta) = read_ask(&d.join("ask.txt"));
            let mut files: Vec<_> = std::fs::read_dir(d.join("files")).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().into_string().unwrap(), read(e.path()))).collect();
            files.sort();
            Wd { name: d.file_name().unwrap().to_str().unwrap().into(), meta, ask, blocks: files.iter().map(|_| Default::default()).collect(), pairs: files.iter().map(|_| Default::default()).collect(), files }
        })
        .collect()
}

// ---------- what is done with a (damaged) container

pub struct Seen {
    pub dump: Dump,
    pub contents: Contents,
    pub check: Result<bool, String>,
    pub opened: bool,
}
fn es<T>(r: jbk::Result<T>) -> Result<T, String> {
    r.map_err(|e| short_err(&e, 100))
}
fn put(d: &mut Dump, k: String, r: Result<String, String>) {
    d.insert(k, match r { Ok(v) => Item::Val(v), Err(e) => Item::Err(e) });
}
/// Everything which can be read from the container and from each file of it by its own.
fn look(main: &Utf8Path, files: &[Utf8PathBuf], ask: &Ask, alone: bool, check: bool) -> Seen {
    let mut s = Seen { dump: Dump::new(), contents: Contents::new(), check: Err("not run".into()), opened: false };
    match es(jbk::reader::Container::new(main)) {
        Err(e) => { put(&mut s.dump, "container".into(), Err(e.clone())); s.check = Err(e) }
        Ok(c) => {
            s.opened = true;
            let (d, cs) = dump_container(&c, ask, DumpOpts { typed: true, content_bytes: true });
            s.dump = d;
            s.contents = cs;
            // slices, from the middle to the end
            for (id, n) in &ask.packs {
                for i in 0..(*n).min(3) {
                    if let Ok(Some(jbk::reader::MayMissPack::FOUND(Some(r)))) = c.get_bytes(jbk::ContentAddress::new((*id).into(), i.into())) {
                        let z = r.size().into_u64();
                        let _ = r.get_slice(jbk::Offset::from(z / 2), (z - z / 2) as usize);
                    }
                }
            }
            if check {
                s.check = es(c.check());
            }
        }
    }
    if alone {
        for f in files {
            let k = f.file_name().unwrap().to_string();
            match es(jbk::tools::open_pack(f)) {
                Err(e) => put(&mut s.dump, format!("{k}/file"), Err(e)),
                Ok(c) => {
                    let mut u: Vec<_> = c.iter().map(|(u, _)| u.to_string()).collect();
                    u.sort();
                    put(&mut s.dump, format!("{k}/file"), Ok(format!("{u:?}")));
                    if let Ok(Some(r)) = c.get_manifest_pack_reader() {
                        match es(jbk::reader::ManifestPack::new(r)) {
                            Err(e) => put(&mut s.dump, format!("{k}/manifest"), Err(e)),
                            Ok(m) => {
                                put(&mut s.dump, format!("{k}/manifest"), Ok(format!("{} {} {}", m.uuid(), m.size().into_u64(), m.get_pack_infos().len())));
                                put(&mut s.dump, format!("{k}/free"), Ok(bytes_repr(&m.get_free_data()[..])));
                                let mut v = vec![m.get_directory_pack_info()];
                                v.extend(m.get_pack_infos().iter());
                                for (n, i) in v.into_iter().enumerate() {
                                    put(&mut s.dump, format!("{k}/info{n}"), Ok(info_repr(i, true)));
                                    put(&mut s.dump, format!("{k}/infofree{n}"), es(m.get_pack_free_data_uuid(i.uuid)).map(|x| format!("{:?}", x.map(|b| bytes_repr(&b[..])))));
                                }
                                if check { let _ = m.check(); }
                            }
                        }
                    }
                    if check { let _ = c.check(); }
                }
            }
        }
    }
    s
}

// ---------- the plan: cases of a world, in order

struct Plan {
    /// (world, file, kind, first index, count)
    seg: Vec<(usize, usize, Kind, u64, u64)>,
    pub n: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    FlipAny,
    FlipMask(u8),
    Trunc,
    Extend,
    Ranges,
    Replace,
    Moved,
    Blocks,
    Mixed,
}
impl Plan {
    fn new(ws: &[Wd], prop: &str, quick: bool) -> Plan {
        let mut p = Plan { seg: vec![], n: 0 };
        let c06 = prop == "C06";
        fn add(p: &mut Plan, w: usize, f: usize, k: Kind, n: u64) {
            p.seg.push((w, f, k, p.n, n));
            p.n += n;
        }
        let big = |w: &Wd| w.meta.starts_with("big");
        // a first round over all worlds, then the other masks
        // (the big ones first)
        let mut order: Vec<usize> = (0..ws.len()).collect();
        order.sort_by_key(|i| !big(&ws[*i]));
        for i in order {
            let w = &ws[i];
            for (j, f) in w.files.iter().enumerate() {
                let len = f.1.len() as u64;
                let (ex, some) = if w.meta.starts_with("big-blocks") { (if !quick { 8_000 } else if c06 { 120 } else { 300 }, 40) } else if big(w) { (if !quick { 20_000 } else if c06 { 200 } else { 400 }, 50) } else { (len, if quick { 250 } else { 2000 }) };
                add(&mut p, i, j, Kind::FlipAny, ex);
                if c06 {
                    add(&mut p, i, j, Kind::Trunc, if big(w) { ex / 2 } else { len });
                    add(&mut p, i, j, Kind::Extend, some / 4);
                    add(&mut p, i, j, Kind::Replace, some / 8);
                    add(&mut p, i, j, Kind::Moved, some);
                    if !big(w) {
                        // every pair of blocks of one size, both ways and exchanged
                        add(&mut p, i, j, Kind::Blocks, 3 * w.pairs(j).len() as u64);
                        add(&mut p, i, j, Kind::Mixed, some / 2);
                    }
                }
                add(&mut p, i, j, Kind::Ranges, some);
            }
        }
        for m in [0xFF, 0x01, 0x80, 0x10, 0x02, 0x40, 0x04, 0x20, 0x08, 0x55] {
            for (i, w) in ws.iter().enumerate() {
                for (j, f) in w.files.iter().enumerate() {
                    if !big(w) {
                        add(&mut p, i, j, Kind::FlipMask(m), f.1.len() as u64);
                    }
                }
            }
        }
        for _ in 0..if quick { 1 } else { 20 } {
            for (i, w) in ws.iter().enumerate() {
                for (j, _) in w.files.iter().enumerate() {
                    add(&mut p, i, j, Kind::Ranges, 5000);
                    if c06 {
                        add(&mut p, i, j, Kind::Extend, 500);
                        add(&mut p, i, j, Kind::Moved, 5000);
                    }
                }
            }
        }
        p
    }
    fn world(&self, c: u64) -> usize {
        self.seg[self.seg.partition_point(|s| s.3 + s.4 <= c)].0
    }
    fn case(&self, ws: &[Wd], seed: u64, c: u64) -> (usize, usize, Damage, Kind) {
        let s = self.seg.partition_point(|s| s.3 + s.4 <= c);
        let (w, f, k, first, n) = self.seg[s];
        let i = c - first;
        let b = &ws[w].files[f].1;
        let len = b.len();
        let mut r = Rng::sub(seed, 0xD4, c);
        // spread over a big file, all positions of a small one
        let pos = |r: &mut Rng| if n >= len as u64 { i as usize % len } else { spot(r, b) };
        let d = match k {
            Kind::FlipAny => { let p = pos(&mut r); Damage::Flip(p, match r.below(3) { 0 => 0xFF, 1 => 1 << r.below(8), _ => 1 + r.below(255) as u8 }) }
            Kind::FlipMask(m) => Damage::Flip(i as usize, m),
            Kind::Trunc => Damage::Trunc(if n >= len as u64 { i as usize % len } else { r.us(len) }),
            Kind::Extend => { let n = match r.below(3) { 0 => 1 + r.us(4), 1 => *r.pick(&[36usize, 60, 63, 64, 65, 128, 4096]), _ => 1 + r.us(2000) }; Damage::Extend(n, r.u64()) }
            Kind::Replace => { let n = match i { 0 => 0, 1 => 1, 2 => 63, 3 => 64, 4 => 65, 5 => 128, _ => { let k = r.range(1, 13); r.us(1 << k) } }; Damage::Replace(n, r.u64()) }
            Kind::Blocks => {
                let (x, y, n) = ws[w].pairs(f)[i as usize / 3];
                match i % 3 { 0 => Damage::Copied(x, y, n), 1 => Damage::Copied(y, x, n), _ => Damage::Exchanged(x, y, n) }
            }
            Kind::Mixed => {
                let others: Vec<&Wd> = ws.iter().filter(|o| !o.meta.starts_with("big")).collect();
                let o = r.pick(&others);
                let g = if o.files.len() > f && r.chance(3, 4) { f } else { r.us(o.files.len()) };
                let t = &o.files[g].1;
                let at = |r: &mut Rng, w: &Wd, f: usize| -> usize {
                    let len = w.files[f].1.len();
                    let bs = w.blocks(f);
                    match r.below(4) {
                        0 => r.us(len),
                        1 => r.us(len / 64 + 1) * 64,
                        _ if bs.is_empty() => 64.min(len),
                        2 => r.pick(bs).0,
                        _ => { let b = r.pick(bs); b.0 + b.1 }
                    }
                };
                let n = at(&mut r, &ws[w], f).min(len);
                let m = if r.bool() { n } else { at(&mut r, o, g) };
                Damage::Mixed(n, Arc::new(t.clone()), m.min(t.len()))
            }
            Kind::Moved => {
                let p = match r.below(3) { 0 => 0, _ => spot(&mut r, b) };
                let most = match r.below(4) { 0 => 4, 1 => 64, 2 => 512, _ => len };
                let n = 1 + r.us(most.min(len - p));
                match r.below(5) {
                    0 | 1 => Damage::Lost(p, n),
                    2 => Damage::Added(p, n, r.u64()),
                    _ => {
                        // whole blocks now and then: from one magic or checksum-like border to another is left to chance
                        let q = spot(&mut r, b);
                        let k = [64usize, 36, 60, 256, 8, 16][r.us(6)];
                        let (p, q) = if r.bool() { (p / 4 * 4, q / 4 * 4) } else { (p, q) };
                        let n = if r.bool() { k } else { n }.min(len - p).min(len - q);
                        Damage::Copied(p, q, n.max(1))
                    }
                }
            }
            Kind::Ranges => {
                let p = spot(&mut r, b);
                let most = match r.below(4) { 0 => 4, 1 => 36, 2 => 300, _ => len };
                let n = 1 + r.us(most.min(len - p));
                match r.below(4) {
                    0 => Damage::Fill(p, n, 0),
                    1 => Damage::Fill(p, n, 0xFF),
                    2 => Damage::Multi((0..2 + r.us(5)).map(|_| (spot(&mut r, b), 1 + r.below(255) as u8)).collect()),
                    _ => Damage::Rand(p, n, r.u64()),
                }
            }
        };
        (w, f, d, k)
    }
}
/// A position; half of them in the parts which are not content (found as what is near a checked block of the file's head or end)
fn spot(r: &mut Rng, b: &[u8]) -> usize {
    let len = b.len();
    match r.below(4) {
        0 => r.us(len.min(256)),
        1 => len - 1 - r.us(len.min(6000)),
        _ => r.us(len),
    }
}

fn tool_calls() -> Vec<Vec<String>> {
    let mut v = vec![vec!["check".to_string()], vec!["locate".into()]];
    let mut keys = vec![String::new()];
    for i in 0..5 {
        keys.push(format!("{i}"));
        for s in ["e", "v", "c", "i"] {
            for j in 0..3 {
                keys.push(format!("{i}::{s}.{j}"));
                keys.push(format!("{i}::{s}.{j}::0"));
                keys.push(format!("{i}::{s}.{j}::1"));
            }
        }
        keys.push(format!("{i}::c.0::0#"));
    }
    for k in keys {
        v.push(vec!["explore".into(), k.clone()]);
        v.push(vec!["explore".into(), k, "--format".into(), "json".into()]);
    }
    v
}
fn tool_run(a: &[String], p: &Path, secs: u64) -> Option<cli::Ran> {
    let mut v: Vec<&std::ffi::OsStr> = vec![a[0].as_ref(), p.as_os_str()];
    v.extend(a[1..].iter().map(|s| -> &std::ffi::OsStr { s.as_ref() }));
    cli::run(&v, Duration::from_secs(secs))
}

/// `jbkmon damage-worker PROP TIER SEED WORLDS T N SECONDS board from to`
pub fn worker(a: &[String]) {
    let (prop, quick, seed) = (a[0].as_str(), a[1] == "quick", a[2].parse::<u64>().unwrap());
    let root = PathBuf::from(&a[3]);
    let (t, n): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let secs: f64 = a[6].parse().unwrap();
    let board = Board::open(Path::new(&a[7]));
    let (from, to): (u64, u64) = (a[8].parse().unwrap(), a[9].parse().unwrap());
    unsafe {
        // (AddressSanitizer reserves far more)
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        if cfg!(not(jbkmon_san)) { libc::setrlimit(libc::RLIMIT_AS, &l); }
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    // a panic is told at once: it may be the last thing this process does
    std::panic::set_hook(Box::new(|i| {
        let m = panic_text(i);
        eprintln!("PANIC {m}");
        if let Ok(mut g) = PANICS.lock() { g.push(m) }
    }));
    // opened from the time the parent gave, whatever restarts there were
    let deadline = Duration::from_secs_f64(secs);
    let start = std::env::var("JBKMON_T0").ok().and_then(|s| s.parse::<f64>().ok());
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
    let t0 = Instant::now();
    let over = || match start { Some(s) => now() - s > deadline.as_secs_f64(), None => t0.elapsed() > deadline };
    let half = || match start { Some(s) => now() - s > deadline.as_secs_f64() * 0.5, None => t0.elapsed() > deadline / 2 };
    let ws = load_worlds(&root);
    let plan = Plan::new(&ws, prop, quick);
    let sc = Scratch::new("dw");
    let mut pristine: BTreeMap<usize, Seen> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut told = HashSet::new();
    let only = to != u64::MAX;
    let out = std::io::stdout();
    let flush = |counts: &mut BTreeMap<String, u64>, distinct: &mut HashSet<u64>| {
        let mut o = out.lock();
        for (k, v) in counts.iter() { let _ = writeln!(o, "N\t{k}\t{v}"); }
        if !distinct.is_empty() { let _ = writeln!(o, "D\t{}", distinct.len()); }
        let _ = o.flush();
        counts.clear();
        distinct.clear();
    };
    let mut tool_good: std::collections::HashMap<(usize, usize, usize), bool> = Default::default();
    let calls = tool_calls();
    let mut current = usize::MAX;
    let place = |i: usize| sc.0.join(format!("w{i}"));
    let mut done = 0u64;
    for c in from..plan.n.min(to) {
        if c % n != t {
            continue;
        }
        // slower: one in so many of all kinds of cases rather than the first ones
        if cfg!(jbkmon_san) && quick && !only && hash64(&c.to_le_bytes()) % 12 != 0 {
            continue;
        }
        if !only && over() {
            break;
        }
        // the big ones are slow: half of the time is for the others
        if !only && quick && half() && ws[plan.world(c)].meta.starts_with("big") {
            continue;
        }
        board.announce(c);
        let (w, f, dmg, kind) = plan.case(&ws, seed, c);
        let wd = &ws[w];
        let dir = place(w);
        let files: Vec<Utf8PathBuf> = wd.files.iter().map(|(n, _)| Utf8PathBuf::from_path_buf(dir.join(n)).unwrap()).collect();
        let main = Utf8PathBuf::from_path_buf(dir.join("c.jbk")).unwrap();
        if current != w {
            std::fs::create_dir_all(&dir).unwrap();
            for (p, (_, b)) in files.iter().zip(&wd.files) {
                std::fs::write(p, b).unwrap();
            }
            current = w;
            pristine.entry(w).or_insert_with(|| look(&main, &files, &wd.ask, true, true));
        }
        let pr = &pristine[&w];
        let orig = &wd.files[f].1;
        let b = dmg.apply(orig);
        if b == *orig {
            continue;
        }
        // new inodes: whatever is still mapped by a previous case stays as it was
        let put_file = |b: &[u8]| {
            let _ = std::fs::remove_file(&files[f]);
            std::fs::write(&files[f], b).unwrap();
        };
        put_file(&b);
        if let Damage::Extend(n, s) = &dmg {
            if (s >> 20) % 4 == 0 {
                // a hole, up to gibi- and tebibytes, then maybe what was the end
                let to = (b.len() as u64) + (1u64 << [31, 32, 33, 40, 42][(s >> 24) as usize % 5]) + *n as u64;
                let h = std::fs::OpenOptions::new().write(true).open(&files[f]).unwrap();
                let tail = &orig[orig.len().saturating_sub([64, 4096][(s >> 28) as usize % 2])..];
                let did = if (s >> 30) % 3 == 0 { h.set_len(to) } else { std::os::unix::fs::FileExt::write_all_at(&h, tail, to) };
                if did.is_ok() { *counts.entry("extended_by_a_hole".into()).or_insert(0) += 1 }
            }
        }
        let np = PANICS.lock().unwrap().len();
        let c06 = prop == "C06";
        let big = wd.meta.starts_with("big");
        let t1 = Instant::now();
        let got = guarded(|| look(&main, &files, &wd.ask, !big || c % 4 == 0, c06 && (!big || c % 8 == 0)));
        if std::env::var("JBKMON_TIMES").is_ok() { eprintln!("case {c} {:?}", t1.elapsed()); }
        done += 1;
        distinct.insert(hash64(format!("{w}/{f}/{dmg:?}").as_bytes()));
        *counts.entry(format!("cases.{}", dmg.name())).or_insert(0) += 1;
        *counts.entry(format!("world.{}", wd.meta.split(' ').next().unwrap_or(""))).or_insert(0) += 1;
        let desc = || format!("{} [{}] file {} ({} bytes) {:?}", wd.name, wd.meta, wd.files[f].0, orig.len(), dmg).chars().take(300).collect::<String>();
        let mut tell = |fp: &str, msg: String, counts: &mut BTreeMap<String, u64>| {
            *counts.entry("violations_seen".into()).or_insert(0) += 1;
            if !told.insert(fp.to_string()) || told.len() > 6 {
                return;
            }
            let keep = verif_dir().join("replay").join(format!("{prop}-case-{c}"));
            let _ = std::fs::create_dir_all(&keep);
            for (p, (n, _)) in files.iter().zip(&wd.files) { let _ = std::fs::copy(p, keep.join(n)); }
            let _ = std::fs::copy(root.join(&wd.name).join("ask.txt"), keep.join("ask.txt"));
            println!("V\t{}\t{c}\t{}; damaged container kept in {}", fp.replace(['\t', '\n'], " "), msg.replace(['\t', '\n'], " "), keep.display());
        };
        let panics: Vec<String> = PANICS.lock().unwrap()[np..].to_vec();
        if c06 {
            if let Some(p) = panics.first() {
                let cls = crate::par::panic_class(p);
                tell(&format!("panic {cls}"), format!("{}: panic {p}", desc()), &mut counts);
            }
        } else if !panics.is_empty() {
            *counts.entry("panics (judged by C06)".into()).or_insert(0) += 1;
        }
        match got {
            Err(_) => *counts.entry("ended.panic".into()).or_insert(0) += 1,
            Ok(s) => {
                *counts.entry(if s.opened { "ended.opened" } else { "ended.refused" }.into()).or_insert(0) += 1;
                let nv = n_vals(&s.dump) as u64;
                *counts.entry("items_answered".into()).or_insert(0) += nv;
                *counts.entry("items_refused".into()).or_insert(0) += s.dump.len() as u64 - nv;
                if !c06 {
                    let d = diff_dump(&pr.dump, &s.dump);
                    if let Some(x) = d.first() {
                        let key = x.split([':', '#']).next().unwrap_or("").trim_end_matches(|c: char| c.is_ascii_digit() || c == '[').to_string();
                        tell(&format!("different value for {key}"), format!("{}: {} item(s), first {x}", desc(), d.len()), &mut counts);
                    }
                    let mut differ = 0;
                    for (k, v) in &s.contents {
                        if let Ok(v) = v {
                            match pr.contents.get(k) {
                                Some(Ok(o)) if o == v => {}
                                o => {
                                    differ += 1;
                                    if o.map(|o| o.as_ref().map(|o| o.len()) != Ok(v.len())).unwrap_or(true) {
                                        tell("content of another size", format!("{}: content {k:?} of {} bytes instead of {:?}", desc(), v.len(), o.map(|o| o.as_ref().map(|o| o.len()))), &mut counts);
                                    }
                                }
                            }
                        }
                    }
                    if differ > 0 {
                        *counts.entry("content_bytes_differ".into()).or_insert(0) += 1;
                        let ck = guarded(|| es(jbk::reader::Container::new(&main).and_then(|c| c.check())));
                        match ck {
                            Ok(Ok(true)) => tell("content differs but the check succeeds", format!("{}: {differ} content(s)", desc()), &mut counts),
                            _ => *counts.entry("checks_failed_on_differing_content".into()).or_insert(0) += 1,
                        }
                    }
                } else {
                    *counts.entry(format!("check.{}", match &s.check { Ok(true) => "true", Ok(false) => "false", Err(_) => "error" })).or_insert(0) += 1;
                }
            }
        }
        // the tool, on the file as damaged (with keys it has an answer for on the file as created)
        if c06 && cli::tool().is_some() && !big && !cfg!(jbkmon_san) && cfg!(debug_assertions) && hash64(&c.to_be_bytes()) % 8 == 0 {
            let mut r = Rng::new(hash64(&c.to_le_bytes()));
            let mut left = 2;
            for _ in 0..10 {
                if left == 0 { break }
                let i = if r.chance(1, 6) { r.us(2) } else { r.us(calls.len()) };
                let a = &calls[i];
                let good = *tool_good.entry((w, f, i)).or_insert_with(|| {
                    let p = dir.join("pristine.tool");
                    std::fs::write(&p, orig).unwrap();
                    let o = tool_run(a, p.as_path(), 15);
                    let _ = std::fs::remove_file(&p);
                    o.map(|o| o.broke().is_none() && !o.out.contains("is not a valid key")).unwrap_or(false)
                });
                if !good { continue }
                left -= 1;
                let Some(mut o) = tool_run(a, files[f].as_std_path(), 15) else { break };
                if o.status.is_none() {
                    board.announce(c);
                    o = tool_run(a, files[f].as_std_path(), 18).unwrap_or(o);
                }
                *counts.entry(format!("tool.{}", a[0])).or_insert(0) += 1;
                if let Some(b) = o.broke() {
                    tell(&format!("jbk {} {}", a[0], crate::par::panic_class(&b)), format!("{}: jbk {a:?}: {b}", desc()), &mut counts);
                }
            }
        }
        put_file(orig);
        let _ = kind;
        if done % 64 == 0 {
            flush(&mut counts, &mut distinct);
        }
    }
    flush(&mut counts, &mut distinct);
    println!("E\t{}", plan.n);
    let _ = std::io::stdout().flush();
    drop(sc);
    std::process::exit(0);
}

pub fn run(ctx: &mut Ctx) {
    let c06 = ctx.prop == "C06";
    ctx.rule = "one damaged container whose bytes differ from the created one and from every other case, opened and read completely".into();
    let root = scratch_root().join("worlds");
    let (ns, nb, nh) = ctx.q((18, 4, 2), (60, 12, 6));
    if let Err(e) = make_worlds(ctx, &root, ns, nb, nh) {
        ctx.violation("creation", "", &e);
        return;
    }
    if !c06 && !cfg!(debug_assertions) {
        crate::vast::run(ctx);
        if crate::par::only_case().is_some_and(|c| c.0 == "vast") { return }
    }
    let me = std::env::current_exe().unwrap();
    let chk = std::env::var("JBKMON_CHK").ok().map(PathBuf::from);
    let mut bins = vec![("release", me)];
    if let Some(c) = chk.filter(|_| c06 || !ctx.quick()) {
        bins.push(("debug-assertions", c));
    }
    if let Some(c) = std::env::var("JBKMON_ASAN").ok().map(PathBuf::from) {
        bins.push(("asan", c));
    }
    let workers = 8u64;
    let mut jobs = vec![];
    let left = ctx.budget.as_secs_f64() * 1.0;
    let t0 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
    let each = workers;
    let only = crate::par::only_case();
    for (name, bin) in &bins {
        let each = if *name == "asan" { ctx.q(4, 8) } else { workers };
        for t in 0..each {
            jobs.push(Job {
                name: name.to_string(), bin: bin.clone(),
                args: ["damage-worker".to_string(), ctx.prop.clone(), ctx.q("quick", "thorough").into(), ctx.seed.to_string(), root.display().to_string(), t.to_string(), each.to_string(), format!("{left}")].to_vec(),
                env: vec![("JBKMON_T0".into(), t0.to_string()), ("JBKMON_SCRATCH".into(), scratch_root().display().to_string()), ("JBKMON_DIR".into(), verif_dir().display().to_string()),
                    ("ASAN_OPTIONS".into(), "exitcode=67 detect_leaks=0 allocator_may_return_null=1 max_allocation_size_mb=12000 handle_sigbus=1".into())],
                hang: Duration::from_secs(if *name == "asan" { 60 } else { 20 }),
            });
        }
    }
    let mut bad: Vec<(usize, u64, End, String)> = vec![];
    let mut evals = 0u64;
    let mut handle = |ctx: &mut Ctx, job: usize, l: String, jobs: &[Job]| {
        let mut f: Vec<&str> = l.splitn(4, '\t').collect();
        f.resize(4, "");
        match f[0] {
            "N" => {
                let n: u64 = f[2].parse().unwrap_or(0);
                if f[1].starts_with("cases.") {
                    evals += n;
                    ctx.evaluations += n;
                    ctx.count(&format!("profile.{}", jobs[job].name), n);
                }
                ctx.count(f[1], n);
            }
            "D" => {
                let n: u64 = f[1].parse().unwrap_or(0);
                // distinct within the worker, which has its own share of the cases; profiles read the same ones
                if jobs[job].name == "release" || !c06 {
                    for _ in 0..n { let k = ctx.distinct.len() as u64; ctx.distinct.insert(hash64(&k.to_le_bytes())); }
                }
            }
            "V" => {
                let prop = ctx.prop.clone();
                let replay = format!("JBKMON_CASE={}:{} ./check.sh {prop} {}", jobs[job].name, f[2], ctx.q("quick", "thorough"));
                ctx.violation(f[1], &replay, &format!("[{}] {}", jobs[job].name, f[3]));
            }
            "E" => ctx.max("cases_planned", f[1].parse().unwrap_or(0)),
            _ => {}
        }
    };
    if let Some((p, c)) = only {
        let j = jobs.iter_mut().find(|j| j.name == p).expect("profile");
        j.args[5] = "0".into();
        j.args[6] = "1".into();
        let j = j.clone();
        let mut ls = vec![];
        let (e, _, w) = run_once(&j, c, c + 1, |l| ls.push(l));
        for l in ls { handle(ctx, 0, l, &jobs); }
        println!("case {c}: {e:?} {w}");
        if !matches!(e, End::Done) { ctx.violation("crash or hang", "", &format!("case {c}: {e:?} {w}")); }
        return;
    }
    run_all(&jobs, 6, |o| match o.what {
        Msg::Line(l) => handle(ctx, o.job, l, &jobs),
        Msg::Bad(c, e, w) => bad.push((o.job, c, e, w)),
        Msg::Over => {}
    });
    let looked = Instant::now();
    let mut confirmed: HashSet<(bool, String)> = HashSet::new();
    for (j, c, e, w) in bad {
        println!("note: [{}] case {c} ended with {e:?}: {w}", jobs[j].name);
        if !c06 {
            ctx.count("crashes_or_hangs (judged by C06)", 1);
            continue;
        }
        // what is confirmed once is not looked at again, and there is an end to looking
        let sort = matches!(e, End::Hang);
        if ctx.violations.len() >= 4 || looked.elapsed() > Duration::from_secs(200) {
            break;
        }
        if !confirmed.insert((sort, if sort { String::new() } else { short_end(&e) + &crate::par::panic_class(&w) })) {
            continue;
        }
        // again, alone and with more time (a background thread may have been late: a few cases before too)
        let mut job = jobs[j].clone();
        job.hang = Duration::from_secs(60);
        let (e2, c2, w2) = run_once(&job, c.saturating_sub(4 * each), c + 1, |_| {});
        match (&e2, &e) {
            (End::Done, End::Crash(_)) => {
                // seen once, a process died: there is no innocent way for that
                ctx.violation(&format!("process died ({})", short_end(&e)), "", &format!("[{}] case {c}: {e:?}: {w} (not when run again alone)", job.name));
            }
            (End::Done, _) => {
                ctx.inconclusive += 1;
                confirmed.retain(|(h, _)| !h);
            }
            _ => {
                let fp = if matches!(e2, End::Hang) { "reading does not end".to_string() } else { format!("process died ({})", short_end(&e2)) };
                let fp = format!("{fp} {}", crate::par::panic_class(&w2));
                ctx.violation(&fp, &format!("JBKMON_CASE={}:{c2} ./check.sh {} {}", job.name, ctx.prop, ctx.q("quick", "thorough")), &format!("[{}] case {c2}: {e2:?}: {w2}", job.name));
            }
        }
    }
    if ctx.evaluations == 0 {
        println!("no case was run");
        std::process::exit(2);
    }
    ctx.count("worlds", ns + nb + nh);
    let d = load_worlds(&root);
    for w in d.iter().take(6) {
        ctx.sample(jstr(&format!("{} files {:?}", w.meta, w.files.iter().map(|f| (f.0.as_str(), f.1.len())).collect::<Vec<_>>())));
    }
}
fn short_end(e: &End) -> String {
    match e { End::Crash(s) => s.clone(), e => format!("{e:?}") }
}

//! Independent decoder of the Jubako on-disk format (pinned version 0.2).
//!
//! Shares no code with the library under test: own integer decoding, own CRC, own layout
//! parsing, own entry decoding. It is deliberately strict: everything it does not expect
//! in a file written by the creator is an error.

use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;
pub type Uuid = [u8; 16];

macro_rules! bail { ($($a:tt)*) => { return Err(format!($($a)*)) } }
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)) } } }

/// CRC-32, polynomial 0x1EDC6F41, MSB first, init all ones, no final xor (bit by bit table).
pub fn crc(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = (i as u32) << 24;
            for _ in 0..8 {
                c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x1EDC_6F41 } else { c << 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = 0xFFFF_FFFFu32;
    for b in data {
        c = (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize];
    }
    c
}

/// Little endian cursor
struct Cur<'a> {
    d: &'a [u8],
    p: usize,
    what: &'a str,
}
impl<'a> Cur<'a> {
    fn new(d: &'a [u8], what: &'a str) -> Self {
        Cur { d, p: 0, what }
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.p + n > self.d.len() {
            bail!("{}: need {} bytes at {} of {}", self.what, n, self.p, self.d.len());
        }
        let s = &self.d[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u(&mut self, n: usize) -> R<u64> {
        let s = self.take(n)?;
        let mut v = 0u64;
        for (i, b) in s.iter().enumerate() {
            v |= (*b as u64) << (8 * i);
        }
        Ok(v)
    }
    fn s(&mut self, n: usize) -> R<i64> {
        let v = self.u(n)?;
        Ok(sext(v, n))
    }
    fn zeros(&mut self, n: usize) -> R<()> {
        let w = self.what;
        let p = self.p;
        for b in self.take(n)? {
            ensure!(*b == 0, "{}: reserved bytes at {} are not zero", w, p);
        }
        Ok(())
    }
    fn pstr(&mut self) -> R<Vec<u8>> {
        let n = self.u(1)? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn end(&self) -> R<()> {
        ensure!(self.p == self.d.len(), "{}: {} bytes left over", self.what, self.d.len() - self.p);
        Ok(())
    }
}

fn sext(v: u64, n: usize) -> i64 {
    if n >= 8 {
        return v as i64;
    }
    let sh = 64 - 8 * n as u32;
    ((v << sh) as i64) >> sh
}

thread_local! {
    /// When told to: every checked block seen, as (address, bytes with the CRC).
    pub static SEEN: std::cell::RefCell<Option<Vec<(usize, usize)>>> = const { std::cell::RefCell::new(None) };
}
/// Decode a file, return the checked blocks of it as (position, bytes with the CRC).
pub fn blocks_of(d: &[u8]) -> R<Vec<(usize, usize)>> {
    SEEN.with(|s| *s.borrow_mut() = Some(vec![]));
    let r = decode_file(d);
    let v = SEEN.with(|s| s.borrow_mut().take()).unwrap_or_default();
    r?;
    let base = d.as_ptr() as usize;
    // (the mirrored tail is decoded out of a copy)
    let mut v: Vec<_> = v.into_iter().filter(|b| b.0 >= base && b.0 + b.1 <= base + d.len()).map(|b| (b.0 - base, b.1)).collect();
    v.sort();
    v.dedup();
    Ok(v)
}

/// A block of `size` bytes at `pos`, followed by its big endian CRC.
pub fn block<'a>(d: &'a [u8], pos: u64, size: u64, what: &str) -> R<&'a [u8]> {
    let pos = pos as usize;
    let size = size as usize;
    let end = pos.checked_add(size).and_then(|e| e.checked_add(4)).ok_or("overflow")?;
    ensure!(end <= d.len(), "{what}: block {pos}+{size}+4 out of {}", d.len());
    let b = &d[pos..pos + size];
    let c = &d[pos + size..end];
    let stored = ((c[0] as u32) << 24) | ((c[1] as u32) << 16) | ((c[2] as u32) << 8) | c[3] as u32;
    ensure!(crc(b) == stored, "{what}: bad CRC of block {pos}+{size}");
    SEEN.with(|s| if let Some(v) = s.borrow_mut().as_mut() { v.push((d.as_ptr() as usize + pos, size + 4)) });
    Ok(b)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Manifest,
    Directory,
    Content,
    Container,
}

#[derive(Debug, Clone)]
pub struct Header {
    pub kind: Kind,
    pub vendor: [u8; 4],
    pub uuid: Uuid,
    pub flags: u8,
    pub size: u64,
    pub check_pos: u64,
}

pub fn header(d: &[u8]) -> R<Header> {
    let b = block(d, 0, 60, "pack header")?;
    let mut c = Cur::new(b, "pack header");
    ensure!(c.take(3)? == b"jbk", "pack header: bad magic");
    let kind = match c.u(1)? as u8 {
        b'm' => Kind::Manifest,
        b'd' => Kind::Directory,
        b'c' => Kind::Content,
        b'C' => Kind::Container,
        k => bail!("pack header: bad kind {k}"),
    };
    let vendor = c.take(4)?.try_into().unwrap();
    let (maj, min) = (c.u(1)?, c.u(1)?);
    ensure!((maj, min) == (0, 2), "pack header: version {maj}.{min}");
    let uuid = c.take(16)?.try_into().unwrap();
    let flags = c.u(1)? as u8;
    c.zeros(5)?;
    let size = c.u(8)?;
    let check_pos = c.u(8)?;
    c.zeros(12)?;
    c.end()?;
    Ok(Header { kind, vendor, uuid, flags, size, check_pos })
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    U(u64),
    S(i64),
    C(u16, u32),
    A(Vec<u8>),
}

#[derive(Debug, Clone)]
pub struct Entry {
    pub variant: Option<u8>,
    pub values: BTreeMap<String, Val>,
}

#[derive(Debug, Clone)]
pub struct Prop {
    pub name: String,
    pub size: usize,
    pub kind: PropKind,
}
#[derive(Debug, Clone, PartialEq)]
pub enum PropKind {
    Padding,
    Content { pack_sz: usize, content_sz: usize, default: Option<u16> },
    U { sz: usize, default: Option<u64> },
    S { sz: usize, default: Option<i64> },
    A { len_sz: usize, fixed: usize, key: usize, store: Option<u8> },
    Variant,
}

#[derive(Debug, Clone)]
pub struct EntryStore {
    pub entry_size: usize,
    pub common: Vec<Prop>,
    pub variants: Vec<(String, Vec<Prop>)>,
    pub entries: Vec<Entry>,
}

#[derive(Debug, Clone)]
pub enum ValueStore {
    Plain(Vec<u8>),
    Indexed(Vec<Vec<u8>>),
}

#[derive(Debug, Clone)]
pub struct Index {
    pub name: String,
    pub store: u32,
    pub count: u32,
    pub offset: u32,
    pub free: [u8; 4],
    pub key: u8,
}

#[derive(Debug, Clone)]
pub struct Directory {
    pub free: Vec<u8>,
    pub value_stores: Vec<ValueStore>,
    pub entry_stores: Vec<EntryStore>,
    pub indexes: Vec<Index>,
}

#[derive(Debug, Clone)]
pub struct Cluster {
    /// 0 none, 1 lz4, 2 lzma, 3 zstd
    pub compression: u8,
    pub offset_size: u8,
    pub stored_start: u64,
    pub stored_size: u64,
    pub blobs: Vec<(usize, usize)>,
    pub data: Vec<u8>,
}

#[derive(Debug, Clone)]
pub struct Content {
    pub free: Vec<u8>,
    pub clusters: Vec<Cluster>,
    pub infos: Vec<(u32, u16)>,
}
impl Content {
    pub fn get(&self, i: usize) -> R<&[u8]> {
        let (c, b) = self.infos[i];
        let cl = self.clusters.get(c as usize).ok_or("cluster out of range")?;
        let (s, e) = *cl.blobs.get(b as usize).ok_or("blob out of range")?;
        Ok(&cl.data[s..e])
    }
}

#[derive(Debug, Clone)]
pub struct PackInfo {
    pub uuid: Uuid,
    pub size: u64,
    pub check: Option<[u8; 32]>,
    pub id: u16,
    pub kind: Kind,
    pub group: u8,
    pub free: Vec<u8>,
    pub location: String,
    /// position of this block in the pack
    pub pos: u64,
}

#[derive(Debug, Clone)]
pub struct Manifest {
    pub free: Vec<u8>,
    pub packs: Vec<PackInfo>,
}

#[derive(Debug, Clone)]
pub enum Body {
    Manifest(Manifest),
    Directory(Directory),
    Content(Content),
}

#[derive(Debug, Clone)]
pub struct Pack {
    pub header: Header,
    pub check: Option<[u8; 32]>,
    /// offset in the file
    pub offset: u64,
    pub body: Body,
}

/// An on-disk file: one container or one naked pack, possibly after a prefix.
#[derive(Debug, Clone)]
pub struct File {
    pub origin: u64,
    pub container: Option<(Header, Vec<(Uuid, u64, u64)>)>,
    pub container_free: Vec<u8>,
    pub packs: Vec<Pack>,
}

impl File {
    pub fn pack(&self, uuid: &Uuid) -> Option<&Pack> {
        self.packs.iter().find(|p| &p.header.uuid == uuid)
    }
    pub fn manifest(&self) -> Option<(&Pack, &Manifest)> {
        self.packs.iter().find_map(|p| match &p.body {
            Body::Manifest(m) => Some((p, m)),
            _ => None,
        })
    }
    pub fn directory(&self) -> Option<&Directory> {
        self.packs.iter().find_map(|p| match &p.body {
            Body::Directory(m) => Some(m),
            _ => None,
        })
    }
    pub fn contents(&self) -> Vec<(&Pack, &Content)> {
        self.packs
            .iter()
            .filter_map(|p| match &p.body {
                Body::Content(m) => Some((p, m)),
                _ => None,
            })
            .collect()
    }
}

/// header + mirrored tail + check block shape, common to every pack.
fn frame(d: &[u8]) -> R<(Header, Option<[u8; 32]>)> {
    frame_as(d, false)
}
fn frame_as(d: &[u8], old: bool) -> R<(Header, Option<[u8; 32]>)> {
    let h = header(d)?;
    ensure!(h.size == d.len() as u64 || (old && h.size + 5 == d.len() as u64), "pack size {} but {} bytes", h.size, d.len());
    let mut tail = d[d.len() - 64..].to_vec();
    tail.reverse();
    ensure!(tail == d[..64], "tail is not the mirrored header");
    let check_len = (d.len() as u64 - 64).checked_sub(h.check_pos).ok_or("check_pos after the tail")?;
    ensure!(check_len == 5 || check_len == 37, "check block of {check_len} bytes");
    let check = check_info(block(d, h.check_pos, check_len - 4, "check info")?)?;
    Ok((h, check))
}

fn check_info(b: &[u8]) -> R<Option<[u8; 32]>> {
    let mut c = Cur::new(b, "check info");
    let r = match c.u(1)? {
        0 => None,
        1 => Some(c.take(32)?.try_into().unwrap()),
        k => bail!("check kind {k}"),
    };
    c.end()?;
    Ok(r)
}

fn sized_offset(v: u64) -> (u64, u64) {
    (v >> 16, v & 0xFFFF)
}

fn table(d: &[u8], pos: u64, count: u64, esz: u64, what: &str) -> R<Vec<u64>> {
    let b = block(d, pos, count * esz, what)?;
    let mut c = Cur::new(b, "table");
    (0..count).map(|_| c.u(esz as usize)).collect()
}

pub fn decode_pack(d: &[u8], offset: u64) -> R<Pack> {
    let (h, check) = frame(d)?;
    let mut covered = d[..h.check_pos as usize].to_vec();
    let body = match h.kind {
        Kind::Container => bail!("nested container"),
        Kind::Content => Body::Content(content(d, &h)?),
        Kind::Directory => Body::Directory(directory(d, &h)?),
        Kind::Manifest => {
            let m = manifest(d, &h)?;
            for p in &m.packs {
                covered[p.pos as usize + 38..p.pos as usize + 256].fill(0);
            }
            Body::Manifest(m)
        }
    };
    match check {
        None => bail!("pack without blake3 check"),
        Some(c) => {
            let hash = blake3::hash(&covered);
            ensure!(hash.as_bytes() == &c, "blake3 of [0,{}) does not match", h.check_pos);
        }
    }
    Ok(Pack { header: h, check, offset, body })
}

fn decompress(kind: u8, src: &[u8], size: usize) -> R<Vec<u8>> {
    use std::io::Read;
    let mut out = Vec::with_capacity(size);
    let r = match kind {
        1 => lz4::Decoder::new(src).and_then(|mut d| d.read_to_end(&mut out)),
        2 => {
            let s = xz2::stream::Stream::new_lzma_decoder(u64::MAX).map_err(|e| e.to_string())?;
            xz2::read::XzDecoder::new_stream(src, s).read_to_end(&mut out)
        }
        3 => zstd::Decoder::new(src).and_then(|mut d| d.read_to_end(&mut out)),
        _ => bail!("compression {kind}"),
    };
    r.map_err(|e| format!("decompress: {e}"))?;
    ensure!(out.len() == size, "cluster decompresses to {} bytes instead of {size}", out.len());
    Ok(out)
}

fn content(d: &[u8], h: &Header) -> R<Content> {
    let b = block(d, 64, 60, "content header")?;
    let mut c = Cur::new(b, "content header");
    let infos_pos = c.u(8)?;
    let clusters_pos = c.u(8)?;
    let n_infos = c.u(4)?;
    let n_clusters = c.u(4)?;
    c.zeros(12)?;
    let free = c.take(24)?.to_vec();
    c.end()?;
    let mut clusters = vec![];
    let mut spans = vec![(0u64, 128u64)];
    for so in table(d, clusters_pos, n_clusters, 8, "cluster table")? {
        let (off, sz) = sized_offset(so);
        let t = block(d, off, sz, "cluster tail")?;
        let mut c = Cur::new(t, "cluster tail");
        let comp = c.u(1)? as u8;
        let osz = c.u(1)? as usize;
        ensure!((1..=8).contains(&osz), "cluster offset size {osz}");
        let count = c.u(2)? as usize;
        ensure!((1..=4095).contains(&count), "cluster of {count} blobs");
        let raw = c.u(osz)?;
        let size = c.u(osz)? as usize;
        let mut blobs = vec![];
        let mut prev = 0usize;
        for i in 0..count {
            let end = if i + 1 == count { size } else { c.u(osz)? as usize };
            ensure!(end >= prev && end <= size, "blob offsets not monotone");
            blobs.push((prev, end));
            prev = end;
        }
        c.end()?;
        let start = off.checked_sub(raw).ok_or("cluster data before pack")?;
        ensure!(start >= 128, "cluster data overlaps headers");
        let stored = &d[start as usize..off as usize];
        let data = if comp == 0 {
            ensure!(raw as usize == size, "raw cluster: {raw} != {size}");
            stored.to_vec()
        } else {
            decompress(comp, stored, size)?
        };
        spans.push((start, off + sz + 4));
        clusters.push(Cluster { compression: comp, offset_size: osz as u8, stored_start: start, stored_size: raw, blobs, data });
    }
    let infos: Vec<(u32, u16)> = table(d, infos_pos, n_infos, 4, "content table")?
        .into_iter()
        .map(|v| ((v >> 12) as u32, (v & 0xFFF) as u16))
        .collect();
    for (cl, bl) in &infos {
        let c = clusters.get(*cl as usize).ok_or_else(|| format!("content in cluster {cl}"))?;
        ensure!((*bl as usize) < c.blobs.len(), "content in blob {bl}");
    }
    spans.push((clusters_pos, clusters_pos + n_clusters * 8 + 4));
    spans.push((infos_pos, infos_pos + n_infos * 4 + 4));
    spans.push((h.check_pos, d.len() as u64));
    tiling(spans, d.len() as u64, "content pack")?;
    Ok(Content { free, clusters, infos })
}

/// structures must tile the pack: no overlap, no gap
fn tiling(mut spans: Vec<(u64, u64)>, end: u64, what: &str) -> R<()> {
    spans.retain(|(a, b)| a != b);
    spans.sort();
    let mut at = 0;
    for (s, e) in spans {
        ensure!(s == at, "{what}: structure at {s} but previous one ends at {at}");
        at = e;
    }
    ensure!(at == end, "{what}: structures end at {at} instead of {end}");
    Ok(())
}

fn value_store(d: &[u8], so: u64) -> R<(ValueStore, (u64, u64))> {
    let (off, sz) = sized_offset(so);
    let t = block(d, off, sz, "value store tail")?;
    let mut c = Cur::new(t, "value store tail");
    let kind = c.u(1)?;
    let data_of = |size: u64| -> R<&[u8]> {
        let start = off.checked_sub(size + 4).ok_or("value store data before pack")?;
        block(d, start, size, "value store data")
    };
    match kind {
        0 => {
            let size = c.u(8)?;
            c.end()?;
            Ok((ValueStore::Plain(data_of(size)?.to_vec()), (off - size - 4, off + sz + 4)))
        }
        1 => {
            let count = c.u(8)? as usize;
            let osz = c.u(1)? as usize;
            ensure!((1..=8).contains(&osz), "value store offset size {osz}");
            let size = c.u(osz)?;
            let data = data_of(size)?;
            let mut v = vec![];
            let mut prev = 0usize;
            for i in 0..count {
                let end = if i + 1 == count { size as usize } else { c.u(osz)? as usize };
                ensure!(end >= prev && end <= data.len(), "value offsets not monotone");
                v.push(data[prev..end].to_vec());
                prev = end;
            }
            c.end()?;
            Ok((ValueStore::Indexed(v), (off - size - 4, off + sz + 4)))
        }
        k => bail!("value store kind {k}"),
    }
}

fn prop(c: &mut Cur) -> R<Prop> {
    let info = c.u(1)? as u8;
    let data = info & 0x0F;
    let s = |v: Vec<u8>| String::from_utf8(v).map_err(|e| e.to_string());
    Ok(match info >> 4 {
        0x0 => Prop { name: String::new(), size: data as usize + 1, kind: PropKind::Padding },
        0x1 => {
            let pack_sz = ((data >> 2) & 1) as usize + 1;
            let content_sz = (data & 3) as usize + 1;
            let default = if data & 8 != 0 { Some(c.u(pack_sz)? as u16) } else { None };
            let size = content_sz + if default.is_some() { 0 } else { pack_sz };
            Prop { name: s(c.pstr()?)?, size, kind: PropKind::Content { pack_sz, content_sz, default } }
        }
        0x2 => {
            let sz = (data & 7) as usize + 1;
            let default = if data & 8 != 0 { Some(c.u(sz)?) } else { None };
            Prop { name: s(c.pstr()?)?, size: if default.is_some() { 0 } else { sz }, kind: PropKind::U { sz, default } }
        }
        0x3 => {
            let sz = (data & 7) as usize + 1;
            let default = if data & 8 != 0 { Some(c.s(sz)?) } else { None };
            Prop { name: s(c.pstr()?)?, size: if default.is_some() { 0 } else { sz }, kind: PropKind::S { sz, default } }
        }
        0x5 => {
            ensure!(data & 0b1100 == 0, "array property with flags {data:#x}");
            let len_sz = (data & 3) as usize;
            let comp = c.u(1)? as u8;
            let fixed = (comp & 0x1F) as usize;
            let key = (comp >> 5) as usize;
            let store = if key != 0 { Some(c.u(1)? as u8) } else { None };
            Prop { name: s(c.pstr()?)?, size: len_sz + fixed + key, kind: PropKind::A { len_sz, fixed, key, store } }
        }
        0x8 => {
            ensure!(data == 0, "variant property with data {data}");
            Prop { name: s(c.pstr()?)?, size: 1, kind: PropKind::Variant }
        }
        k => bail!("property type {k:#x} is never written"),
    })
}

fn decode_props(e: &mut Cur, props: &[Prop], vs: &[ValueStore], out: &mut BTreeMap<String, Val>) -> R<()> {
    for p in props {
        let v = match &p.kind {
            PropKind::Padding => {
                e.zeros(p.size)?;
                continue;
            }
            PropKind::Variant => bail!("variant id inside properties"),
            PropKind::Content { pack_sz, content_sz, default } => {
                let pack = match default {
                    Some(d) => *d,
                    None => e.u(*pack_sz)? as u16,
                };
                Val::C(pack, e.u(*content_sz)? as u32)
            }
            PropKind::U { sz, default } => Val::U(match default {
                Some(d) => *d,
                None => e.u(*sz)?,
            }),
            PropKind::S { sz, default } => Val::S(match default {
                Some(d) => *d,
                None => e.s(*sz)?,
            }),
            PropKind::A { len_sz, fixed, key, store } => {
                let len = if *len_sz > 0 { Some(e.u(*len_sz)? as usize) } else { None };
                let prefix = e.take(*fixed)?;
                let base = match len {
                    Some(l) => l.min(*fixed),
                    None => *fixed,
                };
                ensure!(prefix[base..].iter().all(|b| *b == 0), "prefix padding is not zero");
                let mut v = prefix[..base].to_vec();
                if *key > 0 {
                    let id = e.u(*key)? as usize;
                    let st = vs.get(store.unwrap() as usize).ok_or("value store out of range")?;
                    let rest = len.map(|l| l - base);
                    match st {
                        ValueStore::Plain(d) => {
                            let r = rest.ok_or("plain store needs a length")?;
                            ensure!(id + r <= d.len(), "value {id}+{r} out of plain store");
                            v.extend_from_slice(&d[id..id + r]);
                        }
                        ValueStore::Indexed(d) => {
                            let x = d.get(id).ok_or("value id out of indexed store")?;
                            if let Some(r) = rest {
                                ensure!(r == x.len(), "array length {r} but indexed value has {}", x.len());
                            }
                            v.extend_from_slice(x);
                        }
                    }
                }
                Val::A(v)
            }
        };
        ensure!(out.insert(p.name.clone(), v).is_none(), "property {} twice", p.name);
    }
    Ok(())
}

fn entry_store(d: &[u8], so: u64, vs: &[ValueStore]) -> R<(EntryStore, (u64, u64))> {
    let (off, sz) = sized_offset(so);
    let t = block(d, off, sz, "entry store tail")?;
    let mut c = Cur::new(t, "entry store tail");
    let kind = c.u(1)?;
    ensure!(kind == 0, "entry store kind {kind}");
    let count = c.u(4)?;
    let flag = c.u(1)?;
    ensure!(flag == 0, "entry store flag {flag}");
    let entry_size = c.u(2)? as usize;
    let variant_count = c.u(1)? as usize;
    let key_count = c.u(1)? as usize;
    let mut common = vec![];
    let mut variants: Vec<(String, Vec<Prop>)> = vec![];
    for _ in 0..key_count {
        let p = prop(&mut c)?;
        if p.kind == PropKind::Variant {
            variants.push((p.name, vec![]));
        } else if let Some(v) = variants.last_mut() {
            v.1.push(p);
        } else {
            common.push(p);
        }
    }
    c.end()?;
    ensure!(variants.len() == variant_count, "{} variants defined, {variant_count} declared", variants.len());
    let common_size: usize = common.iter().map(|p| p.size).sum();
    if variants.is_empty() {
        ensure!(common_size == entry_size, "entry size {entry_size} but properties sum to {common_size}");
    }
    for (n, v) in &variants {
        let s = common_size + 1 + v.iter().map(|p| p.size).sum::<usize>();
        ensure!(s == entry_size, "variant {n}: {s} bytes but entry size is {entry_size}");
    }
    let dsize = count * entry_size as u64;
    let start = off.checked_sub(dsize + 4).ok_or("entries before pack")?;
    let data = block(d, start, dsize, "entries")?;
    let mut entries = vec![];
    for i in 0..count as usize {
        let mut e = Cur::new(&data[i * entry_size..(i + 1) * entry_size], "entry");
        let mut values = BTreeMap::new();
        decode_props(&mut e, &common, vs, &mut values)?;
        let mut variant = None;
        if !variants.is_empty() {
            let v = e.u(1)? as u8;
            let props = &variants.get(v as usize).ok_or("variant id out of range")?.1;
            decode_props(&mut e, props, vs, &mut values)?;
            variant = Some(v);
        }
        e.end()?;
        entries.push(Entry { variant, values });
    }
    Ok((EntryStore { entry_size, common, variants, entries }, (start, off + sz + 4)))
}

fn directory(d: &[u8], h: &Header) -> R<Directory> {
    let b = block(d, 64, 60, "directory header")?;
    let mut c = Cur::new(b, "directory header");
    let index_pos = c.u(8)?;
    let es_pos = c.u(8)?;
    let vs_pos = c.u(8)?;
    let n_index = c.u(4)?;
    let n_es = c.u(4)?;
    let n_vs = c.u(1)?;
    c.zeros(3)?;
    let free = c.take(24)?.to_vec();
    c.end()?;
    let mut spans = vec![(0, 128)];
    let mut value_stores = vec![];
    for so in table(d, vs_pos, n_vs, 8, "value store table")? {
        let (v, sp) = value_store(d, so)?;
        spans.push(sp);
        value_stores.push(v);
    }
    let mut entry_stores = vec![];
    for so in table(d, es_pos, n_es, 8, "entry store table")? {
        let (v, sp) = entry_store(d, so, &value_stores)?;
        spans.push(sp);
        entry_stores.push(v);
    }
    let mut indexes = vec![];
    for so in table(d, index_pos, n_index, 8, "index table")? {
        let (off, sz) = sized_offset(so);
        let b = block(d, off, sz, "index")?;
        let mut c = Cur::new(b, "index");
        let i = Index {
            store: c.u(4)? as u32,
            count: c.u(4)? as u32,
            offset: c.u(4)? as u32,
            free: c.take(4)?.try_into().unwrap(),
            key: c.u(1)? as u8,
            name: String::from_utf8(c.pstr()?).map_err(|e| e.to_string())?,
        };
        c.end()?;
        spans.push((off, off + sz + 4));
        indexes.push(i);
    }
    spans.push((vs_pos, vs_pos + n_vs * 8 + 4));
    spans.push((es_pos, es_pos + n_es * 8 + 4));
    spans.push((index_pos, index_pos + n_index * 8 + 4));
    spans.push((h.check_pos, d.len() as u64));
    tiling(spans, d.len() as u64, "directory pack")?;
    Ok(Directory { free, value_stores, entry_stores, indexes })
}

fn manifest(d: &[u8], h: &Header) -> R<Manifest> {
    let b = block(d, 64, 60, "manifest header")?;
    let mut c = Cur::new(b, "manifest header");
    let count = c.u(2)?;
    let vso = c.u(8)?;
    c.zeros(26)?;
    let free = c.take(24)?.to_vec();
    c.end()?;
    let mut spans = vec![(0, 128)];
    let vs = if vso != 0 {
        let (v, sp) = value_store(d, vso)?;
        spans.push(sp);
        Some(v)
    } else {
        None
    };
    let mut packs = vec![];
    let first = h.check_pos.checked_sub(count * 256).ok_or("pack infos before pack")?;
    for i in 0..count {
        let pos = first + i * 256;
        let b = block(d, pos, 252, "pack info")?;
        let mut c = Cur::new(b, "pack info");
        let uuid = c.take(16)?.try_into().unwrap();
        let size = c.u(8)?;
        let (ck_off, ck_sz) = sized_offset(c.u(8)?);
        let id = c.u(2)? as u16;
        let kind = match c.u(1)? as u8 {
            b'm' => Kind::Manifest,
            b'd' => Kind::Directory,
            b'c' => Kind::Content,
            b'C' => Kind::Container,
            k => bail!("pack info kind {k}"),
        };
        let group = c.u(1)? as u8;
        let free_id = c.u(2)? as usize;
        let location = String::from_utf8(c.pstr()?).map_err(|e| e.to_string())?;
        ensure!(location.len() <= 213, "location of {} bytes", location.len());
        c.zeros(213 - location.len())?;
        c.end()?;
        // the recorded size of the check block includes its CRC
        ensure!(ck_sz >= 5, "check info of {ck_sz} bytes");
        let check = check_info(block(d, ck_off, ck_sz - 4, "pack check info")?)?;
        spans.push((ck_off, ck_off + ck_sz));
        let free = match &vs {
            None => vec![],
            Some(ValueStore::Indexed(v)) => v.get(free_id).ok_or("free data id out of range")?.clone(),
            Some(ValueStore::Plain(_)) => bail!("manifest value store must be indexed"),
        };
        packs.push(PackInfo { uuid, size, check, id, kind, group, free, location, pos });
    }
    spans.push((first, h.check_pos));
    spans.push((h.check_pos, d.len() as u64));
    tiling(spans, d.len() as u64, "manifest pack")?;
    Ok(Manifest { free, packs })
}

pub fn decode_file(d: &[u8]) -> R<File> {
    decode_file_as(d, false)
}
/// Files of the pinned version: the size declared by a container pack omits its 5-byte check block.
pub fn decode_file_old(d: &[u8]) -> R<File> {
    decode_file_as(d, true)
}
fn decode_file_as(d: &[u8], old: bool) -> R<File> {
    ensure!(d.len() >= 64, "file of {} bytes", d.len());
    let origin = match header(d) {
        Ok(h) if h.size == d.len() as u64 || (old && h.kind == Kind::Container && h.size + 5 == d.len() as u64) => 0,
        _ => {
            let mut t = d[d.len() - 64..].to_vec();
            t.reverse();
            let h = header(&t)?;
            (d.len() as u64).checked_sub(h.size).ok_or("declared size larger than the file")?
        }
    };
    let p = &d[origin as usize..];
    let h = header(p)?;
    if h.kind != Kind::Container {
        return Ok(File { origin, container: None, container_free: vec![], packs: vec![decode_pack(p, origin)?] });
    }
    let (h, check) = frame_as(p, old)?;
    ensure!(check.is_none(), "container with a blake3 check");
    let b = block(p, 64, 60, "container header")?;
    let mut c = Cur::new(b, "container header");
    let pos = c.u(8)?;
    let count = c.u(2)?;
    c.zeros(26)?;
    let container_free = c.take(24)?.to_vec();
    c.end()?;
    let mut packs = vec![];
    let mut locs = vec![];
    let mut spans = vec![(0, 128)];
    for i in 0..count {
        let b = block(p, pos + i * 36, 32, "pack locator")?;
        let mut c = Cur::new(b, "pack locator");
        let uuid: Uuid = c.take(16)?.try_into().unwrap();
        let size = c.u(8)?;
        let at = c.u(8)?;
        c.end()?;
        let end = at.checked_add(size).ok_or("locator overflow")?;
        ensure!(end <= p.len() as u64, "locator out of container");
        let pk = decode_pack(&p[at as usize..end as usize], origin + at).map_err(|e| format!("pack at {at}: {e}"))?;
        ensure!(pk.header.uuid == uuid, "locator uuid differs from pack uuid");
        spans.push((at, end));
        locs.push((uuid, size, at));
        packs.push(pk);
    }
    spans.push((pos, pos + count * 36));
    spans.push((h.check_pos, p.len() as u64));
    tiling(spans, p.len() as u64, "container")?;
    Ok(File { origin, container: Some((h, locs)), container_free, packs })
}

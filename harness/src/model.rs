//! Reference model: what is handed to the creator.
use crate::util::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

/// Property and variant names must be `&'static str`.
pub fn intern(s: &str) -> &'static str {
    static T: OnceLock<Mutex<HashMap<String, &'static str>>> = OnceLock::new();
    let mut g = T.get_or_init(Default::default).lock().unwrap();
    if let Some(v) = g.get(s) {
        return v;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    g.insert(s.to_string(), l);
    l
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Comp {
    None,
    Lz4(u32),
    Lzma(u32),
    Zstd(i32),
}
impl Comp {
    pub fn jbk(self) -> jubako::creator::Compression {
        use jubako::creator::Compression as C;
        // deranged integers are not re-exported: clamp through the public constructors' types
        match self {
            Comp::None => C::None,
            Comp::Lz4(l) => match C::lz4() {
                C::Lz4(x) => C::Lz4(set_u(x, l)),
                c => c,
            },
            Comp::Lzma(l) => match C::lzma() {
                C::Lzma(x) => C::Lzma(set_u(x, l)),
                c => c,
            },
            Comp::Zstd(l) => match C::zstd() {
                C::Zstd(x) => C::Zstd(set_i(x, l)),
                c => c,
            },
        }
    }
    pub fn byte(self) -> u8 {
        match self {
            Comp::None => 0,
            Comp::Lz4(_) => 1,
            Comp::Lzma(_) => 2,
            Comp::Zstd(_) => 3,
        }
    }
}
fn set_u<T: TryFrom<u32> + Copy>(d: T, l: u32) -> T {
    T::try_from(l).unwrap_or(d)
}
fn set_i<T: TryFrom<i32> + Copy>(d: T, l: i32) -> T {
    T::try_from(l).unwrap_or(d)
}
pub fn gen_comp(r: &mut Rng, cheap: bool) -> Comp {
    match r.below(8) {
        0 => Comp::None,
        1 | 2 => Comp::Lz4(if cheap { r.below(5) as u32 } else { r.below(16) as u32 }),
        3 | 4 => Comp::Lzma(if cheap { r.below(3) as u32 } else { r.below(10) as u32 }),
        _ => Comp::Zstd(if cheap { r.range(0, 8) as i32 - 3 } else { r.range(0, 44) as i32 - 22 }),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hint {
    Detect,
    Yes,
    No,
}
impl Hint {
    pub fn jbk(self) -> jubako::creator::CompHint {
        match self {
            Hint::Detect => jubako::creator::CompHint::Detect,
            Hint::Yes => jubako::creator::CompHint::Yes,
            Hint::No => jubako::creator::CompHint::No,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Src {
    Mem,
    File,
    /// sub-range of a file: bytes before, bytes after
    Range(usize, usize),
}

#[derive(Clone)]
pub struct ContentSpec {
    pub data: Arc<Vec<u8>>,
    pub hint: Hint,
    pub src: Src,
}
impl std::fmt::Debug for ContentSpec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}B/{:?}/{:?}", self.data.len(), self.hint, self.src)
    }
}

pub fn gen_data(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![r.u64() as u8; n],
        1 => r.bytes(n),
        2 => {
            // text like
            let w: Vec<Vec<u8>> = (0..16).map(|_| { let l = 1 + r.us(9); (0..l).map(|_| b'a' + r.us(26) as u8).collect() }).collect();
            let mut v = Vec::with_capacity(n + 16);
            while v.len() < n {
                let k = r.us(16);
                v.extend_from_slice(&w[k]);
                v.push(b' ');
            }
            v.truncate(n);
            v
        }
        3 => {
            // low entropy start, random rest (entropy detection looks at the first 4 KiB)
            let mut v = vec![b'x'; n.min(4096)];
            let l = n - v.len();
            v.extend(r.bytes(l));
            v
        }
        4 => {
            let mut v = r.bytes(n.min(4096));
            v.resize(n, b'y');
            v
        }
        _ => {
            // 16 symbols
            let mut v = r.bytes(n);
            for b in v.iter_mut() {
                *b &= 0x0F;
            }
            v
        }
    }
}

pub fn gen_size(r: &mut Rng, max: usize) -> usize {
    let b = [0usize, 1, 2, 3, 63, 64, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20];
    let s = match r.below(4) {
        0 => *r.pick(&b),
        1 => r.us(16),
        2 => r.us(2000),
        _ => { let k = r.below(18); r.us((1usize << k) + 1) }
    };
    s.min(max)
}

pub fn gen_content(r: &mut Rng, max: usize) -> ContentSpec {
    let n = gen_size(r, max);
    ContentSpec {
        data: Arc::new(gen_data(r, n)),
        hint: *r.pick(&[Hint::Detect, Hint::Detect, Hint::Yes, Hint::No]),
        src: match r.below(5) {
            0 => Src::File,
            1 => Src::Range(r.us(5000), r.us(300)),
            2 => Src::Range(r.us(3), r.us(3)),
            _ => Src::Mem,
        },
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum PType {
    U,
    S,
    A { fixed: usize, store: usize },
    C,
}
#[derive(Clone, Debug)]
pub struct PropSpec {
    pub name: &'static str,
    pub t: PType,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    U(u64),
    S(i64),
    A(Vec<u8>),
    C(u16, u32),
    /// same as U/S, handed as a late word
    UW(u64),
    SW(i64),
    /// position of entry `.1` (insertion order) of store `.0`
    Ref(usize, usize),
}
impl V {
    pub fn norm(&self) -> V {
        match self {
            V::UW(v) => V::U(*v),
            V::SW(v) => V::S(*v),
            v => v.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct EntrySpec {
    pub variant: Option<usize>,
    pub vals: Vec<(&'static str, V)>,
}

#[derive(Clone, Debug, Default)]
pub struct StoreSpec {
    pub common: Vec<PropSpec>,
    pub variants: Vec<(&'static str, Vec<PropSpec>)>,
    pub sort: Option<Vec<&'static str>>,
    pub entries: Vec<EntrySpec>,
}
impl StoreSpec {
    pub fn props_of(&self, variant: Option<usize>) -> Vec<&PropSpec> {
        let mut v: Vec<_> = self.common.iter().collect();
        if let Some(i) = variant {
            v.extend(self.variants[i].1.iter());
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct IndexSpec {
    pub name: String,
    pub store: usize,
    pub offset: u32,
    pub count: u32,
    pub key: u8,
    pub free: [u8; 4],
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum VsKind {
    Plain,
    Indexed,
}

#[derive(Clone, Debug, Default)]
pub struct DirSpec {
    pub vstores: Vec<VsKind>,
    pub stores: Vec<StoreSpec>,
    pub indexes: Vec<IndexSpec>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    One,
    Two,
    No,
}
impl Mode {
    pub const ALL: [Mode; 3] = [Mode::One, Mode::Two, Mode::No];
    pub fn jbk(self) -> jubako::creator::ConcatMode {
        match self {
            Mode::One => jubako::creator::ConcatMode::OneFile,
            Mode::Two => jubako::creator::ConcatMode::TwoFiles,
            Mode::No => jubako::creator::ConcatMode::NoConcat,
        }
    }
}

#[derive(Clone, Debug)]
pub struct ContainerSpec {
    pub comp: Comp,
    pub mode: Mode,
    pub contents: Vec<ContentSpec>,
    /// additional content packs, ids 2.. (id, compression, contents)
    pub extra: Vec<(u16, Comp, Vec<ContentSpec>)>,
    pub dir: DirSpec,
    /// deduplicating adder
    pub dedup: bool,
}

const NAMES: [&str; 14] = [
    "a", "id", "Path", "size", "owner_name", "é-prop", "x y", "Zz", "mtime", "content", "AString", "AnotherInteger", "日本",
    "a_rather_long_property_name_to_make_the_layout_definition_bigger_than_usual",
];
/// A name which is almost another one: other case, longer, shorter, one character away.
pub fn near(r: &mut Rng, n: &str) -> String {
    let mut c: Vec<char> = n.chars().collect();
    if c.is_empty() {
        return " ".into();
    }
    let k = r.us(c.len());
    match r.below(6) {
        0 => c[k] = if c[k].is_ascii_uppercase() { c[k].to_ascii_lowercase() } else { c[k].to_ascii_uppercase() },
        1 => return if n.chars().any(|x| x.is_ascii_lowercase()) { n.to_ascii_uppercase() } else { n.to_ascii_lowercase() },
        2 => c.push(*r.pick(&['x', ' ', '\0', '0'])),
        3 if c.len() > 1 => { c.pop(); }
        4 => c.insert(0, *r.pick(&['x', ' ', '0'])),
        _ => c[k] = if c[k] == 'x' { 'y' } else { 'x' },
    }
    c.into_iter().collect()
}
pub fn pname(r: &mut Rng, used: &mut Vec<&'static str>, i: usize) -> &'static str {
    if !used.is_empty() && r.chance(1, 8) {
        let of = *r.pick(used);
        let n = near(r, of);
        if n.len() <= 240 && !used.contains(&n.as_str()) {
            used.push(intern(&n));
            return intern(&n);
        }
    }
    // now and then a name of any length up to the longest (255 bytes, some taken by what makes it different of the others)
    let long;
    let base = if r.chance(1, 24) {
        let n = *r.pick(&[1usize, 2, 15, 16, 31, 63, 64, 126, 127, 128, 129, 200, 240]);
        long = (0..n).map(|k| (b'a' + ((k + i) % 26) as u8) as char).collect::<String>();
        long.as_str()
    } else {
        *r.pick(&NAMES)
    };
    let n = if used.contains(&intern(base)) { intern(&format!("{base}{i}")) } else { intern(base) };
    let n = if used.contains(&n) { intern(&format!("p{i}_{}", used.len())) } else { n };
    used.push(n);
    n
}

pub struct GenCfg {
    pub max_vstores: usize,
    pub max_stores: usize,
    pub max_props: usize,
    pub max_entries: usize,
    pub max_array: usize,
    pub n_contents: Vec<(u16, u32)>,
    pub sorted: Option<bool>,
    pub ext_addr: bool,
    pub words: bool,
}
impl GenCfg {
    pub fn small() -> Self {
        GenCfg { max_vstores: 3, max_stores: 2, max_props: 5, max_entries: 8, max_array: 40, n_contents: vec![], sorted: None, ext_addr: false, words: true }
    }
    pub fn medium() -> Self {
        GenCfg { max_vstores: 4, max_stores: 3, max_props: 9, max_entries: 60, max_array: 400, n_contents: vec![], sorted: None, ext_addr: true, words: true }
    }
}

fn gen_prop(r: &mut Rng, name: &'static str, nvs: usize) -> PropSpec {
    let t = match r.below(6) {
        0 | 1 => PType::U,
        2 => PType::S,
        3 => PType::C,
        _ if nvs > 0 => PType::A { fixed: *r.pick(&[0usize, 0, 0, 1, 2, 3, 4, 8, 17, 30, 31]), store: r.us(nvs) },
        _ => PType::U,
    };
    PropSpec { name, t }
}

/// magnitude classes for a column
#[derive(Clone, Copy)]
struct ColStyle {
    kind: u64,
    base: u64,
}
fn gen_uint(r: &mut Rng, st: ColStyle) -> u64 {
    match st.kind {
        0 => st.base,
        1 => r.below(3),
        2 => r.below(256),
        3 => *r.pick(&[0, 1, 0xFF, 0x100, 0xFFFF, 0x1_0000]),
        4 => { let k = 1 + st.base % 8; let top = if k == 8 { u64::MAX } else { (1u64 << (8 * k)) - 1 }; *r.pick(&[top, top, top - 1, 0, top / 2]) }
        5 => { let k = st.base % 8; let b = 1u64 << (8 * k); *r.pick(&[b, b - 1, b.wrapping_add(1), 0]) }
        6 => u64::MAX - r.below(2),
        _ => { let k = r.below(64); r.u64() >> k }
    }
}
fn gen_sint(r: &mut Rng, st: ColStyle) -> i64 {
    match st.kind {
        0 => st.base as i64,
        1 => r.below(5) as i64 - 2,
        2 => -(r.below(200) as i64),
        3 => *r.pick(&[-128, 127, -129, 128, 200, -32768, 32767]),
        4 => { let k = 1 + st.base % 8; let b = 8 * k - 1; let hi = if b >= 63 { i64::MAX } else { (1i64 << b) - 1 }; *r.pick(&[hi, -hi, -hi - 1, 0, hi / 2]) }
        5 => { let k = 1 + st.base % 7; let b = 1i64 << (8 * k - 1); *r.pick(&[b, b - 1, -b, -b - 1, b + 1]) }
        6 => *r.pick(&[i64::MIN, i64::MAX, 0, -1]),
        _ => { let k = r.below(64); (r.u64() as i64) >> k }
    }
}
/// values of one column that share a long beginning: told apart by their last bytes, their length, a byte in the middle
pub fn gen_family(r: &mut Rng, base: u64, max: usize) -> Vec<u8> {
    let mut fr = Rng::new(base);
    let l = (*fr.pick(&[5usize, 16, 31, 33, 64, 65, 100, 130, 255, 256, 260, 300])).min(max);
    let mut v = match base % 3 {
        0 => fr.bytes(l),
        1 => vec![0u8; l],
        _ => (0..l).map(|_| b'a' + fr.us(26) as u8).collect(),
    };
    match r.below(6) {
        0 => {}
        1 => v.truncate(l - r.us(3).min(l)),
        2 if l < max => v.push(*r.pick(&[0u8, 1, 0xFF, b'a'])),
        3 if l > 0 => { let k = r.us(l); v[k] = v[k].wrapping_add(1 + r.us(255) as u8) }
        _ if l > 0 => { let k = l - 1 - r.us(l.min(3)); v[k] ^= 1 << r.below(8) }
        _ => {}
    }
    v
}
fn gen_array(r: &mut Rng, st: ColStyle, max: usize) -> Vec<u8> {
    if st.kind >= 8 {
        return gen_family(r, st.base, max);
    }
    let n = match st.kind {
        0 => return st.base.to_le_bytes()[..(st.base % 9) as usize].to_vec(),
        1 => r.us(3),
        2 => *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 9, 16, 17, 30, 31, 32, 33]),
        3 => *r.pick(&[254usize, 255, 256, 257]),
        4 => 0,
        _ => r.us(max + 1),
    }.min(max);
    match r.below(4) {
        0 => r.bytes(n),
        1 => vec![*r.pick(&[0u8, 0xFF, b'a']); n],
        2 => (0..n).map(|_| *r.pick(b"ab")).collect(),
        _ => (0..n).map(|_| b'a' + r.us(26) as u8).collect(),
    }
}

pub fn gen_store(r: &mut Rng, cfg: &GenCfg, nvs: usize) -> StoreSpec {
    let mut used = vec![];
    let nprops = r.us(cfg.max_props + 1);
    let mut common: Vec<PropSpec> = (0..nprops).map(|i| { let n = pname(r, &mut used, i); gen_prop(r, n, nvs) }).collect();
    let mut variants = vec![];
    if r.chance(2, 5) {
        let nv = 1 + r.us(4);
        for k in 0..nv {
            // names may be reused between variants
            let mut u2 = used.clone();
            let np = r.us(4);
            let props: Vec<_> = (0..np).map(|i| { let n = pname(r, &mut u2, 20 + i); gen_prop(r, n, nvs) }).collect();
            let mut name = intern(&format!("{}{k}", r.pick(&["file", "V", "Dir é", "L"])));
            if k > 0 && r.chance(1, 6) {
                let (of, _): &(&'static str, Vec<PropSpec>) = r.pick(&variants);
                let n = near(r, of);
                if variants.iter().all(|v| v.0 != n) { name = intern(&n) }
            }
            variants.push((name, props));
        }
    }
    let sorted = cfg.sorted.unwrap_or_else(|| r.chance(1, 3));
    let mut sort = None;
    if sorted {
        let mut keys: Vec<_> = common.iter().filter(|p| p.t != PType::C).map(|p| p.name).collect();
        if keys.is_empty() {
            // not a name of the variants either
            for (_, v) in &variants {
                used.extend(v.iter().map(|p: &PropSpec| p.name));
            }
            let n = pname(r, &mut used, 77);
            common.push(PropSpec { name: n, t: if nvs > 0 && r.bool() { PType::A { fixed: r.us(5), store: r.us(nvs) } } else { PType::U } });
            keys.push(n);
        }
        r.shuffle(&mut keys);
        keys.truncate(1 + r.us(3));
        sort = Some(keys);
    }
    let ne = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => r.us(cfg.max_entries + 1),
    };
    let mut st: HashMap<(Option<usize>, &'static str), ColStyle> = HashMap::new();
    let mut store = StoreSpec { common, variants, sort, entries: vec![] };
    for _ in 0..ne {
        let variant = if store.variants.is_empty() { None } else { Some(r.us(store.variants.len())) };
        let mut vals = vec![];
        let nc = store.common.len();
        for (i, p) in store.props_of(variant).iter().enumerate() {
            let key = (if i < nc { None } else { variant }, p.name);
            let s = *st.entry(key).or_insert_with(|| ColStyle { kind: r.below(10), base: { let k = r.below(64); r.u64() >> k } });
            let v = match &p.t {
                PType::U => { let v = gen_uint(r, s); if cfg.words && r.chance(1, 6) { V::UW(v) } else { V::U(v) } }
                PType::S => { let v = gen_sint(r, s); if cfg.words && r.chance(1, 6) { V::SW(v) } else { V::S(v) } }
                PType::A { .. } => V::A(gen_array(r, s, cfg.max_array)),
                PType::C => {
                    if !cfg.n_contents.is_empty() && !(cfg.ext_addr && r.chance(1, 4)) {
                        let (p, n) = *r.pick(&cfg.n_contents);
                        V::C(p, r.below(n.max(1) as u64) as u32)
                    } else if cfg.ext_addr {
                        V::C(
                            if s.kind < 5 { (s.base & 0xFF) as u16 } else { *r.pick(&[0, 1, 255, 256, 65535]) },
                            *r.pick(&[0u32, 1, 255, 256, 65535, 65536, 0xFF_FFFF, 0x100_0000, u32::MAX]),
                        )
                    } else {
                        V::C(1, 0)
                    }
                }
            };
            vals.push((p.name, v));
        }
        store.entries.push(EntrySpec { variant, vals });
    }
    store
}

pub fn gen_dir(r: &mut Rng, cfg: &GenCfg) -> DirSpec {
    let nvs = r.us(cfg.max_vstores + 1);
    let vstores: Vec<_> = (0..nvs).map(|_| if r.bool() { VsKind::Plain } else { VsKind::Indexed }).collect();
    let ns = 1 + r.us(cfg.max_stores);
    let stores: Vec<_> = (0..ns).map(|_| gen_store(r, cfg, nvs)).collect();
    let mut indexes = vec![];
    let nidx = 1 + r.us(3);
    for i in 0..nidx.max(ns) {
        let s = if i < ns { i } else { r.us(ns) };
        let n = stores[s].entries.len() as u32;
        let (offset, count) = if i < ns || n == 0 {
            (0, n)
        } else {
            let o = r.below(n as u64 + 1) as u32;
            (o, r.below((n - o) as u64 + 1) as u32)
        };
        let free = (r.u64() as u32).to_le_bytes();
        let mut name = format!("{}{i}", r.pick(&["index", "", "My own index ", "日本"]));
        if i > 0 && r.chance(1, 3) {
            let of: &IndexSpec = r.pick(&indexes);
            let n = near(r, &of.name.clone());
            if indexes.iter().all(|x| x.name != n) { name = n }
        }
        indexes.push(IndexSpec { name, store: s, offset, count, key: r.below(4) as u8, free });
    }
    DirSpec { vstores, stores, indexes }
}

pub fn gen_container(r: &mut Rng, cfg: &mut GenCfg, ncontents: usize, max_content: usize, cheap: bool) -> ContainerSpec {
    let comp = gen_comp(r, cheap);
    let contents: Vec<_> = (0..ncontents).map(|_| gen_content(r, max_content)).collect();
    let mut extra = vec![];
    if r.chance(1, 3) {
        for id in 2..2 + 1 + r.us(2) {
            let n = r.us(4);
            extra.push((id as u16, gen_comp(r, cheap), (0..n).map(|_| gen_content(r, max_content)).collect::<Vec<_>>()));
        }
    }
    cfg.n_contents = vec![(1, contents.len() as u32)];
    cfg.n_contents.extend(extra.iter().map(|e| (e.0, e.2.len() as u32)));
    let dir = gen_dir(r, cfg);
    ContainerSpec { comp, mode: *r.pick(&Mode::ALL), contents, extra, dir, dedup: r.chance(1, 4) }
}

/// Contents which are almost the same: one bit apart at telling places, one a prefix of the other, zeros at the end, blocks swapped.
pub fn twins(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let base = if r.bool() { r.bytes(n) } else { gen_data(r, n) };
    let mut v = vec![base.clone()];
    let mut at: Vec<usize> = vec![0, 1, 7, 8, 31, 63, 64, 127, 254, 255, 256, 1023, 1024, 4095, 4096, 65_534, 65_535, 65_536, 131_072, (1 << 20) - 1, 1 << 20, (4 << 20) - 1, 4 << 20, n / 2];
    at.extend((1..=9).map(|k| n.saturating_sub(k)));
    at.retain(|a| *a < n);
    at.sort();
    at.dedup();
    let keep = (24 << 20) / (n + 1);
    while at.len() > keep.max(3) {
        // the ends always stay
        let k = 1 + r.us(at.len() - 2);
        at.remove(k);
    }
    for a in at {
        let mut d = base.clone();
        d[a] ^= 1 << r.below(8);
        v.push(d);
    }
    if n > 0 {
        v.push(base[..n - 1].to_vec());
    }
    let mut d = base.clone();
    d.push(0);
    v.push(d);
    if n >= 16 {
        let mut d = base.clone();
        d.rotate_left(8);
        v.push(d);
    }
    v
}

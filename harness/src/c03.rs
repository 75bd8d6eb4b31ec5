//! C03: sorted stores follow the reader's order; lookup finds exactly what was written.
use crate::builder::*;
use crate::c02::one_index;
use crate::dump::*;
use crate::model::*;
use crate::par::*;
use crate::util::*;
use jubako as jbk;
use jbk::reader::builder::{AnyBuilder, PropertyBuilderTrait, BuilderTrait};
use jbk::reader::{CompareTrait, EntryTrait, Range};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

struct Bin<T>(T);
impl<T: CompareTrait> CompareTrait for Bin<T> {
    fn ordered(&self) -> bool {
        true
    }
    fn compare_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<Ordering> {
        self.0.compare_entry(idx)
    }
}

/// own comparator on a typed array property (reader::Array::cmp)
struct TypedArr<'a> {
    store: &'a jbk::reader::EntryStore,
    p: &'a jbk::reader::builder::ArrayProperty,
    key: &'a [u8],
    ordered: bool,
}
impl CompareTrait for TypedArr<'_> {
    fn ordered(&self) -> bool {
        self.ordered
    }
    fn compare_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<Ordering> {
        let r = self.store.get_entry_reader(idx).expect("entry of the index");
        self.p.create(&r)?.cmp(self.key)
    }
}

pub fn jv(v: &V) -> jbk::Value {
    crate::builder::jval(v, &[])
}

fn from_val(v: &jbk::Value) -> V {
    match v {
        jbk::Value::Unsigned(v) => V::U(*v),
        jbk::Value::Signed(v) => V::S(*v),
        jbk::Value::Array(a) => V::A(a.as_bytes().to_vec()),
        jbk::Value::Content(c) => V::C(c.pack_id.into_u16(), c.content_id.into_u32()),
        _ => panic!("word read back"),
    }
}

/// byte strings that are hard to order
fn pool_arrays(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let alpha: &[u8] = *r.pick(&[&b"ab"[..], &b"a"[..], &[0u8, 1, 0xFF][..], &b"abcdefghij/"[..], &[0u8][..], &[0x7F, 0x80][..]]);
    let maxl = *r.pick(&[2usize, 4, 8, 20, 40, 300]);
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let x = match r.below(6) {
            0 if !v.is_empty() => {
                // extend another one
                let mut x = v[r.us(v.len())].clone();
                let l = 1 + r.us(3);
                for _ in 0..l {
                    x.push(*r.pick(alpha));
                }
                x
            }
            1 if !v.is_empty() => {
                let mut x = v[r.us(v.len())].clone();
                x.pop();
                x
            }
            2 if !v.is_empty() => {
                let mut x = v[r.us(v.len())].clone();
                if !x.is_empty() {
                    let k = r.us(x.len());
                    x[k] = x[k].wrapping_add(*r.pick(&[1u8, 255]));
                }
                x
            }
            3 => r.u64().to_le_bytes()[..r.us(9)].to_vec(),
            4 => { let l = r.us(maxl + 1); vec![*r.pick(alpha); l] }
            _ => (0..r.us(maxl + 1)).map(|_| *r.pick(alpha)).collect(),
        };
        v.push(x);
    }
    v
}
fn pool_u(r: &mut Rng, n: usize) -> Vec<u64> {
    let k = r.below(6);
    (0..n).map(|i| match k {
        0 => r.below(5),
        1 => r.u64() >> r.below(64),
        2 => i as u64,
        3 => (n - i) as u64 * 255,
        4 => *r.pick(&[0, 255, 256, 65535, 65536, u64::MAX, 1 << 63, (1 << 63) - 1, u32::MAX as u64]),
        _ => r.u64(),
    }).collect()
}
fn pool_s(r: &mut Rng, n: usize) -> Vec<i64> {
    let k = r.below(6);
    (0..n).map(|i| match k {
        0 => r.below(5) as i64 - 2,
        1 => (r.u64() as i64) >> r.below(64),
        2 => -(i as i64),
        3 => (n as i64 / 2 - i as i64) * 130,
        4 => *r.pick(&[0, -1, 127, 128, -128, -129, 32767, -32768, i64::MIN, i64::MAX, 1 << 31]),
        _ => r.u64() as i64,
    }).collect()
}

pub fn gen(r: &mut Rng, n: usize) -> DirSpec {
    let nk = 1 + r.us(3);
    let nvs = 1 + r.us(2);
    let vstores: Vec<_> = (0..nvs).map(|_| if r.bool() { VsKind::Plain } else { VsKind::Indexed }).collect();
    let names = ["k0", "k1", "k2"];
    let mut keyp: Vec<PropSpec> = (0..nk).map(|i| PropSpec {
        name: names[i],
        t: match r.below(5) { 0 => PType::U, 1 => PType::S, _ => PType::A { fixed: *r.pick(&[0usize, 0, 1, 2, 3, 4, 8, 31]), store: r.us(nvs) } },
    }).collect();
    let mut common = keyp.clone();
    common.push(PropSpec { name: "id", t: PType::U });
    // other columns sharing the value stores
    if r.bool() {
        common.push(PropSpec { name: "other", t: PType::A { fixed: r.us(3), store: r.us(nvs) } });
    }
    r.shuffle(&mut common);
    let mut variants: Vec<(&'static str, Vec<PropSpec>)> = vec![];
    if r.chance(1, 3) {
        variants.push(("va", vec![PropSpec { name: "x", t: PType::U }]));
        variants.push(("vb", vec![PropSpec { name: "y", t: PType::A { fixed: 0, store: r.us(nvs) } }, PropSpec { name: "x", t: PType::S }]));
        if r.chance(1, 4) {
            // the first key lives in each variant instead
            let p = common.remove(common.iter().position(|p| p.name == "k0").unwrap());
            for v in &mut variants {
                v.1.push(p.clone());
            }
        }
    }
    let dup = r.below(4);
    let distinct = match dup { 0 => 1 + n / 20, 1 => 1 + n / 3, _ => n.max(1) };
    let pools: Vec<Vec<V>> = keyp.iter().map(|p| match &p.t {
        PType::U => pool_u(r, distinct).into_iter().map(V::U).collect(),
        PType::S => pool_s(r, distinct).into_iter().map(V::S).collect(),
        _ if r.chance(1, 4) => { let base = r.u64(); (0..distinct).map(|_| V::A(gen_family(r, base, 300))).collect() }
        _ => pool_arrays(r, distinct).into_iter().map(V::A).collect(),
    }).collect();
    // late words for none, all, or some of the values
    let words = *r.pick(&[0u64, 0, 4, 2]);
    let mut entries = vec![];
    for i in 0..n {
        let variant = if variants.is_empty() { None } else { Some(r.us(2)) };
        let mut st = StoreSpec { common: common.clone(), variants: variants.clone(), ..Default::default() };
        st.entries.clear();
        let vals = st.props_of(variant).iter().map(|p| (p.name, match p.name {
            "id" => V::U(i as u64),
            "other" => V::A(pool_arrays(r, 1).pop().unwrap()),
            "x" if p.t == PType::S => V::S(-(i as i64)),
            "x" => V::U(i as u64 * 3),
            "y" => V::A(pool_arrays(r, 1).pop().unwrap()),
            k => {
                let j = names.iter().position(|x| *x == k).unwrap();
                // first keys repeat more, so the next ones decide
                let pl = &pools[j];
                let lim = if j + 1 < nk { 1 + pl.len() / 4 } else { pl.len() };
                let v = if distinct == n && nk == 1 { pl[i].clone() } else { pl[r.us(lim)].clone() };
                match v { V::U(v) if r.chance(words, 4) => V::UW(v), V::S(v) if r.chance(words, 4) => V::SW(v), v => v }
            }
        })).collect();
        entries.push(EntrySpec { variant, vals });
    }
    r.shuffle(&mut keyp);
    let sort = keyp.iter().map(|p| p.name).collect();
    let mut indexes = vec![one_index("all", 0, n)];
    if n > 0 {
        let o = r.us(n);
        let c = r.us(n - o + 1);
        indexes.push(IndexSpec { name: "window".into(), store: 0, offset: o as u32, count: c as u32, key: 0, free: [0; 4] });
    }
    DirSpec { vstores, stores: vec![StoreSpec { common, variants, sort: Some(sort), entries }], indexes }
}

fn cmp_v(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::U(a), V::U(b)) => a.cmp(b),
        (V::S(a), V::S(b)) => a.cmp(b),
        (V::A(a), V::A(b)) => a.as_slice().cmp(b.as_slice()),
        _ => panic!("keys of different types {a:?} {b:?}"),
    }
}
fn cmp_key(a: &[V], b: &[V]) -> Ordering {
    a.iter().zip(b).map(|(x, y)| cmp_v(x, y)).find(|o| o.is_ne()).unwrap_or(Ordering::Equal)
}

/// keys that are near the present ones
fn neighbour(r: &mut Rng, k: &[V]) -> Vec<V> {
    let mut k = k.to_vec();
    let i = r.us(k.len());
    k[i] = match &k[i] {
        V::U(v) => V::U(match r.below(4) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), 2 => v ^ (1 << r.below(64)), _ => r.u64() }),
        V::S(v) => V::S(match r.below(4) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), 2 => v.wrapping_neg(), _ => r.u64() as i64 }),
        V::A(a) => {
            let mut a = a.clone();
            match r.below(6) {
                0 => a.push(0),
                1 => { a.pop(); }
                2 => a.push(0xFF),
                3 if !a.is_empty() => { let j = r.us(a.len()); a[j] = a[j].wrapping_add(1) }
                4 if !a.is_empty() => { let l = a.len(); a[l - 1] = a[l - 1].wrapping_sub(1) }
                _ => { let l = r.us(6); a = r.bytes(l) }
            }
            V::A(a)
        }
        v => v.clone(),
    };
    k
}

fn check(rec: &mut Rec, r: &mut Rng, spec: &DirSpec, f: &DirFile, what: &str, lookups: usize) {
    let s = &spec.stores[0];
    let keys = s.sort.clone().unwrap();
    let desc = |m: String| format!("{what}: {m}; sort {keys:?} stores {:?} common {:?} variants {:?} n={} ", spec.vstores, s.common, s.variants, s.entries.len());
    let entry_key = |e: &EntrySpec| -> Vec<V> { keys.iter().map(|k| e.vals.iter().find(|v| v.0 == *k).unwrap().1.norm()).collect() };
    let mut written: Vec<(Vec<V>, u64)> = s.entries.iter().map(|e| (entry_key(e), match e.vals.iter().find(|v| v.0 == "id") { Some((_, V::U(i))) => *i, _ => 0 })).collect();
    for (n, ix) in spec.indexes.iter().enumerate() {
        let idx = match f.pack.get_index((n as u32).into()) {
            Ok(i) => i,
            Err(e) => return rec.violation("index error", desc(format!("{e:?}"))),
        };
        let store = match (f.get_store)(&idx) {
            Ok(s) => s,
            Err(e) => return rec.violation("store error", desc(format!("{e:?}"))),
        };
        let b = match AnyBuilder::new(store.clone(), &*f.vs) {
            Ok(b) => b,
            Err(e) => return rec.violation("builder error", desc(format!("{e:?}"))),
        };
        let range = jbk::EntryRange::from(&idx);
        let mut got: Vec<Vec<V>> = vec![];
        let mut ids = vec![];
        for e in 0..ix.count {
            let en = match idx.get_entry(&b, e.into()) {
                Ok(Some(en)) => en,
                o => return rec.violation("entry absent", desc(format!("{e}: {:?}", o.map(|x| x.is_some())))),
            };
            let read = |k: &str| -> Result<V, String> {
                match en.get_value(k) {
                    Ok(Some(v)) => v.get().map(|v| from_val(&v)).map_err(|e| format!("{e:?}")),
                    o => Err(format!("{:?}", o.map(|x| x.is_some()))),
                }
            };
            let mut kk = vec![];
            for k in &keys {
                match read(k) {
                    Ok(v) => kk.push(v),
                    Err(m) => return rec.violation("key error", desc(format!("entry {e} {k}: {m}"))),
                }
            }
            ids.push(match read("id") { Ok(V::U(i)) => i, o => return rec.violation("id error", desc(format!("{o:?}"))) });
            got.push(kk);
        }
        if ix.offset == 0 && ix.count as usize == s.entries.len() {
            let mut a: Vec<_> = got.iter().cloned().zip(ids.iter().cloned()).collect();
            a.sort();
            written.sort();
            if a != written {
                rec.violation("entries lost", desc("the entries of the sorted store are not those written".into()));
            }
        }
        for w in 1..got.len() {
            if cmp_key(&got[w - 1], &got[w]) == Ordering::Greater {
                rec.violation("not sorted", desc(format!("entry {} {:?} is before entry {w} {:?}", w - 1, got[w - 1], got[w])));
                return;
            }
            // the reader's own comparison
            if w % 3 == 0 || got.len() < 50 {
                let c = b.new_multiple_property_compare(keys.iter().map(|k| k.to_string()).collect(), got[w].iter().map(jv).collect());
                match c.compare_entry(idx.offset() + jbk::EntryIdx::from(w as u32 - 1)) {
                    Ok(o) if o == cmp_key(&got[w - 1], &got[w]) => rec.count("reader_compares", 1),
                    o => rec.violation("reader order differs", desc(format!("{:?} / {:?}: {o:?}", got[w - 1], got[w]))),
                }
            }
            rec.count("pairs_ordered", 1);
        }
        // lookups in this window
        let arr: Option<jbk::reader::builder::ArrayProperty> = match (&got.first(), store.layout().common.get(keys[0])) {
            (Some(k), Some(p)) if matches!(k[0], V::A(_)) => p.as_builder(&*f.vs).ok().flatten(),
            _ => None,
        };
        let present: BTreeSet<&Vec<V>> = got.iter().collect();
        let mut queries: Vec<Vec<V>> = vec![];
        if got.len() <= lookups {
            queries.extend(got.iter().cloned());
        } else {
            for _ in 0..lookups {
                queries.push(got[r.us(got.len())].clone());
            }
            queries.push(got[0].clone());
            queries.push(got[got.len() - 1].clone());
        }
        // the binary search finds every one of them
        if got.len() > lookups {
            for (e, k) in got.iter().enumerate() {
                let c = Bin(b.new_multiple_property_compare(keys.iter().map(|k| k.to_string()).collect(), k.iter().map(jv).collect()));
                match if e % 2 == 0 { idx.find(&c) } else { range.find(&c) } {
                    Ok(Some(i)) if got.get(i.into_u32() as usize) == Some(k) => rec.count("lookups_of_every_key", 1),
                    o => {
                        rec.violation("lookup misses", desc(format!("binary of {k:?} in {} (entry {e} of {}): {o:?}", ix.name, got.len())));
                        return;
                    }
                }
            }
        }
        // keys of the whole store (may be out of this window), neighbours
        for _ in 0..lookups {
            if let Some(e) = (!s.entries.is_empty()).then(|| r.pick(&s.entries)) {
                let k = entry_key(e);
                queries.push(neighbour(r, &k));
                if r.chance(1, 3) {
                    queries.push(k);
                }
            }
        }
        let mut by_prefix: BTreeMap<usize, BTreeSet<Vec<V>>> = BTreeMap::new();
        for np in 1..keys.len() {
            by_prefix.insert(np, got.iter().map(|k| k[..np].to_vec()).collect());
        }
        for q in queries {
            let np = if keys.len() > 1 && r.chance(1, 4) { 1 + r.us(keys.len() - 1) } else { keys.len() };
            let q = &q[..np];
            let want = if np == keys.len() { present.contains(&q.to_vec()) } else { by_prefix[&np].contains(q) };
            let word = r.chance(1, 8);
            let qv = |v: &V| match v { V::U(v) if word => jv(&V::UW(*v)), V::S(v) if word => jv(&V::SW(*v)), v => jv(v) };
            let mk = || if np == 1 && r.clone().bool() { b.new_property_compare(keys[0].to_string(), qv(&q[0])) } else {
                b.new_multiple_property_compare(keys[..np].iter().map(|k| k.to_string()).collect(), q.iter().map(qv).collect()) };
            let mut res: Vec<(&str, jbk::Result<Option<jbk::EntryIdx>>)> = vec![
                ("linear", idx.find(&mk())),
                ("binary", idx.find(&Bin(mk()))),
                ("binary range", range.find(&Bin(mk()))),
            ];
            if np == 1 {
                if let (Some(p), V::A(k)) = (&arr, &q[0]) {
                    res.push(("binary typed", idx.find(&TypedArr { store: &store, p, key: k, ordered: true })));
                    res.push(("linear typed", range.find(&TypedArr { store: &store, p, key: k, ordered: false })));
                }
            }
            for (m, x) in res {
                match x {
                    Ok(None) if !want => rec.count("lookups_absent", 1),
                    Ok(Some(i)) if want => {
                        let i = i.into_u32() as usize;
                        if i >= got.len() || got[i][..np] != *q {
                            rec.violation("lookup wrong entry", desc(format!("{m} of {q:?} in {}: entry {i} carries {:?}", ix.name, got.get(i))));
                        }
                        rec.count("lookups_present", 1);
                    }
                    o => rec.violation(if want { "lookup misses" } else { "lookup finds absent" }, desc(format!("{m} of {q:?} in {}: {o:?}", ix.name))),
                }
                if rec.violations.len() > 4 {
                    return;
                }
            }
        }
        let _ = &b as &dyn BuilderTrait<Entry = _, Error = _>;
    }
}

pub fn one(rec: &mut Rec, r: &mut Rng, spec: &DirSpec, what: &str, lookups: usize) {
    let sc = Scratch::new("c03");
    let p = sc.u("d.jbkd");
    match build_directory(spec, &p) {
        Err(e) if e.contains("Cannot sort") => rec.violation("sort gives up", format!("{what}: {e}; {}", format!("{spec:?}").chars().take(1500).collect::<String>())),
        Err(e) => rec.violation("creation failed", format!("{what}: {e}; recent {:?}; {}", recent_panics(), format!("{spec:?}").chars().take(1500).collect::<String>())),
        Ok(_) => match open_dir(p.as_std_path()) {
            Err(e) => rec.violation("open failed", format!("{what}: {e:?}")),
            Ok(f) => check(rec, r, spec, &f, what, lookups),
        },
    }
    let n = spec.stores[0].entries.len();
    rec.count("stores", 1);
    rec.count("entries", n as u64);
    rec.max("entries_in_store", n as u64);
    rec.count(&format!("sort_keys_{}", spec.stores[0].sort.as_ref().unwrap().len()), 1);
    rec.case(hash64(format!("{spec:?}").as_bytes()), n >= 2);
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a store of at least two entries declared sorted; distinct by the complete model".into();
    let thorough = !ctx.quick();
    phase("small", 0.55, u64::MAX).min(200).run(ctx, move |_, r, rec| {
        let n = match r.below(8) { 0 => r.us(3), 1 => 2, 7 => r.us(120), _ => r.us(25) };
        let spec = gen(r, n);
        one(rec, r, &spec, "small", 24);
        rec.sample(format!("sort {:?} n {} first {:?}", spec.stores[0].sort, n, spec.stores[0].entries.first()).chars().take(300).collect());
    });
    // beyond what rayon sorts sequentially, many threads
    phase("large", 0.85, u64::MAX).min(6).threads(if thorough { 8 } else { 6 }).run(ctx, move |i, r, rec| {
        let n = match i % 4 { 0 => 2500 + r.us(3000), 1 => 300 + r.us(1000), 2 => 255 + r.us(3), _ => 6000 + r.us(if thorough { 60_000 } else { 6000 }) };
        let spec = gen(r, n);
        one(rec, r, &spec, "large", 40);
    });
    // more entries than 2 bytes can count
    phase("huge", 0.9, if thorough { 12 } else { 2 }).min(2).run(ctx, move |i, r, rec| {
        let n = 65_536 + r.us(3000);
        let spec = if i % 2 == 0 {
            gen(r, n)
        } else {
            // every key is there once, the search ends anywhere
            let mul = 2 * r.below(30_000) + 1;
            let entries: Vec<_> = (0..n as u64)
                .map(|k| EntrySpec { variant: None, vals: vec![("k0", V::U((k * mul) % (1 << 17))), ("k1", V::A((k as u32).to_be_bytes()[1..].to_vec())), ("id", V::U(k))] })
                .collect();
            let u = |name, t| PropSpec { name, t };
            DirSpec {
                vstores: vec![VsKind::Plain],
                stores: vec![StoreSpec { common: vec![u("k0", PType::U), u("k1", PType::A { fixed: 1, store: 0 }), u("id", PType::U)], variants: vec![], sort: Some(vec![if r.bool() { "k0" } else { "k1" }]), entries }],
                indexes: vec![one_index("all", 0, n), IndexSpec { name: "far".into(), store: 0, offset: 65_530, count: (n - 65_530) as u32, key: 0, free: [0; 4] }],
            }
        };
        one(rec, r, &spec, "huge", 60);
    });
    // the exhaustive corner: all arrays of a two letter alphabet up to length 4 in every prefix length, insertion order shuffled
    phase("alphabet", 1.0, if thorough { 2000 } else { 96 }).min(24).run(ctx, move |i, r, rec| {
        let fixed = (i % 6) as usize;
        let kind = if i % 2 == 0 { VsKind::Plain } else { VsKind::Indexed };
        let kind = if (i / 12) % 2 == 0 { kind } else if kind == VsKind::Plain { VsKind::Indexed } else { VsKind::Plain };
        let (x, y) = *r.pick(&[(b'a', b'b'), (0u8, 1u8), (0, 0xFF), (0x7F, 0x80)]);
        let mut all = vec![vec![]];
        for l in 1..=4usize {
            for m in 0..(1 << l) {
                all.push((0..l).map(|k| if m >> k & 1 == 1 { y } else { x }).collect::<Vec<u8>>());
            }
        }
        let keep = 1 + r.us(all.len());
        r.shuffle(&mut all);
        let mut v = all[..keep].to_vec();
        let extra = r.us(5);
        for _ in 0..extra {
            let d = v[r.us(v.len())].clone();
            v.push(d);
        }
        let entries: Vec<_> = v.iter().enumerate().map(|(k, a)| EntrySpec { variant: None, vals: vec![("k0", V::A(a.clone())), ("id", V::U(k as u64))] }).collect();
        let n = entries.len();
        let spec = DirSpec {
            vstores: vec![kind],
            stores: vec![StoreSpec { common: vec![PropSpec { name: "k0", t: PType::A { fixed, store: 0 } }, PropSpec { name: "id", t: PType::U }], variants: vec![], sort: Some(vec!["k0"]), entries }],
            indexes: vec![one_index("all", 0, n)],
        };
        one(rec, r, &spec, &format!("alphabet fixed {fixed} {kind:?}"), 60);
    });
}

//! C02: entries read back with exactly the property values they were written with.
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::par::*;
use crate::util::*;
use jubako as jbk;
use jbk::reader::{EntryTrait, Range};
use std::collections::BTreeMap;

fn key(d: &DirSpec) -> u64 {
    hash64(format!("{d:?}").as_bytes())
}

/// Compare a dump (typed and untyped access) with the model.
pub fn check_dir_dump(rec: &mut Rec, spec: &DirSpec, d: &Dump, what: &str) {
    let desc = |m: String| format!("{what}: {m}; spec {}", format!("{spec:?}").chars().take(1500).collect::<String>());
    // order known for unsorted stores only
    let order: Vec<Vec<usize>> = spec.stores.iter().map(|s| (0..s.entries.len()).collect()).collect();
    let mut nvals = 0u64;
    if spec.stores.iter().all(|s| s.sort.is_none()) {
        for (k, v) in expect_entries(spec, &order) {
            match d.get(&k) {
                Some(Item::Val(x)) if *x == v => nvals += 1,
                o => {
                    rec.violation("value differs", desc(format!("{k}: {o:?} instead of {v}")));
                    if rec.violations.len() > 3 {
                        return;
                    }
                }
            }
        }
    } else {
        let mut full: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        for (n, i) in spec.indexes.iter().enumerate() {
            if spec.indexes.iter().position(|x| x.name == i.name).unwrap() != n {
                continue;
            }
            let s = &spec.stores[i.store];
            let k = format!("index{n}[{}]", i.name);
            let want = format!("offset {} count {} size {} store {} empty {}", i.offset, i.count, i.count, i.store, i.count == 0);
            if d.get(&k) != Some(&Item::Val(want.clone())) {
                rec.violation("index differs", desc(format!("{k}: {:?} instead of {want}", d.get(&k))));
                continue;
            }
            let mut got = vec![];
            for e in 0..i.count {
                match tuple_of_dump(d, s, &format!("{k}#{e}")) {
                    Ok(t) => got.push(t),
                    Err(e) => rec.violation("value differs", desc(e)),
                }
            }
            for e in i.count..i.count + 2 {
                if d.get(&format!("{k}#{e}")) != Some(&Item::Val("no entry".into())) {
                    rec.violation("entry beyond the window", desc(format!("{k}#{e}: {:?}", d.get(&format!("{k}#{e}")))));
                }
            }
            nvals += got.len() as u64;
            if i.offset == 0 && i.count as usize == s.entries.len() {
                let mut a = got.clone();
                let mut b: Vec<_> = s.entries.iter().map(|e| tuple_of_spec(s, e)).collect();
                if s.sort.is_some() {
                    a.sort();
                    b.sort();
                }
                if a != b {
                    let p = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                    rec.violation("value differs", desc(format!("{k}: entries (as a multiset if sorted) differ: {:?} instead of {:?}", a.get(p), b.get(p))));
                }
                full.insert(i.store, got);
            } else if let Some(f) = full.get(&i.store) {
                if f[i.offset as usize..(i.offset + i.count) as usize] != got[..] {
                    rec.violation("window differs", desc(format!("{k}: window {}+{} differs from the whole store", i.offset, i.count)));
                }
            }
        }
    }
    // typed access agrees with untyped access
    for (k, v) in d {
        if let Some(base) = k.strip_suffix("/typed") {
            if d.get(base) != Some(v) {
                rec.violation("typed access differs", desc(format!("{base}: {:?} / typed {v:?}", d.get(base))));
            } else {
                rec.count("typed_agree", 1);
            }
        }
    }
    rec.count("values_verified", nvals);
}

/// other accessors and far ids
fn check_more(rec: &mut Rec, spec: &DirSpec, f: &DirFile, what: &str) {
    for (n, i) in spec.indexes.iter().enumerate() {
        let Ok(idx) = f.pack.get_index((n as u32).into()) else {
            rec.violation("index error", format!("{what}: index {n} by id is an error"));
            continue;
        };
        if (idx.offset().into_u32(), idx.size().into_u32(), idx.get_store_id().into_u32()) != (i.offset, i.count, i.store as u32) {
            rec.violation("index differs", format!("{what}: index {n} by id"));
        }
        let Ok(store) = (f.get_store)(&idx) else { continue };
        let Ok(b) = jbk::reader::builder::AnyBuilder::new(store, &*f.vs) else { continue };
        let range = jbk::EntryRange::from(&idx);
        for e in [i.count, i.count + 1, i.count + 255, i.count + 256, i.count | 0x1_0000, 0x8000_0000, u32::MAX - i.offset, u32::MAX - 1, u32::MAX] {
            if e < i.count {
                continue;
            }
            for r in [idx.get_entry(&b, e.into()).map(|x| x.is_some()), range.get_entry(&b, e.into()).map(|x| x.is_some())] {
                match r {
                    Ok(false) => rec.count("beyond_window_none", 1),
                    o => rec.violation("entry beyond the window", format!("{what}: index {n} of {} entries, id {e}: {o:?}", i.count)),
                }
            }
        }
        for e in 0..i.count.min(40) {
            let Ok(Some(en)) = idx.get_entry(&b, e.into()) else { continue };
            for p in &spec.stores[i.store].common {
                let Ok(Some(raw)) = en.get_value(p.name) else { continue };
                let Ok(v) = raw.get() else { continue };
                let ok = match (&p.t, &v) {
                    (PType::U, jbk::Value::Unsigned(v)) => raw.as_unsigned() == *v,
                    (PType::S, jbk::Value::Signed(v)) => raw.as_signed() == *v,
                    (PType::C, jbk::Value::Content(v)) => raw.as_content() == *v,
                    (PType::A { .. }, jbk::Value::Array(v)) => {
                        let s = match &raw { jbk::reader::RawValue::Array(a) => a.size(), _ => None };
                        raw.as_vec().map(|x| x.as_bytes() == v.as_bytes()).unwrap_or(false) && s.map(|s| s == v.as_bytes().len()).unwrap_or(true)
                    }
                    _ => false,
                };
                if !ok {
                    rec.violation("accessors differ", format!("{what}: index {n} entry {e} {}: {raw:?} / {v:?}", p.name));
                }
                rec.count("accessors_verified", 1);
            }
            // a name which is nobody's
            if !matches!(en.get_value("no such property"), Ok(None)) {
                rec.violation("foreign property", format!("{what}: index {n} entry {e}"));
            }
        }
    }
    match f.pack.get_index_from_name("there is no such index") {
        Ok(None) => {}
        o => rec.violation("foreign index", format!("{what}: {:?}", o.map(|x| x.is_some()))),
    }
}

/// Build the directory, read it, compare. `must` : creation has to succeed.
pub fn round_trip(rec: &mut Rec, spec: &DirSpec, must: bool, what: &str) {
    let sc = Scratch::new("c02");
    let p = sc.u("d.jbkd");
    match build_directory(spec, &p) {
        Err(e) => {
            if e.contains("Cannot sort") {
                rec.inconclusive("sort does not converge");
            } else if must {
                rec.violation(
                    "creation failed",
                    format!("{what}: creation of representable values failed: {e}; recent panics {:?}; spec {}", recent_panics(), format!("{spec:?}").chars().take(1500).collect::<String>()),
                );
            } else {
                rec.count("creation_refused", 1);
            }
        }
        Ok(_) => {
            let ask = ask_of(spec, vec![]);
            match dump_dir_file(p.as_std_path(), &ask, DumpOpts { typed: true, content_bytes: false }) {
                Err(e) => rec.violation("open failed", format!("{what}: {e}; spec {}", format!("{spec:?}").chars().take(1500).collect::<String>())),
                Ok(d) => check_dir_dump(rec, spec, &d, what),
            }
            if let Ok(f) = open_dir(p.as_std_path()) {
                check_more(rec, spec, &f, what);
            }
            if !must {
                rec.count("limit_accepted", 1);
            }
        }
    }
    stats(rec, spec);
    rec.case(key(spec), spec.stores.iter().any(|s| !s.entries.is_empty() && s.common.len() + s.variants.len() > 0));
}

fn stats(rec: &mut Rec, spec: &DirSpec) {
    for s in &spec.stores {
        rec.count("stores", 1);
        rec.count("entries", s.entries.len() as u64);
        rec.count("stores_with_variants", !s.variants.is_empty() as u64);
        rec.count("stores_sorted", s.sort.is_some() as u64);
        rec.max("entries_in_store", s.entries.len() as u64);
        for p in s.common.iter().chain(s.variants.iter().flat_map(|v| v.1.iter())) {
            let k = match p.t {
                PType::U => "props.uint",
                PType::S => "props.sint",
                PType::C => "props.content",
                PType::A { fixed, store } => match (spec.vstores[store], fixed) {
                    (VsKind::Plain, 0) => "props.array_plain_0",
                    (VsKind::Plain, _) => "props.array_plain_prefix",
                    (VsKind::Indexed, 0) => "props.array_indexed_0",
                    (VsKind::Indexed, _) => "props.array_indexed_prefix",
                },
            };
            rec.count(k, 1);
        }
    }
    rec.count("indexes", spec.indexes.len() as u64);
    rec.count("value_stores", spec.vstores.len() as u64);
}

pub fn one_index(name: &str, store: usize, n: usize) -> IndexSpec {
    IndexSpec { name: name.into(), store, offset: 0, count: n as u32, key: 0, free: [0; 4] }
}
pub fn single(props: Vec<PropSpec>, vstores: Vec<VsKind>, rows: Vec<Vec<V>>) -> DirSpec {
    let entries: Vec<EntrySpec> = rows
        .into_iter()
        .map(|r| EntrySpec { variant: None, vals: props.iter().zip(r).map(|(p, v)| (p.name, v)).collect() })
        .collect();
    let n = entries.len();
    DirSpec { vstores, stores: vec![StoreSpec { common: props, variants: vec![], sort: None, entries }], indexes: vec![one_index("i", 0, n)] }
}
fn prop(name: &'static str, t: PType) -> PropSpec {
    PropSpec { name, t }
}

/// values around every byte-width limit
fn u_edges() -> Vec<u64> {
    let mut v = vec![0, 1, 2];
    for b in 1..8 {
        let x = 1u64 << (8 * b);
        v.extend([x - 1, x, x + 1, x / 2, x / 2 - 1]);
    }
    v.extend([u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1]);
    v.sort();
    v.dedup();
    v
}
fn s_edges() -> Vec<i64> {
    let mut v = vec![0, 1, -1, 2, -2];
    for b in 1..=8u32 {
        let x = 1i128 << (8 * b - 1);
        for y in [x - 1, x, x + 1, -x, -x - 1, -x + 1, 2 * x - 1, 2 * x, -2 * x, 2 * x + 1, -2 * x + 1] {
            if let Ok(y) = i64::try_from(y) {
                v.push(y);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a directory pack with at least one entry carrying a property or a variant; distinct by the complete model (schema, values, windows)".into();
    let thorough = !ctx.quick();
    // --- every pair of edge values in a column, alone and next to other columns / in variants
    let ue = u_edges();
    let se = s_edges();
    let nu = ue.len() as u64;
    let ns = se.len() as u64;
    let npairs = nu * nu + ns * ns;
    let step = if thorough { 1 } else { 7 };
    phase("edges", 0.25, npairs / step + 1).min(npairs / step / 4).run(ctx, move |i, r, rec| {
        // spread: all pairs in thorough, each 7th in quick (offset by seed)
        let i = (i * step + r.below(step)) % npairs;
        let neigh = r.below(256);
        let word = r.bool();
        let rows: Vec<V> = if i < nu * nu {
            let (a, b) = (ue[(i % nu) as usize], ue[(i / nu) as usize]);
            let f = |v| if word { V::UW(v) } else { V::U(v) };
            vec![f(a), f(b), f(a.min(b)), V::U(a / 2)].into_iter().take(if i % 3 == 0 { 2 } else { 4 }).collect()
        } else {
            let j = i - nu * nu;
            let (a, b) = (se[(j % ns) as usize], se[(j / ns) as usize]);
            let f = |v| if word { V::SW(v) } else { V::S(v) };
            vec![f(a), f(b), f(a.min(b)), V::S(a / 2)].into_iter().take(if i % 3 == 0 { 2 } else { 4 }).collect()
        };
        let t = if i < nu * nu { PType::U } else { PType::S };
        let mut spec = single(
            vec![prop("before", PType::U), prop("x", t.clone()), prop("after", PType::U)],
            vec![],
            rows.iter().enumerate().map(|(k, v)| vec![V::U(neigh), v.clone(), V::U(k as u64)]).collect(),
        );
        if r.bool() {
            // the same column in a variant, a wider/narrower one in the other
            let st = &mut spec.stores[0];
            st.common.remove(1);
            st.variants = vec![(intern("v0"), vec![prop("x", t.clone())]), (intern("v1"), vec![prop("y", PType::U), prop("x", t)]), (intern("v2"), vec![])];
            for (k, e) in st.entries.iter_mut().enumerate() {
                let x = e.vals.remove(1);
                let var = r.us(3);
                e.variant = Some(var);
                if var == 1 {
                    e.vals.push(("y", V::U(k as u64 * 77)));
                }
                if var != 2 {
                    e.vals.push(x);
                }
            }
        }
        round_trip(rec, &spec, true, "edges");
    });
    // --- arrays: every prefix length x lengths around it x store kind
    phase("arrays", 0.4, 32 * 2 * 4).min(128).run(ctx, move |i, r, rec| {
        let fixed = (i % 32) as usize;
        let kind = if (i / 32) % 2 == 0 { VsKind::Plain } else { VsKind::Indexed };
        let mut lens: Vec<usize> = vec![0, 1, fixed.saturating_sub(1), fixed, fixed + 1, fixed + 2, 2 * fixed, 3, 31, 32];
        match i / 64 {
            0 => {}
            1 => lens.extend([254, 255, 256, 257]),
            2 => lens.extend([65534, 65535, 65536, 65537]),
            _ => lens = vec![fixed, fixed, fixed],
        }
        r.shuffle(&mut lens);
        let same = i / 64 == 3;
        let base = r.bytes(1 << 17);
        let rows = lens
            .iter()
            .map(|n| {
                let o = if same { 0 } else { r.us(1000) };
                let v = match r.below(3) { 0 => vec![0u8; *n], 1 => vec![b'a'; *n], _ => base[o..o + n].to_vec() };
                let v = if same { base[..*n].to_vec() } else { v };
                vec![V::U(*n as u64), V::A(v), V::S(-(*n as i64))]
            })
            .collect();
        let spec = single(vec![prop("n", PType::U), prop("arr", PType::A { fixed, store: 0 }), prop("s", PType::S)], vec![kind], rows);
        round_trip(rec, &spec, true, &format!("arrays fixed {fixed} {kind:?}"));
    });
    // --- value stores around the limits of id and offset widths, shared by several columns
    let vsn: Vec<usize> = vec![0, 1, 2, 254, 255, 256, 257, 300];
    let nvsn = vsn.len() as u64;
    phase("vstore", 0.55, nvsn * 12 * if thorough { 4 } else { 1 }).min(nvsn * 2).run(ctx, move |i, r, rec| {
        let n = vsn[(i % nvsn) as usize];
        let kind = if (i / nvsn) % 2 == 0 { VsKind::Indexed } else { VsKind::Plain };
        // total data size to reach
        let total = *[0usize, 254, 255, 256, 257, 65_535].get(((i / nvsn / 2) % 6) as usize).unwrap_or(&0) + r.us(2);
        let mut vals: Vec<Vec<u8>> = (0..n).map(|k| { let mut v = (k as u32).to_be_bytes().to_vec(); if n < 257 { v = v[3..].to_vec() } else { v = v[2..].to_vec() } v }).collect();
        let used: usize = vals.iter().map(|v| v.len()).sum();
        if total > used && n > 0 {
            let k = r.us(n);
            let extra = total - used;
            let b = r.bytes(extra);
            vals[k].extend(b);
        }
        if r.bool() {
            vals.push(vec![]);
            let d = vals[0].clone();
            vals.push(d);
        }
        r.shuffle(&mut vals);
        let f2 = r.us(3);
        let spec = single(
            vec![prop("a", PType::A { fixed: 0, store: 0 }), prop("b", PType::A { fixed: f2, store: 0 }), prop("k", PType::U)],
            vec![kind],
            vals.iter().enumerate().map(|(k, v)| vec![V::A(v.clone()), V::A(vals[(k * 7 + 1) % vals.len()].clone()), V::U(k as u64)]).collect(),
        );
        round_trip(rec, &spec, true, &format!("vstore {kind:?} n {n} total {total}"));
    });
    // --- values which are almost the same, among few or many others (stores search and sort differently then)
    let sizes = [3usize, 20, 32, 65, 130, 256, 260, 1030, 4097, 65_536];
    let nsz = sizes.len() as u64;
    phase("twins", 0.6, nsz * 2 * if thorough { 12 } else { 4 }).min(nsz * 2 * 2).run(ctx, move |i, r, rec| {
        let n = sizes[(i % nsz) as usize];
        let kind = if (i / nsz) % 2 == 0 { VsKind::Indexed } else { VsKind::Plain };
        let fixed = *r.pick(&[0usize, 0, 1, 4, 31]);
        let fill = if (i / nsz / 2) % 2 == 0 { *r.pick(&[1024usize, 1100, 3000]) } else { r.us(20) };
        let mut vals: Vec<Vec<u8>> = twins(r, n);
        let m = vals.len();
        for _ in 0..3 {
            vals.push(vals[r.us(m)].clone());
        }
        r.shuffle(&mut vals);
        let mut all: Vec<Vec<u8>> = (0..fill).map(|k| { let l = 1 + r.us(40); let mut v = r.bytes(l); v.extend((k as u16).to_be_bytes()); v }).collect();
        if r.bool() {
            all.append(&mut vals);
        } else {
            for v in vals {
                let at = r.us(all.len() + 1);
                all.insert(at, v);
            }
        }
        let mut spec = single(
            vec![prop("a", PType::A { fixed, store: 0 }), prop("k", PType::U)],
            vec![kind],
            all.into_iter().enumerate().map(|(k, v)| vec![V::A(v), V::U(k as u64)]).collect(),
        );
        if r.chance(1, 3) {
            spec.stores[0].sort = Some(vec!["a", "k"]);
        }
        round_trip(rec, &spec, true, &format!("twins of {n} {kind:?} fill {fill}"));
    });
    // --- random schemas, directory pack alone
    phase("schemas", 0.8, u64::MAX).min(150).run(ctx, move |i, r, rec| {
        let mut cfg = if i % 4 == 0 { GenCfg::medium() } else { GenCfg::small() };
        cfg.ext_addr = true;
        cfg.max_stores = 3;
        let spec = gen_dir(r, &cfg);
        round_trip(rec, &spec, true, "schemas");
        rec.sample(format!("{spec:?}").chars().take(400).collect());
    });
    // --- whole containers through the high-level creator
    phase("container", 0.88, u64::MAX).min(20).run(ctx, move |i, r, rec| {
        let sc = Scratch::new("c02c");
        let mut cfg = GenCfg::small();
        cfg.ext_addr = true;
        let n = r.us(4);
        let mut s = gen_container(r, &mut cfg, n, 300, true);
        s.mode = Mode::ALL[(i % 3) as usize];
        match build_simple(&s, &sc.u("c.jbk")) {
            Err(e) if e.contains("Cannot sort") => rec.inconclusive(&e),
            Err(e) => rec.violation("creation failed", format!("{e}; {s:?}")),
            Ok(b) => {
                let ask = ask_container(&s, &b);
                match open_dump(b.path.as_std_path(), &ask, DumpOpts { typed: true, content_bytes: false }) {
                    Err(e) => rec.violation("open failed", format!("{e}; {s:?}")),
                    Ok((d, _)) => check_dir_dump(rec, &s.dir, &d, "container"),
                }
                stats(rec, &s.dir);
                rec.case(key(&s.dir), true);
            }
        }
    });
    // --- many entries
    phase("large", 0.95, if thorough { 40 } else { 8 }).min(4).run(ctx, move |i, r, rec| {
        let n = match i % 4 { 0 => 65_537, 1 => 20_000 + r.us(3), 2 => 256, _ => 5000 };
        let spec = match i % 4 {
            // many distinct values in a plain store, many entries; id needs 3 bytes
            0 => single(
                vec![prop("k", PType::U), prop("p", PType::A { fixed: 1, store: 0 })],
                vec![VsKind::Plain],
                (0..n).map(|k| vec![V::U(k as u64), V::A((k as u32).wrapping_mul(2_654_435_761).to_be_bytes().to_vec())]).collect(),
            ),
            // indexed store, as many values as its tail allows
            1 => single(
                vec![prop("k", PType::S), prop("p", PType::A { fixed: 0, store: 0 })],
                vec![VsKind::Indexed],
                (0..n).map(|k| vec![V::S(-(k as i64)), V::A(format!("{}", k % 20_000).into_bytes())]).collect(),
            ),
            2 => single(
                vec![prop("k", PType::U), prop("p", PType::A { fixed: 2, store: 0 }), prop("q", PType::A { fixed: 0, store: 1 })],
                vec![VsKind::Plain, VsKind::Indexed],
                (0..n).map(|k| { let l = r.us(70_000); vec![V::U(k as u64), V::A(vec![k as u8; l]), V::A(vec![k as u8; (l * 7) % 66_000])] }).collect(),
            ),
            _ => {
                let mut s = single(
                    vec![prop("k", PType::U), prop("p", PType::A { fixed: 3, store: 0 })],
                    vec![VsKind::Indexed],
                    (0..n).map(|k| vec![V::U(r.u64() >> r.below(64)), V::A(format!("{:x}", r.below(5000) * (k as u64 % 3)).into_bytes())]).collect(),
                );
                s.stores[0].sort = Some(vec!["p", "k"]);
                s
            }
        };
        round_trip(rec, &spec, true, &format!("large {}", i % 4));
    });
    // --- past the limits of 2 and 3 bytes: value stores, windows, numbers of stores and of indexes
    phase("scale", 0.97, if thorough { 24 } else { 6 }).min(6).run(ctx, move |i, r, rec| {
        let spec = match i % 6 {
            // value stores of more than 16 MiB, ids (offsets) on 4 bytes
            k @ (0 | 1) => {
                let big: Vec<Vec<u8>> = (0..3).map(|b| { let mut v = r.bytes(64 << 10).repeat(96); v.truncate(6_000_000 + r.us(9)); v[0] = 40 + 60 * b; v }).collect();
                let mut vals: Vec<Vec<u8>> = (0..60u8).map(|n| vec![n.wrapping_mul(37), n, 1]).collect();
                vals.push(vec![]);
                vals.extend(big);
                r.shuffle(&mut vals);
                let fixed = *r.pick(&[0usize, 2]);
                single(
                    vec![prop("a", PType::A { fixed, store: 0 }), prop("n", PType::U)],
                    vec![if k == 0 { VsKind::Plain } else { VsKind::Indexed }],
                    vals.into_iter().enumerate().map(|(n, v)| vec![V::A(v), V::U(n as u64)]).collect(),
                )
            }
            // windows far in a big store
            2 => {
                let n = 66_000 + r.us(500);
                let mut s = single(
                    vec![prop("n", PType::U), prop("c", PType::C)],
                    vec![],
                    (0..n).map(|k| vec![V::U(k as u64), V::C((k % 3) as u16, k as u32)]).collect(),
                );
                s.indexes.clear();
                for (o, c) in [(65_530, 20), (65_535, 1), (65_536, 5), (n - 1, 1), (n, 0), (300, 400), (255, 2), (1, 65_536 + 3)] {
                    s.indexes.push(IndexSpec { name: format!("w{o}+{c}"), store: 0, offset: o as u32, count: c as u32, key: 0, free: [1, 2, 3, 4] });
                }
                s
            }
            // more stores and indexes than a byte can count
            3 => {
                let ns = 257 + r.us(60);
                let mut s = DirSpec::default();
                s.vstores = vec![VsKind::Plain, VsKind::Indexed];
                for k in 0..ns {
                    let props = match k % 3 { 0 => vec![prop("x", PType::U)], 1 => vec![prop("y", PType::S), prop("x", PType::U)], _ => vec![prop("z", PType::A { fixed: k % 5, store: k % 2 })] };
                    let n = k % 4;
                    let entries = (0..n).map(|e| EntrySpec { variant: None, vals: props.iter().map(|p| (p.name, match p.t { PType::U => V::U((k * 1000 + e) as u64), PType::S => V::S(-((k + e) as i64)), _ => V::A(format!("{k}/{e}").into_bytes()) })).collect() }).collect();
                    s.stores.push(StoreSpec { common: props, variants: vec![], sort: None, entries });
                    s.indexes.push(one_index(&format!("i{k}"), k, n));
                    if k % 2 == 0 {
                        s.indexes.push(IndexSpec { name: format!("j{k}"), store: k, offset: (n / 2) as u32, count: (n - n / 2) as u32, key: 0, free: [0; 4] });
                    }
                }
                s
            }
            // wide entries: more than 16 MiB of them
            4 => {
                let np = 40;
                let props: Vec<_> = (0..np).map(|k| prop(intern(&format!("p{k}")), if k % 2 == 0 { PType::U } else { PType::A { fixed: 31, store: 0 } })).collect();
                let n = 20_500;
                let rows = (0..n as u64)
                    .map(|e| (0..np as u64).map(|k| if k % 2 == 0 { V::U((e << 40) + k) } else { V::A(vec![(e ^ k) as u8; (e % 35) as usize]) }).collect())
                    .collect();
                single(props, vec![VsKind::Plain], rows)
            }
            // the same, sorted
            _ => {
                let n = 66_000 + r.us(300);
                let mut s = single(
                    vec![prop("n", PType::U), prop("a", PType::A { fixed: 2, store: 0 })],
                    vec![VsKind::Plain],
                    (0..n).map(|k| vec![V::U((k as u64 * 48_271) % 65_537), V::A((k as u32 % 40_000).to_be_bytes().to_vec())]).collect(),
                );
                s.stores[0].sort = Some(if r.bool() { vec!["n", "a"] } else { vec!["a", "n"] });
                s.indexes.push(IndexSpec { name: "far".into(), store: 0, offset: 65_535, count: (n - 65_535) as u32, key: 0, free: [0; 4] });
                s
            }
        };
        round_trip(rec, &spec, true, &format!("scale {}", i % 6));
    });
    // --- what cannot be represented makes creation fail; what is accepted reads back unaltered
    let nl = 29u64;
    phase("limits", 1.0, nl * if thorough { 4 } else { 1 }).min(nl).run(ctx, move |i, r, rec| {
        let name = |n: usize| intern(&"n".repeat(n));
        let u = |n: usize| single(vec![prop(name(n), PType::U)], vec![], vec![vec![V::U(5)], vec![V::U(300)]]);
        let (must, spec) = match i % nl {
            // property names
            0 => (true, u(255)),
            1 => (false, u(256)),
            2 => (false, u(300 + r.us(1000))),
            // index names
            3 => { let mut s = u(1); s.indexes[0].name = "i".repeat(255); (true, s) }
            4 => { let mut s = u(1); s.indexes[0].name = "i".repeat(256 + r.us(300)); (false, s) }
            // array prefix
            5 => (true, single(vec![prop("a", PType::A { fixed: 31, store: 0 })], vec![VsKind::Plain], vec![vec![V::A(vec![1; 40])], vec![V::A(vec![2; 3])]])),
            6 => (false, single(vec![prop("a", PType::A { fixed: 32 + r.us(40), store: 0 })], vec![VsKind::Plain], vec![vec![V::A(vec![1; 80])], vec![V::A(vec![2; 3])]])),
            // number of properties
            7 => (true, single((0..200).map(|k| prop(intern(&format!("p{k}")), PType::U)).collect(), vec![], vec![(0..200).map(|k| V::U(k * 1000)).collect(), (0..200).map(V::U).collect()])),
            8 => (false, single((0..256).map(|k| prop(intern(&format!("p{k}")), PType::U)).collect(), vec![], vec![(0..256).map(|k| V::U(k * 1000)).collect(), (0..256).map(V::U).collect()])),
            9 => (false, single((0..300).map(|k| prop(intern(&format!("p{k}")), PType::U)).collect(), vec![], vec![(0..300).map(|k| V::U(k * 1000)).collect(), (0..300).map(V::U).collect()])),
            10 => (true, single((0..255).map(|k| prop(intern(&format!("p{k}")), PType::U)).collect(), vec![], vec![(0..255).map(|k| V::U(k * 1000)).collect(), (0..255).map(V::U).collect()])),
            // number of variants (each takes at least its variant-id key)
            11 | 12 | 13 => {
                let nv = [60usize, 128, 256][(i % nl - 11) as usize] + r.us(2);
                let mut s = DirSpec::default();
                let variants: Vec<_> = (0..nv).map(|k| (intern(&format!("v{k}")), vec![prop("x", PType::U)])).collect();
                let entries: Vec<_> = (0..nv).map(|k| EntrySpec { variant: Some(k), vals: vec![("c", V::U(k as u64)), ("x", V::U(k as u64 * 3 % 100_000 + k as u64 % 2))] }).collect();
                s.stores = vec![StoreSpec { common: vec![prop("c", PType::U)], variants, sort: None, entries }];
                s.indexes = vec![one_index("i", 0, nv)];
                (nv < 63, s)
            }
            // variant names
            14 => {
                let mut s = DirSpec::default();
                let l = *r.pick(&[255usize, 256, 400]);
                s.stores = vec![StoreSpec { common: vec![], variants: vec![(intern(&"V".repeat(l)), vec![prop("x", PType::U)]), ("w", vec![])], sort: None,
                    entries: vec![EntrySpec { variant: Some(0), vals: vec![("x", V::U(3))] }, EntrySpec { variant: Some(1), vals: vec![] }] }];
                s.indexes = vec![one_index("i", 0, 2)];
                (l <= 255, s)
            }
            // size of an array
            15 => (true, single(vec![prop("a", PType::A { fixed: 0, store: 0 })], vec![VsKind::Plain], vec![vec![V::A(vec![1; 0xFF_FFFF])], vec![V::A(vec![2; 3])]])),
            16 => (false, single(vec![prop("a", PType::A { fixed: 0, store: 0 })], vec![VsKind::Plain], vec![vec![V::A(vec![1; 0x100_0000 + r.us(3)])], vec![V::A(vec![2; 3])]])),
            17 => (false, single(vec![prop("a", PType::A { fixed: 0, store: 0 })], vec![VsKind::Indexed], vec![vec![V::A(vec![1; 0x100_0000 + r.us(3)])], vec![V::A(vec![2; 3])]])),
            // tail of an indexed value store: count * offset width
            18 => (false, single(vec![prop("a", PType::A { fixed: 0, store: 0 })], vec![VsKind::Indexed], (0..40_000u32).map(|k| vec![V::A(k.to_be_bytes().to_vec())]).collect())),
            19 => (false, single(vec![prop("a", PType::A { fixed: 0, store: 0 }), prop("b", PType::U)], vec![VsKind::Indexed], (0..66_000u32 + r.us(2) as u32).map(|k| vec![V::A(k.to_be_bytes().to_vec()), V::U(k as u64)]).collect())),
            // exactly at the limit of the tail: 1 + 8 + 1 + w + (n-1) * w (+4), w=3
            20 => { let n = 21_840 + r.below(8) as u32; (false, single(vec![prop("a", PType::A { fixed: 0, store: 0 })], vec![VsKind::Indexed], (0..n).map(|k| vec![V::A(k.to_be_bytes().to_vec())]).collect())) }
            // number of value stores
            21 | 22 => {
                let nv = if i % nl == 21 { 255 } else { 256 + r.us(3) };
                let mut s = single(
                    vec![prop("first", PType::A { fixed: 0, store: 0 }), prop("last", PType::A { fixed: 1, store: nv - 1 }), prop("mid", PType::A { fixed: 0, store: nv / 2 })],
                    (0..nv).map(|k| if k % 3 == 0 { VsKind::Plain } else { VsKind::Indexed }).collect(),
                    vec![vec![V::A(b"one".to_vec()), V::A(b"two".to_vec()), V::A(b"three".to_vec())], vec![V::A(vec![]), V::A(b"x".to_vec()), V::A(b"zz".to_vec())]],
                );
                s.indexes[0].key = 1;
                (nv <= 255, s)
            }
            // values of another type than the property
            23 => (false, single(vec![prop("x", PType::U)], vec![], vec![vec![V::S(-1 - r.below(300) as i64)], vec![V::U(1)]])),
            24 => (false, single(vec![prop("x", PType::S)], vec![], vec![vec![V::U(u64::MAX - r.below(5))], vec![V::S(1)]])),
            25 => (false, single(vec![prop("x", PType::A { fixed: 2, store: 0 })], vec![VsKind::Plain], vec![vec![V::U(3)], vec![V::A(vec![1])]])),
            26 => (false, single(vec![prop("x", PType::A { fixed: 0, store: 0 })], vec![VsKind::Indexed], vec![vec![V::A(vec![1])], vec![V::U(3)]])),
            27 => (false, single(vec![prop("x", PType::C)], vec![], vec![vec![V::C(1, 2)], vec![V::U(3)]])),
            // entry size: 255 arrays with inline prefixes
            _ => {
                let np = 120 + r.us(60);
                let row = |k: usize| (0..np).map(|p| V::A(vec![(p + k) as u8; 31 + k])).collect::<Vec<_>>();
                (false, single((0..np).map(|k| prop(intern(&format!("p{k}")), PType::A { fixed: 31, store: 0 })).collect(), vec![VsKind::Plain], vec![row(0), row(1), row(2)]))
            }
        };
        round_trip(rec, &spec, must, &format!("limit {}", i % nl));
        rec.count("limit_cases", 1);
    });
}

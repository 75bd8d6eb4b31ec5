//! C15: references between entries resolve to the referenced entry's final position.
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::par::*;
use crate::util::*;
use jubako as jbk;
use jbk::creator::schema;
use jbk::reader::{EntryTrait, Range};
use std::collections::HashMap;

#[derive(Clone, Debug)]
struct RStore {
    sort: Option<Vec<&'static str>>,
    /// variant of each entry, when there are variants
    variants: bool,
    /// key and, by entry, its value
    keys: Vec<V>,
    key_array: bool,
    /// reference columns: name, signed, in variant, target of each entry, added constant
    cols: Vec<(&'static str, bool, bool, Vec<(usize, usize)>, u64)>,
    n: usize,
}
#[derive(Clone, Debug)]
struct RSpec {
    stores: Vec<RStore>,
    /// order of the stores in the directory pack
    order: Vec<usize>,
    /// references through the handles given back by add_entry (backwards only)
    by_handle: bool,
    dup: bool,
}

fn gen_targets(r: &mut Rng, s: usize, n: usize, sizes: &[usize], made: &[usize], by_handle: bool, pat: u64) -> Option<Vec<(usize, usize)>> {
    let mut v = Vec::with_capacity(n);
    // store targeted by this column
    let ts = if r.bool() { s } else { r.us(sizes.len()) };
    let available = |e: usize| -> Vec<(usize, usize)> {
        // backwards only: whole stores made before, and entries added before
        let mut c: Vec<(usize, usize)> = made.iter().map(|t| (*t, sizes[*t])).filter(|x| x.1 > 0).collect();
        if e > 0 {
            c.push((s, e));
        }
        c
    };
    let fixed = if sizes[ts] > 0 { Some((ts, r.us(sizes[ts]))) } else { None };
    for e in 0..n {
        let t = if by_handle {
            let a = available(e);
            if a.is_empty() {
                // nothing to refer to yet: the caller gives a plain number
                (usize::MAX, 0)
            } else {
                let (t, m) = match a.iter().find(|x| x.0 == ts) { Some(x) => *x, None => *r.pick(&a) };
                match pat % 5 { 0 => (t, m - 1), 1 => (t, 0), 2 => (t, m / 2), _ => (t, r.us(m)) }
            }
        } else {
            let m = sizes[ts];
            if m == 0 {
                return None;
            }
            match pat {
                0 => (ts, e % m),
                1 => (ts, (e + 1) % m),
                2 => (ts, (e + m - 1) % m),
                3 => (ts, 0),
                4 => (ts, m - 1),
                5 => fixed?,
                6 => (ts, m - 1 - e % m),
                7 => { let t = r.us(sizes.len()); if sizes[t] == 0 { (ts, 0) } else { (t, r.us(sizes[t])) } }
                8 => (ts, if r.chance(1, 20) { r.us(m) } else { 0 }),
                _ => (ts, r.us(m)),
            }
        };
        v.push(t);
    }
    Some(v)
}

fn gen(r: &mut Rng, big: bool) -> RSpec {
    let ns = 1 + r.us(3);
    let sizes: Vec<usize> = (0..ns).map(|_| if big { *r.pick(&[65_535usize, 65_536, 65_537, 70_000, 300]) } else {
        match r.below(8) { 0 => 1, 1 => 2, 2 => 3, 3 => *r.pick(&[255usize, 256, 257, 300]), 4 => r.us(600), 5 => 0, _ => r.us(40) }
    }).collect();
    let by_handle = r.chance(1, 3);
    // creation order is 0..ns; the directory's order is any
    let mut order: Vec<usize> = (0..ns).collect();
    if r.bool() {
        r.shuffle(&mut order);
    }
    let mut stores = vec![];
    for s in 0..ns {
        let n = sizes[s];
        let key_array = r.chance(1, 3);
        let few = r.chance(1, 3);
        let how = r.below(4);
        let keys: Vec<V> = (0..n).map(|i| {
            let x = match how { 0 => n as u64 - i as u64, 1 => i as u64, _ => if few { r.below(5) } else { r.below(n as u64 * 3 + 1) } };
            if key_array { V::A(format!("{:x}", x.wrapping_mul(2654435761) % 100_003).into_bytes()) } else { V::U(x) }
        }).collect();
        let variants = r.chance(1, 3);
        let made: Vec<usize> = (0..s).collect();
        let mut cols = vec![];
        for c in 0..1 + r.us(3) {
            let pat = r.below(11);
            let name = ["ref", "parent", "next one"][c];
            if let Some(t) = gen_targets(r, s, n, &sizes, &made, by_handle, pat) {
                cols.push((name, r.chance(1, 4), variants && c > 0 && r.bool(), t, if r.chance(1, 8) { *r.pick(&[1u64, 250, 65_530]) } else { 0 }));
            }
        }
        let first_common = cols.iter().find(|c| !c.2).map(|c| c.0);
        let sort = match r.below(6) {
            0 => None,
            1 | 2 => Some(vec!["key"]),
            3 => Some(vec!["key", "id"]),
            4 => first_common.map(|c| vec![c, "id"]),
            _ => first_common.map(|c| vec!["key", c]).or(Some(vec!["id"])),
        };
        stores.push(RStore { sort, variants, keys, key_array, cols, n });
    }
    RSpec { stores, order, by_handle, dup: r.bool() }
}

type Handles = Vec<Vec<Handle>>;
/// position of the target plus a constant, as a word
fn word(h: &Handle, signed: bool, add: u64) -> jbk::Value {
    let h = h.clone();
    if signed {
        let f: Box<dyn Fn() -> i64 + Sync + Send> = Box::new(move || -(h.get().into_u32() as i64) - add as i64);
        jbk::Value::SignedWord(f.into())
    } else if add > 0 {
        let f: Box<dyn Fn() -> u64 + Sync + Send> = Box::new(move || h.get().into_u32() as u64 + add);
        jbk::Value::UnsignedWord(f.into())
    } else {
        jbk::Value::UnsignedWord(h.into())
    }
}
fn expected(pos: u32, signed: bool, add: u64) -> String {
    if signed { format!("s{}", -(pos as i64) - add as i64) } else { format!("u{}", pos as u64 + add) }
}

fn make(spec: &RSpec, out: &camino::Utf8Path) -> Result<(Vec<Vec<u32>>, Vec<Vec<u32>>), String> {
    guarded(|| {
        let mut dp = jbk::creator::DirectoryPackCreator::new(0.into(), VENDOR, Default::default());
        let vs = jbk::creator::ValueStore::new_plain(None);
        let mut es = vec![];
        for s in &spec.stores {
            let mut common = vec![schema::Property::new_uint("id")];
            common.push(if s.key_array { schema::Property::new_array(1, vs.clone(), "key") } else { schema::Property::new_uint("key") });
            let prop = |c: &(&'static str, bool, bool, Vec<(usize, usize)>, u64)| if c.1 { schema::Property::new_sint(c.0) } else { schema::Property::new_uint(c.0) };
            common.extend(s.cols.iter().filter(|c| !c.2).map(prop));
            let variants = if s.variants {
                vec![
                    ("with", schema::VariantProperties::new(s.cols.iter().filter(|c| c.2).map(prop).collect())),
                    ("without", schema::VariantProperties::new(vec![schema::Property::new_uint("pad")])),
                ]
            } else {
                vec![]
            };
            let sch = schema::Schema::new(schema::CommonProperties::new(common), variants, s.sort.clone());
            es.push(Box::new(jbk::creator::EntryStore::<&'static str, &'static str, Entry>::new(sch, None)));
        }
        // own vows when references may go forward
        let mut vows: Vec<Vec<Option<jbk::Vow<jbk::EntryIdx>>>> = spec.stores.iter().map(|s| (0..s.n).map(|_| if spec.by_handle { None } else { Some(Default::default()) }).collect()).collect();
        let bound: Handles = vows.iter().map(|v| v.iter().flatten().map(|w| w.bind()).collect()).collect();
        let mut handles: Handles = vec![];
        for (si, s) in spec.stores.iter().enumerate() {
            handles.push(vec![]);
            for e in 0..s.n {
                let mut vals: HashMap<&'static str, jbk::Value> = HashMap::new();
                vals.insert("id", jbk::Value::Unsigned(e as u64));
                vals.insert("key", jval(&s.keys[e], &[]));
                let with = s.variants && e % 3 != 1;
                for c in &s.cols {
                    if c.2 && !with {
                        continue;
                    }
                    let (ts, te) = c.3[e];
                    let v = if ts == usize::MAX {
                        if c.1 { jbk::Value::Signed(0) } else { jbk::Value::Unsigned(0) }
                    } else if spec.by_handle {
                        word(&handles[ts][te], c.1, c.4)
                    } else {
                        word(&bound[ts][te], c.1, c.4)
                    };
                    vals.insert(c.0, v);
                }
                let vn = if s.variants { Some(if with { "with" } else { "without" }) } else { None };
                if s.variants && !with {
                    vals.insert("pad", jbk::Value::Unsigned(e as u64));
                }
                let entry = match vows[si][e].take() {
                    Some(w) => Entry::new_from_schema_idx(&es[si].schema, w, vn, vals),
                    None => Entry::new_from_schema(&es[si].schema, vn, vals),
                };
                let h = es[si].add_entry(entry);
                handles[si].push(h);
            }
        }
        dp.add_value_store(vs);
        let mut ids = HashMap::new();
        let mut es: Vec<Option<_>> = es.into_iter().map(Some).collect();
        for s in &spec.order {
            ids.insert(*s, dp.add_entry_store(es[*s].take().unwrap()));
        }
        for (si, s) in spec.stores.iter().enumerate() {
            dp.create_index(&format!("all{si}"), Default::default(), 0.into(), ids[&si], (s.n as u32).into(), jbk::EntryIdx::from(0).into());
            if s.n > 0 {
                // a window which starts at a given entry, wherever it ends up
                dp.create_index(&format!("from{si}"), Default::default(), 0.into(), ids[&si], 1.into(), handles[si][s.n / 2].clone().into());
            }
        }
        let fin = dp.finalize().map_err(|e| e.to_string())?;
        let at_finalize = handles.iter().map(|v| v.iter().map(|h| h.get().into_u32()).collect()).collect();
        let mut f = jbk::creator::AtomicOutFile::new(out).map_err(|e| e.to_string())?;
        fin.write(&mut *f).map_err(|e| format!("{e:?}"))?;
        use jbk::creator::PackRecipient;
        f.close_file().map_err(|e| format!("{e:?}"))?;
        let at_end = handles.iter().map(|v| v.iter().map(|h| h.get().into_u32()).collect()).collect();
        Ok((at_finalize, at_end))
    })?
}

fn one(rec: &mut Rec, r: &mut Rng, big: bool) {
    let spec = gen(r, big);
    let sc = Scratch::new("c15");
    let desc = format!(
        "by_handle={} order={:?} stores={:?}", spec.by_handle, spec.order,
        spec.stores.iter().map(|s| (s.n, &s.sort, s.variants, s.cols.iter().map(|c| (c.0, c.1, c.2, c.4, &c.3[..c.3.len().min(6)])).collect::<Vec<_>>())).collect::<Vec<_>>()
    );
    let out = sc.u("d.jbkd");
    let (pos, pos_end) = match make(&spec, &out) {
        Ok(p) => p,
        Err(e) if e.contains("Cannot sort") && spec.stores.iter().any(|s| s.sort.iter().flatten().any(|k| *k != "key" && *k != "id")) => {
            // an order on positions need not exist
            return rec.inconclusive("no order found for a store sorted on references");
        }
        Err(e) => return rec.violation("creation failed", format!("{desc}: {e}; {:?}", recent_panics())),
    };
    if pos != pos_end {
        rec.violation("handle changed after finalize", desc.clone());
    }
    let f = match open_dir(out.as_std_path()) {
        Ok(f) => f,
        Err(e) => return rec.violation("open failed", format!("{desc}: {e:?}")),
    };
    let mut refs = 0u64;
    let mut moved = 0u64;
    for (si, s) in spec.stores.iter().enumerate() {
        let res = guarded(|| -> Result<Vec<(u64, HashMap<&'static str, String>)>, String> {
            let idx = f.pack.get_index_from_name(&format!("all{si}")).map_err(|e| format!("{e:?}"))?.ok_or("no index")?;
            let store = (f.get_store)(&idx).map_err(|e| format!("{e:?}"))?;
            let b = jbk::reader::builder::AnyBuilder::new(store, &*f.vs).map_err(|e| format!("{e:?}"))?;
            let mut v = vec![];
            for e in 0..s.n {
                let en = idx.get_entry(&b, (e as u32).into()).map_err(|e| format!("{e:?}"))?.ok_or(format!("no entry {e}"))?;
                let get = |n: &str| -> Result<String, String> {
                    let x = en.get_value(n).map_err(|e| format!("{e:?}"))?.ok_or(format!("no {n}"))?.get().map_err(|e| format!("{e:?}"))?;
                    Ok(val_repr(&x))
                };
                let id: u64 = get("id")?[1..].parse().map_err(|_| "id")?;
                let with = s.variants && id % 3 != 1;
                let mut m = HashMap::new();
                for c in &s.cols {
                    if !c.2 || with {
                        m.insert(c.0, get(c.0)?);
                    }
                }
                v.push((id, m));
            }
            Ok(v)
        });
        let got = match res {
            Ok(Ok(v)) => v,
            o => return rec.violation("cannot read entries", format!("{desc}: store {si}: {o:?}")),
        };
        // the identity of each entry tells its final position
        let mut at = vec![u32::MAX; s.n];
        for (p, (id, _)) in got.iter().enumerate() {
            if *id as usize >= s.n || at[*id as usize] != u32::MAX {
                return rec.violation("entries lost", format!("{desc}: store {si}: id {id} at {p}"));
            }
            at[*id as usize] = p as u32;
        }
        for e in 0..s.n {
            if pos[si][e] != at[e] {
                rec.violation("handle is not the final position", format!("{desc}: store {si} entry {e}: handle {} position {}", pos[si][e], at[e]));
                break;
            }
            moved += (at[e] as usize != e) as u64;
        }
        if s.n > 0 {
            match f.pack.get_index_from_name(&format!("from{si}")) {
                Ok(Some(i)) if i.offset().into_u32() == at[s.n / 2] => {}
                o => rec.violation("index bound to an entry", format!("{desc}: store {si}: {:?} instead of {}", o.map(|x| x.map(|i| i.offset().into_u32())), at[s.n / 2])),
            }
        }
    }
    // stored references, against the positions seen in the file
    for (si, s) in spec.stores.iter().enumerate() {
        let idx = f.pack.get_index_from_name(&format!("all{si}")).unwrap().unwrap();
        let store = (f.get_store)(&idx).unwrap();
        let b = jbk::reader::builder::AnyBuilder::new(store, &*f.vs).unwrap();
        let mut order: Vec<usize> = vec![0; s.n];
        for (e, p) in pos[si].iter().enumerate() {
            if *p as usize >= s.n {
                return;
            }
            order[*p as usize] = e;
        }
        for (p, e) in order.iter().enumerate() {
            let en = idx.get_entry(&b, (p as u32).into()).unwrap().unwrap();
            for c in &s.cols {
                if c.2 && e % 3 == 1 {
                    continue;
                }
                let (ts, te) = c.3[*e];
                let want = if ts == usize::MAX { if c.1 { "s0".into() } else { "u0".into() } } else { expected(pos[ts][te], c.1, c.4) };
                let got = en.get_value(c.0).ok().flatten().and_then(|x| x.get().ok()).map(|x| val_repr(&x)).unwrap_or("error".into());
                refs += 1;
                if got != want {
                    rec.violation("reference", format!("{desc}: store {si} entry {e} (position {p}) {} -> store {ts} entry {te}: {got} instead of {want}", c.0));
                    if rec.violations.len() > 3 {
                        return;
                    }
                }
            }
        }
        if let Some(k) = &s.sort {
            if k.iter().any(|k| *k != "key" && *k != "id") {
                rec.count("stores_sorted_on_references", 1);
            }
            rec.count("stores_sorted", 1);
        }
    }
    rec.count("references", refs);
    rec.count("entries_moved_by_sort", moved);
    rec.max("store_size", spec.stores.iter().map(|s| s.n as u64).max().unwrap_or(0));
    rec.case(hash64(format!("{spec:?}").as_bytes()), refs > 0);
    rec.sample(desc.chars().take(300).collect());
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "a directory with at least one stored reference; distinct by the whole reference graph and sort keys".into();
    phase("small", 0.8, u64::MAX).min(200).run(ctx, |_, r, rec| one(rec, r, false));
    phase("big", 1.0, ctx.q(24, 400)).min(8).run(ctx, |_, r, rec| one(rec, r, true));
    ctx.assumptions.push("a store sorted on references for which no order is found makes creation fail and is not judged".into());
}

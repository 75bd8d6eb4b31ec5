//! C05 on containers whose checked blocks are of megabytes: one alteration anywhere in them, everything read.
use crate::builder::*;
use crate::dump::*;
use crate::model::*;
use crate::par::*;
use crate::util::*;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use jbk::reader::{EntryTrait, MayMissPack, Range};
use std::cell::RefCell;
use std::collections::HashMap;
use std::os::unix::fs::FileExt;
use std::sync::{Arc, Mutex};

const ARR: [&str; 5] = ["a0", "a1", "a2", "a3", "a4"];
const NUM: [&str; 8] = ["n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"];

/// How big: entries, values (number, bytes), contents
#[derive(Clone, Copy, Debug)]
pub struct Dim {
    pub entries: usize,
    pub values: usize,
    pub value: usize,
    pub contents: usize,
    pub mode: Mode,
}

pub fn spec(r: &mut Rng, d: Dim) -> ContainerSpec {
    let p = |n, t| PropSpec { name: n, t };
    let mut common: Vec<PropSpec> = ARR.iter().map(|n| p(n, PType::A { fixed: 31, store: 0 })).collect();
    common.extend(NUM.iter().map(|n| p(n, PType::U)));
    let wide = StoreSpec {
        common,
        entries: (0..d.entries)
            .map(|i| {
                let mut vals: Vec<_> = ARR.iter().map(|n| (*n, V::A(r.bytes(31)))).collect();
                vals.extend(NUM.iter().map(|n| (*n, V::U(r.u64() | 1 << 63 | i as u64))));
                EntrySpec { variant: None, vals }
            })
            .collect(),
        ..Default::default()
    };
    let long = StoreSpec {
        common: vec![p("p", PType::A { fixed: 0, store: 0 }), p("i", PType::A { fixed: 0, store: 1 })],
        entries: (0..d.values)
            .map(|_| {
                let n = d.value - r.us(3000);
                EntrySpec { variant: None, vals: vec![("p", V::A(r.bytes(n))), ("i", V::A(r.bytes(d.value - n + 500 + d.value / 2)))] }
            })
            .collect(),
        ..Default::default()
    };
    let ix = |n: &str, store, count: usize| IndexSpec { name: n.into(), store, offset: 0, count: count as u32, key: 0, free: [1, 2, 3, 4] };
    let dir = DirSpec {
        vstores: vec![VsKind::Plain, VsKind::Indexed],
        indexes: vec![ix("wide", 0, d.entries), ix("long", 1, d.values)],
        stores: vec![wide, long],
    };
    let few: Vec<Arc<Vec<u8>>> = (0..5).map(|i| Arc::new(vec![i as u8; i])).collect();
    let contents = (0..d.contents)
        .map(|i| ContentSpec { data: few[(i % 41 == 0) as usize * (i % 5)].clone(), hint: if i % 9000 < 4000 { Hint::Yes } else { Hint::No }, src: Src::Mem })
        .collect();
    ContainerSpec { comp: Comp::Zstd(1), mode: d.mode, contents, extra: vec![], dir, dedup: false }
}

/// Every answer about the structure: a hash of it, 0 when it is refused.
fn answers(p: &Utf8Path, d: Dim) -> Vec<u64> {
    let mut v = vec![];
    let h = |x: jbk::Result<String>| match x { Ok(s) => hash64(s.as_bytes()) | 1, Err(_) => 0 };
    let hu = |x: jbk::Result<u64>| match x { Ok(s) => s.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1, Err(_) => 0 };
    let c = match jbk::reader::Container::new(p) { Ok(c) => c, Err(_) => return v };
    let (es, vs) = (c.get_entry_storage(), c.get_value_storage());
    let names: Vec<&str> = ARR.iter().chain(NUM.iter()).copied().collect();
    for (ix, n, props) in [("wide", d.entries, &names[..]), ("long", d.values, &["p", "i"][..])] {
        let each = 1 + props.len();
        let end = v.len() + 1 + n * each;
        let i = c.get_directory_pack().get_index_from_name(ix);
        v.push(match &i {
            Ok(Some(i)) => h(Ok(format!("{} {} {}", i.offset().into_u32(), i.count().into_u32(), i.get_store_id().into_u32()))),
            Ok(None) => 15,
            Err(_) => 0,
        });
        if let Ok(Some(i)) = i {
            if let Ok(b) = i.get_store(es).and_then(|s| jbk::reader::builder::AnyBuilder::new(s, &**vs)) {
                for e in 0..n {
                    match i.get_entry(&b, (e as u32).into()) {
                        Err(_) => v.extend(std::iter::repeat_n(0, each)),
                        Ok(None) => v.extend(std::iter::repeat_n(3, each)),
                        Ok(Some(en)) => {
                            v.push(5);
                            for p in props {
                                v.push(match en.get_value(p) {
                                    Err(_) => 0,
                                    Ok(None) => 7,
                                    Ok(Some(x)) => match x.get() {
                                        Err(_) => 0,
                                        Ok(jbk::Value::Unsigned(u)) => hu(Ok(u)),
                                        Ok(jbk::Value::Array(a)) => hash64(a.as_bytes()) | 1,
                                        Ok(_) => 9,
                                    },
                                });
                            }
                        }
                    }
                }
            }
        }
        v.resize(end, 0);
    }
    match c.get_pack(1.into()) {
        Ok(Some(MayMissPack::FOUND(p))) => {
            v.push(hu(Ok(p.get_content_count().into_u64())));
            for k in 0..d.contents as u32 {
                v.push(match p.get_content(k.into()) { Err(_) => 0, Ok(None) => 11, Ok(Some(r)) => hu(Ok(r.size().into_u64())) });
            }
        }
        Err(_) => {}
        _ => v.push(13),
    }
    v
}

struct World {
    sc: Scratch,
    dim: Dim,
    files: Vec<Utf8PathBuf>,
    /// (file, begin, size) of the checked blocks of more than 64 KiB
    blocks: Vec<(usize, usize, usize)>,
    lens: Vec<usize>,
    good: Vec<u64>,
}

fn make(r: &mut Rng, dim: Dim) -> Result<World, String> {
    let sc = Scratch::new("vast");
    let b = build_simple(&spec(r, dim), &sc.u("c.jbk"))?;
    let _ = std::fs::remove_dir_all(sc.p("inputs"));
    let files = crate::pack::list(&sc);
    let (mut blocks, mut lens) = (vec![], vec![]);
    for (f, p) in files.iter().enumerate() {
        let d = read(p);
        blocks.extend(indep::blocks_of(&d).map_err(|e| format!("{p}: {e}"))?.into_iter().filter(|x| x.1 > 0x1_0000).map(|x| (f, x.0, x.1)));
        lens.push(d.len());
    }
    let good = answers(&b.path, dim);
    if good.contains(&0) || good.len() != 4 - 1 + dim.entries * (1 + ARR.len() + NUM.len()) + dim.values * 3 + dim.contents {
        return Err(format!("{} answers, {} refused", good.len(), good.iter().filter(|x| **x == 0).count()));
    }
    Ok(World { sc, dim, files, blocks, lens, good })
}

thread_local!(static COPY: RefCell<HashMap<usize, Scratch>> = RefCell::new(HashMap::new()));

fn case(w: &World, which: usize, i: u64, r: &mut Rng, rec: &mut Rec) {
    let dir = COPY.with(|c| {
        let mut c = c.borrow_mut();
        let s = c.entry(which).or_insert_with(|| {
            let s = Scratch::new("vastc");
            for f in &w.files { std::fs::copy(f, s.p(f.file_name().unwrap())).unwrap(); }
            s
        });
        s.u("c.jbk")
    });
    let n = w.blocks.len() as u64;
    // each block in turn, at places near its ends, near the borders of usual chunks, or anywhere
    let (f, at, size) = w.blocks[(i % n) as usize];
    let q = match r.below(5) {
        0 => r.us(64),
        1 => size - 1 - r.us(64),
        2 => { let k = 9 + r.below(16); let m = 1usize << k; let x = r.us(size / m + 1) * m; (x + r.us(5)).saturating_sub(2) }
        _ => r.us(size),
    }.min(size - 1);
    let len = match r.below(4) { 0 => 1 + r.us(5000), 1 => 1 + r.us(8), _ => 1 }.min(size - q);
    let path = dir.parent().unwrap().join(w.files[f].file_name().unwrap());
    let h = std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap();
    let mut old = vec![0; len];
    h.read_exact_at(&mut old, (at + q) as u64).unwrap();
    let new: Vec<u8> = if len == 1 { vec![old[0] ^ (1 << r.below(8))] } else if r.bool() { old.iter().map(|b| !b).collect() } else { let mut b = r.bytes(len); b[0] = !old[0]; b };
    h.write_all_at(&new, (at + q) as u64).unwrap();
    let got = guarded(|| answers(&dir, w.dim));
    h.write_all_at(&old, (at + q) as u64).unwrap();
    rec.count("vast.alterations", 1);
    rec.max("vast.block_bytes", size as u64);
    rec.case(hash64(format!("{which} {f} {at} {q} {len} {new:?}").as_bytes()), true);
    let got = match got {
        Ok(g) => g,
        Err(_) => return rec.count("panics (judged by C06)", 1),
    };
    let refused = got.iter().filter(|x| **x == 0).count() + w.good.len() - got.len().min(w.good.len());
    rec.count("vast.items_answered", (got.len() - got.iter().filter(|x| **x == 0).count()) as u64);
    rec.count("vast.items_refused", refused as u64);
    if refused == 0 { rec.count("vast.nothing_refused", 1) }
    if let Some(k) = (0..got.len()).find(|k| got[*k] != 0 && w.good.get(*k) != Some(&got[*k])) {
        let n1 = 1 + w.dim.entries * (1 + ARR.len() + NUM.len());
        let what = if k < n1 { "an entry" } else if k < n1 + 1 + 3 * w.dim.values { "a value" } else { "a content" };
        rec.violation(&format!("different value in {what}"), format!("{:?}: {} byte(s) altered at {q} of a block of {size} bytes at {at} of {}: {} answers differ, the first about {what} ({k})", w.dim, len, w.files[f].file_name().unwrap(), (0..got.len()).filter(|k| got[*k] != 0 && w.good.get(*k) != Some(&got[*k])).count()));
    }
}

pub fn run(ctx: &mut Ctx) {
    let dims = [
        Dim { entries: 5_500, values: 24, value: 60_000, contents: 300_000, mode: Mode::ALL[(ctx.seed % 3) as usize] },
        Dim { entries: 80_000, values: 24, value: 900_000, contents: ctx.q(40_000, 4_400_000), mode: Mode::ALL[((ctx.seed + 1) % 3) as usize] },
    ];
    let made = Arc::new(Mutex::new(vec![]));
    for (k, d) in dims.into_iter().enumerate() {
        let mut r = ctx.rng(0x7A57, k as u64);
        match guarded(|| make(&mut r, d)) {
            Ok(Ok(w)) => made.lock().unwrap().push(w),
            Ok(Err(e)) | Err(e) => return ctx.violation("vast container", "", &format!("{d:?}: {e}")),
        }
    }
    let ws = Arc::new(std::mem::take(&mut *made.lock().unwrap()));
    for w in ws.iter() {
        ctx.sample(jstr(&format!("{:?}: files of {:?} bytes, {} blocks over 64 KiB", w.dim, w.lens, w.blocks.len())));
        let _ = &w.sc;
    }
    let w2 = ws.clone();
    phase("vast", ctx.q(0.4, 0.2), u64::MAX).min(48).run(ctx, move |i, r, rec| {
        // three out of four in the smaller one, which is read quicker
        let k = (i % 4 == 3) as usize;
        case(&w2[k], k, if k == 1 { i / 4 } else { i - i / 4 }, r, rec)
    });
}

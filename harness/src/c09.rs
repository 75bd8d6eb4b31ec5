//! C09: creation is all-or-nothing at the destination: a fault at every system call of a creation.
use crate::builder::*;
use crate::dump::*;
use crate::inject::*;
use crate::model::*;
use crate::pack::*;
use crate::par::*;
use crate::util::*;
use crate::worker::Board;
use camino::{Utf8Path, Utf8PathBuf};
use jubako as jbk;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn spec_of(seed: u64, k: u64) -> ContainerSpec {
    let mut r = Rng::sub(seed, 0xC09, k);
    let mode = Mode::ALL[(k % 3) as usize];
    let comp = match (k / 3) % 4 { 0 => Comp::Zstd(1), 1 => Comp::None, 2 => Comp::Lz4(1), _ => Comp::Lzma(0) };
    let mut contents: Vec<ContentSpec> = vec![];
    match (k / 3) % 5 {
        0 => { for _ in 0..1 + r.us(4) { let n = r.us(300); contents.push(ContentSpec { data: Arc::new(gen_data(&mut r, n)), hint: *r.pick(&[Hint::Yes, Hint::No]), src: *r.pick(&[Src::Mem, Src::File, Src::Range(7, 3)]) }) } }
        // bigger than every buffer on the way
        1 => { for i in 0..3 { let n = 20_000 + r.us(60_000); contents.push(ContentSpec { data: Arc::new(r.bytes(n)), hint: Hint::No, src: if i == 0 { Src::Mem } else { Src::Range(100, i) } }) } }
        2 => { for i in 0..5000 { contents.push(ContentSpec { data: Arc::new(vec![i as u8, (i >> 8) as u8]), hint: Hint::Yes, src: Src::Mem }) } }
        3 => { for i in 0..4 { let n = 30_000 + r.us(9000); contents.push(ContentSpec { data: Arc::new(r.bytes(n)), hint: Hint::Yes, src: if i % 2 == 0 { Src::File } else { Src::Mem } }) } }
        _ => {}
    }
    let mut extra = vec![];
    if k % 4 == 1 {
        for id in [2u16, 7] {
            let c = (0..2).map(|_| { let n = r.us(3000); ContentSpec { data: Arc::new(gen_data(&mut r, n)), hint: Hint::Detect, src: Src::Mem } }).collect();
            extra.push((id, Comp::Zstd(1), c));
        }
    }
    let mut cfg = if k % 5 == 3 { GenCfg::medium() } else { GenCfg::small() };
    cfg.words = false;
    cfg.n_contents = vec![(1, contents.len() as u32)];
    let dir = gen_dir(&mut r, &cfg);
    ContainerSpec { comp, mode, contents, extra, dir, dedup: false }
}
fn built_of(spec: &ContainerSpec, main: &Utf8Path) -> Built {
    let extra_addrs = spec.extra.iter().map(|(id, _, c)| (0..c.len() as u32).map(|i| (*id, i)).collect()).collect();
    Built { path: main.to_path_buf(), addrs: crate::c08::want_addrs(spec), extra_addrs, positions: vec![], extra_paths: vec![] }
}

/// The name at the destination.
fn name_of(k: u64) -> &'static str {
    match k % 5 { 1 => "c.jbkc", 4 => "c", _ => "c.jbk" }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Before {
    Nothing,
    /// a container created by the same means
    Container,
    /// whatever file
    Foreign,
}

/// `jbkmon create-child SEED K VARIANT TARGET FAULT DIR BOARD PART`
pub fn child(a: &[String]) -> ! {
    let (seed, k, variant): (u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let (target, fault): (u64, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let dir = Utf8PathBuf::from(&a[5]);
    let board = Board::open(Path::new(&a[6]));
    let spec = spec_of(seed, k);
    if let Err(e) = install(board.ptr(), dir.as_str(), target, fault, a[7].parse().unwrap()) {
        eprintln!("{e}");
        unsafe { libc::_exit(40) }
    }
    // named in several ways
    let out = match k % 7 {
        2 => Utf8PathBuf::from(name_of(k)),
        5 => Utf8PathBuf::from("./").join(name_of(k)),
        _ => dir.join(name_of(k)),
    };
    std::env::set_current_dir(&dir).unwrap();
    active(true);
    let r = match variant {
        1 => abandoned(&spec, &out),
        2 => unrepresentable(&spec, &out),
        _ => build_simple(&spec, &out).map(|_| ()),
    };
    active(false);
    let code = match r { Ok(()) => 0, Err(e) => { eprintln!("{e}"); if e.starts_with("panic") { 31 } else { 30 } } };
    unsafe { libc::_exit(code) }
}
/// Everything is added and the creator is dropped.
fn abandoned(spec: &ContainerSpec, out: &Utf8Path) -> Result<(), String> {
    guarded(|| {
        let in_dir = out.parent().unwrap().join("inputs");
        std::fs::create_dir_all(&in_dir).map_err(|e| e.to_string())?;
        let mut c = jbk::creator::BasicCreator::new(out, spec.mode.jbk(), VENDOR, spec.comp.jbk(), Arc::new(())).map_err(|e| format!("{e:?}"))?;
        for (i, s) in spec.contents.iter().enumerate() {
            c.add_content(input(s, &in_dir, i).map_err(|e| e.to_string())?, s.hint.jbk()).map_err(|e| e.to_string())?;
        }
        drop(c);
        Err("abandoned".to_string())
    })?
}
/// The directory cannot be written.
fn unrepresentable(spec: &ContainerSpec, out: &Utf8Path) -> Result<(), String> {
    let mut s = spec.clone();
    s.dir.indexes.push(IndexSpec { name: "x".repeat(300), store: 0, count: 0, offset: 0, free: [0; 4], key: 0 });
    if s.dir.stores.is_empty() { s.dir.stores.push(StoreSpec { common: vec![PropSpec { name: "p", t: PType::U }], variants: vec![], sort: None, entries: vec![] }) }
    build_simple(&s, out).map(|_| ())
}

#[derive(Debug, Clone, PartialEq)]
enum Status {
    Success,
    Error,
    Panic,
    Killed,
    Hang,
    Other(String),
}

struct Config {
    k: u64,
    before: Before,
    spec: ContainerSpec,
    /// system calls of an undisturbed creation
    ops: Vec<u64>,
    previous: Vec<(String, Vec<u8>)>,
}
struct Ran {
    status: Status,
    count: u64,
    hit: u64,
    list: Vec<u64>,
    words: String,
}
fn run_child(seed: u64, k: u64, variant: u64, target: u64, fault: usize, part: u64, sc: &Scratch) -> Ran {
    let board_path = sc.p("board");
    let _ = std::fs::remove_file(&board_path);
    let board = Board::open(&board_path);
    // `out` is made by the caller
    let err = sc.p("err");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["create-child", &seed.to_string(), &k.to_string(), &variant.to_string(), &target.to_string(), &fault.to_string()])
        .arg(sc.p("out")).arg(&board_path).arg(part.to_string())
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&err).unwrap())
        .spawn().expect("spawn");
    let t0 = Instant::now();
    let mut nap = 200;
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() { break Some(s) }
        if t0.elapsed() > Duration::from_secs(15) { let _ = c.kill(); let _ = c.wait(); break None }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(3000);
    };
    use std::os::unix::process::ExitStatusExt;
    let status = match st {
        None => Status::Hang,
        Some(s) => match (s.code(), s.signal()) {
            (Some(0), _) => Status::Success,
            (Some(30), _) => Status::Error,
            (Some(31), _) | (Some(101), _) => Status::Panic,
            (_, Some(libc::SIGKILL)) => Status::Killed,
            (c, s) => Status::Other(format!("{c:?} {s:?}")),
        },
    };
    let w = board.words(16 + 4000);
    Ran { status, count: w[0], hit: w[1], list: w[16..16 + (w[0] as usize).min(4000)].to_vec(), words: String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).chars().take(300).collect() }
}

fn prepare(sc: &Scratch, cfg: &Config) {
    let out = sc.p("out");
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    for (n, b) in &cfg.previous { std::fs::write(out.join(n), b).unwrap() }
}
/// What is at the destination: Ok(what) or Err((fingerprint, text))
fn judge(sc: &Scratch, cfg: &Config, status: &Status) -> Result<&'static str, (String, String)> {
    let main = sc.u("out").join(name_of(cfg.k));
    let prev = cfg.previous.iter().find(|p| p.0 == name_of(cfg.k)).map(|p| &p.1);
    let now = match std::fs::symlink_metadata(&main) { Ok(_) => Some(read(&main)), Err(_) => None };
    if now.as_ref() == prev {
        return if *status == Status::Success {
            Err(("success without the container".into(), "creation succeeded and the destination is as before".into()))
        } else {
            Ok(if prev.is_some() { "previous" } else { "absent" })
        };
    }
    let Some(now) = now else { return Err(("previous file lost".into(), "the destination held a file and does not exist any more".into())) };
    let b = built_of(&cfg.spec, &main);
    let ask = ask_container(&cfg.spec, &b);
    let bad = |m: String| Err(("incomplete container at the destination".to_string(), format!("{} bytes: {m}", now.len())));
    match guarded(|| open_dump(main.as_std_path(), &ask, OPTS)).and_then(|x| x) {
        Err(e) => return bad(format!("does not open: {e}")),
        Ok((d, c)) => {
            if let Err(e) = guarded(|| verify_model(&cfg.spec, &b, &d, &c)).and_then(|x| x) { return bad(format!("reads differently: {e}")) }
        }
    }
    match guarded(|| jbk::reader::Container::new(&main).and_then(|c| c.check()).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(true)) => Ok("complete"),
        o => bad(format!("check {o:?}")),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one creation in which the fault was met (or the process ended before finalizing), and the state of the destination judged".into();
    ctx.assumptions.push("a process which dies is one killed between or within system calls: what completed system calls wrote is there (no loss of power); a creation which hangs is ended and judged as if it had died".into());
    if ctx.quick() && std::env::var("JBKMON_BUDGET").is_err() { ctx.budget = Duration::from_secs(60) }
    // configurations and their undisturbed creations
    let seed = ctx.seed;
    let n_spec = ctx.q(30u64, 60);
    let cfgs: Arc<Mutex<Vec<Config>>> = Arc::new(Mutex::new(vec![]));
    {
        let cfgs = cfgs.clone();
        let saved = std::env::var("JBKMON_CASE").ok();
        std::env::remove_var("JBKMON_CASE");
        phase("undisturbed", 1.0, n_spec * 3).min(n_spec * 3).run(ctx, move |i, _r, rec| {
            let k = i / 3;
            let before = [Before::Nothing, Before::Container, Before::Foreign][(i % 3) as usize];
            let spec = spec_of(seed, k);
            let sc = Scratch::new("c09");
            let mut cfg = Config { k, before, spec, ops: vec![], previous: vec![] };
            match before {
                Before::Nothing => {}
                Before::Foreign => cfg.previous = vec![(name_of(k).into(), (0..777u32).map(|x| (x * x) as u8).collect())],
                Before::Container => {
                    // what an earlier creation left, of all files
                    std::fs::create_dir_all(sc.p("out")).unwrap();
                    if let Err(e) = build_simple(&cfg.spec, &sc.u("out").join(name_of(k))) { rec.violation("creation", e); return }
                    let _ = std::fs::remove_dir_all(sc.p("out/inputs"));
                    for p in std::fs::read_dir(sc.p("out")).unwrap() {
                        let p = p.unwrap().path();
                        cfg.previous.push((p.file_name().unwrap().to_str().unwrap().into(), read(&p)));
                    }
                }
            }
            prepare(&sc, &cfg);
            let ran = run_child(seed, k, 0, u64::MAX, 0, 0, &sc);
            if let Status::Other(s) = &ran.status { rec.inconclusive(&format!("child {s}: {}", ran.words)); return }
            if ran.status != Status::Success {
                rec.violation("undisturbed creation", format!("{:?}: {:?} {}", cfg.spec.mode, ran.status, ran.words));
                return;
            }
            match judge(&sc, &cfg, &ran.status) {
                Ok(_) => rec.case(hash64(format!("{k} {before:?}").as_bytes()), false),
                Err((fp, m)) => rec.violation(&fp, format!("undisturbed creation {:?}: {m}", cfg.spec.mode)),
            }
            rec.count("system_calls_of_undisturbed_creations", ran.count);
            cfg.ops = ran.list;
            // the creator given up, or a directory it refuses
            for variant in [1, 2] {
                prepare(&sc, &cfg);
                let ran = run_child(seed, k, variant, u64::MAX, 0, 0, &sc);
                rec.case(hash64(format!("{k} {before:?} variant {variant}").as_bytes()), true);
                match judge(&sc, &cfg, &ran.status) {
                    Ok("complete") => rec.violation("complete container of a refused creation", format!("variant {variant} {:?}", cfg.spec.mode)),
                    Ok(w) => rec.count(&format!("outcome.{}.{w}", ["", "abandoned", "refused"][variant as usize]), 1),
                    Err((fp, m)) => rec.violation(&fp, format!("variant {variant}, {:?}, before {before:?}, ended {:?} {}: {m}", cfg.spec.mode, ran.status, ran.words)),
                }
            }
            cfgs.lock().unwrap().push(cfg);
        });
        if let Some(s) = saved { std::env::set_var("JBKMON_CASE", s) }
    }
    let mut cfgs = std::mem::take(&mut *cfgs.lock().unwrap());
    cfgs.sort_by_key(|c| (c.k, c.before as u8));
    if cfgs.is_empty() {
        println!("no creation could be run under the fault injector");
        if ctx.violations.is_empty() { std::process::exit(2) }
        return;
    }
    // every operation (and a few more: the order of threads varies), every fault
    let mut plan: Vec<(usize, u64, usize, u64)> = vec![];
    let mut pr = Rng::sub(seed, 0xC09, 2);
    let thorough = ctx.tier == Tier::Thorough;
    let mut every_byte = 0u64;
    for (i, c) in cfgs.iter().enumerate() {
        for n in 0..c.ops.len() as u64 + 2 {
            let class = syscall_name(*c.ops.get(n as usize).unwrap_or(&0) & 0xffff).1;
            let size = c.ops.get(n as usize).map(|o| o >> 16).unwrap_or(0);
            for f in Fault::of(class) {
                let fi = Fault::ALL.iter().position(|x| x == f).unwrap();
                let parts = matches!(f, Fault::HalfKill | Fault::HalfFullDisk | Fault::Half);
                if parts && thorough && size > 1 && size < 1500 && *f != Fault::Half {
                    // every byte
                    every_byte += size - 1;
                    for p in 0..size - 1 { plan.push((i, n, fi, p)) }
                } else {
                    plan.push((i, n, fi, pr.u64() >> 1))
                }
            }
        }
    }
    Rng::sub(seed, 0xC09, 1).shuffle(&mut plan);
    // what decides at the end of a creation comes first
    let near = |p: &(usize, u64, usize, u64)| (cfgs[p.0].ops.len() as u64).saturating_sub(p.1) > 12;
    let (tail, rest): (Vec<_>, Vec<_>) = plan.iter().cloned().partition(|p| !near(p));
    let mut plan = vec![];
    let (mut a, mut b) = (tail.into_iter(), rest.into_iter());
    loop {
        let x = a.next();
        let y = b.next();
        if x.is_none() && y.is_none() { break }
        plan.extend(x);
        plan.extend(y);
    }
    ctx.count("faults_planned", plan.len() as u64);
    ctx.count("partial_writes_planned_for_every_byte", every_byte);
    let n = plan.len() as u64;
    let cfgs = Arc::new(cfgs);
    let hangs = Arc::new(Mutex::new(0));
    phase("fault", 1.0, n).threads(10).run(ctx, move |i, _r, rec| {
        let (ci, target, fault, part) = plan[i as usize];
        let cfg = &cfgs[ci];
        let sc = Scratch::new("c09f");
        prepare(&sc, cfg);
        let ran = run_child(seed, cfg.k, 0, target, fault, part, &sc);
        let f = Fault::ALL[fault];
        if let Status::Other(s) = &ran.status {
            rec.inconclusive(&format!("child {s}: {}", ran.words));
            return;
        }
        let hit = ran.hit != 0 || ran.count > target;
        rec.case(hash64(format!("{ci} {target} {fault} {part}").as_bytes()), hit);
        if !hit { rec.count("fault_not_met", 1) } else { rec.count(&format!("fault.{f:?}"), 1); rec.count(&format!("at.{}", syscall_name(ran.hit.saturating_sub(1)).0), 1) }
        if ran.status == Status::Hang { *hangs.lock().unwrap() += 1 }
        rec.count(&format!("creation_ended.{:?}", ran.status), 1);
        let desc = || format!("{:?} {:?} spec {} before {:?}: {f:?} (part {part}) at operation {target} of {} ({}), creation ended {:?} {}", cfg.spec.mode, cfg.spec.comp, cfg.k, cfg.before, cfg.ops.len(), syscall_name(ran.hit.saturating_sub(1)).0, ran.status, ran.words);
        rec.sample(desc());
        match judge(&sc, cfg, &ran.status) {
            Ok(w) => rec.count(&format!("outcome.{f:?}.{w}"), 1),
            Err((fp, m)) => rec.violation(&fp, format!("{}: {m}", desc())),
        }
    });
}

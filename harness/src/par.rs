//! Parallel case runner: every thread runs cases of a phase, records go into one merged record.
//! An escaping panic of a case is a violation; a case that does not end is one too (after `hang`).
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Rec {
    pub id: String,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String, String)>,
    pub inconclusive: u64,
    pub notes: BTreeMap<String, String>,
}
impl Rec {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            if let Some(e) = self.counts.get_mut(k) {
                *e += n;
            } else {
                self.counts.insert(k.into(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.into()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn case(&mut self, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(key);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 2 {
            self.samples.push(jstr(&s));
        }
    }
    pub fn violation(&mut self, fp: &str, msg: impl AsRef<str>) {
        if self.violations.len() < 30 {
            self.violations.push((fp.into(), self.id.clone(), msg.as_ref().into()));
        }
    }
    pub fn inconclusive(&mut self, why: &str) {
        self.inconclusive += 1;
        self.notes.insert("inconclusive_last".into(), format!("{} {why}", self.id));
    }
    pub fn merge(&mut self, o: Rec) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            let e = self.maxes.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        for s in o.samples {
            if self.samples.len() < 10 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        self.inconclusive += o.inconclusive;
        self.notes.extend(o.notes);
    }
}

pub fn absorb(ctx: &mut Ctx, r: Rec) {
    ctx.evaluations += r.evaluations;
    ctx.distinct.extend(r.distinct);
    for (k, v) in r.counts {
        ctx.count(&k, v);
    }
    for (k, v) in r.maxes {
        ctx.max(&format!("max_{k}"), v);
    }
    for s in r.samples {
        ctx.sample(s);
    }
    for (fp, id, m) in r.violations {
        let replay = format!("JBKMON_CASE={id} VERIF_SEED={} ./check.sh {} {}", ctx.seed, ctx.prop, ctx.q("quick", "thorough"));
        ctx.violation(&fp, &replay, &format!("[{id}] {m}"));
    }
    ctx.inconclusive += r.inconclusive;
    ctx.notes.extend(r.notes);
}

pub fn only_case() -> Option<(String, u64)> {
    let s = std::env::var("JBKMON_CASE").ok()?;
    let (a, b) = s.rsplit_once(':')?;
    Some((a.to_string(), b.parse().ok()?))
}

pub struct Phase<'a> {
    pub name: &'a str,
    /// stop starting new cases when this fraction of the budget is used
    pub until: f64,
    pub max: u64,
    pub min: u64,
    pub threads: usize,
    pub hang: Duration,
}
pub fn phase(name: &str, until: f64, max: u64) -> Phase<'_> {
    Phase { name, until, max, min: 0, threads: 8, hang: Duration::from_secs(150) }
}
impl<'a> Phase<'a> {
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    /// these first cases run whatever the time used
    pub fn min(mut self, n: u64) -> Self {
        self.min = n;
        self
    }
    pub fn run<F>(self, ctx: &mut Ctx, f: F)
    where
        F: Fn(u64, &mut Rng, &mut Rec) + Send + Sync + 'static,
    {
        let base = hash64(self.name.as_bytes());
        let (first, max, min) = match only_case() {
            Some((n, i)) if n == self.name => (i, i + 1, i + 1),
            Some(_) => return,
            None => (0, self.max, self.min),
        };
        if ctx.stop() {
            return;
        }
        let deadline = ctx.start + Duration::from_secs_f64(ctx.budget.as_secs_f64() * self.until);
        let f = Arc::new(f);
        let next = Arc::new(AtomicU64::new(first));
        let stop = Arc::new(AtomicBool::new(false));
        let shared = Arc::new(Mutex::new(Rec::default()));
        let cur: Arc<Mutex<Vec<Option<(u64, Instant)>>>> = Arc::new(Mutex::new(vec![None; self.threads]));
        let live = Arc::new(AtomicU64::new(self.threads as u64));
        for t in 0..self.threads {
            let (f, next, stop, shared, cur, live) = (f.clone(), next.clone(), stop.clone(), shared.clone(), cur.clone(), live.clone());
            let seed = ctx.seed;
            let name = self.name.to_string();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= max || stop.load(Ordering::Relaxed) || (i >= min && Instant::now() >= deadline) {
                            break;
                        }
                        cur.lock().unwrap()[t] = Some((i, Instant::now()));
                        let mut rec = Rec { id: format!("{name}:{i}"), ..Default::default() };
                        let mut rng = Rng::sub(seed, base, i);
                        crate::short::seed(hash64(&[seed, base, i].map(|v| v.to_le_bytes()).concat()));
                        if let Err(e) = guarded(|| f(i, &mut rng, &mut rec)) {
                            rec.violation(&format!("panic {}", panic_class(&e)), format!("{e}; recent panics {:?}", recent_panics()));
                        }
                        cur.lock().unwrap()[t] = None;
                        let mut g = shared.lock().unwrap();
                        g.merge(rec);
                        if g.violations.len() >= 8 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    live.fetch_sub(1, Ordering::Release);
                })
                .unwrap();
        }
        let mut hung = None;
        while live.load(Ordering::Acquire) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            let c = cur.lock().unwrap();
            if let Some((i, _)) = c.iter().flatten().find(|(_, s)| s.elapsed() > self.hang) {
                hung = Some(*i);
                break;
            }
        }
        let rec = std::mem::take(&mut *shared.lock().unwrap());
        ctx.count(&format!("cases.{}", self.name), next.load(Ordering::Relaxed).min(max) - first);
        absorb(ctx, rec);
        if let Some(i) = hung {
            let id = format!("{}:{i}", self.name);
            let replay = format!("JBKMON_CASE={id} VERIF_SEED={} ./check.sh {} {}", ctx.seed, ctx.prop, ctx.q("quick", "thorough"));
            let c = ctx.prop.clone();
            ctx.violation(
                &format!("hang in {}", self.name), &replay,
                &format!("[{id}] case of {c} did not end within {:?}; recent panics {:?}", self.hang, recent_panics()),
            );
            ctx.hung = true;
        }
    }
}
pub fn recent_panics() -> Vec<String> {
    let g = PANICS.lock().unwrap();
    g.iter().rev().take(3).cloned().collect()
}
/// panic text without numbers, to make a stable fingerprint
pub fn panic_class(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).map(|c| if c.is_control() { ' ' } else { c }).take(80).collect()
}

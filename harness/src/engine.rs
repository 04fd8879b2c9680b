//! Case runner: generation in parallel, panics as failures, shrinking, replay
//! files, evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use crate::tape::{mix, Src};

pub const STACK: usize = 256 << 20;

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    pub detail: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $detail:expr, $($fmt:tt)+) => {
        if !$cond {
            return $crate::engine::fail(format!($($fmt)+), $detail);
        }
    };
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub checks: u64,
    pub nontrivial_cases: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.checks += o.checks;
        self.nontrivial_cases += o.nontrivial_cases;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        self.samples.sort();
        self.samples.truncate(4);
    }
}

/// Context of one case
pub struct Cx<'a> {
    pub src: Src,
    pub index: u64,
    /// size parameter, grows over the run
    pub size: usize,
    pub thorough: bool,
    stats: &'a mut Stats,
    want_sample: bool,
    /// content hash, if the case is non-trivial
    key: Option<u64>,
}

impl Cx<'_> {
    pub fn count(&mut self, k: &'static str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.stats.counters.entry(k).or_default() += n;
    }
    /// Number of individual oracle comparisons
    pub fn checks(&mut self, n: u64) {
        self.stats.checks += n;
    }
    /// Register the case as non-trivial, identified by the given content
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, content: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.key.hash(&mut h);
        content.hash(&mut h);
        self.key = Some(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("…");
            }
            self.stats.samples.push((self.index, s));
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Cx) -> Res,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("panic at {}: {}", loc, m));
            }
        });
    }));
}

/// Run something, turning panics into their message
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn size_for(index: u64, total: u64) -> usize {
    // small cases first, cycling so that all sizes appear throughout the run
    let _ = total;
    match index % 8 {
        0 => 2,
        1 => 3,
        2 => 4,
        3 => 6,
        4 => 8,
        5 => 10,
        6 => 14,
        _ => 20,
    }
}

pub fn run_case(p: &Prop, src: Src, index: u64, total: u64, thorough: bool, st: &mut Stats, want_sample: bool) -> (Res, Vec<u64>) {
    st.cases += 1;
    let mut cx = Cx { src, index, size: size_for(index, total), thorough, stats: st, want_sample, key: None };
    let res = guarded(|| (p.run)(&mut cx));
    let tape = std::mem::take(&mut cx.src.rec);
    if let Some(k) = cx.key {
        st.nontrivial_cases += 1;
        // bounded, for the sake of memory: a lower bound in very long runs
        if st.distinct.len() < 4_000_000 {
            st.distinct.insert(k);
        }
    }
    let res = match res {
        Ok(r) => r,
        Err(m) => fail(format!("panicked: {}", m), String::new()),
    };
    (res, tape)
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed, hash_str(id)), index)
}

pub struct Outcome {
    pub stats: Stats,
    pub failure: Option<(u64, Vec<u64>, Fail)>,
}

pub fn run_all(p: &'static Prop, seed: u64, total: u64, thorough: bool, workers: usize, progress: Option<std::fs::File>, deadline: std::time::Instant, on_fail: &(dyn Fn(u64, &[u64], &Fail) + Sync)) -> Outcome {
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<BTreeMap<u64, (Vec<u64>, Fail)>> = Default::default();
    let all: Mutex<Stats> = Default::default();
    let progress = progress.map(std::sync::Arc::new);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, min_fail, fails, all) = (&next, &min_fail, &fails, &all);
            let progress = progress.clone();
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || i > min_fail.load(Ordering::SeqCst) || std::time::Instant::now() > deadline {
                            break;
                        }
                        if let Some(f) = &progress {
                            let _ = f.write_at(&(i + 1).to_le_bytes(), (w * 8) as u64);
                        }
                        // samples: a few cases spread over the size cycle
                        let want = matches!(i, 5 | 14 | 27 | 47);
                        let (r, tape) = run_case(p, Src::random(case_seed(seed, p.id, i)), i, total, thorough, &mut st, want);
                        if let Err(f) = r {
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            fails.lock().unwrap().insert(i, (tape, f));
                        }
                    }
                    if let Some(f) = &progress {
                        let _ = f.write_at(&0u64.to_le_bytes(), (w * 8) as u64);
                    }
                    all.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    let stats = all.into_inner().unwrap();
    let first = fails.into_inner().unwrap().into_iter().next();
    let failure = first.map(|(i, (tape, f))| {
        on_fail(i, &tape, &f);
        let (tape, f) = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || shrink(p, tape, f, i, total, thorough))
                .unwrap()
                .join()
                .unwrap()
        });
        (i, tape, f)
    });
    Outcome { stats, failure }
}

fn shrink(p: &Prop, tape: Vec<u64>, f: Fail, index: u64, total: u64, thorough: bool) -> (Vec<u64>, Fail) {
    if std::env::var_os("FAV_NOSHRINK").is_some() {
        return (tape, f);
    }
    let start = std::time::Instant::now();
    let mut best = (tape, f);
    let mut tries = 0u32;
    let over = |tries: u32| tries > 200_000 || start.elapsed().as_secs() > 25;
    let attempt = |t: Vec<u64>, best: &mut (Vec<u64>, Fail), tries: &mut u32| -> bool {
        *tries += 1;
        let mut st = Stats::default();
        let (r, used) = run_case(p, Src::replay(t.clone()), index, total, thorough, &mut st, false);
        if let Err(f) = r {
            let mut t = used;
            while t.last() == Some(&0) {
                t.pop();
            }
            let better = t.len() < best.0.len() || (t.len() == best.0.len() && t < best.0);
            if better {
                *best = (t, f);
                return true;
            }
        }
        false
    };
    loop {
        let before = best.0.clone();
        // remove chunks
        let mut k = (best.0.len() / 2).max(1).min(512);
        while k >= 1 && !over(tries) {
            let mut i = best.0.len().saturating_sub(k) as isize;
            while i >= 0 && !over(tries) {
                let iu = i as usize;
                if iu < best.0.len() {
                    let mut t = best.0.clone();
                    let e = (iu + k).min(t.len());
                    t.drain(iu..e);
                    if !attempt(t, &mut best, &mut tries) {
                        // zeroing the chunk
                        let mut t = best.0.clone();
                        let e = (iu + k).min(t.len());
                        if t[iu..e].iter().any(|v| *v != 0) {
                            t[iu..e].iter_mut().for_each(|v| *v = 0);
                            attempt(t, &mut best, &mut tries);
                        }
                    }
                }
                i -= k as isize;
            }
            k /= 2;
        }
        // reduce values
        let mut i = 0;
        while i < best.0.len() && !over(tries) {
            let mut lo = 0u64;
            let v = best.0[i];
            let mut hi = v;
            while lo < hi && !over(tries) {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.0.clone();
                if i >= t.len() {
                    break;
                }
                t[i] = mid;
                if attempt(t, &mut best, &mut tries) {
                    if i >= best.0.len() {
                        break;
                    }
                    hi = best.0[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // one element less of some sequence: a smaller count, and the choices
        // made for the element left out
        let mut i = 0;
        while i < best.0.len() && !over(tries) {
            let mut again = false;
            if (1..=400).contains(&best.0[i]) {
                'out: for off in 0..best.0.len().saturating_sub(i + 1).min(250) {
                    for len in [1usize, 2, 3, 4, 5, 6, 8, 10, 13, 17, 21, 34, 55] {
                        let at = i + 1 + off;
                        if over(tries) || at + len > best.0.len() {
                            break;
                        }
                        let mut t = best.0.clone();
                        t[i] -= 1;
                        t.drain(at..at + len);
                        if attempt(t, &mut best, &mut tries) {
                            again = true;
                            break 'out;
                        }
                    }
                }
            }
            if !again {
                i += 1;
            }
        }
        if best.0 == before || over(tries) {
            break;
        }
    }
    best
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_evidence(
    path: &std::path::Path,
    p: &Prop,
    tier: &str,
    seed: u64,
    st: &Stats,
    wall: f64,
    violations: usize,
    total: u64,
    extra: &[(String, String)],
) -> std::io::Result<()> {
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"planned\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial_cases\": {},\n  \"oracle_comparisons\": {},\n  \"rule\": {},\n  \"classes\": {{",
        json_str(p.id), json_str(tier), seed, st.cases, total, st.distinct.len(), st.nontrivial_cases, st.checks, json_str(p.rule)
    );
    for (i, (k, v)) in st.counters.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, json_str(k), v);
    }
    o.push_str("},\n  \"samples\": [");
    for (i, (idx, s)) in st.samples.iter().enumerate() {
        let _ = write!(o, "{}{{\"case\": {}, \"content\": {}}}", if i > 0 { ",\n   " } else { "" }, idx, json_str(s));
    }
    o.push_str("]");
    for (k, v) in extra {
        let _ = write!(o, ",\n  {}: {}", json_str(k), v);
    }
    let _ = write!(
        o,
        "\n }},\n \"assumptions\": [\"the harness's own model, writer, reader and rule oracles are right\", \"generated cases only: absence of violations is not proven\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        wall, violations
    );
    if let Some(d) = path.parent() {
        std::fs::create_dir_all(d)?;
    }
    std::fs::write(path, o)
}

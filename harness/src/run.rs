//! Parallel trial runner and report.
use crate::fault;
use crate::rng::{hash3, Rng};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
#[cfg(target_arch = "wasm32")]
use crate::host::Instant;
#[cfg(not(target_arch = "wasm32"))]
use std::time::Instant;

pub struct Opts {
    pub seed: u64,
    pub scale: f64,
    pub threads: usize,
    pub max_secs: f64,
    pub only: Option<(u64, u64)>,
    pub describe: bool,
    pub heap: bool,
    pub start: Instant,
    pub sets: Vec<usize>,
    pub args: BTreeMap<String, String>,
}

pub struct Violation {
    pub phase: u64,
    pub idx: u64,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub truncated: bool,
}

impl Stats {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.counters {
            if k.starts_with("max_") {
                self.max(&k, v);
            } else {
                self.count(&k, v);
            }
        }
        self.truncated |= o.truncated;
    }
}

pub struct Report {
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub notes: Vec<String>,
}
impl Report {
    pub fn new() -> Self {
        Report { stats: Stats::default(), violations: vec![], notes: vec![] }
    }
}

/// Run `n` trials (scaled) of a phase on all workers. Each trial has its own generator derived
/// from (seed, phase, index), so any of them can be replayed alone. Stops at the first violation.
pub fn par<S, F, I>(o: &Opts, rep: &mut Report, phase: u64, n: u64, init: I, f: F)
where
    I: Fn() -> S + Sync,
    F: Fn(u64, &mut Rng, &mut S, &mut Stats) -> Result<(), String> + Sync,
{
    if !rep.violations.is_empty() {
        return;
    }
    let exact = phase >= 1000; // exhaustive phases are not scaled
    let n = if exact { n } else { ((n as f64 * o.scale) as u64).max(1) };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let out: Mutex<(Stats, Vec<Violation>)> = Mutex::new((Stats::default(), vec![]));
    let run = |idx: u64, s: &mut S, st: &mut Stats| -> Result<(), String> {
        fault::set_trial(phase, idx);
        let mut r = Rng::new(hash3(o.seed, phase, idx));
        f(idx, &mut r, s, st)
    };
    if let Some((p, idx)) = o.only {
        if p == phase {
            let mut s = init();
            let mut st = Stats::default();
            if let Err(msg) = run(idx, &mut s, &mut st) {
                rep.violations.push(Violation { phase, idx, msg });
            }
            rep.stats.merge(st);
        }
        return;
    }
    let threads = o.threads.min(n as usize).max(1);
    let worker = || {
        let mut s = init();
        let mut st = Stats::default();
        loop {
            let idx = next.fetch_add(1, Ordering::Relaxed);
            if idx >= n || stop.load(Ordering::Relaxed) {
                break;
            }
            if o.start.elapsed().as_secs_f64() > o.max_secs {
                st.truncated = true;
                break;
            }
            if let Err(msg) = run(idx, &mut s, &mut st) {
                stop.store(true, Ordering::Relaxed);
                out.lock().unwrap().1.push(Violation { phase, idx, msg });
                break;
            }
        }
        crate::case::use_set(0);
        out.lock().unwrap().0.merge(st);
    };
    if cfg!(target_arch = "wasm32") {
        worker();
    } else {
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(&worker);
            }
        });
    }
    let (st, mut v) = out.into_inner().unwrap();
    rep.stats.merge(st);
    rep.violations.append(&mut v);
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn json(&self) -> String {
        let s = &self.stats;
        let v: Vec<String> = self
            .violations
            .iter()
            .map(|v| format!("{{\"phase\":{},\"idx\":{},\"msg\":{}}}", v.phase, v.idx, jstr(&v.msg)))
            .collect();
        let c: Vec<String> = s.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let sm: Vec<String> = s.samples.iter().map(|x| jstr(x)).collect();
        let nt: Vec<String> = self.notes.iter().map(|x| jstr(x)).collect();
        format!(
            "{{\"evaluations\":{},\"distinct\":{},\"truncated\":{},\"counters\":{{{}}},\"samples\":[{}],\"notes\":[{}],\"violations\":[{}]}}",
            s.evaluations,
            s.distinct.len(),
            s.truncated,
            c.join(","),
            sm.join(","),
            nt.join(","),
            v.join(",")
        )
    }
}

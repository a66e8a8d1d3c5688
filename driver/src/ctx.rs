//! Workers, verdicts, evidence.
use crate::exec::Box_;
use crate::rng::{hash, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum Bad {
    /// the property is broken
    Violation(String),
    /// a listed finding: id, what failed
    Known(&'static str, String),
    /// no verdict for this case
    Inconclusive(String),
}
pub type Res = Result<(), Bad>;
#[macro_export]
macro_rules! bad {
    ($($a:tt)*) => { return Err($crate::ctx::Bad::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::ctx::Bad::Violation(format!($($a)*))) } };
}
#[macro_export]
macro_rules! skip {
    ($($a:tt)*) => { return Err($crate::ctx::Bad::Inconclusive(format!($($a)*))) };
}

pub struct W<'a> {
    pub b: Box_,
    pub ctx: &'a Ctx,
    counts: BTreeMap<String, u64>,
    seen: BTreeMap<String, BTreeSet<String>>,
    distinct: Vec<u64>,
    sample: Option<String>,
    evals: u64,
}
impl W<'_> {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_default() += n;
    }
    /// registers a member of a small covered set (models, modes, fault points ...)
    pub fn seen(&mut self, k: &str, v: impl Into<String>) {
        self.seen.entry(k.into()).or_default().insert(v.into());
    }
    /// one judged case; nontrivial cases are counted once per distinct content
    pub fn judged(&mut self, nontrivial: bool, key: &[u8], describe: impl FnOnce() -> String) {
        self.evals += 1;
        if nontrivial {
            self.distinct.push(hash(key));
            if self.sample.is_none() {
                self.sample = Some(describe().chars().take(400).collect());
            }
        }
    }
}
impl std::ops::Deref for W<'_> {
    type Target = Box_;
    fn deref(&self) -> &Box_ {
        &self.b
    }
}
impl std::ops::DerefMut for W<'_> {
    fn deref_mut(&mut self) -> &mut Box_ {
        &mut self.b
    }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
    pub verif: PathBuf,
    pub drop_root: bool,
    pub start: Instant,
    pub threads: usize,
    pub known: Vec<String>,
    pub extra: Vec<(String, Value)>,
    /// workers started now use the AddressSanitizer build
    pub asan: AtomicBool,
    st: Mutex<State>,
    stop: AtomicBool,
}
#[derive(Default)]
struct State {
    violations: Vec<(String, PathBuf)>,
    known: BTreeMap<&'static str, (u64, String)>,
    inconclusive: Vec<String>,
    counts: BTreeMap<String, u64>,
    seen: BTreeMap<String, BTreeSet<String>>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    evals: u64,
    sections: Vec<(String, usize, usize)>,
    execs: u64,
    ops: u64,
}
const MAX_VIOLATIONS: usize = 3;

impl Ctx {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        prop: &str, thorough: bool, seed: u64, bin: &Path, shim: &Path, scratch: &Path, verif: &Path,
        drop_root: bool, known: Vec<String>,
    ) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            bin: bin.into(),
            shim: shim.into(),
            scratch: scratch.into(),
            verif: verif.into(),
            drop_root,
            start: Instant::now(),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            known,
            extra: vec![],
            asan: AtomicBool::new(false),
            st: Default::default(),
            stop: AtomicBool::new(false),
        }
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Runs `n` cases of one section on all workers; stops early at the section's time limit
    /// (seconds, 0: none) or after a few violations.
    pub fn section<F>(&self, name: &str, n: usize, secs: u64, f: F)
    where
        F: Fn(&mut W, &mut Rng, usize) -> Res + Sync,
    {
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let t0 = Instant::now();
        let limit = Duration::from_secs(secs);
        std::thread::scope(|s| {
            for id in 0..self.threads {
                let (next, done, f) = (&next, &done, &f);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    let asan = self.asan.load(Ordering::Relaxed);
                    let bin = if asan { self.scratch.join("ti-tools-asan") } else { self.bin.clone() };
                    let mut b = Box_::new(&bin, &self.shim, &self.scratch, id, self.drop_root);
                    b.asan = asan;
                    let mut w = W {
                        b,
                        ctx: self,
                        counts: Default::default(),
                        seen: Default::default(),
                        distinct: vec![],
                        sample: None,
                        evals: 0,
                    };
                    loop {
                        if self.stop.load(Ordering::Relaxed) || (secs > 0 && t0.elapsed() > limit) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        w.clean();
                        let mut rng = Rng::new(self.seed, &format!("{}/{}", self.prop, name), i as u64);
                        let r = f(&mut w, &mut rng, i);
                        done.fetch_add(1, Ordering::Relaxed);
                        if let Err(bad) = r {
                            self.report(&mut w, name, i, bad);
                        }
                    }
                    w.clean();
                    let mut st = self.st.lock().unwrap();
                    for (k, v) in w.counts {
                        *st.counts.entry(k).or_default() += v;
                    }
                    for (k, v) in w.seen {
                        st.seen.entry(k).or_default().extend(v);
                    }
                    st.distinct.extend(w.distinct);
                    st.evals += w.evals;
                    st.execs += w.b.execs;
                    st.ops += w.b.opcount;
                    if let Some(s) = w.sample {
                        if st.samples.len() < 12 {
                            st.samples.push(format!("{name}: {s}"));
                        }
                    }
                }).unwrap();
            }
        });
        let d = done.into_inner();
        self.st.lock().unwrap().sections.push((name.into(), d, n));
        eprintln!("  {name}: {d} of {n} cases in {:.1} s", t0.elapsed().as_secs_f64());
    }
    fn report(&self, w: &mut W, section: &str, index: usize, bad: Bad) {
        match bad {
            Bad::Inconclusive(s) => {
                let mut st = self.st.lock().unwrap();
                if st.inconclusive.len() < 50 {
                    st.inconclusive.push(format!("{section} {index}: {s}"));
                }
            }
            Bad::Known(id, s) => {
                if self.known.iter().any(|k| k == id) {
                    let mut st = self.st.lock().unwrap();
                    let e = st.known.entry(id).or_insert((0, s));
                    e.0 += 1;
                } else {
                    self.report(w, section, index, Bad::Violation(format!("{id}: {s}")));
                }
            }
            Bad::Violation(s) => {
                if w.b.journal.iter().any(|e| e.status == format!("signal {}", libc::SIGALRM)) {
                    return self.report(w, section, index, Bad::Inconclusive(format!("watchdog; {s}")));
                }
                let mut st = self.st.lock().unwrap();
                if st.violations.len() >= MAX_VIOLATIONS {
                    return;
                }
                let dir = self
                    .verif
                    .join("replays")
                    .join(&self.prop)
                    .join(format!("{}-{}-{}", self.seed, section.replace([' ', '/'], "_"), index));
                let _ = std::fs::remove_dir_all(&dir);
                let _ = std::fs::create_dir_all(dir.join("files"));
                let mut txt = format!(
                    "property {}\nsection {section} case {index} seed {}\n\n{s}\n\nfiles put before the commands:\n",
                    self.prop, self.seed
                );
                for (i, (name, data)) in w.b.puts.iter().enumerate() {
                    txt.push_str(&format!("  files/{i:03}: {name} ({} bytes)\n", data.len()));
                    let _ = std::fs::write(dir.join("files").join(format!("{i:03}")), data);
                }
                txt.push_str("\ncommands:\n");
                for e in &w.b.journal {
                    txt.push_str(&format!(
                        "  {} ti-tools {:?} < {:?}\n    {}\n    stdout: {:?}\n    stderr: {:?}\n",
                        e.note,
                        e.args,
                        String::from_utf8_lossy(&e.stdin),
                        e.status,
                        e.out,
                        e.err
                    ));
                }
                let _ = std::fs::write(dir.join("report.txt"), &txt);
                println!("{}: {}", self.prop, s.chars().take(600).collect::<String>());
                println!("VIOLATION property={} replay={}", self.prop, dir.display());
                st.violations.push((s, dir));
                if st.violations.len() >= MAX_VIOLATIONS {
                    self.stop.store(true, Ordering::Relaxed);
                }
            }
        }
    }
    pub fn violated(&self) -> bool {
        !self.st.lock().unwrap().violations.is_empty()
    }
    pub fn add(&self, k: &str, n: u64) {
        *self.st.lock().unwrap().counts.entry(k.into()).or_default() += n;
    }
    /// writes the evidence file; returns the exit status
    pub fn finish(self, level: &str, rule: &str, assumptions: &[&str], need: &[(&str, usize)]) -> i32 {
        let st = self.st.into_inner().unwrap();
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(st.evals));
        cov.insert("distinct_nontrivial".into(), json!(st.distinct.len()));
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(st.samples));
        cov.insert("processes_run".into(), json!(st.execs));
        cov.insert("monitored_fs_operations".into(), json!(st.ops));
        let secs: Vec<Value> = st
            .sections
            .iter()
            .map(|(n, d, of)| json!({"section": n, "cases": d, "planned": of}))
            .collect();
        cov.insert("sections".into(), json!(secs));
        cov.insert("counts".into(), json!(st.counts));
        let seen: BTreeMap<String, Value> = st
            .seen
            .iter()
            .map(|(k, v)| {
                let n = v.len();
                let v: Vec<&String> = v.iter().take(60).collect();
                (k.clone(), json!({"distinct": n, "first": v}))
            })
            .collect();
        cov.insert("covered".into(), json!(seen));
        if !st.known.is_empty() {
            let k: BTreeMap<&str, Value> =
                st.known.iter().map(|(k, v)| (*k, json!({"cases": v.0, "first": v.1}))).collect();
            cov.insert("known_findings".into(), json!(k));
        }
        if !st.inconclusive.is_empty() {
            cov.insert("inconclusive".into(), json!(st.inconclusive));
        }
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": st.violations.len(),
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        for (k, v) in &st.known {
            println!("KNOWN-FINDING: property={} {k}: {} ({} cases)", self.prop, v.1.replace('\n', "\\n").chars().take(300).collect::<String>(), v.0);
        }
        if !st.violations.is_empty() {
            return 1;
        }
        if st.evals == 0 || st.distinct.is_empty() {
            eprintln!("inconclusive: nothing was observed");
            return 2;
        }
        // a section that could not run in time says nothing
        for (n, d, of) in &st.sections {
            if *d == 0 && *of > 0 {
                eprintln!("inconclusive: section {n} was not reached");
                return 2;
            }
        }
        for (k, min) in need {
            let got = st.seen.get(*k).map(|s| s.len()).unwrap_or(0).max(st.counts.get(*k).copied().unwrap_or(0) as usize);
            if got < *min {
                eprintln!("inconclusive: {k}: {got} seen, at least {min} needed");
                return 2;
            }
        }
        if st.inconclusive.len() as u64 * 20 > st.evals {
            eprintln!("inconclusive: too many cases without a verdict: {:?}", &st.inconclusive[..1]);
            return 2;
        }
        println!("{}: held on {} executions judged ({} distinct), {} processes, {:.1} s", self.prop, st.evals, st.distinct.len(), st.execs, self.start.elapsed().as_secs_f64());
        0
    }
}

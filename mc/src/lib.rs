//! Bounded exhaustive exploration of relp against reference models.
//!
//! A *family* is a finite choice tree: `gen` draws choices from a [`Dec`] and builds a case, `check`
//! runs the real relp code on that case and compares it with the reference model. Every leaf of the
//! tree is visited; nothing is sampled. A leaf is identified by its choice list, which is what a
//! replay file stores.
pub mod grid;
pub mod lp;
pub mod mps;
pub mod pipe;
pub mod provider;
pub mod rat;
pub mod spy;

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Display;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Draws choices. Position `i` of the choice list is the answer to the `i`-th `pick`.
pub struct Dec {
    choices: Vec<u32>,
    radix: Vec<u32>,
    at: usize,
}
impl Dec {
    fn new(choices: Vec<u32>) -> Self { Dec { choices, radix: vec![], at: 0 } }
    /// A number in `0..n`.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let c = if self.at < self.choices.len() { self.choices[self.at] } else { self.choices.push(0); 0 };
        assert!((c as usize) < n, "choice list does not fit this family");
        self.radix.push(n as u32);
        self.at += 1;
        c as usize
    }
    pub fn of<T: Clone>(&mut self, alphabet: &[T]) -> T { alphabet[self.pick(alphabet.len())].clone() }
    pub fn bool(&mut self) -> bool { self.pick(2) == 1 }
    /// Any permutation of `0..n`.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut left: Vec<usize> = (0..n).collect();
        (0..n).map(|i| { let k = self.pick(n - i); left.remove(k) }).collect()
    }
    /// Any subset of `0..n`.
    pub fn subset(&mut self, n: usize) -> Vec<usize> { (0..n).filter(|_| self.bool()).collect() }
}

#[derive(Default, Clone)]
pub struct Tally {
    pub transitions: u64,
    pub validated: u64,
    pub nontrivial: u64,
    pub outcomes: BTreeMap<String, u64>,
    hashes: Vec<u64>,
}
impl Tally {
    /// Record a state (a case, or a state reached within it) by its canonical form.
    pub fn state<K: Hash>(&mut self, key: &K) {
        let mut h = Fnv(0xcbf29ce484222325);
        key.hash(&mut h);
        self.hashes.push(h.finish());
    }
    /// Record the states an execution went through: the case, then one per step.
    pub fn trace<S: Hash>(&mut self, case: &str, steps: &[S]) {
        let mut h = Fnv(0xcbf29ce484222325);
        case.hash(&mut h);
        self.hashes.push(h.finish());
        for s in steps { s.hash(&mut h); self.hashes.push(h.finish()); }
        self.transitions += steps.len() as u64;
    }
    /// Record steps of the implementation that were executed.
    pub fn steps(&mut self, n: usize) { self.transitions += n as u64; }
    /// Record that an implementation trace was compared with the model's.
    pub fn compared(&mut self) { self.validated += 1; }
    pub fn outcome(&mut self, what: impl Into<String>) { *self.outcomes.entry(what.into()).or_insert(0) += 1; }
    fn merge(&mut self, o: Tally) {
        self.transitions += o.transitions;
        self.validated += o.validated;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.outcomes { *self.outcomes.entry(k).or_insert(0) += v; }
    }
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { let mut z = self.0; z ^= z >> 32; z = z.wrapping_mul(0x9E3779B97F4A7C15); z ^ (z >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b { self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3); } }
}

#[derive(Clone, Debug)]
pub struct Violation { pub family: String, pub choices: Vec<u32>, pub case: String, pub msg: String }

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    verif: PathBuf,
    start: Instant,
    budget: Duration,
    case_limit: Duration,
    seen: Arc<Vec<Mutex<HashSet<u64>>>>,
    tally: Tally,
    cases: u64,
    skipped: u64,
    families: Vec<(String, u64, u64, bool, f64)>,
    samples: Vec<String>,
    capped: bool,
    violations: Vec<Violation>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    replay: Option<(String, Vec<u32>)>,
    replayed: bool,
    /// Development aid (MC_SURVEY=1): group all violations by message instead of stopping.
    survey: bool,
    /// MC_LAST=file: holds the case each worker is running, to find the one that ended the process.
    last: Option<Last>,
    surveyed: Mutex<BTreeMap<String, (u64, String, String)>>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Run `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.replace(before));
    r.map_err(|e| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| payload(&*e))
    })
}
fn payload(e: &(dyn Any + Send)) -> String {
    e.downcast_ref::<&str>().map(|s| s.to_string())
        .or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default()
}

/// A file in memory that survives the process: which family runs, and the choices of every worker's case.
struct Last(*mut u32);
unsafe impl Send for Last {}
unsafe impl Sync for Last {}
const LAST_HEAD: usize = 64; // words for the length and name of the family
const LAST_WORKER: usize = 2048; // words for the number of choices and the choices
const LAST_WORKERS: usize = 16;
const IDLE: u32 = u32::MAX;
unsafe extern "C" { fn mmap(at: *mut u8, len: usize, protection: i32, flags: i32, file: i32, offset: i64) -> *mut u8; }
impl Last {
    fn new(file: &str) -> Option<Last> {
        use std::os::fd::AsRawFd;
        let words = LAST_HEAD + LAST_WORKER * LAST_WORKERS;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(file).ok()?;
        f.set_len(4 * words as u64).ok()?;
        let (read_and_write, shared) = (3, 1);
        let at = unsafe { mmap(std::ptr::null_mut(), 4 * words, read_and_write, shared, f.as_raw_fd(), 0) };
        if at as isize == -1 { return None; }
        let last = Last(at as *mut u32);
        for w in 0..LAST_WORKERS { last.end(w); }
        Some(last)
    }
    fn put(&self, at: usize, v: u32) { unsafe { self.0.add(at).write_volatile(v) } }
    fn family(&self, name: &str) {
        let bytes = &name.as_bytes()[..name.len().min(LAST_HEAD - 1)];
        for (k, b) in bytes.iter().enumerate() { self.put(1 + k, *b as u32); }
        self.put(0, bytes.len() as u32);
    }
    fn begin(&self, w: usize, choices: &[u32]) {
        let at = LAST_HEAD + w * LAST_WORKER;
        if choices.len() >= LAST_WORKER { return; }
        for (k, c) in choices.iter().enumerate() { self.put(at + 1 + k, *c); }
        self.put(at, choices.len() as u32);
    }
    fn end(&self, w: usize) { self.put(LAST_HEAD + w * LAST_WORKER, IDLE); }
    /// Write the cases that were running as replay files.
    fn unpack(file: &str, prop: &str, tier: &str, dir: &str) {
        let bytes = std::fs::read(file).unwrap_or_default();
        let words: Vec<u32> = bytes.chunks_exact(4).map(|c| u32::from_ne_bytes(c.try_into().unwrap())).collect();
        if words.len() < LAST_HEAD { return; }
        let family: String = words[1..1 + (words[0] as usize).min(LAST_HEAD - 1)].iter().map(|b| *b as u8 as char).collect();
        for (w, part) in words[LAST_HEAD..].chunks_exact(LAST_WORKER).enumerate() {
            if part[0] as usize >= LAST_WORKER { continue; }
            let list: Vec<String> = part[1..1 + part[0] as usize].iter().map(|c| c.to_string()).collect();
            let _ = std::fs::write(format!("{dir}/{prop}-{w}.txt"), format!("{prop}\n{tier}\n{family}\n{}\n\nends the process\n", list.join(" ")));
        }
    }
}

const STOP_AFTER: usize = 25;
/// Distinct states are counted exactly up to this many; beyond it the count is a lower bound.
const MAX_STATES: usize = 64 << 20;

impl Run {
    fn new(prop: &str, thorough: bool) -> Run {
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")) {
            for l in s.lines() {
                // known: property=P01 match=<text that the failure must contain> || description
                if let Some(rest) = l.strip_prefix(&format!("known: property={prop} match=")) {
                    if let Some((m, d)) = rest.split_once(" || ") { known.push((m.trim().to_string(), d.trim().to_string())); }
                }
            }
        }
        let secs = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
        Run {
            prop: prop.into(), thorough, level: "model_checking", rule: String::new(), assumptions: vec![], verif,
            start: Instant::now(), budget: Duration::from_secs(secs), case_limit: Duration::from_secs(40),
            seen: Arc::new((0..64).map(|_| Mutex::new(HashSet::new())).collect()),
            tally: Tally::default(), cases: 0, skipped: 0, families: vec![], samples: vec![], capped: false,
            violations: vec![], known, known_hit: BTreeMap::new(), replay: None, replayed: false,
            survey: std::env::var("MC_SURVEY").is_ok(), last: std::env::var("MC_LAST").ok().and_then(|f| Last::new(&f)),
            surveyed: Mutex::new(BTreeMap::new()),
        }
    }
    /// Raise the time a single case may take before it counts as not terminating.
    pub fn case_limit(&mut self, secs: u64) { self.case_limit = Duration::from_secs(secs); }

    pub fn explore<C, G, K>(&mut self, family: &str, make: G, check: K)
    where
        C: Display,
        G: Fn(&mut Dec) -> Option<C> + Sync,
        K: Fn(&C, &mut Tally) -> Result<(), String> + Sync,
    {
        let run_case = |case: &C, t: &mut Tally| -> Result<(), String> {
            match guarded(|| check(case, t)) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) }
        };
        if let Some((f, choices)) = &self.replay {
            if f != family { return; }
            self.replayed = true;
            let mut d = Dec::new(choices.clone());
            let Some(case) = make(&mut d) else { println!("replay: this choice list is not a case"); return };
            println!("replay: {family}: {case}");
            let mut t = Tally::default();
            match run_case(&case, &mut t) {
                Ok(()) => println!("replay: property holds on this case"),
                Err(msg) => {
                    println!("replay: {msg}");
                    self.violations.push(Violation { family: family.into(), choices: choices.clone(), case: case.to_string(), msg });
                }
            }
            return;
        }
        if self.violations.len() >= STOP_AFTER { return; }
        if std::env::var("MC_ONLY").is_ok_and(|o| !family.contains(&o)) { return; }
        if let Some(l) = &self.last { l.family(family); }
        let began = Instant::now();
        let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
        // Split the choice tree into prefixes.
        let mut prefixes: Vec<(Vec<u32>, bool)> = vec![(vec![], false)];
        while prefixes.len() < threads * 96 && prefixes.iter().any(|p| !p.1) {
            let mut next = Vec::with_capacity(prefixes.len() * 4);
            for (p, leaf) in prefixes {
                if leaf { next.push((p, true)); continue; }
                let mut d = Dec::new(p.clone());
                let _ = make(&mut d);
                if d.radix.len() <= p.len() { next.push((p, true)); continue; }
                for c in 0..d.radix[p.len()] { let mut q = p.clone(); q.push(c); next.push((q, false)); }
            }
            prefixes = next;
        }
        let cursor = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let known_hit: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let total: Mutex<(Tally, u64, u64)> = Mutex::new((Tally::default(), 0, 0));
        let first: Mutex<Option<(Vec<u32>, String)>> = Mutex::new(None);
        let last: Mutex<Option<(Vec<u32>, String)>> = Mutex::new(None);
        let beats: Vec<(AtomicU64, Mutex<Vec<u32>>)> = (0..threads).map(|_| (AtomicU64::new(0), Mutex::new(vec![]))).collect();
        let t0 = Instant::now();
        let deadline = self.start + self.budget;
        let done = AtomicBool::new(false);
        let seen = self.seen.clone();
        let me: &Run = self;
        std::thread::scope(|sc| {
            // Watchdog: a case that does not finish, or eats all memory, is a violation.
            let (beats, done, make, found) = (&beats, &done, &make, &found);
            let limit = me.case_limit.as_millis() as u64;
            sc.spawn(move || {
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = t0.elapsed().as_millis() as u64 + 1;
                    let rss = std::fs::read_to_string("/proc/self/statm").ok()
                        .and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok())).unwrap_or(0) * 4096;
                    let huge = rss > 20 << 30;
                    let oldest = beats.iter().map(|b| (b.0.load(SeqCst), b)).filter(|b| b.0 != 0).min_by_key(|b| b.0);
                    if let Some((since, b)) = oldest {
                        let age = now.saturating_sub(since);
                        if age > limit || (huge && age > 3000) {
                            let choices = b.1.lock().unwrap().clone();
                            let case = make(&mut Dec::new(choices.clone())).map_or(String::new(), |c| c.to_string());
                            let msg = if huge { "does not terminate: exhausts memory".to_string() }
                                else { format!("does not terminate within {} s", limit / 1000) };
                            let mut all = found.lock().unwrap().clone();
                            all.insert(0, Violation { family: family.into(), choices, case, msg });
                            me.abort_with(all);
                        }
                    }
                }
            });
            let workers: Vec<_> = (0..threads).map(|w| {
                let (cursor, stop, capped, total, first, last, known_hit) = (&cursor, &stop, &capped, &total, &first, &last, &known_hit);
                let (prefixes, run_case, seen) = (&prefixes, &run_case, &seen);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut t = Tally::default();
                    let (mut cases, mut skipped) = (0u64, 0u64);
                    'work: loop {
                        let i = cursor.fetch_add(1, SeqCst);
                        if i >= prefixes.len() { break; }
                        let fixed = prefixes[i].0.len();
                        let mut choices = prefixes[i].0.clone();
                        loop {
                            if stop.load(SeqCst) { break 'work; }
                            if Instant::now() > deadline { capped.store(true, SeqCst); break 'work; }
                            let mut d = Dec::new(std::mem::take(&mut choices));
                            let case = make(&mut d);
                            d.choices.truncate(d.at);
                            match case {
                                None => skipped += 1,
                                Some(case) => {
                                    cases += 1;
                                    beats[w].1.lock().unwrap().clone_from(&d.choices);
                                    beats[w].0.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                    if let Some(l) = &me.last { l.begin(w, &d.choices); }
                                    let r = run_case(&case, &mut t);
                                    beats[w].0.store(0, SeqCst);
                                    if let Some(l) = &me.last { l.end(w); }
                                    if t.hashes.is_empty() { t.state(&case.to_string()); }
                                    {
                                        for h in t.hashes.drain(..) {
                                            let mut s = seen[(h >> 58) as usize].lock().unwrap();
                                            if s.len() < MAX_STATES / 64 { s.insert(h); }
                                        }
                                    }
                                    {
                                        let mut f = first.lock().unwrap();
                                        if f.as_ref().is_none_or(|f| d.choices < f.0) { *f = Some((d.choices.clone(), case.to_string())); }
                                    }
                                    if cases % 1024 == 1 || prefixes.len() < 5000 {
                                        let mut f = last.lock().unwrap();
                                        if f.as_ref().is_none_or(|f| d.choices > f.0) { *f = Some((d.choices.clone(), case.to_string())); }
                                    }
                                    if let (Err(msg), true) = (&r, me.survey) {
                                        let key: String = format!("{family}: {}", msg.split(" [").next().unwrap()).chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
                                        let mut g = me.surveyed.lock().unwrap();
                                        let e = g.entry(key.replace("##", "#")).or_insert((0, case.to_string(), msg.clone()));
                                        e.0 += 1;
                                        let s = case.to_string();
                                        if s.len() < e.1.len() { e.1 = s; e.2 = msg.clone(); }
                                    } else if let Err(msg) = r {
                                        let v = Violation { family: family.into(), choices: d.choices.clone(), case: case.to_string(), msg };
                                        let text = format!("{}: {} => {}", v.family, v.case, v.msg);
                                        if let Some((_, desc)) = me.known.iter().find(|(m, _)| text.contains(m.as_str())) {
                                            known_hit.lock().unwrap().entry(desc.clone()).or_insert(text);
                                        } else {
                                            let mut f = found.lock().unwrap();
                                            f.push(v);
                                            if f.len() >= STOP_AFTER { stop.store(true, SeqCst); }
                                        }
                                    }
                                }
                            }
                            // Next leaf under this prefix.
                            let mut c = d.choices;
                            let radix = d.radix;
                            let mut k = c.len();
                            while k > fixed && c[k - 1] + 1 >= radix[k - 1] { k -= 1; }
                            if k <= fixed { break; }
                            c[k - 1] += 1;
                            c.truncate(k);
                            choices = c;
                        }
                    }
                    let mut g = total.lock().unwrap();
                    g.0.merge(t);
                    g.1 += cases;
                    g.2 += skipped;
                }).unwrap()
            }).collect();
            for w in workers { w.join().unwrap(); }
            done.store(true, SeqCst);
        });
        let (t, cases, skipped) = total.into_inner().unwrap();
        self.tally.merge(t);
        self.cases += cases;
        self.skipped += skipped;
        let capped = capped.into_inner();
        self.capped |= capped;
        let secs = began.elapsed().as_secs_f64();
        println!("{}: family {family}: {cases} cases, {skipped} pruned{} ({secs:.1} s)", self.prop, if capped { ", CAPPED by the time budget" } else { "" });
        self.families.push((family.into(), cases, skipped, !capped, secs));
        for s in [first.into_inner().unwrap(), last.into_inner().unwrap()].into_iter().flatten() {
            let mut s = s.1;
            if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str("..."); }
            let s = format!("{family}: {s}");
            if !self.samples.contains(&s) && self.samples.len() < 24 { self.samples.push(s); }
        }
        let mut found = found.into_inner().unwrap();
        found.sort_by(|a, b| (a.case.len(), &a.choices).cmp(&(b.case.len(), &b.choices)));
        self.violations.extend(found);
        self.known_hit.extend(known_hit.into_inner().unwrap());
    }
    fn abort_with(&self, found: Vec<Violation>) -> ! {
        let code = self.report(&found, true);
        std::process::exit(code);
    }
    fn write_evidence(&self, violations: usize, capped: bool) {
        let states: usize = self.seen.iter().map(|s| s.lock().unwrap().len()).sum();
        let j = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
                    c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let fam: Vec<String> = self.families.iter().map(|(n, c, s, full, secs)|
            format!("{{\"family\":{},\"cases\":{c},\"pruned\":{s},\"complete\":{full},\"wall_s\":{secs:.2}}}", j(n))).collect();
        let out: Vec<String> = self.tally.outcomes.iter().map(|(k, v)| format!("{}:{v}", j(k))).collect();
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let s = format!(
            "{{\n \"property\":{},\n \"tier\":\"{}\",\n \"seed\":{seed},\n \"level\":\"{}\",\n \"coverage\":{{\n  \"states\":{states},\n  \"transitions\":{},\n  \"traces_validated_against_impl\":{},\n  \"evaluations\":{},\n  \"pruned\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":{},\n  \"exhaustive\":{},\n  \"families\":[{}],\n  \"outcomes\":{{{}}},\n  \"known_findings_hit\":[{}],\n  \"samples\":[{}]\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{violations}\n}}\n",
            j(&self.prop), if self.thorough { "thorough" } else { "quick" }, self.level,
            self.tally.transitions, self.tally.validated, self.cases, self.skipped, self.tally.nontrivial, j(&self.rule),
            !(self.capped || capped), fam.join(","), out.join(","),
            self.known_hit.keys().map(|k| j(k)).collect::<Vec<_>>().join(","),
            self.samples.iter().map(|k| j(k)).collect::<Vec<_>>().join(","),
            self.assumptions.iter().map(|k| j(k)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64());
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), s) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(3);
        }
    }
    fn report(&self, extra: &[Violation], capped: bool) -> i32 {
        let all: Vec<&Violation> = self.violations.iter().chain(extra).collect();
        if self.replay.is_some() { return if all.is_empty() { 0 } else { 1 }; }
        self.write_evidence(all.len(), capped);
        for (desc, ex) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {desc} (e.g. {ex})", self.prop);
        }
        let dir = self.verif.join("replays");
        for (i, v) in all.iter().enumerate() {
            if i >= 5 { println!("... and {} more", all.len() - 5); break; }
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{i}.txt", self.prop));
            let list: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
            let _ = std::fs::write(&path, format!("{}\n{}\n{}\n{}\n{}\n{}\n", self.prop, if self.thorough { "thorough" } else { "quick" }, v.family, list.join(" "), v.case, v.msg));
            println!("{}: {}: {} => {}", self.prop, v.family, v.case, v.msg);
            println!("VIOLATION property={} replay={}", self.prop, path.display());
        }
        if all.is_empty() { 0 } else { 1 }
    }
}

pub type Check = fn(&mut Run);

/// `<bin> <property> <quick|thorough>` or `<bin> replay <file>`.
pub fn main(checks: &[(&str, Check)]) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let what = payload_info(info);
        if QUIET.with(|q| *q.borrow()) {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{what}{at}")));
        } else {
            eprintln!("engine panic: {what}{at}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! { eprintln!("usage: {} <property> <quick|thorough> | replay <file>", args[0]); std::process::exit(2) };
    if args.len() < 3 { usage(); }
    if args[1] == "last" {
        if let [_, _, prop, tier, file, dir] = &args[..] { Last::unpack(file, prop, tier, dir); }
        std::process::exit(0);
    }
    let (prop, thorough, replay) = if args[1] == "replay" {
        let s = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(2) });
        let l: Vec<&str> = s.lines().collect();
        let choices = l[3].split_whitespace().map(|c| c.parse().unwrap()).collect();
        (l[0].to_string(), l[1] == "thorough", Some((l[2].to_string(), choices)))
    } else { (args[1].clone(), args[2] == "thorough", None) };
    let Some((_, f)) = checks.iter().find(|c| c.0 == prop) else { usage() };
    let mut run = Run::new(&prop, thorough);
    run.replay = replay;
    if catch_unwind(AssertUnwindSafe(|| f(&mut run))).is_err() { std::process::exit(3); }
    if run.replay.is_some() && !run.replayed { println!("replay: no such family"); std::process::exit(2); }
    if run.survey {
        for (_, (n, case, msg)) in run.surveyed.lock().unwrap().iter() { println!("SURVEY {n} x {msg}\n      e.g. {case}"); }
    }
    let code = run.report(&[], false);
    println!("{}: {} cases, {} pruned, {:.1} s, exit {code}", run.prop, run.cases, run.skipped, run.start.elapsed().as_secs_f64());
    for (k, v) in run.tally.outcomes.iter().take(40) { println!("{}:   {k}: {v}", run.prop); }
    std::process::exit(code);
}
fn payload_info(info: &std::panic::PanicHookInfo) -> String { payload(info.payload()) }

//! A small property-based testing engine: every random decision is one entry of a
//! "choice tape"; shrinking edits the tape and replays it, so all generators shrink for free.
//! Value 0 of every choice is the simplest one.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E3779B97F4A7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &c in b {
        h ^= c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Source of choices.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    /// A number in 0..n.
    pub fn u(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match self.rng.as_mut() {
            Some(r) => {
                let v = r.next() % n;
                self.tape.push(v);
                v
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
        };
        self.pos += 1;
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.u(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.u(hi - lo + 1)
    }
    pub fn usr(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den; false is the simple value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// A small count, biased to small values, in lo..=hi.
    pub fn count(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo + 1;
        match self.u(4) {
            0 | 1 => lo + self.us(span.min(3)),
            2 => lo + self.us(span.min(6)),
            _ => lo + self.us(span),
        }
    }
    pub fn byte(&mut self) -> u8 {
        self.u(256) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn used(&self) -> Vec<u64> {
        let n = self.pos.min(self.tape.len());
        self.tape[..n].to_vec()
    }
}

/// What a case reports.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Human-readable description of the case.
    pub sample: String,
    /// Input artifacts, saved with a failure (name, bytes).
    pub artifacts: Vec<(String, Vec<u8>)>,
    /// Hash identifying the generated case.
    pub key: u64,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn artifact(&mut self, name: &str, data: &[u8]) {
        self.key = self.key.rotate_left(7) ^ hash_bytes(name.as_bytes()) ^ hash_bytes(data);
        if self.artifacts.len() < 40 && data.len() < (8 << 20) {
            self.artifacts.push((name.to_string(), data.to_vec()));
        }
    }
    pub fn note(&mut self, s: &str) {
        self.key = self.key.rotate_left(7) ^ hash_bytes(s.as_bytes());
        if !self.sample.is_empty() {
            self.sample.push_str("; ");
        }
        self.sample.push_str(s);
    }
}

/// Err = violation (message).
pub type Verdict = Result<(), String>;

pub struct Ctx {
    /// Scratch directory of this worker; emptied before every case.
    pub dir: PathBuf,
    pub bin: PathBuf,
    pub thorough: bool,
    pub seed: u64,
}

pub type CheckFn = fn(&mut Src, &Ctx, &mut Case) -> Verdict;

pub struct Prop {
    pub id: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: CheckFn,
    /// share of labels that must appear (self-check of generator health), (label, min count in quick)
    pub expect: &'static [(&'static str, usize)],
    pub workers: usize,
}

thread_local! {
    pub static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}");
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(m));
    }));
}

pub fn reset_dir(d: &Path) {
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d).unwrap();
}

/// "known:" entries of the known-findings file: (property, key, text).
pub static KNOWN: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
static KNOWN_SEEN: Mutex<std::collections::BTreeSet<usize>> = Mutex::new(std::collections::BTreeSet::new());

pub fn load_known(verif: &Path) {
    let text = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let v = text
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(' ')?;
            let (key, text) = rest.strip_prefix("key=")?.split_once(' ')?;
            Some((id.to_string(), key.to_string(), text.to_string()))
        })
        .collect();
    let _ = KNOWN.set(v);
}

/// A violation of the form "known(KEY): ..." that the known-findings file lists.
fn is_known(id: &str, m: &str) -> bool {
    let Some((key, _)) = m.strip_prefix("known(").and_then(|r| r.split_once(')')) else { return false };
    let Some(i) = KNOWN.get().and_then(|k| k.iter().position(|x| x.0 == id && x.1 == key)) else { return false };
    KNOWN_SEEN.lock().unwrap().insert(i);
    true
}

fn print_known() {
    let k = KNOWN.get().cloned().unwrap_or_default();
    for i in KNOWN_SEEN.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", k[*i].0, k[*i].2);
    }
}

enum Res {
    Pass,
    Fail(String),
    /// a panic of the harness itself
    Broken(String),
}

fn run_once(p: &Prop, ctx: &Ctx, src: &mut Src, case: &mut Case) -> Res {
    reset_dir(&ctx.dir);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(src, ctx, case)));
    match r {
        Ok(Ok(())) => Res::Pass,
        Ok(Err(m)) if is_known(p.id, &m) => Res::Pass,
        Ok(Err(m)) => Res::Fail(m),
        Err(_) => Res::Broken(
            PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "harness panic".into()),
        ),
    }
}

fn shrink(p: &Prop, ctx: &Ctx, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let start = Instant::now();
    let budget = Duration::from_secs(if std::env::var_os("VP_NOSHRINK").is_some() { 0 } else if ctx.thorough { 180 } else { 45 });
    let max = 3000;
    let mut execs = 0;
    let mut best = tape;
    let mut best_msg = msg;
    let mut try_tape = |t: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if execs >= max || start.elapsed() > budget {
            return false;
        }
        execs += 1;
        let mut src = Src::replay(t);
        let mut case = Case::default();
        if let Res::Fail(m) = run_once(p, ctx, &mut src, &mut case) {
            let used = src.used();
            let weight = |t: &[u64]| (t.len(), t.iter().map(|v| *v as u128).sum::<u128>());
            if weight(&used) < weight(best) {
                *best = used;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut t = best.clone();
                let end = (i + size).min(t.len());
                t.drain(i..end);
                if !try_tape(t, &mut best, &mut best_msg) {
                    i += size;
                }
                if start.elapsed() > budget {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&v| v != 0) {
                    let mut t = best.clone();
                    t[i..end].iter_mut().for_each(|v| *v = 0);
                    try_tape(t, &mut best, &mut best_msg);
                }
                i += size;
                if start.elapsed() > budget {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            let mut hi = best[i];
            while lo < hi && start.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if try_tape(t, &mut best, &mut best_msg) && i < best.len() {
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
                if i >= best.len() {
                    break;
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            break;
        }
    }
    (best, best_msg)
}

pub struct Found {
    pub tape: Vec<u64>,
    pub msg: String,
    pub case_seed: u64,
}

#[derive(Default)]
struct Stats {
    evals: usize,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, usize>,
    samples: Vec<(u64, String)>,
}

pub struct Options {
    pub verif: PathBuf,
    pub bin: PathBuf,
    pub scratch: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<usize>,
    pub wall: Duration,
}

/// Runs a check; returns the process exit code.
pub fn check(p: &Prop, o: &Options) -> i32 {
    let t0 = Instant::now();
    let n = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let stats = Mutex::new(Stats::default());
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let workers = if p.workers == 0 { cores.clamp(2, 16) } else { p.workers };
    let base = hash_bytes(p.id.as_bytes()) ^ o.seed.wrapping_mul(0x9E3779B97F4A7C15);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, stop, found, broken, stats) = (&next, &stop, &found, &broken, &stats);
            s.spawn(move || {
                let ctx = Ctx {
                    dir: o.scratch.join(format!("w{w}")),
                    bin: o.bin.clone(),
                    thorough: o.thorough,
                    seed: o.seed,
                };
                loop {
                    if stop.load(Ordering::SeqCst) || t0.elapsed() > o.wall {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let cs = Rng::new(base ^ (i as u64).wrapping_mul(0xD1342543DE82EF95)).next();
                    let mut src = Src::random(cs);
                    let mut case = Case::default();
                    let r = run_once(p, &ctx, &mut src, &mut case);
                    {
                        let mut st = stats.lock().unwrap();
                        st.evals += 1;
                        if case.nontrivial {
                            st.nontrivial.insert(case.key);
                        }
                        for l in &case.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        if case.nontrivial && st.samples.len() < 400 {
                            st.samples.push((i as u64, case.sample.clone()));
                        }
                    }
                    match r {
                        Res::Pass => {}
                        Res::Broken(m) => {
                            *broken.lock().unwrap() = Some(format!("case seed {cs}: {m}"));
                            stop.store(true, Ordering::SeqCst);
                        }
                        Res::Fail(m) => {
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some(Found { tape: src.used(), msg: m, case_seed: cs });
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
                let _ = std::fs::remove_dir_all(&ctx.dir);
            });
        }
    });
    let st = stats.into_inner().unwrap();
    print_known();
    let found = found.into_inner().unwrap();
    if let Some(m) = broken.into_inner().unwrap() {
        eprintln!("harness error in {}: {m}", p.id);
        if found.is_none() {
            return 2;
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = found {
        violations = 1;
        code = 1;
        let ctx = Ctx {
            dir: o.scratch.join("shrink"),
            bin: o.bin.clone(),
            thorough: o.thorough,
            seed: o.seed,
        };
        // whatever happens while shrinking, the violation is reported
        let small = std::panic::catch_unwind(|| shrink(p, &ctx, f.tape.clone(), f.msg.clone()));
        let (tape, msg) = small.unwrap_or((f.tape, f.msg));
        let path = save_replay(p, o, &ctx, &tape, &msg, f.case_seed);
        println!("property {} is violated: {}", p.id, first_lines(&msg, 30));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        let _ = std::fs::remove_dir_all(&ctx.dir);
    }
    let mut samples: Vec<&(u64, String)> = st.samples.iter().collect();
    samples.sort();
    let step = (samples.len() / 8).max(1);
    let samples: Vec<Value> = samples
        .iter()
        .step_by(step)
        .take(8)
        .map(|(i, s)| json!(format!("case {i}: {}", clip(s, 1200))))
        .collect();
    let ev = json!({
        "property": p.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "labels": st.labels.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evdir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1}s, labels {:?}",
        p.id, st.evals, st.nontrivial.len(), violations, t0.elapsed().as_secs_f64(), st.labels
    );
    if code == 0 {
        if st.evals < n {
            eprintln!("note: wall limit reached after {} of {} cases", st.evals, n);
        }
        if !o.thorough && o.cases.is_none() && st.evals == n {
            for (l, m) in p.expect {
                let got = st.labels.get(l).copied().unwrap_or(0);
                if got < *m {
                    eprintln!("note: generator label {l}: {got} < {m}");
                }
            }
        }
    }
    code
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

fn first_lines(s: &str, n: usize) -> String {
    s.lines().take(n).collect::<Vec<_>>().join("\n")
}

fn save_replay(p: &Prop, o: &Options, ctx: &Ctx, tape: &[u64], msg: &str, cs: u64) -> PathBuf {
    let h = hash_bytes(&tape.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>());
    let dir = o.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", p.id, h));
    // regenerate to collect the artifacts of the minimal case
    let mut src = Src::replay(tape.to_vec());
    let mut case = Case::default();
    let _ = run_once(p, ctx, &mut src, &mut case);
    let adir = dir.join(format!("{}-{:016x}", p.id, h));
    let _ = std::fs::create_dir_all(&adir);
    let mut names = Vec::new();
    for (n, d) in &case.artifacts {
        let safe: String =
            n.chars().map(|c| if c.is_ascii_alphanumeric() || ".-_".contains(c) { c } else { '_' }).collect();
        let f = adir.join(&safe);
        let _ = std::fs::write(&f, d);
        names.push(f.display().to_string());
    }
    let v = json!({
        "property": p.id, "tape": tape, "seed": o.seed, "case_seed": cs,
        "message": msg, "case": case.sample, "artifacts": names,
        "how_to_replay": format!("cd /verif && ./check.sh replay {}", path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

pub fn replay(p: &Prop, o: &Options, tape: Vec<u64>) -> i32 {
    let ctx = Ctx { dir: o.scratch.join("replay"), bin: o.bin.clone(), thorough: o.thorough, seed: o.seed };
    let mut src = Src::replay(tape);
    let mut case = Case::default();
    let r = run_once(p, &ctx, &mut src, &mut case);
    println!("case: {}", case.sample);
    print_known();
    match r {
        Res::Pass => {
            println!("{}: replay passes", p.id);
            0
        }
        Res::Fail(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay=(this file)", p.id);
            1
        }
        Res::Broken(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

//! The search engine: recorded choice sequences, parallel seeded search, shrinking, replay files and evidence.
//!
//! Every random decision of a case is a call to [`Source::draw`]; the recorded sequence of answers *is* the case.
//! The same property function therefore runs from a seeded PRNG, from a shrunk or saved sequence, and from bytes
//! supplied by a coverage-guided fuzzer.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- choice source

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

enum Mode {
    Rng(u64),
    Replay(Vec<u64>, usize),
    Bytes(Vec<u8>, usize),
}

pub struct Source {
    mode: Mode,
    pub rec: Vec<u64>,
    /// When set, every choice is also written here at once, so that it survives the death of the process.
    dump: Option<std::fs::File>,
}

impl Source {
    pub fn rng(seed: u64) -> Self {
        Source { mode: Mode::Rng(seed), rec: Vec::new(), dump: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Source { mode: Mode::Replay(choices, 0), rec: Vec::new(), dump: None }
    }
    pub fn bytes(data: &[u8]) -> Self {
        Source { mode: Mode::Bytes(data.to_vec(), 0), rec: Vec::new(), dump: None }
    }
    /// A value in `0..=max`. 0 is always the simplest answer.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Rng(s) => {
                *s = s.wrapping_add(0x9E3779B97F4A7C15);
                let r = mix(*s);
                if max == u64::MAX { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 }
            }
            Mode::Replay(c, p) => {
                let v = c.get(*p).copied().unwrap_or(0);
                *p += 1;
                v.min(max)
            }
            Mode::Bytes(b, p) => {
                let width = if max < 0x100 { 1 } else if max < 0x1_0000 { 2 } else if max < 0x1_0000_0000 { 4 } else { 8 };
                let mut v = 0u64;
                for i in 0..width {
                    v |= (b.get(*p + i).copied().unwrap_or(0) as u64) << (8 * i);
                }
                *p += width;
                if max == u64::MAX { v } else { v % (max + 1) }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.dump {
            use std::io::Write;
            f.write_all(&v.to_le_bytes()).expect("dump");
        }
        v
    }
    /// A value in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo)
    }
    /// True with probability `percent`/100; 0 (false) is the simple answer.
    pub fn chance(&mut self, percent: u64) -> bool {
        self.draw(99) >= 100 - percent
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w { return i; }
            v -= w;
        }
        weights.len() - 1
    }
    /// Should a list that already has `len` elements get one more? (geometric with mean `avg`)
    pub fn more(&mut self, len: usize, min: usize, max: usize, avg: u64) -> bool {
        if len < min { return true; }
        if len >= max { return false; }
        // stop with probability 1/(avg+1)
        self.draw(avg) > 0
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(u64::MAX)
    }
}

// ---------------------------------------------------------------- property context

#[derive(Default, Clone)]
pub struct Cx {
    pub verbose: bool,
    pub thorough: bool,
    /// Number of checks evaluated inside this case (for cases that enumerate sub-cases).
    pub evals: u64,
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub notes: Vec<String>,
    /// Known findings that this case ran into (id text), allowed by the known-findings file.
    pub known: Vec<String>,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c { self.label(l) }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let mut s = f();
            if s.len() > 6000 {
                let mut cut = 6000;
                while !s.is_char_boundary(cut) { cut -= 1; }
                s.truncate(cut);
                s.push_str(" ...");
            }
            self.notes.push(s);
        }
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err(format!($($arg)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub run: fn(&mut Source, &mut Cx) -> Res,
    /// Cases in the quick and thorough tiers.
    pub quick: u64,
    pub thorough: u64,
    /// Plain regression checks that bypass the generators.
    pub regress: fn() -> Vec<(&'static str, fn(&mut Cx) -> Res)>,
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn harness_location(loc: &str) -> bool {
    // The harness is compiled with relative paths ("src/..."), the library with "/repo/src/...".
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

pub enum Outcome {
    Ok,
    Fail(String),
    /// A defect of the harness itself.
    Harness(String),
}

pub fn guarded(f: impl FnOnce() -> Res) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => match e.strip_prefix("HARNESS:") {
            Some(h) => Outcome::Harness(h.to_string()),
            None => Outcome::Fail(e),
        },
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if let Some(m) = msg.strip_prefix("RUNAWAY: ") {
                Outcome::Fail(m.to_string())
            } else if harness_location(&loc) {
                Outcome::Harness(format!("panic in the harness at {loc}: {msg}"))
            } else {
                Outcome::Fail(format!("panic in library code at {loc}: {msg}"))
            }
        }
    }
}

fn run_case(p: &Property, mut src: Source, cx: &mut Cx) -> (Outcome, Vec<u64>) {
    let out = guarded(|| (p.run)(&mut src, cx));
    (out, std::mem::take(&mut src.rec))
}

// ---------------------------------------------------------------- shrinking

/// Reduces a failing choice sequence: shorter first, then smaller values.
pub fn shrink(p: &Property, thorough: bool, start: Vec<u64>, budget: u64) -> Vec<u64> {
    shrink_with(start, budget, &mut |cand| {
        let mut cx = Cx { thorough, ..Cx::default() };
        enter(8, RunningCase::Choices(cand.to_vec()));
        let (out, rec) = run_case(p, Source::replay(cand.to_vec()), &mut cx);
        leave(8);
        matches!(out, Outcome::Fail(_)).then_some(rec)
    })
}

/// `fails` runs a candidate and returns the choices it consumed if it still fails.
pub fn shrink_with(start: Vec<u64>, budget: u64, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut tries = 0u64;
    let mut best = start;
    let mut test = |cand: &Vec<u64>, tries: &mut u64| -> Option<Vec<u64>> {
        *tries += 1;
        fails(cand)
    };
    // normalise
    if let Some(r) = test(&best, &mut tries) {
        if r.len() <= best.len() { best = r; }
    } else {
        return best;
    }
    loop {
        let before = best.clone();
        // 1. delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && tries < budget {
            let mut i = best.len();
            while i > 0 && tries < budget {
                let lo = i.saturating_sub(size);
                let mut cand = best.clone();
                cand.drain(lo..i.min(cand.len()));
                match test(&cand, &mut tries) {
                    Some(r) if smaller(&r, &best) => { best = r; i = lo.min(best.len()); }
                    _ => { i = lo; }
                }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // 2. zero blocks, then minimise single values
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i < best.len() && tries < budget {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..hi].iter_mut().for_each(|v| *v = 0);
                    if let Some(r) = test(&cand, &mut tries) {
                        if smaller(&r, &best) { best = r; }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && tries < budget {
            let v = best[i];
            if v != 0 {
                let mut lo = 0u64; // smallest value not yet excluded
                let mut hi = v;
                // try 0 first, then binary search
                let mut cand = best.clone();
                cand[i] = 0;
                let mut done = false;
                if let Some(r) = test(&cand, &mut tries) {
                    if smaller(&r, &best) { best = r; done = true; }
                }
                while !done && hi - lo > 1 && tries < budget {
                    let mid = lo + (hi - lo) / 2;
                    let mut cand = best.clone();
                    if i >= cand.len() { break; }
                    cand[i] = mid;
                    match test(&cand, &mut tries) {
                        Some(r) if smaller(&r, &best) => { best = r; hi = mid; }
                        _ => lo = mid,
                    }
                }
                // lower a count and delete what follows it
                if !done && i < best.len() && best[i] > 0 {
                    for del in [1usize, 2, 4] {
                        if i + 1 + del > best.len() || tries >= budget { break; }
                        let mut cand = best.clone();
                        cand[i] -= 1;
                        cand.drain(i + 1..i + 1 + del);
                        if let Some(r) = test(&cand, &mut tries) {
                            if smaller(&r, &best) { best = r; break; }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || tries >= budget { return best; }
    }
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

// ---------------------------------------------------------------- JSON

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- watchdog and running cases

/// A case that runs longer than this does not terminate for practical purposes: cases normally take milliseconds.
/// That is an inconclusive run (exit 2), except for the property that is about bounded work, where a case that has
/// used `CPU_LIMIT_S` of its own processor time, four orders of magnitude above the norm, counts as a runaway.
const CASE_LIMIT_S: u64 = 120;
const CPU_LIMIT_S: u64 = 60;

#[derive(Clone)]
struct Running { since: std::time::Instant, cpu: f64, tid: u64, what: RunningCase }
#[derive(Clone)]
enum RunningCase { Seed(u64), Choices(Vec<u64>), Regression(&'static str), Corpus(u64, std::path::PathBuf) }

static RUNNING: [Mutex<Option<Running>>; 9] = [const { Mutex::new(None) }; 9];
/// The cases that are running, for the supervisor: 9 slots of a kind byte, 8 bytes of seed.
static SLOTS: std::sync::OnceLock<(std::fs::File, String)> = std::sync::OnceLock::new();

thread_local! {
    static TID: u64 = std::fs::read_link("/proc/thread-self").ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|f| f.parse().ok()))).unwrap_or(0);
}

/// Processor seconds used by a thread of this process.
fn cpu_of(tid: u64) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return 0.0 };
    let Some(rest) = s.rfind(')').map(|i| &s[i + 1..]) else { return 0.0 };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

pub fn set_slots(path: &str) {
    let f = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(path).expect("slots file");
    let _ = SLOTS.set((f, path.to_string()));
}

fn publish(slot: usize, kind: u8, value: u64) {
    use std::os::unix::fs::FileExt;
    if let Some((f, _)) = SLOTS.get() {
        let mut b = [0u8; 9];
        b[0] = kind;
        b[1..].copy_from_slice(&value.to_le_bytes());
        f.write_all_at(&b, slot as u64 * 9).expect("slots file");
    }
}

fn enter(slot: usize, what: RunningCase) {
    match &what {
        RunningCase::Seed(s) => publish(slot, 1, *s),
        RunningCase::Corpus(n, _) => publish(slot, 4, *n),
        RunningCase::Choices(c) => {
            if let Some((_, path)) = SLOTS.get() {
                let bytes: Vec<u8> = c.iter().flat_map(|v| v.to_le_bytes()).collect();
                std::fs::write(format!("{path}.choices"), bytes).expect("choices file");
            }
            publish(slot, 2, 0)
        }
        RunningCase::Regression(n) => {
            if let Some((_, path)) = SLOTS.get() { std::fs::write(format!("{path}.regression"), n).expect("regression file"); }
            publish(slot, 3, 0)
        }
    }
    let tid = TID.with(|t| *t);
    // The processor time is only needed for cases that take long; reading it for each would cost more than the case.
    *RUNNING[slot].lock().unwrap() = Some(Running { since: std::time::Instant::now(), cpu: f64::NAN, tid, what });
}
fn leave(slot: usize) {
    publish(slot, 0, 0);
    *RUNNING[slot].lock().unwrap() = None;
}

/// Ends the process when a case does not come back.
fn start_watchdog(id: &'static str, seed: u64, thorough: bool, root: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        for r in &RUNNING {
            let stuck = {
                let mut r = r.lock().unwrap();
                if let Some(x) = r.as_mut() {
                    if x.cpu.is_nan() && x.since.elapsed().as_secs() >= 2 { x.cpu = cpu_of(x.tid); }
                }
                r.clone()
            };
            let Some(x) = stuck else { continue };
            let used = if x.cpu.is_nan() { 0.0 } else { cpu_of(x.tid) - x.cpu };
            let runaway = id == "C10" && used > CPU_LIMIT_S as f64;
            if !runaway && x.since.elapsed().as_secs() <= CASE_LIMIT_S { continue; }
            let msg = format!("a call did not return after {} s ({used:.0} s of processor time)", x.since.elapsed().as_secs());
            let opt = Options { seed, thorough, cases: None, root: root.clone(), shrink_budget: 0, corpus: None, fuzz_runs: 0 };
            let text = match x.what {
                RunningCase::Seed(s) => seed_json(id, seed, thorough, &msg, s),
                RunningCase::Corpus(_, p) => bytes_json(id, seed, thorough, &msg, &p),
                RunningCase::Choices(c) => replay_json(id, seed, thorough, &msg, &c, None, &[]),
                RunningCase::Regression(n) => replay_json(id, seed, thorough, &msg, &[], Some(n), &[]),
            };
            let path = write_replay(&opt, id, &text);
            if runaway {
                println!("{msg}");
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
            eprintln!("inconclusive: {msg}; the case is in {path}");
            std::process::exit(2);
        }
    });
}

fn seed_json(id: &str, seed: u64, thorough: bool, msg: &str, case_seed: u64) -> String {
    replay_json(id, seed, thorough, msg, &[], None, &[]).replacen("\"choices\"", &format!("\"case_seed\": {case_seed},\n  \"choices\""), 1)
}

fn bytes_json(id: &str, seed: u64, thorough: bool, msg: &str, input: &std::path::Path) -> String {
    let hex: String = std::fs::read(input).unwrap_or_default().iter().map(|b| format!("{b:02x}")).collect();
    replay_json(id, seed, thorough, msg, &[], None, &[]).replacen("\"choices\"", &format!("\"case_bytes\": \"{hex}\",\n  \"choices\""), 1)
}

/// The inputs that a coverage-guided fuzzer has kept, in a fixed order.
fn corpus(opt: &Options) -> Vec<std::path::PathBuf> {
    let mut files = Vec::new();
    let mut dirs: Vec<std::path::PathBuf> = opt.corpus.iter().map(|d| d.into()).collect();
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() { dirs.push(e.path()) } else { files.push(e.path()) }
        }
    }
    files.sort();
    files
}

// ---------------------------------------------------------------- supervisor

/// Runs the search in a child process, so that a call which kills the process (an abort after a failed allocation, a
/// stack overflow) is reported like any other failure: the case is run again on its own, shrunk and saved.
pub fn supervise(p: &Property, opt: &Options, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let exe = std::env::current_exe().expect("own path");
    let dir = std::env::temp_dir().join(format!("tedium-verif-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let slots = dir.join("slots");
    let status = Command::new(&exe).args(args).arg("--child").arg(&slots).status().expect("start the search");
    let crash = |s: std::process::ExitStatus| s.signal().filter(|s| [4, 6, 7, 8, 11].contains(s));
    let code = match (status.code(), crash(status)) {
        (Some(c), _) => c,
        (None, None) => { eprintln!("the search was ended: {status}"); 2 }
        (None, Some(sig)) => {
            // One run of a single case; returns the choices it made if it died of a signal.
            let dump = dir.join("dump");
            let single = |mode: &str, value: &str| -> Option<(i32, Vec<u64>)> {
                let _ = std::fs::remove_file(&dump);
                let s = Command::new(&exe).arg("single").arg(p.id).arg(mode).arg(value).arg(&dump)
                    .arg(if opt.thorough { "thorough" } else { "quick" })
                    .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().expect("single case");
                let sig = crash(s)?;
                let b = std::fs::read(&dump).unwrap_or_default();
                Some((sig, b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()))
            };
            let cand_file = dir.join("candidate");
            let run_choices = |c: &[u64]| {
                std::fs::write(&cand_file, c.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>()).expect("candidate");
                single("choices", cand_file.to_str().unwrap())
            };
            let state = std::fs::read(&slots).unwrap_or_default();
            let mut found = None;
            for s in state.chunks_exact(9) {
                let v = u64::from_le_bytes(s[1..].try_into().unwrap());
                found = match s[0] {
                    1 => single("seed", &v.to_string()).map(|(g, c)| (g, c, None)),
                    4 => corpus(opt).get(v as usize).and_then(|f| single("bytes", f.to_str()?)).map(|(g, c)| (g, c, None)),
                    2 => {
                        let b = std::fs::read(dir.join("slots.choices")).unwrap_or_default();
                        let c: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                        run_choices(&c).map(|(g, c)| (g, c, None))
                    }
                    3 => {
                        let n = std::fs::read_to_string(dir.join("slots.regression")).unwrap_or_default();
                        single("regression", &n).map(|(g, c)| (g, c, Some(n)))
                    }
                    _ => None,
                };
                if found.is_some() { break; }
            }
            match found {
                None => { eprintln!("the search died of signal {sig}, which no single case repeats"); 2 }
                Some((sig, choices, reg)) => {
                    let small = if reg.is_some() { choices } else {
                        shrink_with(choices, 400, &mut |c| run_choices(c).map(|(_, c)| c))
                    };
                    let msg = format!("the process dies of signal {sig} ({})", match sig { 6 => "abort", 11 => "segmentation fault", _ => "crash" });
                    let path = write_replay(opt, p.id, &replay_json(p.id, opt.seed, opt.thorough, &msg, &small, reg.as_deref(), &[]));
                    println!("{msg}");
                    println!("VIOLATION property={} replay={}", p.id, path);
                    evidence(p, opt, 1, 0, 0, &[], &BTreeMap::new(), 0.0, 1);
                    1
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Runs one case and exits; every choice is written to `dump` as it is made.
pub fn single(p: &Property, mode: &str, value: &str, dump: &str, thorough: bool) -> i32 {
    install_panic_hook();
    let mut cx = Cx { thorough, ..Cx::default() };
    let out = if mode == "regression" {
        let f = (p.regress)().into_iter().find(|(n, _)| *n == value).expect("regression").1;
        guarded(|| f(&mut cx))
    } else {
        let mut src = if mode == "seed" { Source::rng(value.parse().expect("seed")) }
        else if mode == "bytes" { Source::bytes(&std::fs::read(value).expect("input")) } else {
            let b = std::fs::read(value).expect("choices");
            Source::replay(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        };
        src.dump = Some(std::fs::File::create(dump).expect("dump"));
        // As in the search, on a thread with a large stack.
        std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20)
            .spawn_scoped(sc, || run_case(p, src, &mut cx).0).expect("spawn").join().expect("case"))
    };
    if matches!(out, Outcome::Ok) { 0 } else { 3 }
}

fn replay_json(id: &str, seed: u64, thorough: bool, what: &str, choices: &[u64], regression: Option<&str>, notes: &[String]) -> String {
    let ch = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
    let notes = notes.iter().map(|n| format!("    {}", jstr(n))).collect::<Vec<_>>().join(",\n");
    format!(
        "{{\n  \"property\": {},\n  \"seed\": {seed},\n  \"thorough\": {thorough},\n  \"what\": {},\n  \"regression\": {},\n  \"choices\": [{ch}],\n  \"case\": [\n{notes}\n  ]\n}}\n",
        jstr(id), jstr(what), regression.map(jstr).unwrap_or("null".into())
    )
}

// ---------------------------------------------------------------- running a property

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<u64>,
    pub root: String,
    pub shrink_budget: u64,
    /// Inputs found by the coverage-guided search, which are run as cases of their own before the random ones.
    pub corpus: Option<String>,
    /// The number of executions of that search.
    pub fuzz_runs: u64,
}

fn fnv(v: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in v { h = mix(h ^ *x); }
    h
}

/// Runs a property; returns the process exit code.
pub fn run_property(p: &Property, opt: &Options) -> i32 {
    install_panic_hook();
    start_watchdog(p.id, opt.seed, opt.thorough, opt.root.clone());
    let t0 = std::time::Instant::now();
    let threads = 8u64;
    let inputs = corpus(opt);
    let kept = inputs.len() as u64;
    let total = kept + opt.cases.unwrap_or(if opt.thorough { p.thorough } else { p.quick });
    let mut evals_total = 0u64;
    let mut known: std::collections::BTreeSet<String> = Default::default();

    // 1. regression checks
    let regs = (p.regress)();
    let reg_count = regs.len();
    for (name, f) in &regs {
        let mut cx = Cx { verbose: true, thorough: opt.thorough, ..Cx::default() };
        enter(8, RunningCase::Regression(name));
        let out = guarded(|| f(&mut cx));
        leave(8);
        match out {
            Outcome::Ok => {}
            Outcome::Harness(e) => {
                eprintln!("harness error in regression {name}: {e}");
                return 2;
            }
            Outcome::Fail(e) => {
                let path = write_replay(opt, p.id, &replay_json(p.id, opt.seed, opt.thorough, &format!("regression {name}: {e}"), &[], Some(name), &cx.notes));
                println!("{e}");
                println!("VIOLATION property={} replay={}", p.id, path);
                evidence(p, opt, evals_total, 0, reg_count, &[], &BTreeMap::new(), t0.elapsed().as_secs_f64(), 1);
                return 1;
            }
        }
        evals_total += cx.evals.max(1);
        known.extend(cx.known);
    }

    // 2. generated search
    let base = opt.seed.wrapping_mul(0x1_0000_01B3) ^ fnv(&p.id.bytes().map(|b| b as u64).collect::<Vec<_>>());
    let stop = AtomicBool::new(false);
    let harness_error: Mutex<Option<String>> = Mutex::new(None);
    // (global case number, choices, message)
    let failure: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
    let first_fail = AtomicU64::new(u64::MAX);
    let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let evals = AtomicU64::new(0);
    let known_m: Mutex<std::collections::BTreeSet<String>> = Mutex::new(known);
    let next = AtomicU64::new(0);
    let batch = 64u64;
    std::thread::scope(|sc| {
        for slot in 0..threads as usize {
            let (inputs, next, stop, first_fail, harness_error, failure, labels, distinct, evals, known_m) =
                (&inputs, &next, &stop, &first_fail, &harness_error, &failure, &labels, &distinct, &evals, &known_m);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut local_labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut local_distinct: HashSet<u64> = HashSet::new();
                let mut local_evals = 0u64;
                'outer: loop {
                    let lo = next.fetch_add(batch, Ordering::Relaxed);
                    if lo >= total || stop.load(Ordering::Relaxed) { break; }
                    for n in lo..(lo + batch).min(total) {
                        // Cases before an already found failure still run, so that the reported
                        // failure is the first one in case order whatever the thread timing.
                        if n >= first_fail.load(Ordering::Relaxed) { break 'outer; }
                        let mut cx = Cx { thorough: opt.thorough, ..Cx::default() };
                        let src = match inputs.get(n as usize) {
                            Some(f) => {
                                enter(slot, RunningCase::Corpus(n, f.clone()));
                                Source::bytes(&std::fs::read(f).unwrap_or_default())
                            }
                            None => {
                                let seed = mix(base ^ mix(n - kept));
                                enter(slot, RunningCase::Seed(seed));
                                Source::rng(seed)
                            }
                        };
                        let (out, rec) = run_case(p, src, &mut cx);
                        leave(slot);
                        local_evals += cx.evals.max(1);
                        for (k, v) in cx.labels { *local_labels.entry(k).or_insert(0) += v.min(1); }
                        if cx.nontrivial { local_distinct.insert(fnv(&rec)); }
                        if !cx.known.is_empty() { known_m.lock().unwrap().extend(cx.known); }
                        match out {
                            Outcome::Ok => {}
                            Outcome::Harness(e) => {
                                *harness_error.lock().unwrap() = Some(format!("case {n}: {e}"));
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            Outcome::Fail(e) => {
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map(|x| n < x.0).unwrap_or(true) {
                                    *f = Some((n, rec, e));
                                    first_fail.store(n, Ordering::Relaxed);
                                }
                                break 'outer;
                            }
                        }
                    }
                }
                evals.fetch_add(local_evals, Ordering::Relaxed);
                let mut l = labels.lock().unwrap();
                for (k, v) in local_labels { *l.entry(k).or_insert(0) += v; }
                distinct.lock().unwrap().extend(local_distinct);
            }).expect("spawn");
        }
    });
    if let Some(e) = harness_error.into_inner().unwrap() {
        eprintln!("harness error: {e}");
        return 2;
    }
    evals_total += evals.load(Ordering::Relaxed);
    let labels = labels.into_inner().unwrap();
    let distinct = distinct.into_inner().unwrap().len() as u64;

    // samples: the first non-trivial cases, re-run verbosely
    let mut samples = Vec::new();
    let failure = failure.into_inner().unwrap();
    if failure.is_none() {
        let mut n = 0;
        while samples.len() < 3 && n < (total - kept).min(400) {
            let mut cx = Cx { thorough: opt.thorough, verbose: true, ..Cx::default() };
            let (_, _) = run_case(p, Source::rng(mix(base ^ mix(n))), &mut cx);
            if cx.nontrivial {
                let mut s = format!("case {n}: {}", cx.notes.join(" | "));
                if s.len() > 1500 {
                    let mut cut = 1500;
                    while !s.is_char_boundary(cut) { cut -= 1; }
                    s.truncate(cut);
                    s.push_str(" ...");
                }
                samples.push(s);
            }
            n += 1;
        }
    }
    let code = if let Some((n, rec, msg)) = failure {
        let small = shrink(p, opt.thorough, rec.clone(), opt.shrink_budget);
        let mut cx = Cx { thorough: opt.thorough, verbose: true, ..Cx::default() };
        let (out, _) = run_case(p, Source::replay(small.clone()), &mut cx);
        let msg2 = match out { Outcome::Fail(e) => e, _ => msg.clone() };
        let path = write_replay(opt, p.id, &replay_json(p.id, opt.seed, opt.thorough, &msg2, &small, None, &cx.notes));
        println!("case {n} failed: {msg}");
        println!("shrunk from {} to {} choices: {msg2}", rec.len(), small.len());
        for s in &cx.notes { println!("  {s}"); }
        println!("VIOLATION property={} replay={}", p.id, path);
        1
    } else {
        for k in known_m.into_inner().unwrap() {
            println!("KNOWN-FINDING: property={} {}", p.id, k);
        }
        0
    };
    evidence(p, opt, evals_total, distinct, reg_count, &samples, &labels, t0.elapsed().as_secs_f64(), if code == 1 { 1 } else { 0 });
    if code == 0 {
        println!("{}: held on {} evaluations ({} cases, {} distinct non-trivial, {} regression checks) in {:.1}s",
            p.id, evals_total, total, distinct, reg_count, t0.elapsed().as_secs_f64());
    }
    code
}

fn write_replay(opt: &Options, id: &str, text: &str) -> String {
    let dir = format!("{}/evidence/replays", opt.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{}.json", opt.seed);
    std::fs::write(&path, text).expect("write replay file");
    path
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Property, opt: &Options, evals: u64, distinct: u64, regs: usize, samples: &[String], labels: &BTreeMap<&'static str, u64>, wall: f64, violations: u64) {
    let dir = format!("{}/evidence", opt.root);
    let _ = std::fs::create_dir_all(&dir);
    let samples = samples.iter().map(|s| format!("      {}", jstr(s))).collect::<Vec<_>>().join(",\n");
    let labels = labels.iter().map(|(k, v)| format!("      {}: {v}", jstr(k))).collect::<Vec<_>>().join(",\n");
    let assumptions = p.assumptions.iter().map(|s| format!("    {}", jstr(s))).collect::<Vec<_>>().join(",\n");
    // Only the inputs that the fuzzer kept are among the evaluations.
    let fuzz = match &opt.corpus {
        Some(_) => format!("\n    \"coverage_guided\": {{ \"executions\": {}, \"inputs_kept\": {} }},", opt.fuzz_runs, corpus(opt).len()),
        None => String::new(),
    };
    let text = format!(
"{{
  \"property\": {},
  \"tier\": {},
  \"seed\": {},
  \"level\": {},
  \"coverage\": {{
    \"evaluations\": {evals},
    \"distinct_nontrivial\": {distinct},
    \"rule\": {},
    \"samples\": [
{samples}
    ],
    \"regression_checks\": {regs},{fuzz}
    \"classes\": {{
{labels}
    }}
  }},
  \"assumptions\": [
{assumptions}
  ],
  \"wall_s\": {wall:.3},
  \"violations\": {violations}
}}
", jstr(p.id), jstr(if opt.thorough { "thorough" } else { "quick" }), opt.seed, jstr(p.level), jstr(p.rule));
    std::fs::write(format!("{dir}/{}.json", p.id), text).expect("write evidence");
}

/// Re-runs a replay file. Exit code 1 if it still fails, 0 if it passes.
pub fn replay_file(props: &[Property], path: &str) -> i32 {
    install_panic_hook();
    let text = std::fs::read_to_string(path).expect("read replay file");
    let field = |name: &str| -> Option<String> {
        let i = text.find(&format!("\"{name}\":"))? + name.len() + 3;
        let rest = text[i..].trim_start();
        Some(if let Some(r) = rest.strip_prefix('"') { r[..r.find('"')?].to_string() }
        else if let Some(r) = rest.strip_prefix('[') { r[..r.find(']')?].to_string() }
        else { rest[..rest.find([',', '\n'])?].to_string() })
    };
    let id = field("property").expect("property");
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let thorough = field("thorough").as_deref() == Some("true");
    let mut cx = Cx { verbose: true, thorough, ..Cx::default() };
    let reg = field("regression").unwrap_or_default();
    let out = if reg != "null" && !reg.is_empty() {
        let f = (p.regress)().into_iter().find(|(n, _)| *n == reg).expect("regression").1;
        guarded(|| f(&mut cx))
    } else if let Some(hex) = field("case_bytes") {
        let bytes: Vec<u8> = (0..hex.len() / 2).filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
        run_case(p, Source::bytes(&bytes), &mut cx).0
    } else if let Some(seed) = field("case_seed").and_then(|s| s.parse().ok()) {
        run_case(p, Source::rng(seed), &mut cx).0
    } else {
        let choices: Vec<u64> = field("choices").unwrap_or_default().split(',').filter_map(|c| c.trim().parse().ok()).collect();
        run_case(p, Source::replay(choices), &mut cx).0
    };
    for n in &cx.notes { println!("  {n}"); }
    match out {
        Outcome::Ok => { println!("replay passes"); 0 }
        Outcome::Fail(e) => { println!("{e}\nVIOLATION property={id} replay={path}"); 1 }
        Outcome::Harness(e) => { eprintln!("harness error: {e}"); 2 }
    }
}

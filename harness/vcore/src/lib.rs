//! Shared machinery of every check: seeded random numbers, a parallel case
//! runner with crash/hang/panic detection, observation counters, evidence and
//! replay files.  Nothing here depends on the crate under test.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator

/// Counts allocation per thread, so that a monitor can see how much memory an
/// input made the crate ask for.
pub struct CountingAlloc;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
/// Single requests above this are refused.
const REFUSE: usize = 6 << 30;

fn note(delta: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        if delta > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + delta as u64));
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        note(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        note(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        note(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

/// Starts a measurement of this thread's peak memory.
pub fn mem_mark() -> isize {
    LIVE.with(|l| {
        PEAK.with(|p| p.set(l.get()));
        l.get()
    })
}
/// Peak bytes above the mark.
pub fn mem_peak_since(mark: isize) -> u64 {
    PEAK.with(|p| (p.get() - mark).max(0) as u64)
}

// ---------------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0; 4];
        for v in &mut s {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            *v = mix(x);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (0 when n is 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        if hi - lo == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// True once in n.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// Values of at most `bits` bits that favour boundaries.
    pub fn edgy(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = match self.below(8) {
            0 => self.below(4),
            1 => mask.wrapping_sub(self.below(4)),
            2 => 1u64 << self.below(bits as u64),
            3 => (1u64 << self.below(bits as u64)).wrapping_sub(1),
            4 => (mask >> 1).wrapping_add(self.below(3)),
            5 => self.below(256),
            6 => self.u64() >> self.below(64),
            _ => self.u64(),
        };
        v & mask
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
    /// A printable identifier of 1..=max bytes.
    pub fn ident(&mut self, max: usize) -> String {
        let n = 1 + self.idx(max.max(1));
        let first = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
        let rest = b"abcdefghijklmnopqrstuvwxyz0123456789_ABCXYZ.$";
        let mut s = String::new();
        for i in 0..n {
            s.push(if i == 0 { *self.pick(first) } else { *self.pick(rest) } as char);
        }
        s
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(c.len() as u64);
    }
    h
}

// ---------------------------------------------------------------------- obs

/// What one case observed.
#[derive(Default)]
pub struct Obs {
    counters: BTreeMap<&'static str, u64>,
    keys: HashSet<u64>,
    samples: Vec<String>,
    evals: u64,
    part: usize,
    sampled: BTreeMap<usize, usize>,
    pub want_samples: bool,
}

thread_local! {
    static INPUT: RefCell<Vec<(String, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CAPTURE: Cell<bool> = const { Cell::new(false) };
}

struct Captured(String, Vec<u8>);

/// Runs another check's case only until it has generated its first input,
/// and returns that.
pub fn capture(f: CaseFn, case: u64, r: &mut Rng) -> Option<(String, Vec<u8>)> {
    CAPTURE.with(|c| c.set(true));
    let x = catch_unwind(AssertUnwindSafe(|| f(case, r, &mut Obs::default())));
    CAPTURE.with(|c| c.set(false));
    let saved = x.err()?.downcast::<Captured>().ok()?;
    Some((saved.0, saved.1))
}

impl Obs {
    pub fn counters(&self) -> &BTreeMap<&'static str, u64> {
        &self.counters
    }
    /// Distinct things seen.
    pub fn distinct(&self) -> usize {
        self.keys.len()
    }
    pub fn hit(&mut self, name: &'static str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    pub fn get(&self, name: &'static str) -> u64 {
        self.counters.get(name).copied().unwrap_or(0)
    }
    /// Declares one evaluated non-trivial case, identified by `key`.
    pub fn nontrivial(&mut self, key: u64) {
        if self.keys.len() < 4_000_000 {
            self.keys.insert(key);
        }
    }
    /// One more evaluation within the same case.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_samples {
            let n = self.sampled.entry(self.part).or_insert(0);
            if *n >= 2 {
                return;
            }
            *n += 1;
            let mut s = f();
            if s.len() > 700 {
                let mut n = 700;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            self.samples.push(s);
        }
    }
    /// Remembers the bytes under test, for the replay file.
    pub fn input(&mut self, name: &str, b: &[u8]) {
        if CAPTURE.with(|c| c.get()) {
            CAPTURE.with(|c| c.set(false));
            std::panic::resume_unwind(Box::new(Captured(name.to_string(), b.to_vec())));
        }
        INPUT.with(|i| i.borrow_mut().push((name.to_string(), b.to_vec())));
    }
}

pub type Res = Result<(), String>;

/// Early-return equality check: `same!(got, want, "context {}", x)`.
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($ctx:tt)+) => {{
        match (&$got, &$want) { (g, w) => if *g != *w {
            return Err(format!("{}: got {} want {} ({}:{})", format!($($ctx)+), $crate::short(&format!("{:?}", g)), $crate::short(&format!("{:?}", w)), file!(), line!()));
        }}
    }};
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($ctx:tt)+) => {{
        if !$c {
            return Err(format!("{}: `{}` is false ({}:{})", format!($($ctx)+), stringify!($c), file!(), line!()));
        }
    }};
}
/// Unwraps a result that must be Ok.
#[macro_export]
macro_rules! okay {
    ($e:expr) => {
        $crate::okay!($e, "{}", stringify!($e))
    };
    ($e:expr, $($ctx:tt)+) => {
        match $e {
            Ok(v) => v,
            Err(e) => return Err(format!("{}: unexpected error {:?} ({}:{})", format!($($ctx)+), e, file!(), line!())),
        }
    };
}
/// Unwraps an option that must be Some.
#[macro_export]
macro_rules! some {
    ($e:expr) => {
        $crate::some!($e, "{}", stringify!($e))
    };
    ($e:expr, $($ctx:tt)+) => {
        match $e {
            Some(v) => v,
            None => return Err(format!("{}: unexpected None ({}:{})", format!($($ctx)+), file!(), line!())),
        }
    };
}

pub fn short(s: &str) -> String {
    if s.len() <= 300 {
        return s.to_string();
    }
    let mut n = 280;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}...({} chars)", &s[..n], s.len())
}

// ------------------------------------------------------------------- runner

pub type CaseFn = fn(u64, &mut Rng, &mut Obs) -> Res;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: &'static [Part],
    /// Counters that must not be zero, or the run is inconclusive.
    pub required: &'static [&'static str],
    /// Those of `required` that need tools outside the code under test.
    pub tools: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
}

struct Total {
    obs: Obs,
    evals: u64,
    per_part: Vec<u64>,
    violations: Vec<Viol>,
    known: BTreeMap<String, String>,
}

#[derive(Clone)]
struct Viol {
    part: usize,
    case: u64,
    msg: String,
    input: Vec<(String, Vec<u8>)>,
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn part_hash(name: &str) -> u64 {
    hash(name.as_bytes())
}

fn case_rng(part: &Part, case: u64, seed: u64) -> Rng {
    Rng::new(mix(seed ^ mix(case ^ part_hash(part.name))))
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// Known findings: lines `finding: property=<id> sig=<sig> <text>`.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) else {
        return vec![];
    };
    let mut v = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let mut it = r.splitn(3, ' ');
        let (Some(p), Some(sig), text) = (it.next(), it.next(), it.next().unwrap_or("")) else {
            continue;
        };
        if p == id {
            if let Some(sig) = sig.strip_prefix("sig=") {
                v.push((sig.to_string(), text.to_string()));
            }
        }
    }
    v
}

fn thread_cpu(tid: &str) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let r = s.rsplit(')').next()?;
    let f: Vec<&str> = r.split_whitespace().collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

struct Slot {
    cur: AtomicU64,
    tid: Mutex<String>,
    base: Mutex<f64>,
}
const IDLE: u64 = u64::MAX;
/// CPU seconds of one case that count as a hang (confirmed by a second run).
const HANG: f64 = 20.0;

fn run_case(spec: &Spec, part: usize, case: u64, seed: u64, obs: &mut Obs) -> Result<(), Viol> {
    let p = &spec.parts[part];
    obs.part = part;
    let mut rng = case_rng(p, case, seed);
    INPUT.with(|i| i.borrow_mut().clear());
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(case, &mut rng, obs)));
    let msg = match r {
        Ok(Ok(())) => return Ok(()),
        Ok(Err(m)) => m,
        Err(_) => {
            format!("panic: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
        }
    };
    let input = INPUT.with(|i| std::mem::take(&mut *i.borrow_mut()));
    Err(Viol { part, case, msg, input })
}

fn journal_path(id: &str) -> PathBuf {
    root().join("out").join(format!("{id}.journal"))
}

fn write_replay(spec: &Spec, v: &Viol, seed: u64) -> PathBuf {
    let dir = root().join("out").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let stem = format!("{}-{}-{}-s{}", spec.id, spec.parts[v.part].name, v.case, seed);
    for (i, (n, b)) in v.input.iter().enumerate() {
        let _ = std::fs::write(dir.join(format!("{stem}.{i}.{n}.bin")), b);
    }
    let path = dir.join(format!("{stem}.txt"));
    let mut s = String::new();
    let _ = writeln!(s, "property: {}", spec.id);
    let _ = writeln!(s, "part: {}\ncase: {}\nseed: {}", spec.parts[v.part].name, v.case, seed);
    let _ = writeln!(
        s,
        "replay: VERIF_SEED={} VERIF_TIER={} /verif/run.sh {} --one {}:{}",
        seed,
        if thorough() { "thorough" } else { "quick" },
        spec.id,
        spec.parts[v.part].name,
        v.case
    );
    let _ = writeln!(s, "message: {}", v.msg);
    for (i, (n, b)) in v.input.iter().enumerate() {
        let _ = writeln!(s, "input {i} ({n}): {} bytes, in {stem}.{i}.{n}.bin", b.len());
    }
    let _ = std::fs::write(&path, s);
    path
}

fn report(spec: &Spec, v: &Viol, seed: u64) {
    let path = write_replay(spec, v, seed);
    println!("violation detail: [{}:{}] {}", spec.parts[v.part].name, v.case, v.msg);
    println!("VIOLATION property={} replay={}", spec.id, path.display());
}

fn write_evidence(spec: &Spec, t: &Total, seed: u64, wall: f64) {
    let mut s = String::new();
    let tier = if thorough() { "thorough" } else { "quick" };
    let _ = write!(
        s,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n",
        spec.id, tier, seed, spec.level
    );
    let _ = write!(
        s,
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [",
        t.evals + t.obs.evals,
        t.obs.keys.len(),
        esc(spec.rule)
    );
    for (i, x) in t.obs.samples.iter().take(16).enumerate() {
        let _ = write!(s, "{}\n   \"{}\"", if i > 0 { "," } else { "" }, esc(x));
    }
    let _ = write!(s, "\n  ],\n  \"cases_per_part\": {{");
    for (i, p) in spec.parts.iter().enumerate() {
        let _ =
            write!(s, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(p.name), t.per_part[i]);
    }
    let _ = write!(s, "}},\n  \"observed\": {{");
    for (i, (k, v)) in t.obs.counters.iter().enumerate() {
        let _ = write!(s, "{}\n   \"{}\": {}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    let _ = write!(s, "\n  }}\n }},\n \"assumptions\": [");
    for (i, x) in spec.assumptions.iter().enumerate() {
        let _ = write!(s, "{}\n  \"{}\"", if i > 0 { "," } else { "" }, esc(x));
    }
    let _ = write!(
        s,
        "\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        wall,
        t.violations.len()
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{}.tmp", spec.id));
    if std::fs::write(&tmp, s).is_ok() {
        let _ = std::fs::rename(&tmp, dir.join(format!("{}.json", spec.id)));
    }
}

/// Keeps what a panic says.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
        let s = format!("{} at {}", m, loc.unwrap_or_default());
        PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

fn parse_one(spec: &Spec, s: &str) -> Option<(usize, u64)> {
    let (n, c) = s.rsplit_once(':')?;
    Some((spec.parts.iter().position(|p| p.name == n)?, c.parse().ok()?))
}

/// Runs one case, on whatever host this is; a panic there is an error or ends the program.
pub fn run_one(spec: &Spec, part: usize, case: u64, seed: u64, obs: &mut Obs) -> Result<(), String> {
    run_case(spec, part, case, seed, obs).map_err(|v| v.msg)
}

#[cfg(not(unix))]
pub fn main(_: &'static Spec) -> ! {
    panic!("a check runs elsewhere")
}

/// Entry point of a check.
#[cfg(unix)]
pub fn main(spec: &'static Spec) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let _ = std::fs::create_dir_all(root().join("out"));
    if args.first().is_some_and(|a| a == "--worker") {
        let skip: HashSet<(usize, u64)> =
            args.iter().skip(1).filter_map(|a| parse_one(spec, a)).collect();
        worker(spec, skip)
    }
    if args.first().is_some_and(|a| a == "--one") {
        let (part, case) = parse_one(spec, &args[1]).expect("bad case");
        one(spec, part, case)
    }
    parent(spec)
}

#[cfg(unix)]
fn one(spec: &'static Spec, part: usize, case: u64) -> ! {
    install_hook();
    // Watch this single case for a hang.
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let seed = seed();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut obs = Obs { want_samples: true, ..Obs::default() };
            let r = run_case(spec, part, case, seed, &mut obs);
            (r, obs.counters, obs.samples)
        })
        .unwrap();
    let d2 = done.clone();
    std::thread::spawn(move || {
        let t0 = Instant::now();
        while !d2.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(100));
            // process CPU = this one case
            let cpu = std::fs::read_dir("/proc/self/task")
                .map(|d| {
                    d.flatten()
                        .filter_map(|e| thread_cpu(&e.file_name().to_string_lossy()))
                        .sum::<f64>()
                })
                .unwrap_or(0.0);
            if cpu > 1.5 * HANG {
                std::process::exit(99);
            }
            if t0.elapsed().as_secs_f64() > 300.0 {
                std::process::exit(98);
            }
        }
    });
    let (r, counters, samples) = h.join().unwrap();
    done.store(true, Ordering::Relaxed);
    match r {
        Ok(()) => {
            println!("case ok; observed {counters:?}");
            for s in samples {
                println!("sample: {s}");
            }
            std::process::exit(0)
        }
        Err(v) => {
            for (sig, text) in known_findings(spec.id) {
                if v.msg.starts_with(&format!("[{sig}]")) {
                    println!("KNOWN-FINDING: property={} {} {}", spec.id, sig, text);
                    std::process::exit(0);
                }
            }
            report(spec, &v, seed);
            std::process::exit(1)
        }
    }
}

#[cfg(unix)]
fn parent(spec: &'static Spec) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let mut skip: Vec<String> = vec![];
    for _attempt in 0..3 {
        let _ = std::fs::remove_file(journal_path(spec.id));
        let st = std::process::Command::new(&exe)
            .arg("--worker")
            .args(&skip)
            .status()
            .expect("spawn worker");
        match st.code() {
            Some(c @ (0 | 1 | 2)) => std::process::exit(c),
            _ => {}
        }
        eprintln!("worker ended with {st:?}; looking for the case responsible");
        // Which cases were running?
        let j = std::fs::read(journal_path(spec.id)).unwrap_or_default();
        let mut cands: Vec<(usize, u64)> = vec![];
        for c in j.chunks_exact(16) {
            let p = u64::from_le_bytes(c[..8].try_into().unwrap());
            let k = u64::from_le_bytes(c[8..].try_into().unwrap());
            if p != IDLE && (p as usize) < spec.parts.len() {
                cands.push((p as usize, k));
            }
        }
        let mut confirmed = None;
        for &(p, k) in &cands {
            let name = format!("{}:{}", spec.parts[p].name, k);
            let st = std::process::Command::new(&exe)
                .arg("--one")
                .arg(&name)
                .stdout(std::process::Stdio::null())
                .status()
                .expect("spawn one");
            let why = match (st.code(), st.signal()) {
                (Some(99), _) => Some("does not terminate (CPU time limit, twice)".to_string()),
                (_, Some(s)) if s != 9 && s != 15 => Some(format!("process crashed with signal {s}")),
                _ => None,
            };
            if let Some(w) = why {
                confirmed = Some((p, k, w));
                break;
            }
        }
        if let Some((part, case, w)) = confirmed {
            let v = Viol { part, case, msg: w, input: vec![] };
            report(spec, &v, seed());
            let t = Total {
                obs: Obs::default(),
                evals: 1,
                per_part: vec![0; spec.parts.len()],
                violations: vec![v],
                known: BTreeMap::new(),
            };
            write_evidence(spec, &t, seed(), t0.elapsed().as_secs_f64());
            std::process::exit(1);
        }
        // Not reproducible: leave those cases out and try again.
        skip.extend(cands.iter().map(|(p, k)| format!("{}:{}", spec.parts[*p].name, k)));
    }
    println!("INCONCLUSIVE property={}: the worker kept ending abnormally", spec.id);
    std::process::exit(2)
}

#[cfg(unix)]
fn worker(spec: &'static Spec, skip: HashSet<(usize, u64)>) -> ! {
    install_hook();
    let t0 = Instant::now();
    let seed = seed();
    let thorough = thorough();
    let cap = std::env::var("VERIF_CAP")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 780.0 } else { 120.0 });
    let counts: Vec<u64> =
        spec.parts.iter().map(|p| if thorough { p.thorough } else { p.quick }).collect();
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    // Work is dealt in an interleaved order, so that a time cap cuts every part alike.
    let chunk = 16u64;
    let mut jobs: Vec<(f64, usize, u64, u64)> = vec![];
    for (i, &n) in counts.iter().enumerate() {
        // Small parts are not chunked, so that heavy single cases spread out.
        let ch = if n <= 256 { 1 } else { chunk.min(n / 64).max(1) };
        let mut a = 0;
        while a < n {
            let b = (a + ch).min(n);
            jobs.push((a as f64 / n as f64, i, a, b));
            a = b;
        }
    }
    jobs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let slots: Vec<Slot> = (0..nthreads)
        .map(|_| Slot {
            cur: AtomicU64::new(IDLE),
            tid: Mutex::new(String::new()),
            base: Mutex::new(0.0),
        })
        .collect();
    let journal = std::fs::File::create(journal_path(spec.id)).expect("journal");
    let total = Mutex::new(Total {
        obs: Obs::default(),
        evals: 0,
        per_part: vec![0; spec.parts.len()],
        violations: vec![],
        known: BTreeMap::new(),
    });
    let known = known_findings(spec.id);
    let finished = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let (jobs, next, stop, slots, journal, total, known, skip, finished) =
            (&jobs, &next, &stop, &slots, &journal, &total, &known, &skip, &finished);
        let mut hs = vec![];
        for t in 0..nthreads {
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    use std::os::unix::fs::FileExt;
                    let slot = &slots[t];
                    *slot.tid.lock().unwrap() = std::fs::read_link("/proc/thread-self")
                        .ok()
                        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
                        .unwrap_or_default();
                    let mut obs = Obs { want_samples: t == 0, ..Obs::default() };
                    let mut per_part = vec![0u64; spec.parts.len()];
                    let mut serial = 0u64;
                    let tid = slot.tid.lock().unwrap().clone();
                    'outer: loop {
                        let j = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if j >= jobs.len() {
                            break;
                        }
                        let (_, part, a, b) = jobs[j];
                        for case in a..b {
                            if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > cap {
                                break 'outer;
                            }
                            if skip.contains(&(part, case)) {
                                continue;
                            }
                            let mut rec = [0u8; 16];
                            rec[..8].copy_from_slice(&(part as u64).to_le_bytes());
                            rec[8..].copy_from_slice(&case.to_le_bytes());
                            let _ = journal.write_all_at(&rec, t as u64 * 16);
                            if serial % 16 == 0 || b - a == 1 {
                                *slot.base.lock().unwrap() = thread_cpu(&tid).unwrap_or(0.0);
                                slot.cur.store(serial, Ordering::Relaxed);
                            }
                            serial += 1;
                            let r = run_case(spec, part, case, seed, &mut obs);
                            per_part[part] += 1;
                            if let Err(v) = r {
                                let k = known
                                    .iter()
                                    .find(|(s, _)| v.msg.starts_with(&format!("[{s}]")));
                                let mut t = total.lock().unwrap();
                                if let Some((s, text)) = k {
                                    t.known.insert(s.clone(), text.clone());
                                } else {
                                    t.violations.push(v);
                                    if t.violations.len() >= 3 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                    }
                    slot.cur.store(IDLE, Ordering::Relaxed);
                    let mut rec = [0xffu8; 16];
                    rec[8..].fill(0);
                    let _ = journal.write_all_at(&rec, t as u64 * 16);
                    let mut tot = total.lock().unwrap();
                    for (k, v) in obs.counters {
                        *tot.obs.counters.entry(k).or_insert(0) += v;
                    }
                    tot.obs.keys.extend(obs.keys);
                    tot.obs.samples.extend(obs.samples);
                    tot.obs.evals += obs.evals;
                    for (i, n) in per_part.iter().enumerate() {
                        tot.per_part[i] += n;
                        tot.evals += n;
                    }
                })
                .unwrap();
            hs.push(h);
        }
        // Watchdog: CPU time of the current batch of each thread.
        sc.spawn(move || {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for s in slots {
                    let cur = s.cur.load(Ordering::Relaxed);
                    if cur == IDLE {
                        continue;
                    }
                    let base = *s.base.lock().unwrap();
                    let tid = s.tid.lock().unwrap().clone();
                    let cpu = thread_cpu(&tid).unwrap_or(0.0);
                    if cpu - base > HANG && s.cur.load(Ordering::Relaxed) == cur {
                        eprintln!("watchdog: a case used more than {HANG} CPU seconds");
                        std::process::exit(99);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        finished.store(true, Ordering::Relaxed);
    });
    let t = total.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(spec, &t, seed, wall);
    for (s, text) in &t.known {
        println!("KNOWN-FINDING: property={} {} {}", spec.id, s, text);
    }
    for v in t.violations.iter().take(3) {
        report(spec, v, seed);
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s, violations {}",
        spec.id,
        t.evals,
        t.obs.keys.len(),
        wall,
        t.violations.len()
    );
    let mut line = String::new();
    for (k, v) in &t.obs.counters {
        let _ = write!(line, " {k}={v}");
    }
    println!("observed:{line}");
    let _ = std::io::stdout().flush();
    if !t.violations.is_empty() {
        std::process::exit(1);
    }
    for r in spec.required {
        if t.obs.counters.get(r).copied().unwrap_or(0) == 0 {
            if spec.tools.contains(r) {
                println!("INCONCLUSIVE property={}: never observed `{}`", spec.id, r);
                std::process::exit(2);
            }
            // The inputs for this were generated as always (they don't depend
            // on the code under test), but the code never handled one.
            let dir = root().join("out").join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-never-s{}.txt", spec.id, seed));
            let text = format!("property: {}\nno input led to an observation of `{}`: what it takes is refused or missing in every input\nreplay: VERIF_SEED={} VERIF_TIER={} ./run.sh {}\n", spec.id, r, seed, if thorough { "thorough" } else { "quick" }, spec.id);
            let _ = std::fs::write(&path, text);
            println!("violation detail: never observed `{r}` in {} cases", t.evals);
            println!("VIOLATION property={} replay={}", spec.id, path.display());
            std::process::exit(1);
        }
    }
    std::process::exit(0)
}

/// The corpus, where there is no file system.
pub static GIVEN: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(Vec::new());

/// Reads every file of the committed seed corpus, sorted by name.
pub fn corpus() -> Vec<(String, Vec<u8>)> {
    let given = GIVEN.lock().unwrap();
    if !given.is_empty() {
        return given.clone();
    }
    fn walk(d: &Path, out: &mut Vec<(String, Vec<u8>)>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if let Ok(b) = std::fs::read(&p) {
                out.push((p.to_string_lossy().into_owned(), b));
            }
        }
    }
    let mut v = vec![];
    walk(&root().join("corpus"), &mut v);
    v.sort();
    v
}

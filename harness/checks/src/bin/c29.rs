//! C29: what the crate does doesn't depend on the host it runs on.
//!
//! The workloads of the other checks, with their oracles, run on a host with
//! 32-bit pointers (WebAssembly) and on one with big-endian memory (Miri); and
//! what becomes of an input is compared with what becomes of it here.
use checks::hosts::{PARTS, WAYS, answer};
use checks::inputs::{base, mutate, noise};
use std::collections::HashSet;
use std::path::PathBuf;
use std::process::Command;
use vcore::{Obs, Part, Res, Rng, Spec, ensure};

fn verif() -> String {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".into())
}

struct Files(PathBuf, PathBuf);
impl Drop for Files {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
        let _ = std::fs::remove_file(&self.1);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Host {
    Wasm,
    BigEndian,
}

struct Answer {
    job: usize,
    what: String,
    msg: String,
}

/// Runs jobs on the host; `None` when the host itself couldn't run.
fn run(host: Host, jobs: &[String], inputs: &[u8], limit: u64, o: &mut Obs) -> Option<Vec<Answer>> {
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let name = |x| std::env::temp_dir().join(format!("c29-{}-{n}.{x}", std::process::id()));
    let f = Files(name("jobs"), name("inputs"));
    std::fs::write(&f.0, jobs.join("\n") + "\n").unwrap();
    std::fs::write(&f.1, inputs).unwrap();
    let root = verif();
    let mut c = Command::new("timeout");
    c.args(["-k", "5", &limit.to_string()]);
    match host {
        Host::Wasm => {
            c.args(["node", "--stack-size=4000", &format!("{root}/harness/host/run.js")]);
            c.arg(format!("{root}/target/wasm/wasm32-unknown-unknown/debug/host.wasm")).arg(format!("{root}/corpus"));
        }
        Host::BigEndian => {
            c.arg(format!("{root}/tools/miri-be.sh")).env("VERIF_ROOT", &root);
        }
    }
    let out = c.arg(&f.0).arg(&f.1).output().ok()?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let mut v: Vec<Answer> = vec![];
    let mut begun = None;
    let mut seen = false;
    for l in text.lines() {
        let x: Vec<&str> = l.splitn(3, '\t').collect();
        let [a, b, m] = x[..] else { continue };
        if a == "seen" {
            o.add("distinct things seen by the oracles there", b.parse().unwrap_or(0));
            o.add("things counted by the oracles there", m.parse().unwrap_or(0));
            seen = true;
        } else if let Ok(job) = a.parse() {
            if b == "start" {
                begun = Some(job);
            } else {
                begun = None;
                v.push(Answer { job, what: b.into(), msg: m.into() });
            }
        }
    }
    if !seen {
        // An interpreter's report ends the program; so do the time limit and
        // a lack of memory, which are no verdict.
        if let (Some(job), Some(l)) = (begun, err.lines().find(|l| l.contains("Undefined Behavior") || l.contains("abnormal termination"))) {
            let at: Vec<&str> = err.lines().filter(|l| l.trim_start().starts_with("-->")).take(3).collect();
            v.push(Answer { job, what: "trap".into(), msg: format!("{l} {}", at.join(" ")) });
        } else if v.is_empty() {
            return None;
        }
    }
    Some(v)
}

fn cases(host: Host, jobs: Vec<(usize, u64)>, seed: u64, limit: u64, o: &mut Obs) -> Res {
    let text: Vec<String> = jobs.iter().map(|(p, k)| format!("case {p} {k} {seed}")).collect();
    let Some(v) = run(host, &text, &[], limit, o) else { return Ok(()) };
    let name = if host == Host::Wasm { "32-bit" } else { "big-endian" };
    let mut parts = HashSet::new();
    let mut bad = None;
    for a in &v {
        let (p, k) = jobs[a.job];
        let (id, part, ..) = PARTS[p];
        parts.insert(p);
        o.nontrivial(vcore::hash(format!("{name} {id} {part} {k} {seed}").as_bytes()));
        if a.what == "ok" {
            o.hit(if host == Host::Wasm { "cases with 32-bit pointers" } else { "cases with big-endian memory" });
            continue;
        }
        if a.msg.contains("/wasmparser-") {
            o.hit("panics of wasmparser");
            continue;
        }
        // What C18 and C26 list as known findings is so everywhere.
        if a.msg.starts_with("[macho-") {
            o.hit("known findings");
            continue;
        }
        bad.get_or_insert_with(|| format!("{name} host: {id} {part}:{k} seed {seed}: {} {}", a.what, a.msg));
    }
    o.add("parts", parts.len() as u64);
    o.hit(if host == Host::Wasm { "wasm" } else { "miri" });
    ensure!(bad.is_none(), "{}", bad.unwrap_or_default());
    Ok(())
}

fn seed() -> u64 {
    vcore::seed() & 0xffff_ffff
}

fn wasm(case: u64, _r: &mut Rng, o: &mut Obs) -> Res {
    let mut jobs = vec![];
    for (p, x) in PARTS.iter().enumerate() {
        jobs.extend((case * x.2..(case + 1) * x.2).map(|k| (p, k)));
    }
    cases(Host::Wasm, jobs, seed(), 300, o)
}

/// In a quick run, 8 runs share the cases; a thorough one has 8 runs for each next set of them.
fn big_endian(case: u64, _r: &mut Rng, o: &mut Obs) -> Res {
    let (set, share) = (case / 8, case % 8);
    let mut jobs = vec![];
    for (p, x) in PARTS.iter().enumerate() {
        let n = if vcore::thorough() { x.3.max(x.4) } else { x.3 };
        // The first cases of some parts are large ones.
        jobs.extend((set * n..(set + 1) * n).map(|k| (p, 1000 + k)));
    }
    let jobs = jobs.into_iter().enumerate().filter(|(i, _)| *i as u64 % 8 == share).map(|(_, j)| j).collect();
    cases(Host::BigEndian, jobs, seed(), if vcore::thorough() { 800 } else { 60 }, o)
}

fn compare(host: Host, n: u64, max: usize, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut jobs, mut want, mut inputs) = (vec![], vec![], vec![]);
    let (sparse, budget) = if host == Host::Wasm { (false, 20_000) } else { (true, 600) };
    for _ in 0..n {
        let mut b = base(r, max).1;
        if r.one_in(8) {
            b = noise(r);
        } else if !r.one_in(4) {
            let other = if r.one_in(6) { base(r, max).1 } else { vec![] };
            mutate(r, &mut b, &other);
        }
        if b.len() > max {
            continue;
        }
        let at = inputs.len();
        inputs.extend(&b);
        let first = r.below(5) as u8;
        for way in (0..WAYS).filter(|w| host == Host::Wasm || *w == first) {
            let salt = r.u64();
            jobs.push((way, salt, at, b.len()));
            want.push(answer(way, salt, &b, sparse, budget, None));
        }
    }
    let line = |(way, salt, at, len): (u8, u64, usize, usize), log: u8| format!("answer {way} {} {} {at} {len} {log}", salt as u32, salt >> 32);
    let text: Vec<String> = jobs.iter().map(|j| line(*j, 0)).collect();
    o.input("inputs", &inputs);
    let Some(v) = run(host, &text, &inputs, if vcore::thorough() { 800 } else { 200 }, o) else { return Ok(()) };
    let name = if host == Host::Wasm { "32-bit" } else { "big-endian" };
    for a in v {
        let (way, salt, at, len) = jobs[a.job];
        let (h, n, g) = want[a.job];
        let got = a.msg.split('\x1f').next().unwrap_or("").to_string();
        o.add("values compared", n);
        o.hit(["way.slice", "way.cache", "way.builders", "way.rewriter", "way.copy"][way as usize]);
        o.nontrivial(h ^ way as u64);
        if a.what == "ok" && got == format!("{h:016x} {n} {g}") {
            o.hit(if host == Host::Wasm { "inputs with 32-bit pointers" } else { "inputs with big-endian memory" });
            continue;
        }
        // Find the first thing that differs.
        let data = &inputs[at..at + len];
        o.input("input", data);
        let mut mine = vec![];
        answer(way, salt, data, sparse, budget, Some(&mut mine));
        let theirs = run(host, &[line((way, salt, 0, len), 1)], data, 200, o);
        let theirs = theirs.and_then(|v| v.into_iter().next()).map(|a| a.msg).unwrap_or_default();
        let theirs: Vec<&str> = theirs.split('\x1f').skip(1).collect();
        if theirs.first().is_some_and(|l| l.starts_with("panic: ") && l.contains("/wasmparser-")) {
            // Where it adds a length to a position it supposes 64 bits, and it isn't under test.
            o.hit("panics of wasmparser");
            continue;
        }
        let mine = mine.concat();
        let mine: Vec<&str> = mine.split('\n').collect();
        let k = (0..mine.len().max(theirs.len())).find(|k| mine.get(*k) != theirs.get(*k));
        ensure!(
            false,
            "{name} host, way {way}, input of {len} bytes at {at}: {} {got}, here {h:016x} {n} {g}; first difference: there {:?}, here {:?}",
            a.what,
            k.and_then(|k| theirs.get(k)),
            k.and_then(|k| mine.get(k))
        );
    }
    Ok(())
}

fn wasm_same(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    compare(Host::Wasm, 400, 24_000, r, o)
}

fn be_same(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    compare(Host::BigEndian, if vcore::thorough() { 30 } else { 4 }, 3_000, r, o)
}

pub static SPEC: Spec = Spec {
    id: "C29",
    rule: "what the crate reads and writes doesn't depend on the host's pointer size or byte order",
    parts: &[
        Part { name: "be", quick: 8, thorough: 160, run: big_endian },
        Part { name: "besame", quick: 8, thorough: 100, run: be_same },
        Part { name: "wasm", quick: 8, thorough: 400, run: wasm },
        Part { name: "wasmsame", quick: 8, thorough: 400, run: wasm_same },
    ],
    required: &["wasm", "miri", "way.slice", "way.cache", "way.builders", "way.rewriter", "way.copy", "inputs with 32-bit pointers", "inputs with big-endian memory"],
    tools: &["wasm", "miri"],
    assumptions: &[
        "the 32-bit host is wasm32-unknown-unknown under node, with the standard library built from rust-src; the big-endian one is s390x-unknown-linux-gnu under Miri, on much smaller workloads",
        "a host with both 32-bit pointers and big-endian memory isn't run",
    ],
    level: "exploration",
};

fn main() {
    vcore::main(&SPEC);
}

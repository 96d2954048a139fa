//! C30: what the crate does doesn't depend on which of its features are enabled.
//!
//! `tools/pre-c30.sh` builds `harness/feat` with each set of features listed in
//! `tools/feature-sets`. All are given the same inputs and the same objects to
//! write, and what they make of these is compared with what the build with all
//! formats makes of them.
use checks::inputs::{base, mutate, noise};
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::Command;
use vcore::{Obs, Part, Res, Rng, Spec, ensure, some};

/// Every format and interface, but not the names of constants.
const REFERENCE: &str = "plain";

struct Set {
    name: String,
    features: Vec<String>,
    program: PathBuf,
}
impl Set {
    fn has(&self, f: &str) -> bool {
        self.features.iter().any(|x| x == f)
    }
    fn reads(&self) -> bool {
        self.features.iter().any(|x| ["archive", "coff", "elf", "macho", "pe", "wasm", "xcoff"].contains(&x.as_str()))
    }
    fn writes(&self, format: &str) -> bool {
        self.has("write") && (self.has(format) || self.has(&format!("write_{format}")))
    }
}

fn sets() -> Vec<Set> {
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let text = std::fs::read_to_string(format!("{root}/tools/feature-sets")).unwrap();
    let mut v = vec![];
    for l in text.lines() {
        let (name, f) = l.split_once(' ').unwrap();
        let mut features: Vec<String> = f.split(',').map(String::from).collect();
        if features.iter().any(|f| f.starts_with("write_") || f == "build") {
            features.push("write".into());
        }
        if features.contains(&"pe".to_string()) {
            features.push("coff".into());
        }
        v.push(Set { name: name.into(), features, program: format!("{root}/target/feat/{name}/feat").into() });
    }
    v
}

struct Files(PathBuf, PathBuf);
impl Drop for Files {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
        let _ = std::fs::remove_file(&self.1);
    }
}

type Answers = HashMap<(usize, String), String>;

fn run(set: &Set, jobs: &[String], inputs: &[u8]) -> Option<Answers> {
    static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let name = |x| std::env::temp_dir().join(format!("c30-{}-{n}.{x}", std::process::id()));
    let f = Files(name("jobs"), name("inputs"));
    std::fs::write(&f.0, jobs.join("\n") + "\n").unwrap();
    std::fs::write(&f.1, inputs).unwrap();
    let out = Command::new("timeout").args(["-k", "5", "300"]).arg(&set.program).arg(&f.0).arg(&f.1).output().ok()?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut v = Answers::new();
    let mut done = false;
    for l in text.lines() {
        let x: Vec<&str> = l.splitn(3, '\t').collect();
        let [a, b, m] = x[..] else { continue };
        match a.parse() {
            Ok(job) => drop(v.insert((job, b.into()), m.into())),
            Err(_) => done = a == "done",
        }
    }
    done.then_some(v)
}

/// The feature that a kind of file needs.
fn needs(kind: &str) -> Option<&'static str> {
    let k = kind.strip_prefix("Ok(")?;
    Some(match () {
        _ if k.starts_with("Archive") => "archive",
        _ if k.starts_with("Coff") => "coff",
        _ if k.starts_with("DyldCache") || k.starts_with("MachO") => "macho",
        _ if k.starts_with("Elf") => "elf",
        _ if k.starts_with("Pe") => "pe",
        _ if k.starts_with("Wasm") => "wasm",
        _ if k.starts_with("Xcoff") => "xcoff",
        _ => return None,
    })
}

/// Whether a build with these features may answer so, when one with all formats answers `want`.
fn agree(set: &Set, what: &str, kind: &str, want: &str, got: &str) -> bool {
    // With names, constants look different; then only the numbers of things are compared.
    let look = |s: &'_ str| -> String {
        let x: Vec<&str> = s.split(' ').collect();
        if set.has("names") && (s.starts_with("refused") || s.starts_with("not written")) {
            return x[0].into();
        }
        if set.has("names") && x.len() == 3 && x[0].len() == 16 { x[1..].join(" ") } else { s.into() }
    };
    let (want, got) = (look(want), look(got));
    let (want, got) = (want.as_str(), got.as_str());
    if what == "uncompressed" {
        return got == "ok";
    }
    if what.starts_with("kind") {
        return match needs(want) {
            Some(f) if !set.has(f) => got.starts_with("Err("),
            Some(_) => got == want,
            None => got.starts_with("Err("),
        };
    }
    if what == "file" || what == "stored" {
        return match needs(kind) {
            Some(f) if set.has(f) => got == want,
            _ => got.starts_with("refused"),
        };
    }
    if let Some(f) = what.strip_prefix("build.") {
        if needs(kind) != Some(f) {
            return got.starts_with("refused") && want.starts_with("refused");
        }
    }
    got == want
}

fn reads(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut jobs, mut inputs) = (vec![], vec![]);
    for _ in 0..120 {
        let mut b = base(r, 24_000).1;
        if r.one_in(8) {
            b = noise(r);
        } else if !r.one_in(3) {
            let other = if r.one_in(6) { base(r, 24_000).1 } else { vec![] };
            mutate(r, &mut b, &other);
        }
        if b.len() > 24_000 {
            continue;
        }
        jobs.push((inputs.len(), b.len(), r.u32(), jobs.len() % 4 == 1));
        inputs.extend(&b);
    }
    o.input("inputs", &inputs);
    let line = |(at, len, salt, d): (usize, usize, u32, bool), log: u8| format!("read {at} {len} {salt} {} {log}", d as u8);
    let text: Vec<String> = jobs.iter().map(|j| line(*j, 0)).collect();
    let sets = sets();
    let reference = some!(sets.iter().find(|s| s.name == REFERENCE), "no reference");
    let Some(want) = run(reference, &text, &inputs) else { return Ok(()) };
    o.hit("reference.read");
    for set in sets.iter().filter(|s| s.name != REFERENCE && s.reads()) {
        if !set.program.exists() {
            o.hit("not built");
            continue;
        }
        let Some(got) = run(set, &text, &inputs) else {
            o.hit("no answer");
            continue;
        };
        let mut keys: Vec<_> = got.keys().collect();
        keys.sort();
        for key in keys {
            let (k, what) = key;
            let j = jobs[*k];
            if j.3 && !set.has("compression") && what != "uncompressed" {
                continue;
            }
            let g = &got[key];
            let w = want.get(key);
            o.eval();
            if !g.starts_with("refused") && what == "file" {
                o.sample(|| format!("features {}, {} bytes: {what}: {g}; with all formats {w:?}", set.features.join(","), j.1));
            }
            let kind = &want[&(*k, "kind0".to_string())];
            o.hit(match what.as_str() {
                "file" | "stored" => {
                    if g.starts_with("refused") { "files refused" } else { "files compared" }
                }
                _ if what.starts_with("kind") => "kinds compared",
                _ if what.starts_with("build") => "builders compared",
                "uncompressed" => "uncompressed sections",
                _ => "typed parsers compared",
            });
            if w.is_some_and(|w| agree(set, what, kind, w, g)) || (what == "uncompressed" && g == "ok") {
                o.nontrivial(vcore::hash(format!("{what} {g}").as_bytes()));
                continue;
            }
            let data = &inputs[j.0..j.0 + j.1];
            o.input("input", data);
            let one = [line((0, j.1, j.2, j.3), 1)];
            let log = |s: &Set| run(s, &one, data).and_then(|v| v.get(&(0, what.clone())).cloned()).unwrap_or_default();
            let (a, b) = (log(reference), log(set));
            let (a, b): (Vec<&str>, Vec<&str>) = (a.split('\x1f').skip(1).collect(), b.split('\x1f').skip(1).collect());
            let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i));
            ensure!(
                false,
                "features {}: {what} of {} ({} bytes at {}): {g}, with all formats {w:?}; first difference {:?}, with all formats {:?}",
                set.features.join(","),
                kind,
                j.1,
                j.0,
                i.and_then(|i| b.get(i)),
                i.and_then(|i| a.get(i))
            );
        }
        o.hit("sets.read");
    }
    Ok(())
}

const FORMATS: [&str; 4] = ["coff", "elf", "macho", "xcoff"];

fn writes(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let jobs: Vec<(usize, u64)> = (0..400).map(|i| (i % 4, r.u64() >> 1)).collect();
    let text: Vec<String> = jobs.iter().map(|(f, s)| format!("write {f} {s} 0")).collect();
    let sets = sets();
    let reference = some!(sets.iter().find(|s| s.name == REFERENCE), "no reference");
    let Some(want) = run(reference, &text, &[]) else { return Ok(()) };
    o.hit("reference.write");
    for set in sets.iter().filter(|s| s.name != REFERENCE) {
        let fits: Vec<usize> = (0..jobs.len()).filter(|k| set.writes(FORMATS[jobs[*k].0])).collect();
        if fits.is_empty() {
            continue;
        }
        if !set.program.exists() {
            o.hit("not built");
            continue;
        }
        let text: Vec<String> = fits.iter().map(|k| text[*k].clone()).collect();
        let Some(got) = run(set, &text, &[]) else {
            o.hit("no answer");
            continue;
        };
        let mut keys: Vec<_> = got.keys().collect();
        keys.sort();
        for key in keys {
            let (f, seed) = jobs[fits[key.0]];
            let g = &got[key];
            let w = want.get(&(fits[key.0], key.1.clone()));
            o.eval();
            o.sample(|| format!("features {}, {} object of seed {seed}: {g}; with all formats {w:?}", set.features.join(","), FORMATS[f]));
            o.hit(if g.starts_with("refused") || g == "panic" { "not written" } else { ["coff written", "elf written", "macho written", "xcoff written"][f] });
            o.nontrivial(vcore::hash(g.as_bytes()));
            ensure!(w == Some(g), "features {}: {} of {} object {seed}: {g}, with all formats {w:?}", set.features.join(","), key.1, FORMATS[f]);
        }
        o.hit("sets.write");
    }
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C30",
    rule: "what a build with fewer features reads and writes is what a build with all of them does",
    parts: &[Part { name: "reads", quick: 120, thorough: 3000, run: reads }, Part { name: "writes", quick: 40, thorough: 1000, run: writes }],
    required: &[
        "reference.read",
        "reference.write",
        "sets.read",
        "sets.write",
        "files compared",
        "files refused",
        "kinds compared",
        "builders compared",
        "typed parsers compared",
        "uncompressed sections",
        "coff written",
        "elf written",
        "macho written",
        "xcoff written",
    ],
    tools: &["cargo"],
    assumptions: &["the sets of features are the 25 of tools/feature-sets; one that doesn't build is counted (\"not built\") and skipped", "the names feature only changes formatting of constants, which C28 covers"],
    level: "exploration",
};

fn main() {
    vcore::main(&SPEC);
}

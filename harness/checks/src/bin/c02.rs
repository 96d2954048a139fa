//! C02: no undefined behaviour, and results that borrow from the input lie
//! inside it.  The observers are Miri, AddressSanitizer, the compiler's own
//! checks of debug builds, and range checks on every returned pointer.
use checks::inputs::{base, mutate, noise};
use checks::walk::{self, T};
use std::process::Command;
use vcore::{Obs, Part, Res, Rng, Spec, ensure};

const KINDS: u64 = 8;

fn one(r: &mut Rng, max: usize) -> (&'static str, Vec<u8>, bool) {
    if r.one_in(10) {
        return ("noise", noise(r), false);
    }
    let (name, mut b) = base(r, max);
    let plain = r.one_in(3);
    if !plain {
        let other = if r.one_in(6) { base(r, max).1 } else { vec![] };
        mutate(r, &mut b, &other);
    }
    (name, b, plain)
}

/// Every alignment, with unrelated bytes on both sides.
fn native(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (name, b, _) = one(r, 24_000);
    o.input("file", &b);
    let k = (case % KINDS) as usize;
    let n = b.len();
    let mut store = vec![r.u64(); (n + k).div_ceil(8) + 2];
    let whole = object::pod::bytes_of_slice_mut(&mut store);
    whole[8 + k..8 + k + n].copy_from_slice(&b);
    let data = &whole[8 + k..8 + k + n];
    let mut t = T::slice(data);
    t.salt = r.u64();
    walk::all(data, &mut t);
    if let Some(m) = &t.bad {
        ensure!(false, "{name} at alignment {k}: {m}");
    }
    o.add("slices", t.slices);
    o.add("observations", t.n);
    o.hit(["align0", "align1", "align2", "align3", "align4", "align5", "align6", "align7"][k]);
    o.nontrivial(t.hash);
    Ok(())
}

struct Pack(std::path::PathBuf);
impl Drop for Pack {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn pack(r: &mut Rng, o: &mut Obs, n: u64, max: usize, tag: &str) -> Pack {
    let mut v = vec![];
    for _ in 0..n {
        let (_, b, plain) = one(r, max);
        let mut how = if r.bool() { 0 } else { r.u8() & 7 };
        if r.one_in(4) {
            how |= 0x10;
        }
        if plain {
            how |= 0x20;
        }
        v.push(how);
        v.extend((b.len() as u32).to_le_bytes());
        v.extend(r.u64().to_le_bytes());
        v.extend(b);
    }
    o.input("pack", &v);
    let p = std::env::temp_dir().join(format!("c02-{}-{tag}-{:x}", std::process::id(), vcore::hash(&v)));
    std::fs::write(&p, v).unwrap();
    Pack(p)
}

fn verif() -> String {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".into())
}

/// Runs the walker under an observer; its report is the verdict.
fn child(mut c: Command, what: &'static str, o: &mut Obs) -> Res {
    let out = match c.output() {
        Ok(out) => out,
        Err(_) => return Ok(()),
    };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let done = text.lines().rev().find(|l| l.starts_with("done "));
    let last = text.lines().rev().find(|l| l.starts_with("case ")).unwrap_or("").to_string();
    let bad = text.lines().find(|l| l.starts_with("BAD "));
    ensure!(bad.is_none(), "{what}: {last}: {bad:?}");
    let reports = ["Undefined Behavior", "AddressSanitizer", "panicked at", "misaligned pointer", "memory leaked", "SIGSEGV", "SUMMARY:"];
    let head: Vec<&str> = err.lines().filter(|l| reports.iter().any(|k| l.contains(k)) || l.trim_start().starts_with("-->")).take(6).collect();
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = out.status.signal() {
        // Killed from outside: no verdict.
        if s == 9 || s == 15 {
            return Ok(());
        }
        ensure!(false, "{what}: {last}: died of signal {s}: {head:?}");
    }
    ensure!(out.status.success() || head.is_empty(), "{what}: {last}: {}", head.join(" | "));
    // No report and no success: the observer itself could not run.
    if let (true, Some(d)) = (out.status.success(), done) {
        let f: Vec<u64> = d.split(' ').skip(2).filter_map(|x| x.parse().ok()).collect();
        o.hit(what);
        if let [n, obs, slices, _] = f[..] {
            o.add("observed.inputs", n);
            o.add("observed.values", obs);
            o.add("observed.slices", slices);
        }
        o.nontrivial(vcore::hash(d.as_bytes()));
    }
    Ok(())
}

fn asan(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let n = if vcore::thorough() { 600 } else { 250 };
    let p = pack(r, o, n, 24_000, "asan");
    let mut c = Command::new(format!("{}/target/asan/x86_64-unknown-linux-gnu/debug/mem", verif()));
    c.env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0");
    c.arg("walk").arg(&p.0).arg("20000");
    child(c, "asan", o)
}

fn miri(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let n = if vcore::thorough() { 12 } else { 2 };
    let root = verif();
    let mut c = Command::new(format!("{root}/tools/miri.sh"));
    c.env("VERIF_ROOT", &root);
    if case == 0 {
        c.arg("pods");
        return child(c, "miri.pods", o);
    }
    let p = pack(r, o, n, 3_000, "miri");
    c.arg("walk").arg(&p.0).arg(if vcore::thorough() { "900" } else { "450" });
    child(c, "miri", o)
}

/// Long histories of one cache with everything it returned kept alive.
fn held(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let seed = (r.u64() >> 20).to_string();
    let root = verif();
    let mut c;
    if case.is_multiple_of(4) {
        c = Command::new(format!("{root}/tools/miri.sh"));
        c.env("VERIF_ROOT", &root);
        c.args(["cache", &seed, "1", if vcore::thorough() { "4000" } else { "700" }]);
        child(c, "miri.cache", o)
    } else {
        c = Command::new(format!("{root}/target/asan/x86_64-unknown-linux-gnu/debug/mem"));
        c.env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0");
        c.args(["cache", &seed, "20", "6000"]);
        child(c, "asan.cache", o)
    }
}

pub static SPEC: Spec = Spec {
    id: "C02",
    rule: "no undefined behaviour on the executed workload, and borrowed results lie inside the input",
    parts: &[
        Part { name: "miri", quick: 16, thorough: 400, run: miri },
        Part { name: "asan", quick: 24, thorough: 600, run: asan },
        Part { name: "held", quick: 8, thorough: 200, run: held },
        Part { name: "native", quick: 30_000, thorough: 1_500_000, run: native },
    ],
    required: &["align0", "align1", "align4", "align7", "asan", "miri", "miri.pods", "miri.cache", "asan.cache"],
    tools: &["asan", "miri", "miri.pods", "miri.cache", "asan.cache"],
    assumptions: &[
        "Miri runs a few dozen (thorough: thousands of) inputs of up to 3000 bytes and 700 observations each; AddressSanitizer and the pointer checks see larger and many more inputs",
        "code of dependencies (flate2, ruzstd, memchr, wasmparser) is observed as it is called, but is not under test",
    ],
    level: "exploration",
};

fn main() {
    vcore::main(&SPEC);
}

//! Input files for the checks that judge the whole read API: files generated
//! by the per-format checks, files made by real tools (`/verif/corpus`), and
//! mutations of both.
use std::sync::OnceLock;
use vcore::{CaseFn, Rng, capture};

#[path = "bin/c05.rs"]
#[allow(dead_code)]
pub mod c05;
#[path = "bin/c06.rs"]
#[allow(dead_code)]
pub mod c06;
#[path = "bin/c07.rs"]
#[allow(dead_code)]
pub mod c07;
#[path = "bin/c08.rs"]
#[allow(dead_code)]
pub mod c08;
#[path = "bin/c09.rs"]
#[allow(dead_code)]
pub mod c09;
#[path = "bin/c10.rs"]
#[allow(dead_code)]
pub mod c10;
#[path = "bin/c11.rs"]
#[allow(dead_code)]
pub mod c11;
#[path = "bin/c12.rs"]
#[allow(dead_code)]
pub mod c12;
#[path = "bin/c13.rs"]
#[allow(dead_code)]
pub mod c13;
#[path = "bin/c14.rs"]
#[allow(dead_code)]
pub mod c14;

/// The generators: name, case function, cases of the quick tier.
pub fn sources() -> &'static [(&'static str, CaseFn, u64)] {
    static S: OnceLock<Vec<(&'static str, CaseFn, u64)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        let mut add = |spec: &vcore::Spec, part: usize| {
            let p = &spec.parts[part];
            v.push((spec.id, p.run, p.quick));
        };
        add(&c05::SPEC, 0);
        add(&c06::SPEC, 0);
        add(&c07::SPEC, 0);
        add(&c08::SPEC, 0);
        add(&c08::SPEC, 1);
        add(&c09::SPEC, 0);
        add(&c09::SPEC, 1);
        add(&c10::SPEC, 0);
        add(&c10::SPEC, 1);
        add(&c11::SPEC, 0);
        add(&c12::SPEC, 0);
        add(&c13::SPEC, 0);
        add(&c14::SPEC, 0);
        v
    })
}

pub fn corpus() -> &'static [(String, Vec<u8>)] {
    static C: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    C.get_or_init(vcore::corpus)
}

/// A well-formed (or deliberately odd) file.
pub fn base(r: &mut Rng, max: usize) -> (&'static str, Vec<u8>) {
    for _ in 0..20 {
        if r.one_in(4) {
            let c = corpus();
            if !c.is_empty() {
                let f = &c[r.idx(c.len())].1;
                if f.len() <= max {
                    return ("corpus", f.clone());
                }
                continue;
            }
        }
        let s = sources();
        let (name, f, n) = s[r.idx(s.len())];
        let case = r.below(n);
        let mut r2 = r.fork();
        if let Some((_, b)) = capture(f, case, &mut r2) {
            if b.len() <= max {
                return (name, b);
            }
        }
    }
    ("none", vec![])
}

fn edge(r: &mut Rng, len: usize) -> u64 {
    let len = len as u64;
    match r.below(18) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => len,
        4 => len.wrapping_sub(1),
        5 => len + 1,
        6 => u64::MAX,
        7 => u64::MAX - r.below(64),
        8 => 0x7fff_ffff,
        9 => 0x8000_0000,
        10 => 0xffff_ffff,
        11 => 0xffff_fff0 + r.below(16),
        12 => 1 << r.below(64),
        13 => (1u64 << r.below(64)).wrapping_sub(1),
        14 => r.below(len + 1),
        15 => r.below(64),
        16 => i64::MAX as u64,
        _ => r.u64(),
    }
}

fn pos(r: &mut Rng, len: usize) -> usize {
    if len == 0 {
        return 0;
    }
    match r.below(10) {
        0..=3 => r.idx(len.min(128)),
        4..=5 => r.idx(len.min(640)),
        6 => len - 1 - r.idx(len.min(96)),
        _ => r.idx(len),
    }
}

/// Corrupts a file in place.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    if b.is_empty() {
        return;
    }
    let most = if r.one_in(4) { 12 } else { 3 };
    let ops = 1 + r.below(most);
    for _ in 0..ops {
        let n = b.len();
        if n == 0 {
            return;
        }
        match r.below(16) {
            0 => {
                let i = pos(r, n);
                b[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = pos(r, n);
                b[i] = r.u8();
            }
            2..=7 => {
                // A field with an edge value.
                let w = *r.pick(&[1usize, 2, 4, 4, 4, 8, 8]);
                let mut i = pos(r, n);
                if r.one_in(8) {
                    i = i.min(n.saturating_sub(1));
                } else {
                    i -= i % w.min(4);
                }
                let v = edge(r, n);
                let by = if r.one_in(3) { (v << (64 - 8 * w as u32)).to_be_bytes() } else { v.to_le_bytes() };
                for (k, x) in by.iter().take(w).enumerate() {
                    if let Some(d) = b.get_mut(i + k) {
                        *d = *x;
                    }
                }
            }
            8 => {
                // A field slightly off.
                let i = pos(r, n);
                b[i] = b[i].wrapping_add(*r.pick(&[1u8, 255, 2, 254, 4, 252, 8, 16, 128]));
            }
            9..=10 => {
                // One field becomes equal to another: overlaps and cycles.
                let w = *r.pick(&[2usize, 4, 8]);
                let (i, j) = (pos(r, n), pos(r, n));
                let (i, j) = (i - i % 4, j - j % 4);
                if i + w <= n && j + w <= n {
                    let t = b[i..i + w].to_vec();
                    b[j..j + w].copy_from_slice(&t);
                }
            }
            11 => {
                let k = if r.bool() { pos(r, n) } else { n - 1 - r.idx(n.min(40)) };
                b.truncate(k);
            }
            12 => {
                // A block moves.
                let (i, j) = (pos(r, n), pos(r, n));
                let w = 1 + r.idx(48.min(n));
                if i + w <= n && j + w <= n {
                    b.copy_within(i..i + w, j);
                }
            }
            13 => {
                let i = pos(r, n);
                if r.bool() {
                    let w = 1 + r.idx(16);
                    let x = r.u8();
                    for _ in 0..w {
                        b.insert(i, x);
                    }
                } else {
                    let w = (1 + r.idx(16)).min(n - i);
                    b.drain(i..i + w);
                }
            }
            14 => {
                // A piece of another file.
                if !other.is_empty() {
                    let i = pos(r, n);
                    let j = pos(r, other.len());
                    let w = (1 + r.idx(200)).min(n - i).min(other.len() - j);
                    b[i..i + w].copy_from_slice(&other[j..j + w]);
                }
            }
            _ => {
                let i = pos(r, n);
                let w = (1 + r.idx(32)).min(n - i);
                let x = *r.pick(&[0u8, 0xff, 0x7f, 0x80]);
                b[i..i + w].fill(x);
            }
        }
    }
}

/// A few magic numbers followed by noise.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    let magics: &[&[u8]] = &[
        b"\x7fELF\x01\x01\x01", b"\x7fELF\x02\x01\x01", b"\x7fELF\x01\x02\x01", b"\x7fELF\x02\x02\x01", b"MZ", b"!<arch>\n", b"!<thin>\n", b"<bigaf>\n",
        b"\0asm\x01\0\0\0", b"\xfe\xed\xfa\xce", b"\xfe\xed\xfa\xcf", b"\xce\xfa\xed\xfe", b"\xcf\xfa\xed\xfe", b"\xca\xfe\xba\xbe", b"\xca\xfe\xba\xbf",
        b"\x01\xdf", b"\x01\xf7", b"\x64\x86", b"\x4c\x01", b"\0\0\xff\xff\0\0", b"\0\0\xff\xff\x02\0", b"dyld_v1  x86_64\0", b"dyld_v1   arm64e\0", b"",
    ];
    let mut b = r.pick(magics).to_vec();
    let n = r.idx(*r.clone().pick(&[8usize, 64, 256, 1500]) + 1);
    let style = r.below(4);
    for _ in 0..n {
        b.push(match style {
            0 => r.u8(),
            1 => if r.one_in(4) { r.u8() } else { 0 },
            2 => r.u8() & 3,
            _ => *r.pick(&[0u8, 0, 0, 1, 0xff, 0x80, 8, 16, 0x40]),
        });
    }
    b
}

/// Longest string an input could hold for any delimiter the readers use.
pub fn longest_run(b: &[u8]) -> usize {
    let (mut best, mut cur) = (0, 0);
    for c in b {
        if *c == 0 {
            cur = 0;
        } else {
            cur += 1;
            best = best.max(cur);
        }
    }
    best
}

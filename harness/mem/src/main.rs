#![allow(deprecated)]
//! Run under Miri and AddressSanitizer: walks inputs from a pack file through
//! every storage, and exercises the casts of every structure.
#[path = "../../checks/src/walk/mod.rs"]
pub mod walk;
#[macro_use]
mod pods;

use object::pod::{self, Pod};
use walk::T;

fn pod<P: Pod>() {
    let n = size_of::<P>();
    let a = align_of::<P>();
    let fills: &[u8] = if cfg!(miri) { &[0xa5] } else { &[0, 0xff, 0xa5] };
    let places: &[usize] = if cfg!(miri) { &[0, 1, 4] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8] };
    for &fill in fills {
        let mut store = vec![0u64; (3 * n + 32) / 8 + 1];
        let whole = pod::bytes_of_slice_mut(&mut store);
        whole.fill(fill);
        let (same, other) = (vec![fill; 2 * n], vec![!fill; n]);
        for &k in places {
            let want = k % a == 0;
            let b = &whole[k..k + n];
            match pod::from_bytes::<P>(b) {
                Ok((p, tail)) => {
                    assert!(want && tail.is_empty());
                    // Checks that every field is valid.
                    let c: P = *p;
                    assert!(pod::bytes_of(&c) == b);
                    assert!(pod::bytes_of(&c) == &same[..n]);
                    let mut v = [c, c];
                    assert!(pod::bytes_of_slice(&v) == same);
                    assert!(pod::bytes_of_slice_mut(&mut v) == same);
                    let mut c = c;
                    pod::bytes_of_mut(&mut c).copy_from_slice(&other);
                    assert!(pod::bytes_of(&c) == other);
                }
                Err(()) => assert!(!want),
            }
            assert!(pod::from_bytes::<P>(&b[..n - 1]).is_err());
            let (b, want) = (&whole[k..k + 2 * n], want);
            assert_eq!(pod::slice_from_bytes::<P>(b, 2).is_ok(), want);
            assert!(pod::slice_from_bytes::<P>(b, 3).is_err());
            assert!(pod::slice_from_bytes::<P>(b, (usize::MAX / n).saturating_add(2)).is_err());
            if let Ok((s, _)) = pod::slice_from_bytes::<P>(b, 2) {
                assert!(pod::bytes_of_slice(s) == b);
            }
            assert_eq!(pod::slice_from_all_bytes::<P>(b).is_ok(), want);
            assert!(n == 1 || pod::slice_from_all_bytes::<P>(&b[..2 * n - 1]).is_err());
            let b = &mut whole[k..k + 2 * n];
            assert_eq!(pod::slice_from_all_bytes_mut::<P>(b).is_ok(), want);
            match pod::from_bytes_mut::<P>(b) {
                Ok((p, tail)) => {
                    assert!(want && tail.len() == n);
                    let c = *p;
                    *p = c;
                    tail[n - 1] = fill;
                }
                Err(()) => assert!(!want),
            }
            match pod::slice_from_bytes_mut::<P>(b, 1) {
                Ok((p, tail)) => {
                    assert!(want && tail.len() == n && p.len() == 1);
                    let c = p[0];
                    p[0] = c;
                    tail[0] = fill;
                }
                Err(()) => assert!(!want),
            }
            assert!(pod::slice_from_bytes_mut::<P>(b, 3).is_err());
            assert!(pod::slice_from_bytes_mut::<P>(b, (usize::MAX / n).saturating_add(2)).is_err());
        }
    }
}

macro_rules! one {
    ($t:ty) => {
        pod::<$t>()
    };
}

fn cases(file: &str) -> Vec<(u8, u64, Vec<u8>)> {
    let b = std::fs::read(file).unwrap();
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        let how = b[p];
        let n = u32::from_le_bytes(b[p + 1..p + 5].try_into().unwrap()) as usize;
        let salt = u64::from_le_bytes(b[p + 5..p + 13].try_into().unwrap());
        v.push((how, salt, b[p + 13..p + 13 + n].to_vec()));
        p += 13 + n;
    }
    v
}

fn rewrite(data: &[u8], t: &mut T) {
    if let Ok(b) = object::build::elf::Builder::read(data) {
        let mut out = vec![];
        t.at("builder");
        let r = b.write(&mut out).is_ok();
        t.d("rewrite", (r, out.len()));
    }
    if let Ok(b) = object::build::elf::Builder::read32(data) {
        let mut out = vec![];
        let r = b.write(&mut out).is_ok();
        t.d("rewrite", (r, out.len()));
    }
}

mod cache;
mod copy;

/// A panic is not a memory error; other properties are about panics.
fn quiet(t: &mut T, f: impl FnOnce(&mut T)) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(t))).is_err() {
        t.at("panic");
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("pods") => {
            all_pods!(one);
            one!(u8);
            one!(u16);
            one!(u32);
            one!(u64);
            one!([u16; 3]);
            one!(object::U16<object::LittleEndian>);
            one!(object::U64Bytes<object::LittleEndian>);
            println!("done pods 200");
        }
        Some("walk") => {
            std::panic::set_hook(Box::new(|_| ()));
            let budget = args[3].parse().unwrap();
            let mut n = 0;
            let (mut obs, mut slices) = (0, 0);
            let mut seen = std::collections::BTreeMap::<&str, u64>::new();
            for (how, salt, b) in cases(&args[2]) {
                println!("case {n}");
                let k = (how & 7) as usize;
                let mut t;
                if how & 0x10 != 0 {
                    let cache = object::ReadCache::new(std::io::Cursor::new(&b));
                    t = T::new(b.len());
                    t.budget = budget;
                    t.salt = salt;
                    t.decompress = false;
                    quiet(&mut t, |t| walk::all(&cache, t));
                    t.at("cached");
                } else {
                    // At an address that is k modulo 8, with nothing after it.
                    let l = std::alloc::Layout::from_size_align((b.len() + k).max(1), 8).unwrap();
                    let p = unsafe { std::alloc::alloc(l) };
                    let s: &[u8] = unsafe {
                        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(k), b.len());
                        std::slice::from_raw_parts(p.add(k), b.len())
                    };
                    t = T::slice(s);
                    t.budget = budget;
                    t.salt = salt;
                    t.decompress = false;
                    quiet(&mut t, |t| walk::all(s, t));
                    if how & 0x20 != 0 {
                        quiet(&mut t, |t| rewrite(s, t));
                        quiet(&mut t, |t| copy::copy(s, t));
                    }
                    unsafe { std::alloc::dealloc(p, l) };
                }
                if let Some(b) = &t.bad {
                    println!("BAD {b}");
                    std::process::exit(3);
                }
                obs += t.n;
                slices += t.slices;
                for x in &t.seen {
                    *seen.entry(x).or_default() += 1;
                }
                n += 1;
            }
            println!("done walk {n} {obs} {slices} {}", seen.len());
        }
        // A changed slice shows as a panic, a freed one as a report.
        Some("cache") => {
            let (seed, rounds, steps) = (args[2].parse::<u64>().unwrap(), args[3].parse::<u64>().unwrap(), args[4].parse().unwrap());
            let (mut obs, mut slices) = (0, 0);
            for k in 0..rounds {
                println!("case {k}");
                let (_, a, b) = cache::run(seed.wrapping_mul(1009).wrapping_add(k), steps);
                slices += a;
                obs += b;
            }
            println!("done cache {rounds} {obs} {slices} 1");
        }
        _ => println!("done probe 0"),
    }
}

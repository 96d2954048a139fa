//! The workloads of other checks, made to run on hosts of other kinds: with
//! 32-bit pointers (WebAssembly, at full speed) or big-endian memory (Miri).
#![allow(dead_code)]
use checks::inputs::{c05, c06, c07, c08, c09, c10, c11, c12, c13, c14};
use checks::hosts::PARTS;
use vcore::{Obs, Spec};

macro_rules! bins {
    ($($m:ident $f:literal)*) => { $(#[path = $f] mod $m;)* };
}
bins! {
    c01 "../../checks/src/bin/c01.rs"
    c03 "../../checks/src/bin/c03.rs"
    c04 "../../checks/src/bin/c04.rs"
    c15 "../../checks/src/bin/c15.rs"
    c16 "../../checks/src/bin/c16.rs"
    c17 "../../checks/src/bin/c17.rs"
    c18 "../../checks/src/bin/c18.rs"
    c19 "../../checks/src/bin/c19.rs"
    c20 "../../checks/src/bin/c20.rs"
    c21 "../../checks/src/bin/c21.rs"
    c22 "../../checks/src/bin/c22.rs"
    c23 "../../checks/src/bin/c23.rs"
    c24 "../../checks/src/bin/c24.rs"
    c25 "../../checks/src/bin/c25.rs"
    c26 "../../checks/src/bin/c26.rs"
    c27 "../../checks/src/bin/c27.rs"
    c28 "../../checks/src/bin/c28.rs"
}

use c28::consts;

static SPECS: &[&Spec] = &[&c01::SPEC, &c03::SPEC, &c04::SPEC, &c05::SPEC, &c06::SPEC, &c07::SPEC, &c08::SPEC, &c09::SPEC, &c10::SPEC, &c11::SPEC, &c12::SPEC, &c13::SPEC, &c14::SPEC, &c15::SPEC, &c16::SPEC, &c17::SPEC, &c18::SPEC, &c19::SPEC, &c20::SPEC, &c21::SPEC, &c22::SPEC, &c23::SPEC, &c24::SPEC, &c25::SPEC, &c26::SPEC, &c27::SPEC, &c28::SPEC];

/// One case of a part; `Err` is what its oracle objects to.
pub fn case(part: usize, case: u64, seed: u64, o: &mut Obs) -> Result<(), String> {
    let (id, name, ..) = PARTS[part];
    let spec = SPECS.iter().find(|s| s.id == id).unwrap();
    let k = spec.parts.iter().position(|p| p.name == name).unwrap();
    vcore::run_one(spec, k, case, seed, o)
}

#[cfg(feature = "ffi")]
/// For hosts without a file system: the caller writes to and reads from one buffer.
mod ffi {
    use super::*;
    static mut BUF: Vec<u64> = Vec::new();
    static mut OUT: String = String::new();
    static mut OBS: Option<Obs> = None;

    #[unsafe(no_mangle)]
    extern "C" fn host_buf(n: usize) -> *mut u8 {
        #[allow(static_mut_refs)]
        unsafe {
            BUF = vec![0; n / 8 + 1];
            BUF.as_mut_ptr() as *mut u8
        }
    }
    #[unsafe(no_mangle)]
    extern "C" fn host_out() -> *const u8 {
        #[allow(static_mut_refs)]
        unsafe { OUT.as_ptr() }
    }
    #[unsafe(no_mangle)]
    extern "C" fn host_out_len() -> usize {
        #[allow(static_mut_refs)]
        unsafe { OUT.len() }
    }
    fn put(s: String) {
        #[allow(static_mut_refs)]
        unsafe { OUT = s };
    }
    fn buf(n: usize) -> &'static [u8] {
        #[allow(static_mut_refs)]
        unsafe { &object::pod::bytes_of_slice(&BUF)[..n] }
    }
    #[unsafe(no_mangle)]
    extern "C" fn host_init() {
        vcore::install_hook();
        #[allow(static_mut_refs)]
        unsafe { OBS = Some(Obs::default()) };
    }
    #[unsafe(no_mangle)]
    extern "C" fn host_corpus(name: usize, n: usize) {
        let b = buf(n);
        vcore::GIVEN.lock().unwrap().push((String::from_utf8_lossy(&b[..name]).into_owned(), b[name..].to_vec()));
    }
    #[unsafe(no_mangle)]
    extern "C" fn host_case(part: usize, k: u32, seed: u32) -> bool {
        #[allow(static_mut_refs)]
        let o = unsafe { OBS.as_mut().unwrap() };
        match case(part, k as u64, seed as u64, o) {
            Ok(()) => true,
            Err(e) => {
                put(e);
                false
            }
        }
    }
    #[unsafe(no_mangle)]
    extern "C" fn host_seen() {
        #[allow(static_mut_refs)]
        let o = unsafe { OBS.as_ref().unwrap() };
        put(format!("{} {}", o.distinct(), o.counters().values().sum::<u64>()));
    }
    #[unsafe(no_mangle)]
    extern "C" fn host_answer(way: u32, lo: u32, hi: u32, n: usize, log: u32) {
        let mut l = vec![];
        let (h, a, g) = checks::hosts::answer(way as u8, (hi as u64) << 32 | lo as u64, buf(n), false, 20_000, (log != 0).then_some(&mut l));
        let mut s = format!("{h:016x} {a} {g}\n");
        s.extend(l);
        put(s);
    }
}

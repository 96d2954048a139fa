//! Walks the whole read API over one input and records everything it
//! observes in a transcript.  The transcript is the monitor: it checks that
//! returned slices lie inside the input, that iterators are bounded, and its
//! hash lets two storages of the same bytes be compared observation by
//! observation.

#[cfg(feature = "archive")]
pub mod archive;
#[cfg(feature = "coff")]
pub mod coff;
#[cfg(feature = "elf")]
pub mod elf;
#[cfg(feature = "macho")]
pub mod macho;
#[cfg(feature = "pe")]
pub mod pe;
#[cfg(feature = "wasm")]
pub mod wasm;
#[cfg(feature = "xcoff")]
pub mod xcoff;
pub mod generic;

use object::read::ReadRef;
use std::fmt::{Debug, Write};
use std::result::Result;

pub struct T {
    pub hash: u64,
    /// Observations made.
    pub n: u64,
    /// Observations that carried a value (not an error).
    pub good: u64,
    /// Full text, when two transcripts have to be compared by a human.
    pub log: Option<Vec<String>>,
    /// Where the caller's bytes are; (0, 0) when the storage is not a slice.
    pub lo: usize,
    pub hi: usize,
    /// Bytes in the input.
    pub len: u64,
    /// First violation seen.
    pub bad: Option<String>,
    /// Which entry points were reached.
    pub seen: Vec<&'static str>,
    /// Observations allowed before the walk stops.
    pub budget: u64,
    pub slices: u64,
    pub errors: u64,
    /// Also decompress.
    pub decompress: bool,
    /// Live memory at the start, and the highest peak outside decompression.
    pub mem_base: isize,
    pub mem_peak: u64,
    pub depth: u32,
    /// Bit mask of optional behaviour chosen by the caller.
    pub salt: u64,
    /// Names may be text of the crate itself (Wasm section names).
    pub static_names: bool,
    /// A string longer than the cache's documented limit was returned.
    pub long_string: bool,
    /// Record only a part, since an interpreter is slow.
    pub sparse: bool,
    /// Record other characters all alike.
    pub ascii: bool,
    /// Use what is meant for sections of PE images on those of COFF objects too.
    pub pe_sections: bool,
    /// `.zdebug_` sections are found by names with `.debug_`.
    pub zdebug: bool,
}

struct Fnv<'a>(&'a mut u64, Option<&'a mut String>);
impl Write for Fnv<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            *self.0 = (*self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        if let Some(l) = &mut self.1 {
            l.push_str(s);
        }
        Ok(())
    }
}

/// Discards text, but makes `Debug` run.
pub struct Sink(pub u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        if self.0 > 1 << 20 { Err(std::fmt::Error) } else { Ok(()) }
    }
}

impl T {
    pub fn new(len: usize) -> T {
        T {
            hash: 0xcbf2_9ce4_8422_2325,
            n: 0,
            good: 0,
            log: None,
            lo: 0,
            hi: 0,
            len: len as u64,
            bad: None,
            seen: Vec::new(),
            budget: 60_000,
            slices: 0,
            errors: 0,
            decompress: true,
            mem_base: vcore::mem_mark(),
            mem_peak: 0,
            depth: 0,
            salt: 0,
            static_names: false,
            long_string: false,
            sparse: cfg!(miri),
            ascii: false,
            pe_sections: true,
            zdebug: true,
        }
    }
    /// Walk over a slice: returned references must point into it.
    pub fn slice(data: &[u8]) -> T {
        let mut t = T::new(data.len());
        t.lo = data.as_ptr() as usize;
        t.hi = t.lo + data.len();
        t
    }
    pub fn logged(mut self) -> T {
        self.log = Some(Vec::new());
        self
    }
    /// Memory used by the walk so far, decompression aside.
    pub fn peak(&mut self) -> u64 {
        self.mem_peak = self.mem_peak.max(vcore::mem_peak_since(self.mem_base));
        self.mem_peak
    }
    pub fn stop(&self) -> bool {
        self.n > self.budget || self.bad.is_some()
    }
    pub fn fail(&mut self, m: String) {
        if self.bad.is_none() {
            self.bad = Some(m);
        }
    }
    pub fn at(&mut self, name: &'static str) {
        if !self.seen.contains(&name) {
            self.seen.push(name);
        }
    }
    fn text(&mut self, tag: &str, v: std::fmt::Arguments) {
        self.n += 1;
        // Formatting is slow in an interpreter, and tells it little.
        if self.sparse && self.n % 16 != 0 {
            return;
        }
        if self.ascii {
            // Which characters are escaped depends on the compiler's version.
            let v = v.to_string();
            let mut line = String::new();
            let mut rest = v.as_str();
            while let Some(c) = rest.chars().next() {
                if let Some(x) = rest.strip_prefix("\\u{") {
                    line.push('?');
                    rest = x.trim_start_matches(|c: char| c.is_ascii_hexdigit());
                    rest = rest.strip_prefix('}').unwrap_or(rest);
                    continue;
                }
                line.push(if c.is_ascii() { c } else { '?' });
                rest = &rest[c.len_utf8()..];
            }
            let mut f = Fnv(&mut self.hash, None);
            let _ = writeln!(f, "{tag}={line}");
            if let Some(log) = &mut self.log {
                log.push(format!("{tag}={line}\n"));
            }
            return;
        }
        let mut line = self.log.is_some().then(String::new);
        let mut f = Fnv(&mut self.hash, line.as_mut());
        let _ = f.write_str(tag);
        let _ = f.write_str("=");
        let _ = f.write_fmt(v);
        let _ = f.write_str("\n");
        if let (Some(l), Some(log)) = (line, &mut self.log) {
            log.push(l);
        }
    }
    /// Records a value by its `Debug` text.
    pub fn d(&mut self, tag: &str, v: impl Debug) {
        self.good += 1;
        self.text(tag, format_args!("{v:?}"));
    }
    /// Records a result; the value only as "ok".
    pub fn ok<V, E: Debug>(&mut self, tag: &str, r: Result<V, E>) -> Option<V> {
        match r {
            Ok(v) => {
                self.good += 1;
                self.text(tag, format_args!("ok"));
                Some(v)
            }
            Err(e) => {
                self.errors += 1;
                self.text(tag, format_args!("{e:?}"));
                None
            }
        }
    }
    /// Records a result and an option inside it.
    pub fn oko<V, E: Debug>(&mut self, tag: &str, r: Result<Option<V>, E>) -> Option<V> {
        match self.ok(tag, r) {
            Some(Some(v)) => Some(v),
            Some(None) => {
                self.text(tag, format_args!("none"));
                None
            }
            None => None,
        }
    }
    pub fn inside(&mut self, tag: &str, p: *const u8, n: usize) {
        self.slices += 1;
        if self.hi == 0 || n == 0 {
            return;
        }
        let a = p as usize;
        if a < self.lo || a.checked_add(n).is_none_or(|e| e > self.hi) {
            let (lo, hi) = (self.lo, self.hi);
            self.fail(format!(
                "{tag}: {n} bytes returned from address {:+} of an input of {} bytes",
                a as i128 - lo as i128,
                hi - lo
            ));
        }
    }
    /// Bytes borrowed from the input.
    pub fn b(&mut self, tag: &str, b: &[u8]) {
        self.inside(tag, b.as_ptr(), b.len());
        self.owned(tag, b);
    }
    /// Bytes that may have been allocated.
    pub fn owned(&mut self, tag: &str, b: &[u8]) {
        self.good += 1;
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        // An interpreter looks at all bytes, but hashes few.
        let same = self.sparse && b == std::hint::black_box(b);
        let some = if same { &b[..b.len().min(32)] } else { b };
        for c in some {
            h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3);
        }
        if self.log.is_some() {
            let head = &b[..b.len().min(24)];
            self.text(tag, format_args!("[{}]{:x} {:?}", b.len(), h, head.escape_ascii().to_string()));
            // Keep the hash the same with and without a log.
        } else {
            let head = &b[..b.len().min(24)];
            self.text(tag, format_args!("[{}]{:x} {:?}", b.len(), h, head.escape_ascii().to_string()));
        }
    }
    pub fn rb<E: Debug>(&mut self, tag: &str, r: Result<&[u8], E>) {
        match r {
            Ok(b) => self.b(tag, b),
            Err(e) => {
                self.errors += 1;
                self.text(tag, format_args!("{e:?}"))
            }
        }
    }
    /// Text: may not be valid UTF-8, which is an error.
    pub fn rname<E: Debug>(&mut self, tag: &str, r: Result<&[u8], E>) {
        match r {
            Ok(b) if self.static_names => self.owned(tag, b),
            r => self.rb(tag, r),
        }
    }
    pub fn rs<E: Debug>(&mut self, tag: &str, r: Result<&str, E>) {
        self.rb(tag, r.map(|s| s.as_bytes()));
    }
    pub fn rob<E: Debug>(&mut self, tag: &str, r: Result<Option<&[u8]>, E>) {
        match r {
            Ok(Some(b)) => self.b(tag, b),
            Ok(None) => self.text(tag, format_args!("none")),
            Err(e) => {
                self.errors += 1;
                self.text(tag, format_args!("{e:?}"))
            }
        }
    }
    pub fn ob(&mut self, tag: &str, r: Option<&[u8]>) {
        self.rob(tag, Ok::<_, ()>(r));
    }
    /// A structure borrowed from the input.
    pub fn p<P: Debug>(&mut self, tag: &str, p: &P) {
        self.inside(tag, p as *const P as *const u8, size_of::<P>());
        self.d(tag, p);
    }
    /// An array of structures borrowed from the input.
    pub fn ps<P: Debug>(&mut self, tag: &str, p: &[P]) {
        self.inside(tag, p.as_ptr() as *const u8, size_of_val(p));
        self.d(tag, p.len());
        for x in p.iter().take(8) {
            self.d(tag, x);
        }
        if p.len() > 8 {
            self.d(tag, &p[p.len() - 1]);
        }
    }
    /// Items any iterator over this input may yield.
    pub fn limit(&self) -> u64 {
        // Some tables have a 16-bit count and may repeat one entry.
        (64 * self.len + 64).max(1 << 17)
    }
    /// Drains an iterator written as a function.  `cap` items at most are
    /// looked at when `bounded` is false; otherwise more than `limit` items
    /// is a violation.
    pub fn drain<V, E: Debug>(
        &mut self,
        tag: &'static str,
        bounded: bool,
        mut next: impl FnMut() -> Result<Option<V>, E>,
        mut f: impl FnMut(&mut T, V),
    ) {
        self.at(tag);
        let limit = self.limit();
        let mut count = 0u64;
        let mut errs = 0u64;
        loop {
            count += 1;
            if count > limit || errs > self.len + 16 {
                if bounded {
                    self.fail(format!("{tag}: {count} items ({errs} errors) from {} bytes, and no end", self.len));
                }
                return;
            }
            if self.sparse && count > 100 {
                return;
            }
            if !bounded && count > 3000 {
                self.d(tag, "capped");
                return;
            }
            match next() {
                Ok(Some(v)) => {
                    self.good += 1;
                    if count < 600 && !self.stop() {
                        f(self, v)
                    }
                }
                Ok(None) => break,
                Err(e) => {
                    errs += 1;
                    self.errors += 1;
                    if errs < 4 {
                        self.text(tag, format_args!("{e:?}"));
                    }
                }
            }
        }
        self.d(tag, count - 1);
        // Asking again after the end must be harmless.
        let _ = next();
    }
    /// Drains an iterator.
    pub fn iter<I: Iterator>(&mut self, tag: &'static str, mut it: I, mut f: impl FnMut(&mut T, I::Item)) {
        self.at(tag);
        let limit = self.limit();
        let (low, high) = it.size_hint();
        if low as u64 > limit {
            self.fail(format!(
                "{tag}: size hint promises {low} items from {} bytes (collecting them reserves memory for all)",
                self.len
            ));
            return;
        }
        let mut count = 0u64;
        while let Some(v) = it.next() {
            count += 1;
            if self.sparse && count > 100 {
                return;
            }
            if count > limit {
                self.fail(format!("{tag}: {count} items from {} bytes, and no end", self.len));
                return;
            }
            if count < 600 && !self.stop() {
                f(self, v)
            }
        }
        if high.is_some_and(|h| count > h as u64) || count < low as u64 {
            self.fail(format!("{tag}: size hint ({low}, {high:?}) but {count} items"));
        }
        self.d(tag, count);
        let _ = it.next();
    }
}

/// The unified interface, and every typed parser.
pub fn all<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    generic::detect(data, t);
    if t.stop() {
        return;
    }
    #[cfg(feature = "archive")]
    archive::archive(data, t);
    #[cfg(feature = "macho")]
    macho::fat(data, t);
    #[cfg(feature = "macho")]
    macho::cache(data, t);
    #[cfg(feature = "elf")]
    elf::elf(data, t);
    #[cfg(feature = "coff")]
    coff::coff(data, t);
    #[cfg(feature = "coff")]
    coff::import(data, t);
    #[cfg(feature = "pe")]
    pe::pe(data, t);
    #[cfg(feature = "macho")]
    macho::macho(data, t);
    #[cfg(feature = "xcoff")]
    xcoff::xcoff(data, t);
    #[cfg(feature = "wasm")]
    wasm::wasm(data, t);
}

/// An index that nothing has, on a host of any size.
pub fn far(bits: u32) -> usize {
    1usize.checked_shl(bits).unwrap_or(MOST)
}
/// The largest index, but never one that a 32-bit field can hold.
pub const MOST: usize = if usize::BITS > 32 { usize::MAX } else { 0xffff_ffd3 };

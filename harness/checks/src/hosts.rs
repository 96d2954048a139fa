//! What is run on hosts of other kinds: with 32-bit pointers, or big-endian memory.
use crate::walk::{self, T};
use vcore::Rng;

#[path = "../../mem/src/copy.rs"]
mod copy;

/// What is run on other hosts: the part of a check, the cases of a batch on a
/// 32-bit host, the cases of a quick run on a big-endian one, and whether there
/// are any there in a thorough run.
pub static PARTS: &[(&str, &str, u64, u64, u64)] = &[
    ("C01", "plain", 100, 0, 1),
    ("C01", "mutated", 400, 0, 1),
    ("C01", "random", 100, 4, 1),
    ("C01", "crafted", 1, 0, 0),
    ("C03", "history", 60, 1, 1),
    ("C03", "file", 60, 0, 1),
    ("C04", "file", 100, 0, 1),
    ("C04", "corpus", 10, 0, 1),
    ("C04", "kinds", 40, 4, 1),
    ("C05", "files", 150, 1, 1),
    ("C05", "reltypes", 10, 0, 1),
    ("C05", "links", 20, 4, 1),
    ("C06", "files", 150, 1, 1),
    ("C07", "files", 150, 1, 1),
    ("C08", "files", 150, 0, 1),
    ("C08", "imports", 60, 4, 1),
    ("C09", "files", 150, 1, 1),
    ("C09", "fat", 40, 1, 1),
    ("C10", "files", 150, 1, 1),
    ("C10", "cache", 80, 0, 1),
    ("C11", "files", 150, 0, 1),
    ("C12", "files", 150, 1, 1),
    ("C12", "numbers", 40, 4, 1),
    ("C13", "modules", 150, 1, 1),
    ("C14", "elf", 40, 0, 1),
    ("C14", "macho", 40, 0, 1),
    ("C14", "streams", 40, 1, 1),
    ("C15", "map", 40, 0, 1),
    ("C15", "files", 40, 1, 1),
    ("C15", "objmap", 40, 1, 1),
    ("C15", "relocs", 40, 4, 1),
    ("C15", "anyreloc", 20, 1, 1),
    ("C16", "endian", 60, 4, 1),
    ("C16", "casts", 60, 4, 1),
    ("C16", "cursor", 60, 4, 1),
    ("C16", "leb", 60, 4, 1),
    ("C16", "strings", 60, 4, 1),
    ("C16", "aligns", 60, 4, 1),
    ("C17", "objects", 200, 1, 1),
    ("C18", "random", 200, 1, 1),
    ("C18", "dense", 40, 0, 1),
    ("C18", "sections", 5, 0, 0),
    ("C18", "accepted", 5, 0, 1),
    ("C19", "random", 150, 1, 1),
    ("C19", "wide", 2, 0, 1),
    ("C19", "large", 1, 0, 0),
    ("C20", "objects", 60, 0, 1),
    ("C20", "builders", 40, 0, 1),
    ("C20", "steps", 20, 1, 1),
    ("C21", "table", 40, 2, 1),
    ("C21", "elf", 40, 1, 1),
    ("C21", "coff", 40, 4, 1),
    ("C22", "writer", 200, 1, 1),
    ("C22", "encoder", 100, 4, 1),
    ("C22", "attributes", 40, 4, 1),
    ("C22", "hashes", 20, 4, 1),
    ("C23", "pe", 150, 1, 1),
    ("C23", "copy", 10, 1, 1),
    ("C23", "coff", 150, 0, 1),
    ("C24", "images", 100, 0, 1),
    ("C24", "objects", 60, 1, 1),
    ("C24", "corpus", 4, 0, 0),
    ("C24", "hostile", 100, 0, 1),
    ("C25", "edits", 100, 0, 1),
    ("C25", "rewriter", 60, 1, 1),
    ("C25", "segments", 60, 4, 1),
    ("C26", "images", 100, 0, 1),
    ("C26", "fresh", 40, 1, 1),
    ("C26", "rewriter", 40, 1, 1),
    ("C26", "addends", 20, 0, 0),
    ("C26", "encoder", 40, 4, 1),
    ("C26", "real", 10, 0, 1),
    ("C27", "objects", 100, 1, 1),
    ("C27", "counts", 1, 0, 0),
    ("C27", "writers", 40, 4, 1),
    ("C27", "builders", 20, 0, 1),
    ("C28", "constants", 60, 1, 1),
    ("C28", "tables", 20, 0, 1),
    ("C28", "fields", 40, 2, 1),
    ("C28", "sets", 40, 2, 1),
    ("C28", "integers", 40, 4, 1),
];

/// The ways an input is handled; the answer must be the same on every host.
pub const WAYS: u8 = 5;

/// What became of an input: a hash, and the number of observations and of values.
pub fn answer(way: u8, salt: u64, data: &[u8], sparse: bool, budget: u64, mut log: Option<&mut Vec<String>>) -> (u64, u64, u64) {
    let f = std::panic::AssertUnwindSafe(|| answer_of(way, salt, data, sparse, budget, log.as_deref_mut()));
    // Whether that panics here is for other checks to judge.
    std::panic::catch_unwind(f).unwrap_or_else(|_| {
        if let Some(l) = log {
            *l = vec![format!("panic: {}\n", vcore::last_panic())];
        }
        (0, 0, 0)
    })
}

/// What is of this size is too large for one host, and not for another.
const LARGE: u64 = 1 << 28;

fn written(t: &mut T, v: &[u8]) {
    if v.len() as u64 > LARGE {
        t.d("large", 0);
    } else {
        t.owned("written", v);
    }
}

/// Takes no more than that.
struct Sink(Vec<u8>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if (self.0.len() + b.len()) as u64 > LARGE {
            return Err(std::io::Error::other("large"));
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn not_written(t: &mut T, tag: &str, e: &str) {
    let len = e.split("Cannot allocate buffer length 0x").nth(1);
    if len.and_then(|l| u64::from_str_radix(l, 16).ok()).is_some_and(|l| l > LARGE) {
        t.d("large", 0);
    } else {
        t.d(tag, e);
    }
}

fn answer_of(way: u8, salt: u64, data: &[u8], sparse: bool, budget: u64, log: Option<&mut Vec<String>>) -> (u64, u64, u64) {
    let mut t = T::new(data.len());
    t.salt = salt;
    t.sparse = sparse;
    t.ascii = true;
    t.budget = budget;
    t.decompress = !sparse;
    t.log = log.is_some().then(Vec::new);
    match way {
        0 => walk::all(data, &mut t),
        1 => walk::all(&object::ReadCache::new(std::io::Cursor::new(data)), &mut t),
        2 => {
            let mut out = |t: &mut T, r: object::build::Result<(object::build::Result<()>, Vec<u8>)>| match r {
                Ok((Ok(()), v)) => written(t, &v),
                Ok((Err(e), _)) => not_written(t, "not written", &e.to_string()),
                Err(e) => t.d("refused", e),
            };
            let elf = |b: object::build::Result<object::build::elf::Builder>| b.map(|b| { let mut v = vec![]; (b.write(&mut v), v) });
            let macho = |b: object::build::Result<object::build::macho::Builder>| b.map(|b| { let mut v = vec![]; (b.write(&mut v), v) });
            out(&mut t, elf(object::build::elf::Builder::read(data)));
            out(&mut t, macho(object::build::macho::Builder::read(data)));
        }
        3 => {
            let mut r = Rng::new(salt);
            let mut opt = object_rewrite::Options::default();
            if let Ok(f) = object::File::parse(data) {
                use object::{Object, ObjectSection, ObjectSymbol};
                for s in f.symbols().chain(f.dynamic_symbols()).take(40) {
                    let n = s.name_bytes().unwrap_or_default().to_vec();
                    match r.below(6) {
                        0 => drop(opt.delete_symbols.insert(n)),
                        1 => drop(opt.rename_symbols.insert(n, r.ident(12).into_bytes())),
                        _ => {}
                    }
                }
                for s in f.sections().take(40) {
                    let n = s.name_bytes().unwrap_or_default().to_vec();
                    match r.below(8) {
                        0 => drop(opt.delete_sections.insert(n)),
                        1 => drop(opt.rename_sections.insert(n, r.ident(12).into_bytes())),
                        _ => {}
                    }
                }
            }
            let mut v = Sink(vec![]);
            match object_rewrite::Rewriter::read(data).and_then(|mut w| w.modify(opt).and_then(|()| w.write(&mut v))) {
                Ok(()) => written(&mut t, &v.0),
                Err(e) => not_written(&mut t, "refused", &e.to_string()),
            }
        }
        _ => copy::copy(data, &mut t),
    }
    if let (Some(l), Some(m)) = (log, t.log.take()) {
        *l = m;
    }
    (t.hash, t.n, t.good)
}


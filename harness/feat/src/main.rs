//! What a build of the crate with some of its features makes of inputs.
//!
//! `feat jobs inputs`: a line of `jobs` is `read AT LEN SALT DECOMPRESS LOG` or
//! `write FORMAT SEED LOG`; for each, lines `JOB\tWHAT\tRESULT` are printed.
#![allow(unused)]
#[cfg(feature = "read")]
#[path = "../../checks/src/walk/mod.rs"]
mod walk;
#[cfg(feature = "write")]
mod write;

use std::io::Write as _;

/// Runs `f`; a panic is a result like any other, since other checks judge it.
fn caught(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into())
}

fn clean(s: &str) -> String {
    s.replace('\t', " ").replace('\n', "\x1f")
}

#[cfg(feature = "read")]
mod reading {
    use super::*;
    use object::read::{FileKind, ReadRef};
    use walk::T;

    pub struct Job<'a> {
        pub data: &'a [u8],
        pub salt: u64,
        pub decompress: bool,
        pub log: bool,
    }
    impl Job<'_> {
        fn run(&self, f: impl FnOnce(&mut T)) -> String {
            let mut t = T::new(self.data.len());
            t.salt = self.salt;
            t.decompress = self.decompress;
            t.budget = 20_000;
            // What is in archives is of any format.
            t.depth = 1;
            t.pe_sections = false;
            t.zdebug = false;
            t.log = self.log.then(Vec::new);
            caught(|| {
                f(&mut t);
                let l = t.log.take().unwrap_or_default().concat();
                format!("{:016x} {} {}{}{l}", t.hash, t.n, t.good, if self.log { "\n" } else { "" })
            })
        }
    }

    pub fn read(j: &Job<'_>, out: &mut dyn FnMut(&str, String)) {
        let data = j.data;
        let len = data.len() as u64;
        for (i, off) in [0, 1, 8, 64, len / 2, len.saturating_sub(1), len, u64::MAX].into_iter().enumerate() {
            out(&format!("kind{i}"), caught(|| format!("{:?}", FileKind::parse_at(data, off))));
        }
        #[cfg(any(feature = "coff", feature = "elf", feature = "macho", feature = "pe", feature = "wasm", feature = "xcoff"))]
        {
            use object::read::{Object, ObjectSection};
            let f = std::panic::catch_unwind(|| object::File::parse(data));
            match f {
                Err(_) => out("file", "panic".into()),
                Ok(Err(e)) => out("file", format!("refused: {e}")),
                Ok(Ok(f)) => {
                    out(
                        "file",
                        j.run(|t| {
                            t.d("format", f.format());
                            walk::generic::object(&f, t);
                        }),
                    );
                    // Data that isn't compressed is available without decompression, the other isn't.
                    out(
                        "uncompressed",
                        caught(|| {
                            let mut bad = String::new();
                            for s in f.sections().take(60) {
                                let Ok(c) = s.compressed_data() else { continue };
                                let u = s.uncompressed_data();
                                if c.format == object::CompressionFormat::None {
                                    if u.as_deref().ok() != Some(c.data) {
                                        bad = format!("{:?}: uncompressed data of {} bytes: {:?}", s.index(), c.data.len(), u.map(|u| u.len()));
                                    }
                                } else if cfg!(not(feature = "compression")) && u.is_ok() {
                                    bad = format!("{:?}: decompressed", s.index());
                                }
                            }
                            if bad.is_empty() { "ok".into() } else { bad }
                        }),
                    );
                }
            }
        }
        #[cfg(feature = "archive")]
        out("archive", j.run(|t| walk::archive::archive(data, t)));
        #[cfg(feature = "macho")]
        {
            out("fat", j.run(|t| walk::macho::fat(data, t)));
            out("cache", j.run(|t| walk::macho::cache(data, t)));
            out("macho", j.run(|t| walk::macho::macho(data, t)));
        }
        #[cfg(feature = "elf")]
        out("elf", j.run(|t| walk::elf::elf(data, t)));
        #[cfg(feature = "coff")]
        {
            out("coff", j.run(|t| walk::coff::coff(data, t)));
            out("import", j.run(|t| walk::coff::import(data, t)));
        }
        #[cfg(feature = "pe")]
        out("pe", j.run(|t| walk::pe::pe(data, t)));
        #[cfg(feature = "xcoff")]
        out("xcoff", j.run(|t| walk::xcoff::xcoff(data, t)));
        #[cfg(feature = "wasm")]
        out("wasm", j.run(|t| walk::wasm::wasm(data, t)));
        #[cfg(feature = "std")]
        out("stored", {
            let c = object::ReadCache::new(std::io::Cursor::new(data));
            #[cfg(any(feature = "coff", feature = "elf", feature = "macho", feature = "pe", feature = "wasm", feature = "xcoff"))]
            let r = match caught(|| object::File::parse(&c).err().map(|e| e.to_string()).unwrap_or_default()) {
                e if e.is_empty() => j.run(|t| {
                    if let Ok(f) = object::File::parse(&c) {
                        walk::generic::object(&f, t);
                    }
                }),
                e => format!("refused: {e}"),
            };
            #[cfg(not(any(feature = "coff", feature = "elf", feature = "macho", feature = "pe", feature = "wasm", feature = "xcoff")))]
            let r = String::new();
            r
        });
        #[cfg(all(feature = "build", feature = "elf"))]
        out(
            "build.elf",
            caught(|| match object::build::elf::Builder::read(data) {
                Err(e) => format!("refused: {e}"),
                Ok(b) => {
                    let mut v: Vec<u8> = vec![];
                    match b.write(&mut v) {
                        Ok(()) => format!("{:016x} {}", vcore::hash(&v), v.len()),
                        Err(e) => format!("not written: {e}"),
                    }
                }
            }),
        );
        #[cfg(all(feature = "build", feature = "macho"))]
        out(
            "build.macho",
            caught(|| match object::build::macho::Builder::read(data) {
                Err(e) => format!("refused: {e}"),
                Ok(b) => {
                    let mut v: Vec<u8> = vec![];
                    match b.write(&mut v) {
                        Ok(()) => format!("{:016x} {}", vcore::hash(&v), v.len()),
                        Err(e) => format!("not written: {e}"),
                    }
                }
            }),
        );
    }
}

fn main() {
    if std::env::var_os("FEAT_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let jobs = std::fs::read_to_string(&a[1]).unwrap();
    let inputs = std::fs::read(&a[2]).unwrap();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for (k, l) in jobs.lines().enumerate() {
        let x: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| x[i].parse::<u64>().unwrap();
        let mut out = |what: &str, r: String| writeln!(w, "{k}\t{what}\t{}", clean(&r)).unwrap();
        match x[0] {
            #[cfg(feature = "read")]
            "read" => {
                let data = inputs[n(1) as usize..][..n(2) as usize].to_vec();
                reading::read(&reading::Job { data: &data, salt: n(3), decompress: n(4) == 1, log: n(5) == 1 }, &mut out);
            }
            #[cfg(feature = "write")]
            "write" => write::write(n(1), n(2), &mut out),
            _ => {}
        }
    }
    writeln!(w, "done\t\t").unwrap();
}

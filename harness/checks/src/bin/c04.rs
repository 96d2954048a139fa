//! C04: the different views of one file agree with each other.
use checks::inputs::{base, mutate, noise};
use checks::walk::{T, generic};
use object::read::*;
use std::collections::{BTreeMap, BTreeSet};
use vcore::{Obs, Part, Res, Rng, Spec, ensure, okay, same, some};

const ITEMS: usize = 220;

fn log(b: &[u8], r: u64) -> T {
    let mut t = T::slice(b).logged();
    t.salt = r;
    t.decompress = false;
    t.budget = 8_000;
    t
}

fn diff(a: &T, b: &T) -> Option<String> {
    if a.hash == b.hash {
        return None;
    }
    let (x, y) = (a.log.as_ref().unwrap(), b.log.as_ref().unwrap());
    for (i, (p, q)) in x.iter().zip(y).enumerate() {
        if p != q {
            let from = i.saturating_sub(1);
            return Some(format!("observation {i} after {}: {} / {}", vcore::short(&x[from]), vcore::short(p), vcore::short(q)));
        }
    }
    Some(format!("{} / {} observations", x.len(), y.len()))
}

/// The text and bytes of one name.
fn names(what: &str, bytes: Result<Option<&[u8]>>, text: Result<Option<&str>>) -> Res {
    match (bytes, text) {
        (Ok(b), Ok(t)) => same!(t.map(|t| t.as_bytes()), b, "{what}: name and its bytes"),
        (Ok(Some(b)), Err(_)) => ensure!(std::str::from_utf8(b).is_err(), "{what}: name is valid but refused"),
        (Ok(None), Err(_)) => ensure!(false, "{what}: no name, but an error for its text"),
        (Err(_), Ok(_)) => ensure!(false, "{what}: name of invalid bytes"),
        (Err(_), Err(_)) => {}
    }
    Ok(())
}

/// The data of a range is the part of the data.
fn ranged<'a>(what: &str, addr: u64, data: &Result<&'a [u8]>, get: impl Fn(u64, u64) -> Result<Option<&'a [u8]>>, r: &mut Rng, o: &mut Obs) -> Res {
    let Ok(d) = data else {
        ensure!(get(addr, 0).is_err(), "{what}: data is refused but a range of it is not");
        return Ok(());
    };
    let n = d.len() as u64;
    let mut probes = generic::probes(addr, n).to_vec();
    for _ in 0..4 {
        let a = r.below(n + 2);
        probes.push((addr.wrapping_add(a), r.below(n.saturating_sub(a) + 2)));
        probes.push((r.edgy(64), r.edgy(64)));
        probes.push((addr.wrapping_sub(r.below(4)), r.below(n + 4)));
    }
    for (a, k) in probes {
        let want = (|| {
            let off = a.checked_sub(addr)?;
            (off <= n && k <= n - off).then(|| &d[off as usize..(off + k) as usize])
        })();
        let got = okay!(get(a, k), "{what}: range {a:#x}+{k:#x}");
        if let (Some(g), Some(w)) = (got, want) {
            same!(g.len(), w.len(), "{what}: length of range {a:#x}+{k:#x} of {addr:#x}+{n:#x}");
            ensure!(g.is_empty() || g.as_ptr() == w.as_ptr(), "{what}: range {a:#x}+{k:#x} is somewhere else");
            o.hit("range inside");
        } else {
            same!(got.is_some(), want.is_some(), "{what}: range {a:#x}+{k:#x} of {addr:#x}+{n:#x}");
            o.hit("range outside");
        }
    }
    Ok(())
}

fn section<'d, S: ObjectSection<'d>>(what: &str, b: &'d [u8], s: &S, r: &mut Rng, o: &mut Obs) -> Res {
    names(what, s.name_bytes().map(Some), s.name().map(Some))?;
    names(what, s.segment_name_bytes(), s.segment_name())?;
    let data = s.data();
    ranged(what, s.address(), &data, |a, n| s.data_range(a, n), r, o)?;
    if let Some((off, n)) = s.file_range() {
        if let Ok(d) = data {
            let f = (off as usize).checked_add(n as usize).and_then(|e| b.get(off as usize..e));
            ensure!(f == Some(d) || n == 0 && d.is_empty(), "{what}: data is not what is at its file range {off:#x}+{n:#x}");
            o.hit("section file range");
        }
    } else if let Ok(d) = data {
        ensure!(d.is_empty(), "{what}: {} bytes of data without a file range", d.len());
    }
    match (s.compressed_file_range(), s.compressed_data()) {
        (Ok(f), Ok(c)) => {
            same!(f.format, c.format, "{what}: format of file range and data");
            same!(f.uncompressed_size, c.uncompressed_size, "{what}: uncompressed size of file range and data");
            same!(f.compressed_size, c.data.len() as u64, "{what}: compressed size of file range and data");
            let at = f.offset as usize;
            let e = at.checked_add(c.data.len());
            ensure!(c.data.is_empty() || e.and_then(|e| b.get(at..e)) == Some(c.data), "{what}: compressed data is not at its file range");
            if f.format == CompressionFormat::None {
                let d = okay!(data, "{what}: data of an uncompressed section");
                same!(c.data, d, "{what}: data and compressed data");
                same!(okay!(s.uncompressed_data())[..], *d, "{what}: data and uncompressed data");
                o.hit("uncompressed");
            } else {
                o.hit("compressed");
            }
        }
        (f, c) => {
            // A range may be given for data that is not there.
            if let (Err(e), Ok(_)) = (&f, &c) {
                ensure!(false, "{what}: compressed data but no file range: {e}");
            }
        }
    }
    Ok(())
}

/// Does a section of this name answer a request for `want`?
fn answers(name: &[u8], want: &[u8]) -> bool {
    if name == want {
        return true;
    }
    let Some(w) = want.strip_prefix(b".") else { return false };
    let tail = |n: &[u8], w: &[u8]| n == w || n.len() == 14 && w.starts_with(n);
    [&b"__"[..], b"__z", b".z"].iter().any(|p| name.strip_prefix(*p).is_some_and(|n| n == w || tail(n, w) || name.len() == 16 && w.starts_with(n)))
}

fn coherent<'d, 'f, O: Object<'d>>(b: &'d [u8], f: &'f O, plain: bool, r: &mut Rng, o: &mut Obs) -> Res
where
    'd: 'f,
{
    use object::Architecture::*;
    let is_wasm = matches!(f.architecture(), Wasm32 | Wasm64);

    same!(f.endianness() == object::Endianness::Little, f.is_little_endian(), "endianness");
    for (i, s) in f.segments().take(ITEMS).enumerate() {
        let what = format!("segment {i}");
        names(&what, s.name_bytes(), s.name())?;
        let data = s.data();
        ranged(&what, s.address(), &data, |a, n| s.data_range(a, n), r, o)?;
        let (off, n) = s.file_range();
        if let Ok(d) = data {
            let g = (off as usize).checked_add(n as usize).and_then(|e| b.get(off as usize..e));
            ensure!(g == Some(d) || n == 0 && d.is_empty(), "{what}: data is not what is at its file range {off:#x}+{n:#x}");
            o.hit("segment file range");
        }
    }
    // Sections.
    let mut seen = BTreeSet::new();
    let mut by_name: BTreeMap<Vec<u8>, SectionIndex> = BTreeMap::new();
    let mut order = vec![];
    let mut total = 0;
    for s in f.sections() {
        total += 1;
        if total > 3000 {
            break;
        }
        let i = s.index();
        // All custom sections of Wasm have index 0, and others may repeat.
        let repeated = !seen.insert(i.0);
        ensure!(!repeated || is_wasm, "section index {i} appears twice");
        if let Ok(n) = s.name_bytes() {
            order.push((n.to_vec(), i));
            by_name.entry(n.to_vec()).or_insert(i);
        }
        if total > ITEMS {
            continue;
        }
        let what = format!("section {i}");
        section(&what, b, &s, r, o)?;
        if is_wasm && (i.0 == 0 || f.sections().filter(|x| x.index() == i).count() > 1) {
            continue;
        }
        let again = okay!(f.section_by_index(i), "{what}: by its own index");
        let (mut x, mut y) = (log(b, 0), log(b, 0));
        x.static_names = true;
        y.static_names = true;
        generic::section(f, &s, &mut x);
        generic::section(f, &again, &mut y);
        if let Some(d) = diff(&x, &y) {
            ensure!(false, "{what}: iterated and by index: {d}");
        }
        o.hit("section by index");
    }
    if total <= 3000 {
        let max = seen.last().map_or(0, |i| *i);
        for i in [max + 1, max + 2, 0xffff, 0xff00, usize::MAX, r.u32() as usize, r.idx(max + 2)] {
            let i = SectionIndex(i);
            if !seen.contains(&i.0) {
                match f.section_by_index(i) {
                    Err(_) => o.hit("section index refused"),
                    // The null section of ELF is not iterated.
                    Ok(s) => ensure!(i.0 == 0 && s.index().0 == 0, "section {i} is not iterated but can be had by index"),
                }
            }
        }
        for (n, first) in by_name.iter().take(40) {
            let got = some!(f.section_by_name_bytes(n), "section by name {:?}", n.escape_ascii().to_string());
            if got.index().0 == 0 && !seen.contains(&0) && got.name_bytes() == Ok(n) {
                // The null section of ELF.
                continue;
            }
            if n.starts_with(b".") {
                let k = order.iter().position(|x| x.1 == got.index()).unwrap_or(usize::MAX);
                let k1 = order.iter().position(|x| x.1 == *first).unwrap();
                let name = okay!(got.name_bytes(), "name of a section found by name");
                ensure!((k <= k1 || is_wasm) && answers(name, n), "section by name {:?} is section {}", n.escape_ascii().to_string(), got.index());
            } else {
                same!(got.index(), *first, "section by name {:?}", n.escape_ascii().to_string());
            }
            if let Ok(t) = std::str::from_utf8(n) {
                same!(f.section_by_name(t).map(|s| s.index()), Some(got.index()), "section by text name {t:?}");
            }
            o.hit("section by name");
        }
        let absent = r.ident(9);
        for absent in [absent.clone(), format!(".{absent}"), ".debug_info".into(), ".debug_str_offsets".into(), ".eh_frame".into()] {
            if let Some(s) = f.section_by_name(&absent) {
                let n = okay!(s.name_bytes(), "name of a section found by name");
                ensure!(answers(n, absent.as_bytes()), "section {:?} found when looking for {absent}", n.escape_ascii().to_string());
            } else {
                ensure!(!by_name.contains_key(absent.as_bytes()), "section {absent} not found");
            }
            let k = order.iter().find(|x| x.0 == absent.as_bytes()).map(|x| x.1);
            if k.is_some() {
                ensure!(f.section_by_name(&absent).is_some(), "section {absent} not found");
            }
        }
        let debug = f.section_by_name(".debug_info").is_some();
        if debug {
            ensure!(f.has_debug_symbols(), "there is debug information, but has_debug_symbols denies it");
            o.hit("debug");
        }
    }
    // Symbols.
    let (x, y) = (f.symbols(), f.symbol_table());
    symbols("symbol", b, f, x, y.as_ref().map(|t| t.symbols()), |i| Some(f.symbol_by_index(i)), |i| y.as_ref().map(|t| t.symbol_by_index(i)), plain, o)?;
    let (x, y) = (f.dynamic_symbols(), f.dynamic_symbol_table());
    symbols("dynamic symbol", b, f, x, y.as_ref().map(|t| t.symbols()), |_| None, |i| y.as_ref().map(|t| t.symbol_by_index(i)), plain, o)?;
    let mut first: BTreeMap<Vec<u8>, SymbolIndex> = BTreeMap::new();
    for s in f.symbols().take(2000) {
        if let Ok(n) = s.name_bytes() {
            first.entry(n.to_vec()).or_insert(s.index());
        }
    }
    for (n, i) in first.iter().take(30) {
        same!(f.symbol_by_name_bytes(n).map(|s| s.index()), Some(*i), "symbol by name {:?}", n.escape_ascii().to_string());
        if let Ok(t) = std::str::from_utf8(n) {
            same!(f.symbol_by_name(t).map(|s| s.index()), Some(*i), "symbol by text name {t:?}");
        }
        o.hit("symbol by name");
    }
    if f.symbols().count() < 2000 {
        let t = format!("{}?", r.ident(9));
        same!(f.symbol_by_name(&t).map(|s| s.index()), first.get(t.as_bytes()).copied(), "symbol by absent name");
    }
    for (i, c) in f.comdats().take(ITEMS).enumerate() {
        let what = format!("comdat {i}");
        names(&what, c.name_bytes().map(Some), c.name().map(Some))?;
        let (m, n): (Vec<_>, Vec<_>) = (c.sections().collect(), c.sections().collect());
        same!(m, n, "{what}: sections");
        if plain {
            for s in m {
                if f.section_by_index(s).is_ok() {
                    o.hit("comdat section");
                }
            }
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn symbols<'d, 'f, O: Object<'d>, S: ObjectSymbol<'d>>(
    kind: &str,
    b: &'d [u8],
    f: &'f O,
    it: impl Iterator<Item = S>,
    table: Option<impl Iterator<Item = S>>,
    by: impl Fn(SymbolIndex) -> Option<Result<S>>,
    by2: impl Fn(SymbolIndex) -> Option<Result<S>>,
    plain: bool,
    o: &mut Obs,
) -> Res {
    let is_xcoff = matches!(f.flags(), object::FileFlags::Xcoff { .. });
    let v: Vec<S> = it.take(2000).collect();
    let has = table.is_some();
    if let Some(t) = table {
        let w: Vec<_> = t.take(2000).map(|s| s.index()).collect();
        let u: Vec<_> = v.iter().map(|s| s.index()).collect();
        same!(w, u, "{kind}s of the file and of its table");
    } else {
        ensure!(v.is_empty(), "{} {kind}s but no table", v.len());
    }
    let mut seen = BTreeSet::new();
    for (k, s) in v.iter().enumerate() {
        let i = s.index();
        ensure!(seen.insert(i.0), "{kind} index {i} appears twice");
        if k > ITEMS {
            continue;
        }
        let what = format!("{kind} {i}");
        names(&what, s.name_bytes().map(Some), s.name().map(Some))?;
        let mut x = log(b, 0);
        generic::symbol(s, &mut x);
        let mut others = vec![];
        if let Some(q) = by(i) {
            others.push(okay!(q, "{what}: by its own index"));
        }
        if has {
            others.push(okay!(some!(by2(i)), "{what}: by its own index in the table"));
        }
        for q in others {
            let mut y = log(b, 0);
            generic::symbol(&q, &mut y);
            if let Some(d) = diff(&x, &y) {
                ensure!(false, "{what}: iterated and by index: {d}");
            }
            o.hit("symbol by index");
        }
        same!(s.section_index(), s.section().index(), "{what}: section index");
        if s.is_undefined() || matches!(s.section(), SymbolSection::Undefined) {
            ensure!(!s.is_definition(), "{what}: undefined, but a definition");
            o.hit("undefined");
        }
        if s.is_common() {
            // Common symbols of XCOFF have a section.
            ensure!(is_xcoff || !s.is_definition(), "{what}: common, but a definition");
            ensure!(is_xcoff || !s.is_undefined(), "{what}: common and undefined");
            o.hit("common");
        }
        same!(s.is_common() && !is_xcoff, s.section() == SymbolSection::Common, "{what}: common");
        ensure!(!(s.is_local() && s.is_global()), "{what}: local and global");
        if s.is_local() {
            same!(s.scope() == SymbolScope::Compilation || s.scope() == SymbolScope::Unknown, true, "{what}: scope {:?} of a local symbol", s.scope());
        }
        if s.is_definition() {
            o.hit("definition");
            if let (true, SymbolSection::Section(i)) = (plain, s.section()) {
                if f.section_by_index(i).is_ok() {
                    o.hit("symbol section");
                }
            }
        }
    }
    Ok(())
}

/// The enum and the type of the format itself.
fn views(b: &[u8], plain: bool, r: &mut Rng, o: &mut Obs) -> Res {
    let kind = FileKind::parse(b);
    let file = File::parse(b);
    let salt = r.u64();
    macro_rules! specific {
        ($t:ty, $fmt:ident, $tag:literal) => {{
            match (<$t>::parse(b), &file) {
                (Ok(s), Ok(f)) => {
                    o.hit($tag);
                    same!(f.format(), object::BinaryFormat::$fmt, "format");
                    let (mut x, mut y) = (log(b, salt), log(b, salt));
                    generic::object(f, &mut x);
                    generic::object(&s, &mut y);
                    if let Some(d) = diff(&x, &y) {
                        ensure!(false, "File and {}: {d}", stringify!($t));
                    }
                    o.nontrivial(x.hash);
                    if r.bool() { coherent(b, f, plain, r, o)? } else { coherent(b, &s, plain, r, o)? }
                }
                (Err(e), Err(g)) => {
                    same!(e.to_string(), g.to_string(), "errors of File and {}", stringify!($t));
                    o.hit("refused");
                }
                (Ok(_), Err(e)) => ensure!(false, "{} parses, File does not: {e}", stringify!($t)),
                (Err(e), Ok(_)) => ensure!(false, "File parses, {} does not: {e}", stringify!($t)),
            }
        }};
    }
    match kind {
        Ok(FileKind::Elf32) => specific!(elf::ElfFile32<object::Endianness, _>, Elf, "elf32"),
        Ok(FileKind::Elf64) => specific!(elf::ElfFile64<object::Endianness, _>, Elf, "elf64"),
        Ok(FileKind::Coff) => specific!(coff::CoffFile<_>, Coff, "coff"),
        Ok(FileKind::CoffBig) => specific!(coff::CoffBigFile<_>, Coff, "bigobj"),
        Ok(FileKind::MachO32) => specific!(macho::MachOFile32<object::Endianness, _>, MachO, "macho32"),
        Ok(FileKind::MachO64) => specific!(macho::MachOFile64<object::Endianness, _>, MachO, "macho64"),
        Ok(FileKind::Pe32) => specific!(pe::PeFile32<_>, Pe, "pe32"),
        Ok(FileKind::Pe64) => specific!(pe::PeFile64<_>, Pe, "pe64"),
        Ok(FileKind::Xcoff32) => specific!(xcoff::XcoffFile32<_>, Xcoff, "xcoff32"),
        Ok(FileKind::Xcoff64) => specific!(xcoff::XcoffFile64<_>, Xcoff, "xcoff64"),
        Ok(FileKind::Wasm) => specific!(wasm::WasmFile<_>, Wasm, "wasm"),
        _ => {
            ensure!(file.is_err(), "File parses {kind:?}");
            o.hit("no object");
        }
    }
    Ok(())
}

fn run(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (_, mut b) = if r.one_in(30) { ("noise", noise(r)) } else { base(r, 24_000) };
    let plain = r.one_in(3);
    if !plain {
        let other = if r.one_in(6) { base(r, 24_000).1 } else { vec![] };
        mutate(r, &mut b, &other);
    }
    o.input("file", &b);
    views(&b, plain, r, o)
}

/// Real files: sections lie in the segments that map them.
fn corpus(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let c = checks::inputs::corpus();
    let (name, b) = &c[case as usize % c.len()];
    o.input("file", b);
    views(b, true, r, o)?;
    let Ok(f) = File::parse(&b[..]) else { return Ok(()) };
    o.nontrivial(vcore::hash(b));
    if f.kind() == ObjectKind::Relocatable {
        for c in f.comdats() {
            okay!(f.symbol_by_index(c.symbol()), "{name}: symbol of a comdat");
            for s in c.sections() {
                okay!(f.section_by_index(s), "{name}: section of a comdat");
            }
            o.hit("real comdat");
        }
        return Ok(());
    }
    for s in f.sections() {
        let d = s.data().unwrap_or(&[]);
        if d.is_empty() || s.address() == 0 {
            continue;
        }
        for g in f.segments() {
            if let Ok(Some(x)) = g.data_range(s.address(), d.len() as u64) {
                same!(x, d, "{name}: section {:?} and its segment", s.name());
                o.hit("section in segment");
            }
        }
    }
    for s in f.symbols() {
        if let SymbolSection::Section(i) = s.section() {
            okay!(f.section_by_index(i), "{name}: section of symbol {:?}", s.name());
            o.hit("real symbol");
        }
    }
    Ok(())
}

/// The kind of a file follows from its first bytes, wherever they are.
fn kinds(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    use FileKind as K;
    const TABLE: &[(&[u8], FileKind)] = &[
        (b"!<arch>\n", K::Archive),
        (b"!<thin>\n", K::Archive),
        (b"dyld_v1 ", K::DyldCache),
        (b"\x7fELF\x01", K::Elf32),
        (b"\x7fELF\x02", K::Elf64),
        (b"\xfe\xed\xfa\xce", K::MachO32),
        (b"\xce\xfa\xed\xfe", K::MachO32),
        (b"\xfe\xed\xfa\xcf", K::MachO64),
        (b"\xcf\xfa\xed\xfe", K::MachO64),
        (b"\xca\xfe\xba\xbe", K::MachOFat32),
        (b"\xca\xfe\xba\xbf", K::MachOFat64),
        (b"\0asm\x01\0\0\0", K::Wasm),
        (b"\x4c\x01", K::Coff),
        (b"\x64\x86", K::Coff),
        (b"\xc4\x01", K::Coff),
        (b"\x64\xaa", K::Coff),
        (b"\x41\xa6", K::Coff),
        (b"\xf0\x01", K::Coff),
        (b"\xf1\x01", K::Coff),
        (b"\xf2\x01", K::Coff),
        (b"\0\0\xff\xff\0\0", K::CoffImport),
        (b"\x01\xdf", K::Xcoff32),
        (b"\x01\xf7", K::Xcoff64),
    ];
    let at = if r.bool() { 0 } else { r.idx(40) };
    let mut b = r.bytes(at);
    let (magic, kind) = TABLE[case as usize % TABLE.len()];
    b.extend(magic);
    // Those of COFF continue with a count, others with anything.
    b.extend(r.bytes(40));
    same!(FileKind::parse_at(&b[..], at as u64), Ok(kind), "kind of {magic:x?} at {at}");
    let c = object::read::ReadCache::new(std::io::Cursor::new(&b[..]));
    same!(FileKind::parse_at(&c, at as u64), Ok(kind), "kind of {magic:x?} at {at} in a cache");
    if at == 0 {
        same!(FileKind::parse(&b[..]), Ok(kind), "kind of {magic:x?}");
    }
    // One different byte of the magic is something else.
    let k = at + r.idx(magic.len());
    let old = b[k];
    b[k] ^= 1 << r.below(8);
    let known = |m: &[u8]| TABLE.iter().find(|t| m.starts_with(t.0)).map(|t| t.1);
    let special = b[at..].starts_with(b"MZ") || b[at..].starts_with(b"\0\0\xff\xff") || b[at..].starts_with(b"\0asm");
    if !special {
        let got = FileKind::parse_at(&b[..], at as u64);
        same!(got.ok(), known(&b[at..]), "kind of {:x?} at {at}", &b[at..at + 8]);
        o.hit("other magic");
    }
    b[k] = old;
    b.truncate(at + r.idx(8));
    ensure!(FileKind::parse_at(&b[..], at as u64).is_err(), "the kind of {} bytes", b.len() - at);
    o.hit("magic");
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C04",
    rule: "redundant ways to ask for the same thing give the same answer",
    parts: &[
        Part { name: "file", quick: 26_000, thorough: 1_500_000, run },
        Part { name: "corpus", quick: 212, thorough: 2_000, run: corpus },
        Part { name: "kinds", quick: 23_000, thorough: 1_000_000, run: kinds },
    ],
    required: &[
        "elf32", "elf64", "coff", "bigobj", "macho32", "macho64", "pe32", "pe64", "xcoff32", "xcoff64", "wasm", "refused", "no object", "range inside", "range outside",
        "section by index", "section index refused", "section by name", "section file range", "segment file range", "uncompressed", "compressed", "symbol by index",
        "symbol by name", "undefined", "common", "definition", "symbol section", "section in segment", "real symbol", "magic", "other magic",
    ],
    tools: &[],
    assumptions: &["only the first 220 sections and symbols of a file are compared in detail"],
    level: "exploration",
};

fn main() {
    vcore::main(&SPEC);
}

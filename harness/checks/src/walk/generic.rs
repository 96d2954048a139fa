//! The unified interface: `FileKind`, `File` and the `Object` traits.
#![allow(deprecated)]
use super::{Sink, T};
use object::read::*;
use std::fmt::Write as _;
use std::result::Result;

pub fn detect<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    t.at("detect");
    let k = FileKind::parse(data);
    t.d("kind", k);
    for off in [1, 8, 64, t.len / 2, t.len.saturating_sub(1), t.len, u64::MAX - 3, u64::MAX] {
        let k = FileKind::parse_at(data, off);
        t.d("kind_at", k);
    }
    #[cfg(any(feature = "coff", feature = "elf", feature = "macho", feature = "pe", feature = "wasm", feature = "xcoff"))]
    if let Some(f) = t.ok("file", File::parse(data)) {
        t.at("file");
        t.d("format", f.format());
        object(&f, t);
    }
}

/// Values near the interesting edges of `x`.
pub fn around(x: u64) -> [u64; 4] {
    [x, x.wrapping_sub(1), x.wrapping_add(1), x.wrapping_add(1 << 32)]
}

pub fn object<'data, 'file, O: Object<'data>>(o: &'file O, t: &mut T)
where
    'data: 'file,
{
    t.at("object");
    t.static_names = matches!(o.architecture(), object::Architecture::Wasm32 | object::Architecture::Wasm64);
    t.d("arch", o.architecture());
    t.d("sub", o.sub_architecture());
    t.d("endian", (o.endianness(), o.is_little_endian(), o.is_64()));
    t.d("okind", o.kind());
    t.d("entry", (o.entry(), o.relative_address_base(), o.flags(), o.has_debug_symbols()));
    t.d("uuid", o.mach_uuid());
    t.rob("build_id", o.build_id());
    match t.oko("debuglink", o.gnu_debuglink()) {
        Some((n, c)) => {
            t.b("debuglink.name", n);
            t.d("crc", c)
        }
        None => {}
    }
    if let Some((n, i)) = t.oko("debugaltlink", o.gnu_debugaltlink()) {
        t.b("altlink.name", n);
        t.b("altlink.id", i);
    }
    if let Some(p) = t.oko("pdb", o.pdb_info()) {
        t.b("pdb.path", p.path());
        t.d("pdb", (p.age(), p.guid()));
    }

    let mut addrs: Vec<u64> = vec![0, 1, u64::MAX];
    t.iter("segments", o.segments(), |t, s| {
        addrs.push(s.address());
        segment(&s, t);
    });
    let mut last = 0;
    let mut names: Vec<Vec<u8>> = vec![];
    t.iter("sections", o.sections(), |t, s| {
        last = last.max(s.index().0);
        if names.len() < 6 {
            if let Ok(n) = s.name_bytes() {
                names.push(n.to_vec());
            }
        }
        section(o, &s, t);
    });
    for i in [0, 1, 2, last / 2, last, last.wrapping_add(1), 0xff00, 0xffff, 0xffff_ffff, crate::walk::MOST] {
        if let Some(s) = t.ok("section_by_index", o.section_by_index(SectionIndex(i))) {
            t.d("section.index", s.index());
            t.rname("section.name", s.name_bytes());
            t.d("section.addr", s.address());
            t.rb("section.data", s.data());
        }
    }
    for n in [&b""[..], b".text", b".debug_info", b"__text", b".zdebug_info", b"\xff"]
        .iter()
        .map(|n| n.to_vec())
        .chain(names)
    {
        // ELF sections compressed the old way are found by their new names if they can be decompressed.
        let other = !t.zdebug && n.starts_with(b".debug_");
        let found = |s: O::Section<'file>| (!other || !s.name_bytes().is_ok_and(|n| n.starts_with(b".zdebug_"))).then(|| s.index());
        t.d("section_by_name_bytes", o.section_by_name_bytes(&n).and_then(found));
        if let Ok(n) = std::str::from_utf8(&n) {
            t.d("section_by_name", o.section_by_name(n).and_then(found));
        }
    }
    t.iter("comdats", o.comdats(), |t, c| {
        t.d("comdat", (c.kind(), c.symbol()));
        t.rb("comdat.name", c.name_bytes());
        t.rs("comdat.name", c.name());
        t.iter("comdat.sections", c.sections(), |t, i| t.d("comdat.section", i));
    });

    let mut last = 0;
    let mut names: Vec<Vec<u8>> = vec![];
    t.iter("symbols", o.symbols(), |t, s| {
        last = last.max(s.index().0);
        if names.len() < 4 {
            if let Ok(n) = s.name_bytes() {
                names.push(n.to_vec());
            }
        }
        addrs.push(s.address());
        symbol(&s, t);
    });
    addrs.truncate(24);
    t.iter("dynamic_symbols", o.dynamic_symbols(), |t, s| symbol(&s, t));
    for i in [0, 1, 2, last / 2, last, last.wrapping_add(1), 0xffff_ffff, crate::walk::far(40), crate::walk::MOST - 1, crate::walk::MOST] {
        if let Some(s) = t.ok("symbol_by_index", o.symbol_by_index(SymbolIndex(i))) {
            symbol(&s, t);
        }
    }
    for n in [&b""[..], b"main", b"_main"].iter().map(|n| n.to_vec()).chain(names) {
        t.d("symbol_by_name_bytes", o.symbol_by_name_bytes(&n).map(|s| s.index()));
        if let Ok(n) = std::str::from_utf8(&n) {
            t.d("symbol_by_name", o.symbol_by_name(n).map(|s| s.index()));
        }
    }
    for (tag, table) in [("symtab", o.symbol_table()), ("dynsymtab", o.dynamic_symbol_table())] {
        let Some(table) = table else {
            t.d(tag, "none");
            continue;
        };
        t.iter(tag, table.symbols(), |t, s| t.d("index", s.index()));
        for i in [0, 1, last, last.wrapping_add(1), crate::walk::MOST] {
            if let Some(s) = t.ok("table.symbol_by_index", table.symbol_by_index(SymbolIndex(i))) {
                symbol(&s, t);
            }
        }
    }
    if let Some(r) = o.dynamic_relocations() {
        t.iter("dynamic_relocations", r, |t, (a, r)| {
            t.d("dynrel", a);
            relocation(&r, t)
        });
    }

    let m = o.symbol_map();
    t.d("symbol_map", m.symbols().len());
    for s in m.symbols().iter().take(16) {
        t.d("symbol_map", (s.address(), s.size()));
        t.rs("symbol_map.name", Ok::<_, ()>(s.name()));
    }
    for &a in addrs.iter().take(8) {
        for a in around(a) {
            t.d("symbol_map.get", m.get(a).map(|s| s.address()));
            t.d("symbol_map.before", m.before(a).map(|s| s.address()));
            t.d("symbol_map.containing", m.containing(a).map(|s| s.address()));
        }
    }
    let m = o.object_map();
    t.d("object_map", (m.symbols().len(), m.objects().len()));
    for f in m.objects().iter().take(8) {
        t.b("object_map.path", f.path());
        t.ob("object_map.member", f.member());
    }
    for s in m.symbols().iter().take(16) {
        t.d("object_map", (s.address(), s.size(), s.object_index()));
        t.b("object_map.name", s.name());
        t.b("object_map.object", s.object(&m).path());
    }
    for &a in addrs.iter().take(8) {
        t.d("object_map.get", m.get(a).map(|s| s.address()));
    }

    if let Some(it) = t.ok("import_libraries", o.import_libraries()) {
        t.iter("import_library", it, |t, l| {
            if let Some(l) = t.ok("import_library", l) {
                t.b("import_library", l.name());
                t.d("import_library.flags", l.flags());
            }
        });
    }
    if let Some(it) = t.ok("imports", o.imports()) {
        t.iter("import", it, |t, i| {
            if let Some(i) = t.ok("import", i) {
                t.b("import.library", i.library());
                match i.name() {
                    NameOrOrdinal::Name(n) => t.b("import.name", n),
                    n => t.d("import.ordinal", n),
                }
                t.d("import", (i.is_weak(), i.flags()));
            }
        });
    }
    if let Some(it) = t.ok("exports", o.exports()) {
        t.iter("export", it, |t, e| {
            if let Some(e) = t.ok("export", e) {
                match e.name() {
                    NameOrOrdinal::Name(n) => t.owned("export.name", n),
                    n => t.d("export.ordinal", n),
                }
                t.d("export", (e.target(), e.is_weak(), e.flags()));
            }
        });
    }
}

pub fn segment<'data, S: ObjectSegment<'data>>(s: &S, t: &mut T) {
    t.d("segment", (s.address(), s.size(), s.align(), s.file_range(), s.flags(), s.permissions()));
    match s.name_bytes() {
        Ok(Some(n)) => t.owned("segment.name", n),
        r => t.d("segment.name", r),
    }
    t.d("segment.name", s.name());
    t.rb("segment.data", s.data());
    for (a, n) in probes(s.address(), s.size()) {
        t.rob("segment.data_range", s.data_range(a, n));
    }
}

/// Address ranges around one item.
pub fn probes(a: u64, n: u64) -> [(u64, u64); 9] {
    [
        (a, n),
        (a, 0),
        (a, 1),
        (a.wrapping_add(1), 2),
        (a.wrapping_add(n).wrapping_sub(1), 1),
        (a.wrapping_add(n), 1),
        (a.wrapping_sub(1), 2),
        (a, u64::MAX),
        (u64::MAX, u64::MAX),
    ]
}

pub fn section<'data, 'file, O: Object<'data>, S: ObjectSection<'data>>(o: &'file O, s: &S, t: &mut T)
where
    'data: 'file,
{
    t.d("section", (s.index(), s.address(), s.size(), s.align(), s.file_range(), s.kind(), s.flags()));
    t.rname("section.name", s.name_bytes());
    t.rname("section.name", s.name().map(|s| s.as_bytes()));
    match s.segment_name_bytes() {
        Ok(Some(n)) => t.owned("section.segment", n),
        r => t.d("section.segment", r),
    }
    t.d("section.segment", s.segment_name());
    t.rb("section.data", s.data());
    for (a, n) in probes(s.address(), s.size()) {
        t.rob("section.data_range", s.data_range(a, n));
    }
    t.d("section.compressed_range", s.compressed_file_range());
    if let Some(c) = t.ok("section.compressed", s.compressed_data()) {
        t.d("section.compressed", (c.format, c.uncompressed_size));
        t.b("section.compressed", c.data);
        if t.decompress && c.uncompressed_size <= 1 << 22 {
            t.at("decompress");
            t.peak();
            let mark = vcore::mem_mark();
            let d = t.ok("section.decompress", c.decompress());
            let used = vcore::mem_peak_since(mark);
            // The window of the zstd decoder is up to 128 MiB.
            if used > 2 * c.uncompressed_size + (200 << 20) {
                t.fail(format!("decompressing {} bytes took {used} bytes of memory", c.uncompressed_size));
            }
            if let Some(d) = d {
                t.owned("section.decompress", &d);
            }
            if let Some(d) = t.ok("section.uncompressed", s.uncompressed_data()) {
                t.owned("section.uncompressed", &d);
            }
            vcore::mem_mark();
        }
    }
    t.iter("relocations", s.relocations(), |t, (a, r)| {
        t.d("rel", a);
        relocation(&r, t)
    });
    let _ = o;
    if let Some(m) = t.ok("relocation_map", s.relocation_map()) {
        for a in around(s.address()).into_iter().chain([0, 4, 8]) {
            t.d("relocate", m.relocate(a, 0x1234));
        }
    }
}

pub fn relocation(r: &Relocation, t: &mut T) {
    t.d("relocation", (r.kind(), r.encoding(), r.size(), r.target(), r.subtractor(), r.addend(), r.has_implicit_addend(), r.flags()));
}

pub fn symbol<'data, S: ObjectSymbol<'data>>(s: &S, t: &mut T) {
    t.d("symbol", (s.index(), s.address(), s.size(), s.kind(), s.section(), s.section_index()));
    t.d("symbol", (s.is_undefined(), s.is_definition(), s.is_common(), s.is_weak(), s.scope(), s.is_global(), s.is_local()));
    t.d("symbol", s.flags());
    t.rb("symbol.name", s.name_bytes());
    t.rs("symbol.name", s.name());
}

#[cfg(any(feature = "coff", feature = "elf", feature = "macho", feature = "pe", feature = "wasm", feature = "xcoff"))]
/// `Debug` of parsed objects must not panic either.
pub fn debug<'data, R: ReadRef<'data> + std::fmt::Debug>(data: R, t: &mut T) -> Result<(), ()> {
    let Ok(f) = File::parse(data) else { return Ok(()) };
    t.at("debug");
    let mut s = Sink(0);
    let _ = write!(s, "{f:?}");
    for x in f.sections().take(3) {
        let _ = write!(s, "{x:?}");
        let _ = write!(s, "{:?}", x.relocations());
    }
    for x in f.segments().take(3) {
        let _ = write!(s, "{x:?}");
    }
    for x in f.symbols().take(3) {
        let _ = write!(s, "{x:?}");
    }
    for x in f.comdats().take(3) {
        let _ = write!(s, "{x:?}");
    }
    let _ = write!(s, "{:?}{:?}{:?}{:?}", f.symbols(), f.sections(), f.segments(), f.dynamic_relocations());
    let _ = write!(s, "{:?}{:?}{:?}", f.imports(), f.exports(), f.import_libraries());
    Ok(())
}

//! Objects described at random in terms which all formats have in common.
use object::write::*;
use object::{Architecture, BinaryFormat, ComdatKind, Endianness, RelocationEncoding, RelocationFlags, RelocationKind, SectionKind, SymbolFlags, SymbolKind, SymbolScope};
use vcore::Rng;

pub const FORMATS: &[BinaryFormat] = &[BinaryFormat::Coff, BinaryFormat::Elf, BinaryFormat::MachO, BinaryFormat::Xcoff];

fn object(r: &mut Rng, format: BinaryFormat) -> (Object<'static>, u32) {
    use Architecture::*;
    let all: &[(Architecture, Endianness)] = match format {
        BinaryFormat::Coff => &[(X86_64, Endianness::Little), (I386, Endianness::Little), (Aarch64, Endianness::Little), (Arm, Endianness::Little)],
        BinaryFormat::Elf => &[
            (X86_64, Endianness::Little),
            (I386, Endianness::Little),
            (Aarch64, Endianness::Big),
            (Arm, Endianness::Little),
            (Riscv64, Endianness::Little),
            (PowerPc64, Endianness::Big),
            (S390x, Endianness::Big),
            (Mips, Endianness::Big),
            (Mips64, Endianness::Little),
            (Sparc64, Endianness::Big),
        ],
        BinaryFormat::MachO => &[(X86_64, Endianness::Little), (I386, Endianness::Little), (Aarch64, Endianness::Little), (Arm, Endianness::Little)],
        _ => &[(PowerPc, Endianness::Big), (PowerPc64, Endianness::Big)],
    };
    let (arch, endian) = *r.pick(all);
    let mut b = Object::new(format, arch, endian);
    if r.one_in(3) {
        let m = *r.pick(&[Mangling::None, Mangling::Elf, Mangling::MachO, Mangling::Coff, Mangling::CoffI386]);
        let _ = m;
        b.set_mangling(m);
    }
    if r.one_in(4) {
        b.set_subsections_via_symbols();
    }
    let standard = [
        StandardSection::Text,
        StandardSection::Data,
        StandardSection::ReadOnlyData,
        StandardSection::ReadOnlyDataWithRel,
        StandardSection::ReadOnlyString,
        StandardSection::UninitializedData,
        StandardSection::Tls,
        StandardSection::UninitializedTls,
        StandardSection::TlsVariables,
        StandardSection::GnuProperty,
        StandardSection::EhFrame,
    ];
    let mut kinds = vec![SectionKind::Text, SectionKind::Data, SectionKind::ReadOnlyData, SectionKind::UninitializedData, SectionKind::Debug, SectionKind::Other];
    if format == BinaryFormat::Elf {
        kinds.extend([SectionKind::Tls, SectionKind::Note, SectionKind::OtherString]);
    }
    let mut steps = 0;
    let mut secs = vec![];
    for _ in 0..r.range(1, 6) {
        let supported = |s: StandardSection| match format {
            BinaryFormat::Elf => s != StandardSection::TlsVariables,
            BinaryFormat::MachO => s != StandardSection::GnuProperty,
            BinaryFormat::Coff => !matches!(s, StandardSection::UninitializedTls | StandardSection::TlsVariables | StandardSection::GnuProperty | StandardSection::ReadOnlyString),
            _ => !matches!(s, StandardSection::Tls | StandardSection::UninitializedTls | StandardSection::TlsVariables | StandardSection::GnuProperty | StandardSection::ReadOnlyString | StandardSection::ReadOnlyDataWithRel | StandardSection::EhFrame),
        };
        let s = *r.pick(&standard);
        let id = match r.below(4) {
            0 | 1 if supported(s) => b.section_id(s),
            2 if matches!(s, StandardSection::Text | StandardSection::Data | StandardSection::ReadOnlyData) && format != BinaryFormat::Xcoff => b.add_subsection(s, r.ident(9).as_bytes()),
            _ => {
                let seg = *r.pick(&[StandardSegment::Text, StandardSegment::Data, StandardSegment::Debug]);
                let seg = if format == BinaryFormat::Xcoff { vec![] } else { b.segment_name(seg).to_vec() };
                b.add_section(seg, r.ident(if format == BinaryFormat::Xcoff { 8 } else { 14 }).into_bytes(), *r.pick(&kinds))
            }
        };
        if b.section(id).is_bss() {
            b.append_section_bss(id, r.below(200), 1 << r.below(5));
        } else if !r.one_in(6) {
            for _ in 0..r.range(1, 3) {
                let n = r.range(8, 80) as usize;
                b.append_section_data(id, &r.bytes(n), 1 << r.below(5));
            }
        }
        secs.push(id);
        steps += 1;
    }
    let mut syms = vec![];
    if r.one_in(3) {
        b.add_file_symbol(r.ident(20).into_bytes());
    }
    for _ in 0..r.below(9) {
        let s = *r.pick(&secs);
        let odd = r.one_in(20);
        let mut y = Symbol {
            name: r.ident(20).into_bytes(),
            value: r.below(8),
            size: r.below(8),
            kind: *r.pick(if odd { &[SymbolKind::Label, SymbolKind::Tls, SymbolKind::Unknown][..] } else { &[SymbolKind::Text, SymbolKind::Data] }),
            scope: *r.pick(&[SymbolScope::Compilation, SymbolScope::Linkage, SymbolScope::Dynamic]),
            weak: r.one_in(5),
            section: SymbolSection::Section(s),
            flags: SymbolFlags::None,
        };
        match r.below(8) {
            0 => {
                y.section = SymbolSection::Undefined;
                (y.value, y.size) = (0, 0);
            }
            1 => y.section = SymbolSection::Absolute,
            2 if !y.weak && format != BinaryFormat::Xcoff => {
                (y.kind, y.section, y.value, y.scope) = (SymbolKind::Data, SymbolSection::Undefined, 0, SymbolScope::Linkage);
                syms.push(b.add_common_symbol(y, 1 + r.below(60), 1 << r.below(5)));
                continue;
            }
            3 if !b.section(s).is_bss() => {
                (y.section, y.value) = (SymbolSection::Undefined, 0);
                let id = b.add_symbol(y);
                let n = if r.one_in(3) { 0 } else { r.range(1, 20) as usize };
                b.add_symbol_data(id, s, &r.bytes(n), 1 << r.below(4));
                syms.push(id);
                continue;
            }
            3 => {
                (y.section, y.value) = (SymbolSection::Undefined, 0);
                let id = b.add_symbol(y);
                b.add_symbol_bss(id, s, r.below(3) * r.below(30), 1 << r.below(4));
                syms.push(id);
                continue;
            }
            4 if format != BinaryFormat::Xcoff => {
                syms.push(b.section_symbol(s));
                continue;
            }
            _ => {}
        }
        syms.push(b.add_symbol(y));
        steps += 1;
    }
    if r.one_in(4) && !syms.is_empty() && matches!(format, BinaryFormat::Elf | BinaryFormat::Coff) {
        let s = b.add_section(vec![], r.ident(8).into_bytes(), SectionKind::Text);
        b.append_section_data(s, &[0x90; 16], 4);
        let y = Symbol {
            name: r.ident(10).into_bytes(),
            value: 0,
            size: 0,
            kind: SymbolKind::Text,
            scope: SymbolScope::Linkage,
            weak: false,
            section: SymbolSection::Section(s),
            flags: SymbolFlags::None,
        };
        b.section_symbol(s);
        let symbol = b.add_symbol(y);
        b.add_comdat(Comdat { kind: *r.pick(if format == BinaryFormat::Elf { &[ComdatKind::Any] } else { &[ComdatKind::Any, ComdatKind::NoDuplicates, ComdatKind::SameSize][..] }), symbol, sections: vec![s] });
    }
    for _ in 0..r.below(8) {
        let s = *r.pick(&secs);
        if syms.is_empty() || b.section(s).is_bss() {
            continue;
        }
        let flags = RelocationFlags::Generic {
            kind: *r.pick(&[RelocationKind::Absolute, RelocationKind::Absolute, RelocationKind::Relative, RelocationKind::PltRelative, RelocationKind::Got, RelocationKind::SectionOffset]),
            encoding: *r.pick(&[RelocationEncoding::Generic, RelocationEncoding::Generic, RelocationEncoding::X86Branch, RelocationEncoding::AArch64Call]),
            size: *r.pick(&[32, 32, 64, 26]),
        };
        let offset = r.below(2) * 4;
        let rel = Relocation { offset, symbol: *r.pick(&syms), addend: r.below(64) as i64 - 32, flags };
        let _ = b.add_relocation(s, rel);
        steps += 1;
    }
    (b, steps)
}

fn show(r: Result<Vec<u8>>) -> String {
    match r {
        Ok(v) => format!("{:016x} {}", vcore::hash(&v), v.len()),
        Err(e) => format!("refused: {e}"),
    }
}

pub fn write(format: u64, seed: u64, out: &mut dyn FnMut(&str, String)) {
    let format = FORMATS[format as usize];
    let f = |what: fn(&Object<'static>) -> String| super::caught(|| what(&object(&mut Rng::new(seed), format).0));
    out("write", f(|b| show(b.write())));
    out(
        "emit",
        f(|b| {
            let mut v: Vec<u8> = vec![];
            show(b.emit(&mut v).map(|()| v))
        }),
    );
    #[cfg(feature = "std")]
    out(
        "stream",
        f(|b| {
            let mut v: Vec<u8> = vec![];
            match b.write_stream(&mut v) {
                Ok(()) => show(Ok(v)),
                Err(e) => format!("refused: {e}"),
            }
        }),
    );
    #[cfg(feature = "write_elf")]
    out(
        "strings",
        super::caught(|| {
            let mut r = Rng::new(seed);
            let words: Vec<Vec<u8>> = (0..r.range(1, 30)).map(|_| { let n = r.range(1, 6) as usize; (0..n).map(|_| b'a' + r.below(3) as u8).collect() }).collect();
            let mut t = StringTable::default();
            let ids: Vec<_> = words.iter().map(|w| t.add(w)).collect();
            let mut v = vec![0];
            let _ = t.write(&mut v, 1);
            for id in ids {
                v.extend((t.get_offset(id) as u32).to_le_bytes());
            }
            show(Ok(v))
        }),
    );
}

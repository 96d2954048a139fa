//! C08: COFF, bigobj and short import objects decode to exactly what they encode.
use genf::coff::*;
use genf::w::{W, name};
use object::pe;
use object::read::coff::{CoffBigFile, CoffFile, CoffHeader, ImportFile, ImportName, ImportType, Symbol as _, anon_object_class_id};
use object::read::*;
use object::{FileFlags, LittleEndian as LE, SectionFlags, SegmentFlags, SymbolFlags};
use vcore::*;

const MACHINES: &[(u16, &str)] = &[
    (0x14c, "I386"),
    (0x8664, "X86_64"),
    (0x1c4, "Arm"),
    (0xaa64, "Aarch64"),
    (0xa641, "Aarch64"),
    (0x1f0, "PowerPc"),
    (0x1f1, "PowerPc"),
    (0x1f2, "PowerPc"),
];
fn dbg<T: std::fmt::Debug>(t: T) -> String {
    format!("{t:?}")
}

/// A relocation's meaning by the PE/COFF specification: kind, encoding, size, addend.
fn reloc(machine: u16, ty: u16) -> (&'static str, &'static str, u8, i64) {
    let g = |k, s, a| (k, "Generic", s, a);
    match (machine, ty) {
        (0x1c4, 1) | (0xaa64 | 0xa641, 1) | (0x14c, 6) | (0x8664, 2) => g("Absolute", 32, 0),
        (0x1c4, 2) | (0xaa64 | 0xa641, 2) | (0x14c, 7) | (0x8664, 3) => g("ImageOffset", 32, 0),
        (0x1c4, 0xa) | (0xaa64 | 0xa641, 0x11) | (0x14c, 0x14) | (0x8664, 4) => g("Relative", 32, -4),
        (0x1c4, 0xe) | (0xaa64 | 0xa641, 0xd) | (0x14c, 0xa) | (0x8664, 0xa) => g("SectionIndex", 16, 0),
        (0x1c4, 0xf) | (0xaa64 | 0xa641, 8) | (0x14c, 0xb) | (0x8664, 0xb) => g("SectionOffset", 32, 0),
        (0x14c, 0xd) | (0x8664, 0xc) => g("SectionOffset", 7, 0),
        (0xaa64 | 0xa641, 0xe) | (0x8664, 1) => g("Absolute", 64, 0),
        (0xaa64 | 0xa641, 3) => ("Relative", "AArch64Call", 26, 0),
        (0x14c, 1) => g("Absolute", 16, 0),
        (0x14c, 2) => g("Relative", 16, 0),
        (0x8664, 5..=9) => g("Relative", 32, -i64::from(ty)),
        _ => ("Unknown", "Unknown", 0, 0),
    }
}

#[derive(Clone, Debug, Default)]
struct AuxSec {
    len: u32,
    number: u32,
    sel: u8,
}
/// What the generator knows about a symbol beyond its record.
#[derive(Clone, Debug, Default)]
struct Info {
    name: Vec<u8>,
    aux_sec: Option<AuxSec>,
    aux_fn: Option<[u32; 4]>,
    aux_weak: Option<[u32; 2]>,
}

fn sname(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => b".debug_info".to_vec(),
        1 => b".text$mn".to_vec(),
        2 => b".drectve".to_vec(),
        3 => b".debug_abbrev".to_vec(),
        4..=6 => [b"." as &[u8], r.ident(5).as_bytes()].concat(),
        _ => {
            let mut n = name(r);
            if n[0] == b'/' {
                n[0] = b'.';
            }
            n
        }
    }
}

fn model(r: &mut Rng, big: bool) -> (Coff, Vec<Info>) {
    let mut c = Coff { big, machine: r.pick(MACHINES).0, stamp: r.u32(), chars: r.u16(), no_symtab: r.one_in(14), ..Coff::default() };
    if !big && r.one_in(5) {
        let n = r.idx(60);
        c.opt = r.bytes(n);
    }
    let nsec = if r.one_in(25) { 0 } else { 1 + r.idx(9) };
    for _ in 0..nsec {
        let mut chars = match r.below(9) {
            0 => 0x6000_0020,
            1 => 0xc000_0040,
            2 => 0x4000_0040,
            3 => 0xc000_0080,
            4 => 0x4200_0040,
            5 => 0x0010_0a00,
            6 => 0x6000_1020,
            _ => r.u32(),
        };
        chars &= !0x0100_0000;
        if r.bool() {
            chars = chars & !0x00f0_0000 | (r.range(0, 15) as u32) << 20;
        }
        let mut s = CSec { name: sname(r), vsize: r.edgy(32) as u32, vaddr: if r.one_in(3) { r.edgy(32) as u32 } else { 0 }, chars, ..CSec::default() };
        if c.no_symtab {
            s.name.truncate(8);
        }
        if chars & 0x80 != 0 {
            s.raw_size = Some(r.edgy(32) as u32);
        } else {
            let n = if r.one_in(7) { 0 } else { r.idx(120) };
            s.data = r.bytes(n);
        }
        s.lines = if r.one_in(5) { (r.u32(), r.u16()) } else { (0, 0) };
        c.secs.push(s);
    }
    let mut info = vec![];
    let nsym = if c.no_symtab { 0 } else if r.one_in(12) { 0 } else { r.idx(18) };
    for _ in 0..nsym {
        let mut s = CSym { value: if r.one_in(3) { 0 } else { r.edgy(32) as u32 }, force_long: r.one_in(8), ..CSym::default() };
        let mut i = Info { name: if r.one_in(16) { vec![] } else { name(r) }, ..Info::default() };
        s.sect = match r.below(10) {
            0 | 1 => 0,
            2 => -1,
            3 => -2,
            _ if nsec > 0 => 1 + r.idx(nsec) as i32,
            _ => 0,
        };
        s.ty = *r.pick(&[0u16, 0, 0x20, 0x20, 0x30, 4, 0x24, 0x10, 0xffff]);
        s.class = *r.pick(&[2u8, 2, 2, 3, 3, 3, 105, 6, 103, 104, 101, 107, 0xff, 0]);
        let mut naux = if r.one_in(4) { r.idx(4) } else { 0 };
        // The COMDAT machinery wants section symbols.
        if r.one_in(4) && nsec > 0 {
            s.class = 3;
            s.ty = 0;
            naux = naux.max(1);
            s.sect = 1 + r.idx(nsec) as i32;
            i.name = c.secs[s.sect as usize - 1].name.clone();
        }
        if s.class == 105 && r.bool() {
            s.sect = 0;
            s.value = 0;
            naux = naux.max(1);
        }
        if s.class == 103 {
            // A file name in auxiliary records, NUL padded to whole records.
            s.sect = if r.one_in(5) { s.sect } else { -2 };
            naux = if r.one_in(6) { 0 } else { 1 + r.idx(4) };
            if r.one_in(30) {
                naux = 255;
            }
            if naux > 0 {
                let ss = c.symsize();
                let n = if r.one_in(3) { naux * ss } else { (naux - 1) * ss + 1 + r.idx(ss) };
                let mut f: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
                let at = r.idx(n);
                f[at] = if r.bool() { b'/' } else { 0xc3 };
                i.name = f.clone();
                s.name = b".file".to_vec();
                f.resize(naux * ss, 0);
                s.aux = f.chunks(ss).map(|x| x.to_vec()).collect();
            }
        } else {
            let ss = c.symsize();
            for k in 0..naux {
                let mut a = r.bytes(ss);
                if k == 0 {
                    if s.class == 3 && s.ty == 0 {
                        let x = AuxSec {
                            len: r.edgy(32) as u32,
                            number: if r.one_in(4) || nsec == 0 { 0 } else { 1 + r.idx(nsec) as u32 },
                            sel: *r.pick(&[0u8, 1, 2, 2, 3, 4, 5, 5, 5, 6, 7, 8, 0xff]),
                        };
                        // Numbers past 16 bits exist only in bigobj files, rarely.
                        let num = if big && r.one_in(6) { x.number | if r.bool() { 0x1_0000 } else { r.u32() } } else { x.number };
                        let x = AuxSec { number: num, ..x };
                        a[..4].copy_from_slice(&x.len.to_le_bytes());
                        a[12..14].copy_from_slice(&(x.number as u16).to_le_bytes());
                        a[14] = x.sel;
                        a[16..18].copy_from_slice(&((x.number >> 16) as u16).to_le_bytes());
                        if !big && r.one_in(3) {
                            // Not part of the number here.
                            a[16..18].copy_from_slice(&[0xff, 0x01]);
                        }
                        i.aux_sec = Some(x);
                    } else if (s.class == 2 || s.class == 3) && s.ty & 0x30 == 0x20 {
                        let f = [r.u32(), r.edgy(32) as u32, r.u32(), r.u32()];
                        for (n, v) in f.iter().enumerate() {
                            a[n * 4..][..4].copy_from_slice(&v.to_le_bytes());
                        }
                        i.aux_fn = Some(f);
                    } else if s.class == 105 && s.sect == 0 && s.value == 0 {
                        let f = [r.below(30) as u32, r.range(1, 4) as u32];
                        for (n, v) in f.iter().enumerate() {
                            a[n * 4..][..4].copy_from_slice(&v.to_le_bytes());
                        }
                        i.aux_weak = Some(f);
                    }
                }
                s.aux.push(a);
            }
        }
        if s.name.is_empty() {
            s.name = i.name.clone();
        }
        c.syms.push(s);
        info.push(i);
    }
    c.number();
    for k in 0..nsec {
        let n = if c.nsyms == 0 || r.bool() { 0 } else { 1 + r.idx(5) };
        let max = c.nsyms.max(1);
        for _ in 0..n {
            let ty = if r.one_in(8) { r.u16() } else { r.below(0x18) as u16 };
            c.secs[k].relocs.push(CReloc { addr: r.edgy(32) as u32, sym: if r.one_in(20) { r.u32() } else { r.idx(max) as u32 }, ty });
        }
        c.secs[k].ovfl = r.one_in(12);
    }
    (c, info)
}

fn align(ch: u32) -> u64 {
    match ch >> 20 & 15 {
        0 => 16,
        15 => 16,
        n => 1 << (n - 1),
    }
}
fn kind(ch: u32) -> &'static str {
    if ch & 0x2000_0020 != 0 {
        "Text"
    } else if ch & 0x40 != 0 {
        if ch & 0x0200_0000 != 0 {
            "Other"
        } else if ch & 0x8000_0000 != 0 {
            "Data"
        } else {
            "ReadOnlyData"
        }
    } else if ch & 0x80 != 0 {
        "UninitializedData"
    } else if ch & 0x200 != 0 {
        "Linker"
    } else {
        "Unknown"
    }
}

fn check<'d, C: CoffHeader>(f: &CoffFile<'d, &'d [u8], C>, c: &Coff, info: &[Info], data: &'d [u8], r: &mut Rng, o: &mut Obs) -> Res {
    let h = f.coff_header();
    same!(h.machine().0, c.machine, "machine");
    same!(h.number_of_sections() as usize, c.secs.len(), "number_of_sections");
    same!(h.pointer_to_symbol_table(), c.symtab_at, "pointer_to_symbol_table");
    let nsyms = if c.no_symtab { 0 } else { c.nsyms };
    same!(h.number_of_symbols() as usize, nsyms, "number_of_symbols");
    let chars = if c.big { 0 } else { c.chars };
    same!(h.characteristics().0, chars, "characteristics");
    same!(C::is_type_bigobj(), c.big, "bigobj");
    let arch = MACHINES.iter().find(|m| m.0 == c.machine).unwrap().1;
    same!(dbg(f.architecture()), arch, "architecture");
    same!(dbg(f.sub_architecture()), if c.machine == 0xa641 { "Some(Arm64EC)" } else { "None" }, "sub_architecture");
    same!(f.is_little_endian(), c.machine != 0x1f2, "is_little_endian");
    ensure!(!f.is_64(), "is_64");
    same!(f.kind(), ObjectKind::Relocatable, "kind");
    same!(f.entry(), 0, "entry");
    match f.flags() {
        FileFlags::Coff { characteristics } => same!(characteristics.0, chars, "file flags"),
        x => return Err(format!("file flags {x:?}")),
    }
    same!(f.has_debug_symbols(), c.secs.iter().any(|s| s.name == b".debug_info"), "has_debug_symbols");
    ensure!(f.dynamic_symbol_table().is_none_or(|t| t.symbols().next().is_none()) && f.dynamic_symbols().next().is_none(), "dynamic symbols");
    ensure!(f.dynamic_relocations().is_none(), "dynamic relocations");
    same!(okay!(f.imports()).count() + okay!(f.exports()).count() + okay!(f.import_libraries()).count(), 0, "imports and exports");
    // Sections.
    let table = f.coff_section_table();
    same!(table.len(), c.secs.len(), "section table length");
    same!(f.sections().count(), c.secs.len(), "sections");
    same!(f.segments().count(), c.secs.len(), "segments");
    let mut segs = f.segments();
    for (i, (g, w)) in f.sections().zip(&c.secs).enumerate() {
        let at = format!("section {i}");
        same!(g.index(), SectionIndex(i + 1), "{at} index");
        let by = okay!(f.section_by_index(SectionIndex(i + 1)), "{at}");
        same!(by.name_bytes().ok(), Some(&w.name[..]), "{at} by index");
        same!(okay!(g.name_bytes(), "{at} name"), &w.name[..], "{at} name");
        same!(g.name().ok(), std::str::from_utf8(&w.name).ok(), "{at} name");
        same!(g.segment_name_bytes().ok(), Some(None), "{at} segment name");
        let uninit = w.chars & 0x80 != 0;
        let size = w.raw_size.unwrap_or(w.data.len() as u32);
        same!(g.address(), u64::from(w.vaddr), "{at} address");
        same!(g.size(), u64::from(size), "{at} size");
        same!(g.align(), align(w.chars), "{at} align");
        same!(dbg(g.kind()), kind(w.chars), "{at} kind");
        same!(g.file_range(), if uninit { None } else { Some((u64::from(w.data_at), u64::from(size))) }, "{at} file_range");
        same!(okay!(g.data(), "{at} data"), &w.data[..], "{at} data");
        same!(okay!(g.uncompressed_data(), "{at}").as_ref(), &w.data[..], "{at} uncompressed data");
        let cr = okay!(g.compressed_file_range(), "{at}");
        same!((dbg(cr.format), cr.compressed_size, cr.uncompressed_size), ("None".to_string(), if uninit { 0 } else { u64::from(size) }, if uninit { 0 } else { u64::from(size) }), "{at} compressed range");
        match g.flags() {
            SectionFlags::Coff { characteristics } => same!(characteristics.0, w.chars, "{at} flags"),
            x => return Err(format!("{at} flags {x:?}")),
        }
        let raw = g.coff_section();
        same!(
            (raw.virtual_size.get(LE), raw.pointer_to_raw_data.get(LE), raw.pointer_to_relocations.get(LE), raw.number_of_relocations.get(LE)),
            (w.vsize, w.data_at, w.reloc_at, w.nreloc),
            "{at} raw header"
        );
        same!((raw.pointer_to_linenumbers.get(LE), raw.number_of_linenumbers.get(LE)), w.lines, "{at} line numbers");
        same!(raw.raw_name(), { let n = w.raw.iter().position(|&b| b == 0).unwrap_or(8); &w.raw[..n] }, "{at} raw name");
        // Data ranges.
        if !w.data.is_empty() {
            let a = r.idx(w.data.len());
            let n = r.idx(w.data.len() - a + 1);
            let got = okay!(g.data_range(u64::from(w.vaddr) + a as u64, n as u64), "{at} data_range");
            same!(got, Some(&w.data[a..a + n]), "{at} data_range");
            same!(okay!(g.data_range(u64::from(w.vaddr) + a as u64, (w.data.len() - a + 1) as u64)), None, "{at} data_range past the end");
            if w.vaddr > 0 {
                same!(okay!(g.data_range(u64::from(w.vaddr) - 1, 1)), None, "{at} data_range before the start");
            }
        }
        // Segment.
        let s = some!(segs.next());
        same!((s.address(), s.size(), s.align()), (u64::from(w.vaddr), u64::from(w.vsize), align(w.chars)), "{at} segment");
        same!(s.file_range(), if uninit { (0, 0) } else { (u64::from(w.data_at), u64::from(size)) }, "{at} segment range");
        same!(okay!(s.data()), &w.data[..], "{at} segment data");
        same!(okay!(s.name_bytes()), Some(&w.name[..]), "{at} segment name");
        match s.flags() {
            SegmentFlags::Coff { characteristics } => same!(characteristics.0, w.chars, "{at} segment flags"),
            x => return Err(format!("{at} segment flags {x:?}")),
        }
        let p = s.permissions();
        same!((p.readable(), p.writable(), p.executable()), (w.chars >> 30 & 1 == 1, w.chars >> 31 == 1, w.chars >> 29 & 1 == 1), "{at} permissions");
        // Relocations.
        let rel: Vec<(u64, Relocation)> = g.relocations().collect();
        same!(rel.len(), w.relocs.len(), "{at} relocations");
        let rawrel = okay!(g.coff_relocations(), "{at} relocations");
        same!(rawrel.len(), w.relocs.len(), "{at} raw relocations");
        for (j, ((ga, gr), x)) in rel.iter().zip(&w.relocs).enumerate() {
            let at = format!("{at} relocation {j} type {:#x} machine {:#x}", x.ty, c.machine);
            same!((rawrel[j].virtual_address.get(LE), rawrel[j].symbol().0 as u32, rawrel[j].typ.get(LE).0), (x.addr, x.sym, x.ty), "{at} raw");
            same!(*ga, u64::from(x.addr), "{at} offset");
            let (k, e, s, a) = reloc(c.machine, x.ty);
            same!((dbg(gr.kind()), dbg(gr.encoding()), gr.size(), gr.addend()), (k.into(), e.into(), s, a), "{at} meaning");
            same!(gr.target(), RelocationTarget::Symbol(SymbolIndex(x.sym as usize)), "{at} target");
            ensure!(gr.has_implicit_addend(), "{at} implicit");
            match gr.flags() {
                object::RelocationFlags::Coff { typ } => same!(typ.0, x.ty, "{at} flags"),
                x => return Err(format!("{at} flags {x:?}")),
            }
            o.hit("relocations");
            if k != "Unknown" {
                o.hit("relocations with a generic meaning");
            }
        }
        if w.ovfl {
            o.hit("relocation count overflows");
        }
        if uninit {
            o.hit("uninitialized sections");
        }
        if w.raw[0] == b'/' {
            o.hit(if w.raw[1] == b'/' { "base 64 section names" } else { "decimal section names" });
        }
        o.hit("sections");
    }
    ensure!(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(c.secs.len() + 1)).is_err(), "section_by_index out of range");
    if let Some(s) = c.secs.first() {
        let first = c.secs.iter().position(|x| x.name == s.name).unwrap();
        same!(f.section_by_name_bytes(&s.name).map(|s| s.index().0), Some(first + 1), "section_by_name_bytes");
        let (i, _) = some!(table.section_by_name(f.coff_symbol_table().strings(), &s.name));
        same!(i.0, first + 1, "table section_by_name");
    }
    ensure!(f.section_by_name_bytes(b"no such name").is_none(), "section_by_name of nothing");
    // The end of the last section's data or relocations.
    // Symbols.
    let t = f.coff_symbol_table();
    same!(t.len(), nsyms, "symbol table length");
    let syms: Vec<_> = f.symbols().collect();
    same!(syms.len(), if c.no_symtab { 0 } else { c.syms.len() }, "symbols");
    same!(some!(f.symbol_table()).symbols().count(), syms.len(), "symbol_table");
    for (((g, w), i), (ti, raw)) in syms.iter().zip(&c.syms).zip(info).zip(t.iter()) {
        let at = format!("symbol {} class {} sect {} type {:#x}", w.index, w.class, w.sect, w.ty);
        same!((g.index().0, ti.0), (w.index, w.index), "{at} index");
        same!(okay!(g.name_bytes(), "{at} name"), &i.name[..], "{at} name");
        same!(g.name().ok(), std::str::from_utf8(&i.name).ok(), "{at} name");
        same!(raw.raw_name(), &w.raw, "{at} raw name");
        same!(okay!(raw.name(t.strings())), &w.name[..], "{at} record name");
        same!(
            (raw.value(), raw.section_number().0, raw.typ().0, raw.storage_class().0, raw.number_of_aux_symbols() as usize),
            (w.value, w.sect, w.ty, w.class, w.aux.len()),
            "{at} record"
        );
        same!((raw.base_type().0 as u16, raw.derived_type().0 as u16), (w.ty & 0xf, w.ty >> 4 & 3), "{at} type parts");
        let isfn = w.ty & 0x30 == 0x20;
        let sec = i.aux_sec.as_ref();
        let addr = if matches!(w.class, 2 | 3 | 6 | 105) && w.sect > 0 { u64::from(c.secs[w.sect as usize - 1].vaddr) + u64::from(w.value) } else { 0 };
        same!(g.address(), addr, "{at} address");
        let size = match w.class {
            3 => sec.map_or(0, |a| a.len),
            2 if w.sect == 0 => w.value,
            2 => i.aux_fn.map_or(0, |a| a[1]),
            _ => 0,
        };
        same!(g.size(), u64::from(size), "{at} size");
        let derived = if isfn { "Text" } else { "Data" };
        let k = match w.class {
            3 if sec.is_some() => "Section",
            2 | 3 | 105 => derived,
            104 => "Section",
            103 => "File",
            6 => "Label",
            _ => "Unknown",
        };
        same!(dbg(g.kind()), k, "{at} kind");
        let section = match (w.sect, w.class) {
            (0, 2) => if w.value == 0 { SymbolSection::Undefined } else { SymbolSection::Common },
            (0, 104) => SymbolSection::Undefined,
            (0, _) => SymbolSection::Unknown,
            (-1, _) => SymbolSection::Absolute,
            (-2, 103) => SymbolSection::None,
            (-2, _) => SymbolSection::Unknown,
            (n, _) => SymbolSection::Section(SectionIndex(n as usize)),
        };
        same!(g.section(), section, "{at} section");
        same!(g.section_index().map(|i| i.0), (w.sect > 0).then_some(w.sect as usize), "{at} section_index");
        same!((g.is_undefined(), g.is_common()), (w.class == 2 && w.sect == 0 && w.value == 0, w.class == 2 && w.sect == 0 && w.value != 0), "{at} undefined, common");
        same!(g.is_definition(), w.sect > 0 && (w.class == 3 && sec.is_none() || w.class == 2 || w.class == 105), "{at} definition");
        let global = w.class == 2 || w.class == 105;
        same!((g.is_weak(), g.is_global(), g.is_local()), (w.class == 105, global, !global), "{at} weak, global, local");
        same!(g.scope(), if global { SymbolScope::Linkage } else { SymbolScope::Compilation }, "{at} scope");
        match (g.flags(), sec) {
            (SymbolFlags::CoffSection { typ, storage_class, selection, associative_section }, Some(a)) => {
                let n = if c.big { a.number } else { a.number & 0xffff };
                same!((typ.0, storage_class.0, selection.0, associative_section.map(|i| i.0)), (w.ty, w.class, a.sel, (n != 0).then_some(n as usize)), "{at} flags");
                o.hit("section symbols");
            }
            (SymbolFlags::Coff { typ, storage_class }, None) => same!((typ.0, storage_class.0), (w.ty, w.class), "{at} flags"),
            (x, _) => return Err(format!("{at} flags {x:?}")),
        }
        same!(
            (raw.has_aux_file_name(), raw.has_aux_section(), raw.has_aux_function(), raw.has_aux_weak_external()),
            (w.class == 103 && !w.aux.is_empty(), sec.is_some(), i.aux_fn.is_some(), i.aux_weak.is_some()),
            "{at} auxiliary kinds"
        );
        if let Some(a) = i.aux_fn {
            let x = okay!(t.aux_function(g.index()), "{at}");
            same!([x.tag_index.get(LE), x.total_size.get(LE), x.pointer_to_linenumber.get(LE), x.pointer_to_next_function.get(LE)], a, "{at} aux function");
            o.hit("auxiliary functions");
        }
        if let Some(a) = i.aux_weak {
            let x = okay!(t.aux_weak_external(g.index()), "{at}");
            same!([x.default_symbol().0 as u32, x.weak_search_type.get(LE).0 as u32], a, "{at} aux weak");
            o.hit("auxiliary weak externals");
        }
        if w.class == 103 && !w.aux.is_empty() {
            same!(okay!(t.aux_file_name(g.index(), w.aux.len() as u8)), &i.name[..], "{at} file name");
            o.hit("file names");
        }
        let by = okay!(f.symbol_by_index(g.index()), "{at}");
        same!((by.index(), by.address(), by.size()), (g.index(), g.address(), g.size()), "{at} by index");
        if w.raw[0] == 0 {
            o.hit("long symbol names");
        }
        o.hit("symbols");
    }
    ensure!(f.symbol_by_index(SymbolIndex(nsyms)).is_err(), "symbol past the end");
    // COMDAT groups.
    let mut want = vec![];
    for (n, (w, i)) in c.syms.iter().zip(info).enumerate() {
        let Some(a) = &i.aux_sec else { continue };
        if w.sect <= 0 || a.sel == 0 || a.sel == 5 {
            continue;
        }
        let Some(lead) = c.syms[n + 1..].iter().find(|x| x.sect == w.sect) else { continue };
        let secs: Vec<usize> = c
            .syms
            .iter()
            .zip(info)
            .filter_map(|(x, xi)| {
                let xa = xi.aux_sec.as_ref()?;
                if x.sect <= 0 || xa.sel == 0 {
                    return None;
                }
                // Leaders name their own section, associative ones their leader.
                let key = if xa.sel == 5 { if c.big { xa.number } else { xa.number & 0xffff } } else { x.sect as u32 };
                (key == w.sect as u32).then_some(x.sect as usize)
            })
            .collect();
        let k = match a.sel {
            1 => "NoDuplicates",
            2 => "Any",
            3 => "SameSize",
            4 => "ExactMatch",
            6 => "Largest",
            7 => "Newest",
            _ => "Unknown",
        };
        want.push((k.to_string(), lead.index, lead.name.clone(), secs));
    }
    let mut got = vec![];
    for g in f.comdats() {
        got.push((dbg(g.kind()), g.symbol().0, okay!(g.name_bytes()).to_vec(), g.sections().map(|s| s.0).collect::<Vec<_>>()));
    }
    if c.no_symtab {
        want.clear();
    }
    same!(got, want, "comdats");
    o.add("comdat groups", want.len() as u64);
    if want.iter().any(|w| w.3.len() > 1) {
        o.hit("comdat groups of several sections");
    }
    let _ = data;
    Ok(())
}

fn files(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let big = case % 3 == 2;
    let (mut c, info) = model(r, big);
    if case == 5 || case == 7 || (thorough() && r.one_in(4000)) {
        // A real overflow of the relocation count.
        let n = 0xffff + r.idx(3);
        c.secs.push(CSec { name: b".many".to_vec(), chars: 0x4000_0040, relocs: (0..n).map(|i| CReloc { addr: i as u32, sym: 0, ty: 1 }).collect(), ..CSec::default() });
        o.hit("more than 65534 relocations");
    }
    if big && (case == 2 || thorough() && r.one_in(4000)) {
        // More sections than the regular header can count.
        while c.secs.len() < 66_000 {
            c.secs.push(CSec { name: b".s".to_vec(), chars: 0x4000_0040, ..CSec::default() });
        }
        let mut s = CSym { name: b"far".to_vec(), sect: 65_990, class: 2, ..CSym::default() };
        s.aux.clear();
        if !c.no_symtab {
            c.syms.push(s);
        }
        o.hit("more than 65535 sections");
    }
    let mut info = info;
    while info.len() < c.syms.len() {
        info.push(Info { name: b"far".to_vec(), ..Info::default() });
    }
    let data = c.build(r);
    o.input("coff", &data);
    o.hit("files");
    let want = if big { FileKind::CoffBig } else { FileKind::Coff };
    // The generic entry point recognises every machine it maps, but ARM64EC only in bigobj.
    {
        same!(okay!(FileKind::parse(&data[..]), "file kind of machine {:#x}", c.machine), want, "file kind");
        let f = okay!(object::File::parse(&data[..]), "generic file");
        same!(f.format(), BinaryFormat::Coff, "format");
        same!(f.sections().count(), c.secs.len(), "generic sections");
    }
    if big {
        let f = okay!(CoffBigFile::<&[u8]>::parse(&data[..]), "bigobj");
        same!(okay!(anon_object_class_id(&data[..])).0, BIGOBJ, "class id");
        check(&f, &c, &info, &data, r, o)?;
        o.hit("bigobj files");
    } else {
        let f = okay!(CoffFile::<&[u8]>::parse(&data[..]), "coff");
        check(&f, &c, &info, &data, r, o)?;
    }
    if !c.secs.is_empty() && !c.syms.is_empty() {
        o.nontrivial(hash(&data));
    }
    o.sample(|| format!("big {big} machine {:#x} {} sections {} symbols {} bytes", c.machine, c.secs.len(), c.syms.len(), data.len()));
    Ok(())
}

fn imports(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let machine = if r.one_in(10) { r.u16() } else { r.pick(MACHINES).0 };
    let mut sym = vec![];
    if r.bool() {
        sym.push(*r.pick(b"?@_"));
    }
    if r.one_in(4) {
        sym.push(*r.pick(b"?@_"));
    }
    if !r.one_in(8) {
        sym.extend(name(r));
    }
    if r.bool() {
        sym.push(b'@');
        sym.extend(r.ident(4).as_bytes());
    }
    let dll = name(r);
    let exp = name(r);
    let ty = if r.one_in(15) { 3 } else { r.below(3) as u16 };
    let nt = if r.one_in(15) { r.range(5, 7) as u16 } else { r.below(5) as u16 };
    let reserved = if r.one_in(4) { (r.u16() & 0x7ff) << 5 } else { 0 };
    let hint = r.u16();
    let mut d = vec![];
    for s in [&sym, &dll] {
        d.extend_from_slice(s);
        d.push(0);
    }
    if nt == 4 {
        d.extend_from_slice(&exp);
        d.push(0);
    }
    if r.one_in(5) {
        let n = r.idx(9);
        d.extend(r.bytes(n));
    }
    let mut w = W::new(false, false);
    let (stamp, size) = (r.u32(), d.len() as u32);
    w.u16(0).u16(0xffff).u16(0).u16(machine).u32(stamp).u32(size).u16(hint).u16(ty | nt << 2 | reserved).put(&d);
    if r.one_in(4) {
        w.zeros(3);
    }
    let data = w.b;
    o.input("import", &data);
    same!(okay!(FileKind::parse(&data[..]), "kind"), FileKind::CoffImport, "kind");
    let mut off = 0;
    let h = okay!(pe::ImportObjectHeader::parse(&data[..], &mut off), "header");
    same!(off, 20, "header size");
    same!((h.machine.get(LE).0, h.time_date_stamp.get(LE), h.size_of_data.get(LE), h.ordinal_or_hint.get(LE)), (machine, stamp, size, hint), "header");
    same!((h.import_type().0, h.name_type().0), (ty, nt), "types");
    let x = okay!(h.parse_data(&data[..], &mut off), "data");
    same!(x.symbol(), &sym[..], "symbol");
    same!(x.dll(), &dll[..], "dll");
    same!(x.export(), (nt == 4).then_some(&exp[..]), "export");
    let f = ImportFile::parse(&data[..]);
    if ty > 2 || nt > 4 {
        ensure!(f.is_err(), "import of unknown type {ty} or name type {nt} accepted");
        o.hit("refused imports");
        return Ok(());
    }
    let f = okay!(f, "import file");
    let arch = match machine {
        0x1c4 => "Arm",
        0xaa64 | 0xa641 => "Aarch64",
        0x14c => "I386",
        0x8664 => "X86_64",
        _ => "Unknown",
    };
    same!(dbg(f.architecture()), arch, "architecture");
    same!(dbg(f.sub_architecture()), if machine == 0xa641 { "Some(Arm64EC)" } else { "None" }, "sub_architecture");
    same!(f.symbol(), &sym[..], "symbol");
    same!(f.dll(), &dll[..], "dll");
    same!(f.import_type(), [ImportType::Code, ImportType::Data, ImportType::Const][ty as usize], "type");
    let strip = |s: &[u8]| if matches!(s.first(), Some(b'?' | b'@' | b'_')) { s[1..].to_vec() } else { s.to_vec() };
    let want = match nt {
        1 => sym.clone(),
        2 => strip(&sym),
        3 => {
            let s = strip(&sym);
            let n = s.iter().position(|&b| b == b'@').unwrap_or(s.len());
            s[..n].to_vec()
        }
        4 => exp.clone(),
        _ => vec![],
    };
    same!(f.import(), if nt == 0 { ImportName::Ordinal(hint) } else { ImportName::Name(&want) }, "import name of type {nt}");
    o.hit(["ordinal imports", "named imports", "names without a prefix", "undecorated names", "names exported as"][nt as usize]);
    o.nontrivial(hash(&data));
    // Damage to the signature, version or strings is refused.
    let mut bad = data.clone();
    bad[r.idx(6)] ^= 1 << r.below(8);
    ensure!(ImportFile::parse(&bad[..]).is_err(), "damaged signature accepted");
    let mut bad = data.clone();
    let n = sym.len() + 1 + r.idx(dll.len() + 1); // no terminator of the DLL's name
    bad[12..16].copy_from_slice(&(n as u32).to_le_bytes());
    ensure!(ImportFile::parse(&bad[..]).is_err(), "truncated strings accepted");
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C08",
    rule: "a COFF or bigobj file with sections and symbols, or a short import, whose every reported field was compared with the generated model",
    parts: &[Part { name: "files", quick: 200_000, thorough: 1_500_000, run: files }, Part { name: "imports", quick: 100_000, thorough: 1_000_000, run: imports }],
    required: &[
        "files", "bigobj files", "sections", "symbols", "relocations", "relocations with a generic meaning", "relocation count overflows", "uninitialized sections", "base 64 section names",
        "decimal section names", "section symbols", "auxiliary functions", "auxiliary weak externals", "file names", "long symbol names", "comdat groups", "comdat groups of several sections",
        "more than 65534 relocations", "more than 65535 sections", "refused imports", "ordinal imports", "named imports", "names without a prefix", "undecorated names", "names exported as",
    ],
    tools: &[],
    assumptions: &["files of at most a few tens of kilobytes, apart from a few with more than 65535 sections or relocations", "the machine types which FileKind recognises", "section and relocation kinds are judged by the crate's documented unified model"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

//! C11: XCOFF objects decode to exactly what they encode.
use genf::w::{W, name};
use genf::xcoff::*;
use object::read::xcoff::{Rel as _, SectionHeader as _, Symbol as _, XcoffFile};
use object::read::*;
use object::{FileFlags, SectionFlags, SymbolFlags, xcoff};
use vcore::*;

fn dbg<T: std::fmt::Debug>(t: T) -> String {
    format!("{t:?}")
}

/// Meaning of a relocation in the unified model, by the XCOFF specification.
fn meaning(ty: u8) -> (&'static str, i64) {
    match ty {
        0x00 | 0x0c | 0x0d | 0x08 | 0x18 | 0x20 => ("Absolute", 0),
        0x02 | 0x0a | 0x1a => ("Relative", -4),
        0x03 | 0x30 | 0x31 => ("Got", 0),
        _ => ("Unknown", 0),
    }
}
const RTYPES: &[u8] = &[0, 1, 2, 3, 5, 6, 8, 0xa, 0xc, 0xd, 0xf, 0x12, 0x13, 0x18, 0x1a, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x30, 0x31];

fn sec_kind(flags: u32) -> &'static str {
    match flags as u16 {
        0x20 => "Text",
        0x40 => "Data",
        0x400 => "Tls",
        0x80 => "UninitializedData",
        0x800 => "UninitializedTls",
        0x2000 | 0x10 => "Debug",
        0x1000 | 0x8000 => "Metadata",
        0x8 | 0x100 | 0x200 | 0x4000 => "Other",
        _ => "Unknown",
    }
}

/// What the generator knows about a symbol beyond its record.
#[derive(Clone, Debug, Default)]
struct Info {
    name: Vec<u8>,
    /// Length (or index of the containing csect), alignment and type, class.
    csect: Option<(u64, u8, u8)>,
    hash: (u32, u16),
    stab: (u32, u16),
    fun: Option<(u64, u32, u32)>,
    exp: Option<(u64, u32, u32)>,
    file: bool,
    dwarf: Option<(u64, u64)>,
    stat: Option<(u32, u16, u16)>,
    block: Option<u32>,
}

fn aux(w: W) -> [u8; 18] {
    let mut b = w.b;
    b.resize(18, 0);
    b.try_into().unwrap()
}

fn model(r: &mut Rng, is64: bool) -> (Xcoff, Vec<Info>) {
    let m = if is64 { u64::MAX } else { u64::from(u32::MAX) };
    let mut x = Xcoff { is64, stamp: r.u32(), ..Xcoff::default() };
    for f in [0x1, 0x2, 0x4, 0x10, 0x20, 0x40, 0x80, 0x1000, 0x2000, 0x4000, 0x8000] {
        if r.one_in(4) {
            x.flags |= f;
        }
    }
    let full = if is64 { 120 } else { 72 };
    let n = *r.pick(&[0, 0, full, full, full, 28, 0]);
    x.opt = r.bytes(n);
    if n == full {
        // The alignments in the auxiliary header, mostly sensible.
        for at in if is64 { [44, 46] } else { [44, 46] } {
            let v = if r.one_in(6) { r.edgy(16) as u16 } else { r.below(66) as u16 };
            x.opt[at..at + 2].copy_from_slice(&v.to_be_bytes());
        }
    }
    let k = if r.one_in(8) { 0 } else { r.idx(7) };
    for _ in 0..k {
        let ty = *r.pick(&[0u32, 8, 0x10, 0x10, 0x20, 0x20, 0x40, 0x40, 0x80, 0x80, 0x100, 0x200, 0x400, 0x400, 0x800, 0x1000, 0x2000, 0x4000]);
        let sub = if ty == 0x10 { r.range(1, 11) as u32 * 0x10000 } else if r.one_in(6) { r.u32() & 0xffff_0000 } else { 0 };
        let mut s = XSec { flags: ty | sub, vaddr: r.edgy(64) & m, paddr: r.edgy(64) & m, ..XSec::default() };
        s.name = match r.below(8) {
            0 => b".text".to_vec(),
            1 => b".debug".to_vec(),
            2 => b".dwinfo".to_vec(),
            3 => b".data".to_vec(),
            4 => {
                let mut v = r.bytes(8);
                v.iter_mut().for_each(|b| *b = (*b).max(1));
                v
            }
            _ => r.ident(8).into_bytes(),
        };
        if ty == 0x80 || ty == 0x800 {
            s.size = r.edgy(64) & m;
        } else {
            let n = r.idx(80);
            s.data = r.bytes(n);
            s.size = n as u64;
        }
        s.lines = (r.edgy(64) & m, r.u32() & if is64 { !0 } else { 0xfffe });
        x.secs.push(s);
    }
    // Symbols.
    let mut info = vec![];
    let mut nidx = 0u32;
    x.strtab = vec![0; 4];
    let count = if r.one_in(8) { 0 } else { r.idx(12) };
    for _ in 0..count {
        let mut s = XSym { value: r.edgy(64) & m, ty: r.u16(), ..XSym::default() };
        s.ty = if r.bool() { *r.pick(&[0, 0x1000, 0x2000, 0x3000, 0x4000, 0x20, 0x2020]) } else { s.ty };
        s.class = *r.pick(&[2, 2, 2, 111, 111, 107, 107, 103, 103, 3, 100, 101, 110, 112, 0, 108, 109, 128, 140, 255]);
        s.sect = match r.below(8) {
            0 => 0,
            1 => -1,
            2 => -2,
            3 => r.u16() as i16,
            _ if k > 0 => r.range(1, k as u64) as i16,
            _ => 0,
        };
        let mut i = Info { name: if r.one_in(8) { let n = r.idx(12); r.bytes(n).into_iter().map(|b| b.max(1)).collect() } else { name(r) }, ..Info::default() };
        s.name = i.name.clone();
        s.force_long = r.one_in(5);
        match s.class {
            103 if !r.one_in(5) => {
                // The name is in the first auxiliary entry.
                for j in 0..r.range(1, 3) {
                    let mut w = W::new(true, is64);
                    let f = if r.bool() { r.ident(8).into_bytes() } else { name(r) };
                    if f.len() <= 8 && !f.is_empty() {
                        w.fixed(&f, 8);
                    } else {
                        let mut st = genf::w::Strs { b: std::mem::take(&mut x.strtab) };
                        let off = st.add4(r, &f) as u32;
                        x.strtab = st.b;
                        w.u32(0).u32(off);
                    }
                    w.zeros(6).u8(*r.pick(&[0, 1, 2, 128])).zeros(2).u8(if is64 { 252 } else { 0 });
                    s.aux.push(aux(w));
                    if j == 0 {
                        i.name = f;
                        i.file = true;
                    }
                }
            }
            2 | 111 | 107 if !r.one_in(8) => {
                if r.one_in(3) {
                    let f = (r.edgy(64) & m, r.u32(), r.u32());
                    let mut w = W::new(true, is64);
                    if is64 {
                        if r.bool() {
                            w.u64(f.0).u32(f.1).u32(f.2).u8(0).u8(254); // function
                            i.fun = Some(f);
                        } else {
                            w.u64(f.0).u32(f.1).u32(f.2).u8(0).u8(255); // exception
                            i.exp = Some(f);
                        }
                    } else {
                        w.u32(f.0 as u32).u32(f.1).u32(7).u32(f.2);
                        i.fun = Some(f);
                    }
                    s.aux.push(aux(w));
                }
                let ty = r.below(5).min(3) as u8;
                let smtyp = if r.one_in(20) { r.u8() } else { ty | (r.below(32) as u8) << 3 };
                let class = if r.one_in(8) { r.u8() } else { *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 21, 22]) };
                let len = if smtyp & 7 == 2 { r.below(u64::from(nidx) + 1) } else { r.edgy(64) & m };
                i.csect = Some((len, smtyp, class));
                i.hash = (r.u32(), r.u16());
                i.stab = (r.u32(), r.u16());
                let mut w = W::new(true, is64);
                w.u32(len as u32).u32(i.hash.0).u16(i.hash.1).u8(smtyp).u8(class);
                if is64 {
                    w.u32((len >> 32) as u32).u8(0).u8(251);
                } else {
                    w.u32(i.stab.0).u16(i.stab.1);
                }
                s.aux.push(aux(w));
            }
            112 if r.bool() => {
                let d = (r.edgy(64) & m, r.edgy(64) & m);
                let mut w = W::new(true, is64);
                if is64 {
                    w.u64(d.0).u64(d.1).u8(0).u8(250);
                } else {
                    w.u32(d.0 as u32).u32(0).u32(d.1 as u32);
                }
                s.aux.push(aux(w));
                i.dwarf = Some(d);
            }
            3 if r.bool() && !is64 => {
                let d = (r.u32(), r.u16(), r.u16());
                let mut w = W::new(true, is64);
                w.u32(d.0).u16(d.1).u16(d.2);
                s.aux.push(aux(w));
                i.stat = Some(d);
            }
            100 | 101 if r.bool() => {
                let d = r.u32();
                let mut w = W::new(true, is64);
                if is64 {
                    w.u32(d).zeros(13).u8(253);
                } else {
                    w.u16(0).u16((d >> 16) as u16).u16(d as u16);
                }
                s.aux.push(aux(w));
                i.block = Some(d);
            }
            _ => {}
        }
        // Of debugging classes, names with an offset are kept in a section.
        if s.class >= 128 && !is64 {
            s.name.truncate(8);
            i.name = s.name.clone();
            s.force_long = false;
            if s.name.is_empty() {
                s.name = b"d".to_vec();
                i.name = s.name.clone();
            }
        }
        nidx += 1 + s.aux.len() as u32;
        x.syms.push(s);
        info.push(i);
    }
    x.no_symtab = x.syms.is_empty() && r.bool();
    for s in &mut x.secs {
        if s.flags & 0x80 != 0 && !r.one_in(6) || r.one_in(3) {
            continue;
        }
        let n = r.idx(6);
        for _ in 0..n {
            s.relocs.push(XReloc {
                addr: r.edgy(64) & m,
                sym: if nidx > 0 && !r.one_in(10) { r.below(nidx.into()) as u32 } else { r.u32() },
                size: if r.one_in(3) { r.u8() } else { *r.pick(&[0x1f, 0x3f, 0x0f, 0x19, 0x8f, 0x9f, 0x99]) },
                ty: if r.one_in(12) { r.u8() } else { *r.pick(RTYPES) },
            });
        }
    }
    // Overflow sections.
    if !is64 {
        for i in 0..x.secs.len() {
            if r.one_in(6) {
                x.secs[i].ovfl = true;
            }
        }
    }
    (x, info)
}

/// Adds the overflow sections.
fn overflow(x: &mut Xcoff) {
    for i in 0..x.secs.len() {
        if !x.is64 && (x.secs[i].ovfl || x.secs[i].relocs.len() >= 0xffff) {
            x.secs.push(XSec { name: b".ovrflo".to_vec(), flags: 0x8000, ovfl_for: i + 1, lines: (0, i as u32 + 1), ..XSec::default() });
        }
    }
}

fn check<'data, H: xcoff_hdr::Hdr>(f: &XcoffFile<'data, H>, x: &Xcoff, info: &[Info], o: &mut Obs) -> Res {
    same!(dbg(f.architecture()), if x.is64 { "PowerPc64" } else { "PowerPc" }, "architecture");
    same!((f.is_64(), f.is_little_endian(), f.endianness()), (x.is64, false, object::Endianness::Big), "class");
    let kind = if x.flags & 2 != 0 {
        "Executable"
    } else if x.flags & 0x2000 != 0 {
        "Dynamic"
    } else if x.flags & 1 == 0 {
        "Relocatable"
    } else {
        "Unknown"
    };
    same!(dbg(f.kind()), kind, "kind of flags {:#x}", x.flags);
    match f.flags() {
        FileFlags::Xcoff { f_flags } => same!(f_flags.0, x.flags, "flags"),
        x => return Err(format!("flags {x:?}")),
    }
    let h = f.xcoff_header();
    let nsyms = if x.no_symtab { 0 } else { x.nsyms };
    same!((h.f_magic(), h.f_nscns(), h.f_timdat()), (if x.is64 { 0x1f7 } else { 0x1df }, x.secs.len() as u16, x.stamp), "header");
    same!((Into::<u64>::into(h.f_symptr()), h.f_nsyms(), h.f_opthdr() as usize, h.f_flags().0), (x.symtab_at, nsyms as u32, x.opt.len(), x.flags), "header");
    let full = x.flags & 2 != 0 && x.opt.len() == if x.is64 { 120 } else { 72 };
    let be = |at: usize, n: usize| x.opt[at..at + n].iter().fold(0u64, |a, b| a << 8 | u64::from(*b));
    let entry = if !full { 0 } else if x.is64 { be(80, 8) } else { be(16, 4) };
    same!(f.entry(), entry, "entry");
    same!(f.xcoff_aux_header().is_some(), full, "auxiliary header");
    if let Some(a) = f.xcoff_aux_header() {
        H::check_aux(a, &be)?;
        o.hit("auxiliary headers");
    }
    same!((f.relative_address_base(), f.segments().count(), f.comdats().count(), f.dynamic_symbols().count()), (0, 0, 0, 0), "absent things");
    ensure!(f.dynamic_symbol_table().is_none() && f.dynamic_relocations().is_none(), "absent tables");
    same!(f.has_debug_symbols(), x.secs.iter().any(|s| s.name == b".debug" || s.name == b".dwinfo"), "has_debug_symbols");
    // Sections.
    let secs: Vec<_> = f.sections().collect();
    same!(secs.len(), x.secs.len(), "sections");
    same!(f.xcoff_section_table().len(), x.secs.len(), "section table");
    for (i, (s, w)) in secs.iter().zip(&x.secs).enumerate() {
        let at = format!("section {} flags {:#x}", i + 1, w.flags);
        same!(s.index().0, i + 1, "{at} index");
        same!(okay!(s.name_bytes()), &w.name[..], "{at} name");
        same!(s.name().ok(), std::str::from_utf8(&w.name).ok(), "{at} name");
        same!((s.address(), s.size()), (w.paddr, w.size), "{at} address, size");
        same!(dbg(s.kind()), sec_kind(w.flags), "{at} kind");
        match s.flags() {
            SectionFlags::Xcoff { s_flags } => same!((s_flags.0, s_flags.typ().0, s_flags.subtype().0), (w.flags, w.flags as u16, w.flags & 0xffff_0000), "{at} flags"),
            x => return Err(format!("{at} flags {x:?}")),
        }
        let h = s.xcoff_section();
        let raw: [u64; 6] = [h.s_paddr().into(), h.s_vaddr().into(), h.s_size().into(), h.s_scnptr().into(), h.s_relptr().into(), h.s_lnnoptr().into()];
        same!(raw, [w.paddr, w.vaddr, w.size, w.data_at, w.reloc_at, w.lines.0], "{at} header");
        same!((Into::<u32>::into(h.s_nreloc()), Into::<u32>::into(h.s_nlnno())), (w.nreloc, w.lines.1), "{at} counts");
        let align = match (full, w.flags as u16) {
            (true, 0x20) => be(44, 2),
            (true, 0x40) => be(46, 2),
            _ => 2,
        };
        same!(s.align(), if align < 64 { 1 << align } else { 0 }, "{at} align");
        let nobits = w.flags & 0x880 != 0;
        same!(s.file_range(), if nobits { None } else { Some((w.data_at, w.size)) }, "{at} file_range");
        let data = okay!(s.data(), "{at} data");
        same!(data, &w.data[..], "{at} data");
        let cr = okay!(s.compressed_file_range());
        same!((cr.format, cr.uncompressed_size), (CompressionFormat::None, if nobits { 0 } else { w.size }), "{at} compressed range");
        same!(&*okay!(s.uncompressed_data()), &w.data[..], "{at} uncompressed");
        if let Some(end) = w.paddr.checked_add(w.data.len() as u64) {
            same!(okay!(s.data_range(w.paddr, w.data.len() as u64)), Some(data), "{at} data_range all");
            same!(okay!(s.data_range(w.paddr, w.data.len() as u64 + 1)), None, "{at} data_range past the end");
            if !w.data.is_empty() {
                same!(okay!(s.data_range(end - 1, 1)), Some(&data[data.len() - 1..]), "{at} data_range last");
                same!(okay!(s.data_range(w.paddr.wrapping_sub(1), 1)).is_some(), false, "{at} data_range before");
            }
        }
        ensure!(okay!(s.segment_name()).is_none(), "{at} segment name");
        // Relocations.  (An overflow section has none itself.)
        if w.ovfl_for == 0 {
            let raw = okay!(s.xcoff_relocations(), "{at} relocations");
            same!(raw.len(), w.relocs.len(), "{at} raw relocations");
            let got: Vec<_> = s.relocations().collect();
            same!(got.len(), w.relocs.len(), "{at} relocations");
            for (j, ((ga, gr), (g, w))) in got.iter().zip(raw.iter().zip(&w.relocs)).enumerate() {
                let at = format!("{at} relocation {j} type {:#x}", w.ty);
                same!((g.r_vaddr().into(), g.r_symndx(), g.r_rsize(), g.r_rtype().0), (w.addr, w.sym, w.size, w.ty), "{at} raw");
                same!(*ga, w.addr.wrapping_sub(s.xcoff_section().s_vaddr().into()), "{at} offset");
                let (k, a) = meaning(w.ty);
                same!((dbg(gr.kind()), dbg(gr.encoding()), gr.size(), gr.addend()), (k.into(), "Generic".into(), (w.size & 0x3f) + 1, a), "{at} meaning");
                same!(gr.target(), RelocationTarget::Symbol(SymbolIndex(w.sym as usize)), "{at} target");
                ensure!(gr.has_implicit_addend(), "{at} implicit");
                match gr.flags() {
                    object::RelocationFlags::Xcoff { r_rtype, r_rsize } => same!((r_rtype.0, r_rsize), (w.ty, w.size), "{at} flags"),
                    x => return Err(format!("{at} flags {x:?}")),
                }
                o.hit("relocations");
            }
        }
        if w.ovfl {
            o.hit("relocation counts in an overflow section");
        }
        if nobits {
            o.hit("uninitialized sections");
        }
        o.hit("sections");
    }
    ensure!(f.section_by_index(SectionIndex(0)).is_err() && f.section_by_index(SectionIndex(x.secs.len() + 1)).is_err(), "section_by_index out of range");
    for s in &x.secs {
        let first = x.secs.iter().position(|x| x.name == s.name).unwrap();
        same!(f.section_by_name_bytes(&s.name).map(|s| s.index().0), Some(first + 1), "section_by_name_bytes");
        same!(okay!(f.section_by_index(SectionIndex(first + 1))).index().0, first + 1, "section_by_index");
    }
    ensure!(f.section_by_name("no such").is_none(), "section_by_name of nothing");
    // Symbols.
    let t = f.xcoff_symbol_table();
    same!(t.len(), nsyms, "symbol table length");
    same!(f.symbol_table().is_some(), nsyms > 0, "symbol_table");
    let want: Vec<_> = x.syms.iter().zip(info).filter(|(s, _)| s.class != 0).collect();
    let got: Vec<_> = f.symbols().collect();
    let via: Vec<usize> = f.symbol_table().map_or(vec![], |t| t.symbols().map(|s| s.index().0).collect());
    same!(via, want.iter().map(|w| w.0.index).collect::<Vec<_>>(), "symbol_table symbols");
    same!(got.len(), want.len(), "symbols");
    for w in &x.syms {
        same!(f.symbol_by_index(SymbolIndex(w.index)).is_ok(), w.class != 0, "symbol {} of class {}", w.index, w.class);
        if w.class == 0 {
            o.hit("null symbols");
        }
    }
    ensure!(f.symbol_by_index(SymbolIndex(nsyms)).is_err(), "symbol past the end");
    for ((g, (w, i)), (ri, raw)) in got.iter().zip(&want).zip(t.iter()) {
        let at = format!("symbol {} class {} section {} type {:#x}", w.index, w.class, w.sect, w.ty);
        same!((g.index().0, ri.0), (w.index, w.index), "{at} index");
        same!(okay!(g.name_bytes(), "{at} name"), &i.name[..], "{at} name");
        same!(g.name().ok(), std::str::from_utf8(&i.name).ok(), "{at} name");
        same!(okay!(raw.name(t.strings()), "{at} raw name"), &w.name[..], "{at} raw name");
        same!(raw.name_offset(), w.name_off, "{at} name_offset");
        same!((raw.n_value().into(), raw.n_scnum().0, raw.n_type().0, raw.n_sclass().0, raw.n_numaux() as usize), (w.value, w.sect, w.ty, w.class, w.aux.len()), "{at} record");
        same!(raw.section().map(|s| s.0), (w.sect > 0).then_some(w.sect as usize), "{at} raw section");
        same!((raw.n_type().visibility().0, raw.n_type().is_function()), (w.ty & 0xf000, w.ty & 0x20 != 0), "{at} type");
        let addr = if matches!(w.class, 2 | 111 | 107 | 101 | 100 | 3 | 110) { w.value } else { 0 };
        same!(g.address(), addr, "{at} address");
        let ext = matches!(w.class, 2 | 111);
        let (len, smtyp, smclas) = i.csect.unwrap_or((0, 0, 0));
        let xty = i.csect.map(|c| c.1 & 7);
        same!(g.size(), if matches!(xty, Some(1 | 3)) { len } else { 0 }, "{at} size");
        let kind = match xty {
            Some(1 | 3) => match smclas {
                0 | 6 => "Text",
                1 | 5 | 16 | 9 | 10 | 15 | 3 => "Data",
                20 | 21 => "Tls",
                _ => "Unknown",
            },
            Some(2) => "Text",
            _ if w.class == 103 => "File",
            _ => "Unknown",
        };
        same!(dbg(g.kind()), kind, "{at} kind");
        let section = match w.sect {
            0 => SymbolSection::Undefined,
            -1 => SymbolSection::Absolute,
            -2 => SymbolSection::None,
            n if n > 0 => SymbolSection::Section(SectionIndex(n as usize)),
            _ => SymbolSection::Unknown,
        };
        same!(g.section(), section, "{at} section");
        same!(g.section_index().map(|i| i.0), (w.sect > 0).then_some(w.sect as usize), "{at} section_index");
        same!(g.is_undefined(), ext && w.sect == 0, "{at} undefined");
        same!(g.is_definition(), w.sect > 0 && matches!(xty, Some(1..=3)), "{at} definition");
        same!(g.is_common(), xty == Some(3), "{at} common");
        same!((g.is_weak(), g.is_global(), g.is_local()), (w.class == 111, ext, !ext), "{at} weak, global, local");
        let scope = if w.sect == 0 {
            SymbolScope::Unknown
        } else if !ext {
            SymbolScope::Compilation
        } else if w.ty & 0xf000 == 0x2000 {
            SymbolScope::Linkage
        } else {
            SymbolScope::Dynamic
        };
        same!(g.scope(), scope, "{at} scope");
        match g.flags() {
            SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, containing_csect } => {
                same!((n_type.0, n_sclass.0, x_smtyp.0, x_smclas.0), (w.ty, w.class, smtyp, smclas), "{at} flags");
                // There are no more than 2^32 symbols.
                let csect = (xty == Some(2) && len <= u32::MAX as u64).then_some(len);
                same!(containing_csect.map(|i| i.0 as u64), csect, "{at} containing csect");
                same!((x_smtyp.typ().0, x_smtyp.alignment()), (smtyp & 7, smtyp >> 3), "{at} csect type and alignment");
            }
            x => return Err(format!("{at} flags {x:?}")),
        }
        same!((raw.has_aux_file(), raw.has_aux_csect()), (w.class == 103 && !w.aux.is_empty(), i.csect.is_some()), "{at} auxiliary kinds");
        H::check_sym_aux(t, w, i)?;
        let by = okay!(f.symbol_by_index(g.index()), "{at}");
        same!((by.index(), by.address(), by.size(), by.kind()), (g.index(), g.address(), g.size(), g.kind()), "{at} by index");
        for (b, n) in [
            (i.csect.is_some(), "csects"),
            (xty == Some(2), "labels in a csect"),
            (xty == Some(3), "commons"),
            (w.name_off == Some(0), "empty names"),
            (i.file, "file names"),
            (i.fun.is_some(), "function entries"),
            (i.exp.is_some(), "exception entries"),
            (i.dwarf.is_some(), "DWARF entries"),
            (i.stat.is_some(), "section entries"),
            (i.block.is_some(), "block entries"),
            (w.name_off.is_some(), "names in the string table"),
            (w.name_off.is_none(), "inline names"),
            (true, "symbols"),
        ] {
            if b {
                o.hit(n);
            }
        }
    }
    Ok(())
}

mod xcoff_hdr {
    use super::*;
    use object::read::xcoff::{AuxHeader as _, CsectAux as _, FileAux as _, FileHeader, SymbolTable};
    use object::BigEndian as BE;
    type Be<'a> = &'a dyn Fn(usize, usize) -> u64;
    pub trait Hdr: FileHeader {
        fn check_aux(a: &Self::AuxHeader, be: Be<'_>) -> Res;
        fn check_sym_aux<'d>(t: &SymbolTable<'d, Self, &'d [u8]>, w: &XSym, i: &Info) -> Res
        where
            Self: Sized;
    }
    fn common<'d, H: FileHeader>(t: &SymbolTable<'d, H, &'d [u8]>, w: &XSym, i: &Info) -> Res {
        if let Some((len, smtyp, smclas)) = i.csect {
            let a = okay!(t.aux_csect(SymbolIndex(w.index), w.aux.len()), "csect entry");
            same!((a.x_scnlen(), a.x_smtyp().0, a.x_smclas().0, a.alignment(), a.sym_type().0), (len, smtyp, smclas, smtyp >> 3, smtyp & 7), "csect entry");
            same!((a.x_parmhash(), a.x_snhash()), i.hash, "csect hash");
        }
        if i.file {
            let a = okay!(t.aux_file(SymbolIndex(w.index), 1), "file entry");
            same!((okay!(a.fname(t.strings())), a.x_ftype().0), (&i.name[..], w.aux[0][14]), "file entry");
        }
        Ok(())
    }
    impl Hdr for xcoff::FileHeader32 {
        fn check_aux(a: &xcoff::AuxHeader32, be: Be<'_>) -> Res {
            let got: [u64; 18] = [
                a.o_mflag().into(), a.o_vstamp().into(), a.o_tsize().into(), a.o_dsize().into(), a.o_bsize().into(), a.o_entry().into(), a.o_text_start().into(), a.o_data_start().into(), a.o_toc().into(),
                a.o_snentry().into(), a.o_sntext().into(), a.o_sndata().into(), a.o_sntoc().into(), a.o_snloader().into(), a.o_snbss().into(), a.o_algntext().into(), a.o_algndata().into(), a.o_modtype().into(),
            ];
            let want: [u64; 18] = std::array::from_fn(|i| if i < 2 { be(2 * i, 2) } else if i < 9 { be(4 + 4 * (i - 2), 4) } else { be(32 + 2 * (i - 9), 2) });
            same!(got, want, "auxiliary header");
            same!((a.o_cpuflag().into(), a.o_cputype().into(), a.o_maxstack().into(), a.o_maxdata().into(), a.o_debugger().into()), (be(50, 1), be(51, 1), be(52, 4), be(56, 4), be(60, 4)), "auxiliary header");
            same!((a.o_textpsize().into(), a.o_datapsize().into(), a.o_stackpsize().into(), a.o_flags() as u64), (be(64, 1), be(65, 1), be(66, 1), be(67, 1)), "auxiliary header");
            same!((a.o_sntdata().into(), a.o_sntbss().into()), (be(68, 2), be(70, 2)), "auxiliary header");
            Ok(())
        }
        fn check_sym_aux<'d>(t: &SymbolTable<'d, Self, &'d [u8]>, w: &XSym, i: &Info) -> Res {
            common(t, w, i)?;
            let n = SymbolIndex(w.index);
            if i.csect.is_some() {
                let a = okay!(t.aux_csect(n, w.aux.len()));
                same!((a.x_stab(), a.x_snstab()), (Some(i.stab.0), Some(i.stab.1)), "stab");
            }
            if let Some(f) = i.fun {
                let a = okay!(t.get::<xcoff::FunAux32>(n, 1));
                same!((a.x_exptr.get(BE).into(), a.x_fsize.get(BE), a.x_lnnoptr.get(BE), a.x_endndx.get(BE)), (f.0, f.1, 7, f.2), "function entry");
            }
            if let Some(f) = i.dwarf {
                let a = okay!(t.get::<xcoff::DwarfAux32>(n, 1));
                same!((a.x_scnlen.get(BE).into(), a.x_nreloc.get(BE).into()), f, "DWARF entry");
            }
            if let Some(f) = i.stat {
                let a = okay!(t.get::<xcoff::StatAux>(n, 1));
                same!((a.x_scnlen.get(BE), a.x_nreloc.get(BE), a.x_nlinno.get(BE)), f, "section entry");
            }
            if let Some(f) = i.block {
                let a = okay!(t.get::<xcoff::BlockAux32>(n, 1));
                same!((a.x_lnnohi.get(BE), a.x_lnnolo.get(BE)), ((f >> 16) as u16, f as u16), "block entry");
            }
            Ok(())
        }
    }
    impl Hdr for xcoff::FileHeader64 {
        fn check_aux(a: &xcoff::AuxHeader64, be: Be<'_>) -> Res {
            let got: [u64; 14] = [
                a.o_mflag().into(), a.o_vstamp().into(), a.o_text_start().into(), a.o_data_start().into(), a.o_toc().into(), a.o_snentry().into(), a.o_sntext().into(), a.o_sndata().into(), a.o_sntoc().into(),
                a.o_snloader().into(), a.o_snbss().into(), a.o_algntext().into(), a.o_algndata().into(), a.o_modtype().into(),
            ];
            let want: [u64; 14] = std::array::from_fn(|i| if i < 2 { be(2 * i, 2) } else if i < 5 { be(8 + 8 * (i - 2), 8) } else { be(32 + 2 * (i - 5), 2) });
            same!(got, want, "auxiliary header");
            same!((a.o_cpuflag().into(), a.o_cputype().into(), a.o_debugger().into()), (be(50, 1), be(51, 1), be(4, 4)), "auxiliary header");
            same!((a.o_textpsize().into(), a.o_datapsize().into(), a.o_stackpsize().into(), a.o_flags() as u64), (be(52, 1), be(53, 1), be(54, 1), be(55, 1)), "auxiliary header");
            same!((a.o_tsize().into(), a.o_dsize().into(), a.o_bsize().into(), a.o_entry().into(), a.o_maxstack().into(), a.o_maxdata().into()), (be(56, 8), be(64, 8), be(72, 8), be(80, 8), be(88, 8), be(96, 8)), "auxiliary header");
            same!((a.o_sntdata().into(), a.o_sntbss().into(), a.o_x64flags().map(u64::from)), (be(104, 2), be(106, 2), Some(be(108, 2))), "auxiliary header");
            Ok(())
        }
        fn check_sym_aux<'d>(t: &SymbolTable<'d, Self, &'d [u8]>, w: &XSym, i: &Info) -> Res {
            common(t, w, i)?;
            let n = SymbolIndex(w.index);
            if i.csect.is_some() {
                let a = okay!(t.aux_csect(n, w.aux.len()));
                same!((a.x_stab(), a.x_snstab()), (None, None), "stab");
                // Other entries are not accepted in its place.
                if w.aux.len() > 1 {
                    ensure!(t.aux_csect(n, 1).is_err(), "a function entry taken for a csect entry");
                }
            }
            if let Some(f) = i.fun {
                let a = okay!(t.get::<xcoff::FunAux64>(n, 1));
                same!((a.x_lnnoptr.get(BE), a.x_fsize.get(BE), a.x_endndx.get(BE)), f, "function entry");
            }
            if let Some(f) = i.exp {
                let a = okay!(t.get::<xcoff::ExpAux>(n, 1));
                same!((a.x_exptr.get(BE), a.x_fsize.get(BE), a.x_endndx.get(BE)), f, "exception entry");
            }
            if let Some(f) = i.dwarf {
                let a = okay!(t.get::<xcoff::DwarfAux64>(n, 1));
                same!((a.x_scnlen.get(BE), a.x_nreloc.get(BE)), f, "DWARF entry");
            }
            if let Some(f) = i.block {
                let a = okay!(t.get::<xcoff::BlockAux64>(n, 1));
                same!(a.x_lnno.get(BE), f, "block entry");
            }
            Ok(())
        }
    }
}

fn files(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let is64 = case % 2 == 1;
    let (mut x, info) = model(r, is64);
    if case < 8 || thorough() && r.one_in(4000) {
        let n = 0xfffe + r.idx(4);
        x.secs.push(XSec { name: b".many".to_vec(), flags: 0x40, relocs: (0..n).map(|i| XReloc { addr: i as u64, sym: 0, size: 31, ty: 0 }).collect(), ..XSec::default() });
        o.hit("more than 65533 relocations");
    }
    overflow(&mut x);
    let data = x.build(r);
    o.input("xcoff", &data);
    o.hit("files");
    same!(okay!(FileKind::parse(&data[..]), "file kind"), if is64 { FileKind::Xcoff64 } else { FileKind::Xcoff32 }, "file kind");
    let f = okay!(object::File::parse(&data[..]), "generic file");
    same!((f.format(), f.sections().count()), (BinaryFormat::Xcoff, x.secs.len()), "generic");
    if is64 {
        check(&okay!(XcoffFile::<xcoff::FileHeader64>::parse(&data[..]), "xcoff64"), &x, &info, o)?;
        o.hit("64-bit files");
    } else {
        check(&okay!(XcoffFile::<xcoff::FileHeader32>::parse(&data[..]), "xcoff32"), &x, &info, o)?;
        o.hit("32-bit files");
    }
    if !x.secs.is_empty() && !x.syms.is_empty() {
        o.nontrivial(hash(&data));
    }
    o.sample(|| format!("64-bit {is64} flags {:#x} {} sections {} symbols {} bytes", x.flags, x.secs.len(), x.syms.len(), data.len()));
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C11",
    rule: "an XCOFF file with sections and symbols whose every reported field was compared with the generated model",
    parts: &[Part { name: "files", quick: 200_000, thorough: 2_000_000, run: files }],
    required: &[
        "files", "32-bit files", "64-bit files", "auxiliary headers", "sections", "uninitialized sections", "relocations", "relocation counts in an overflow section", "more than 65533 relocations", "symbols",
        "null symbols", "csects", "labels in a csect", "commons", "file names", "function entries", "exception entries", "DWARF entries", "section entries", "block entries", "names in the string table", "inline names", "empty names",
    ],
    tools: &[],
    assumptions: &[
        "symbols of debugging classes in 32-bit files have inline names (long ones are kept in .debug, which the crate does not read)",
        "section, symbol and relocation kinds are judged by the crate's documented unified model",
        "the loader section is not decoded by the crate",
    ],
    level: "exploration",
};
#[allow(dead_code)]
fn main() {
    vcore::main(&SPEC)
}

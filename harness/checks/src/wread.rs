//! Compares a file written by `write::Object` with the description it was
//! given, through the strict parsers.
use crate::wobj::{At, MSec, MSym, Model, elf_machine};
use genf::strict::{coff, elf, macho, xcoff};
use object::{Architecture as A, ComdatKind, FileFlags, SectionFlags, SectionKind as SK, SubArchitecture, SymbolFlags, SymbolKind as YK, SymbolScope as SC};
use std::collections::HashMap;
use vcore::{Res, same, some};

/// Where the parts of the model are in the file.
#[derive(Default, Debug)]
pub struct Maps {
    /// Model section to section number of the file (ELF header index, otherwise from 1).
    pub sec: Vec<u32>,
    /// Model symbol to symbol table index, if it has one.
    pub sym: Vec<Option<u32>>,
}

type Out<T> = std::result::Result<T, String>;

fn show(n: &[u8]) -> String {
    String::from_utf8_lossy(n).into_owned()
}

/// Pairs the model's sections with those of the file: by name, in order among equals.
fn pair<'a>(m: &Model, have: impl Iterator<Item = (u32, Vec<u8>, Vec<u8>)> + 'a, o: &mut Maps) -> Out<usize> {
    let mut by: HashMap<(Vec<u8>, Vec<u8>), Vec<u32>> = HashMap::new();
    let mut n = 0;
    for (i, seg, name) in have {
        by.entry((seg, name)).or_default().push(i);
        n += 1;
    }
    for s in &m.secs {
        let v = by.get_mut(&(s.seg.clone(), s.name.clone())).filter(|v| !v.is_empty());
        let v = some!(v, "section {} is missing", show(&s.name));
        o.sec.push(v.remove(0));
    }
    Ok(n)
}

/// Section data, apart from places that hold implicit addends.
fn content(m: &Model, i: usize, s: &MSec, got: &[u8], implicit: bool) -> Res {
    same!(got.len(), s.data.len(), "size of the data of {}", show(&s.name));
    let mut g = got.to_vec();
    let mut w = s.data.clone();
    if implicit {
        for x in m.rels.iter().filter(|x| x.sec == i) {
            for k in x.offset as usize..(x.offset as usize).saturating_add(8).min(g.len()) {
                g[k] = 0;
                w[k] = 0;
            }
        }
    }
    same!(g, w, "data of {}", show(&s.name));
    Ok(())
}

pub fn elf(m: &Model, b: &[u8]) -> Out<Maps> {
    let f = elf::parse(b)?;
    let mut o = Maps::default();
    same!((f.rd.is64, f.rd.be), (m.is64(), m.be()), "class and byte order");
    let (abi, ver, mut fl) = if let FileFlags::Elf { os_abi, abi_version, e_flags } = m.flags { (os_abi.0, abi_version, e_flags.0) } else { (0, 0, 0) };
    if m.arch == A::Mips64_N32 {
        fl |= 0x20;
    }
    if m.arch == A::Ia64 {
        fl |= 0x10;
    }
    same!((f.eh.osabi, f.eh.abiversion, f.eh.flags), (abi, ver, fl), "ABI and flags");
    same!((f.eh.e_type, f.eh.machine, f.eh.entry, f.eh.phnum), (1, elf_machine(m.arch), 0, 0), "type, machine, entry, program headers");
    let special = |i: usize| {
        let s = &f.sh[i];
        matches!(s.ty, 0 | 2 | 4 | 9 | 17 | 18) || (s.ty == 3 && (s.name == b".strtab" || s.name == b".shstrtab"))
    };
    let n = pair(m, (1..f.sh.len()).filter(|&i| !special(i)).map(|i| (i as u32, vec![], f.sh[i].name.clone())), &mut o)?;
    same!(n, m.secs.len(), "number of sections");
    let rela = f.sh.iter().any(|s| s.ty == 4);
    for (i, s) in m.secs.iter().enumerate() {
        let h = &f.sh[o.sec[i] as usize];
        let (mut ty, mut fl) = match s.kind {
            SK::UninitializedData => (8, 3),
            SK::UninitializedTls => (8, 0x403),
            SK::Text => (1, 6),
            SK::Data | SK::ReadOnlyDataWithRel => (1, 3),
            SK::Tls => (1, 0x403),
            SK::ReadOnlyData => (1, 2),
            SK::ReadOnlyString => (1, 0x32),
            SK::OtherString | SK::DebugString => (1, 0x30),
            SK::Note => (7, 0),
            _ => (1, 0),
        };
        if let SectionFlags::Elf { sh_type, sh_flags } = s.flags {
            (ty, fl) = (sh_type.0, sh_flags.0);
        }
        if s.comdat.is_some() {
            fl |= 0x200;
        }
        let ent = if matches!(s.kind, SK::ReadOnlyString | SK::OtherString) { 1 } else { 0 };
        same!((h.ty, h.flags), (ty, fl), "type and flags of {} ({:?})", show(&s.name), s.kind);
        same!((h.addr, h.size, h.align, h.entsize), (0, s.size, s.align, ent), "address, size, alignment, entry size of {}", show(&s.name));
        same!((h.link, h.info), (0, 0), "link and info of {}", show(&s.name));
        if !s.bss {
            content(m, i, s, f.data(o.sec[i] as usize)?, !rela)?;
        }
    }
    let t = some!(f.find(2), "symbol table");
    let syms = f.syms(t)?;
    same!(syms.len(), m.syms.len() + 1, "number of symbols");
    let find = find(syms.iter().enumerate().skip(1).filter(|(_, s)| s.ty() != 3).map(|(k, s)| (k as u32, s.name.clone())))?;
    for y in &m.syms {
        if y.kind == YK::Section {
            let At::Sec(i) = y.at else { unreachable!() };
            let k = some!(syms.iter().position(|s| s.ty() == 3 && s.sec == Some(o.sec[i])), "symbol of section {}", show(&m.secs[i].name));
            let s = &syms[k];
            let other = if let SymbolFlags::Elf { st_other, .. } = y.flags { st_other.0 } else { 0 };
            same!((s.name.len(), s.bind(), s.other, s.value, s.size), (0, 0, other, 0, 0), "symbol of section {}", show(&m.secs[i].name));
            o.sym.push(Some(k as u32));
            continue;
        }
        let k = *some!(find.get(&y.name), "symbol {} is missing", show(&y.name));
        let s = &syms[k as usize];
        let ty = match (y.kind, y.at) {
            (YK::File, _) => 4,
            (YK::Tls, _) => 6,
            (_, At::Undef) => 0,
            (YK::Data, At::Common) => 5,
            (YK::Text, _) => 2,
            (YK::Data, _) => 1,
            _ => 0,
        };
        let bind = match () {
            _ if y.weak => 2,
            _ if y.at == At::Undef => 1,
            _ if y.scope == SC::Compilation => 0,
            _ => 1,
        };
        let (info, other) = match y.flags {
            SymbolFlags::Elf { st_info, st_other } => (st_info.0, st_other.0),
            _ => (bind << 4 | ty, if y.scope == SC::Linkage { 2 } else { 0 }),
        };
        same!((s.info, s.other), (info, other), "st_info and st_other of {:?}", y);
        same!((s.value, s.size), (y.value, y.size), "value and size of {}", show(&y.name));
        let want = match y.at {
            At::None | At::Abs => (0xfff1, None),
            At::Undef => (0, None),
            At::Common => (0xfff2, None),
            At::Sec(i) => (s.shndx, Some(o.sec[i])),
        };
        same!((s.shndx, s.sec), want, "section of {}", show(&y.name));
        o.sym.push(Some(k));
    }
    let groups: Vec<usize> = (0..f.sh.len()).filter(|&i| f.sh[i].ty == 17).collect();
    same!(groups.len(), m.comdats.len(), "number of groups");
    for (g, (_, sym, list)) in groups.iter().zip(&m.comdats) {
        let h = &f.sh[*g];
        let (flag, mut v) = f.group(*g)?;
        same!((flag, h.link, h.info), (1, t as u32, o.sym[*sym].unwrap()), "flag, table and symbol of a group");
        let mut w: Vec<u32> = list.iter().map(|&i| o.sec[i]).collect();
        v.sort();
        w.sort();
        same!(v, w, "members of a group");
    }
    Ok(o)
}

fn find(it: impl Iterator<Item = (u32, Vec<u8>)>) -> Out<HashMap<Vec<u8>, u32>> {
    let mut h = HashMap::new();
    for (k, n) in it {
        if let Some(_) = h.insert(n.clone(), k) {
            return Err(format!("two symbols called {}", show(&n)));
        }
    }
    Ok(h)
}

pub fn coff(m: &Model, b: &[u8]) -> Out<Maps> {
    let f = coff::parse(b)?;
    let mut o = Maps::default();
    let machine = match (m.arch, m.sub) {
        (A::I386, _) => 0x14c,
        (A::X86_64, _) => 0x8664,
        (A::Arm, _) => 0x1c4,
        (A::Aarch64, Some(SubArchitecture::Arm64EC)) => 0xa641,
        _ => 0xaa64,
    };
    let fl = if let FileFlags::Coff { characteristics } = m.flags { characteristics.0 } else { 0 };
    same!((f.machine, f.timestamp, f.flags), (machine, 0, fl), "machine, time and flags");
    let n = pair(m, f.secs.iter().enumerate().map(|(i, s)| (i as u32 + 1, vec![], s.name.clone())), &mut o)?;
    same!(n, m.secs.len(), "number of sections");
    for (i, s) in m.secs.iter().enumerate() {
        let h = &f.secs[o.sec[i] as usize - 1];
        let mut fl = match s.kind {
            SK::Text => 0x6000_0020u32,
            SK::Data => 0xc000_0040,
            SK::UninitializedData => 0xc000_0080,
            SK::ReadOnlyData | SK::ReadOnlyDataWithRel | SK::ReadOnlyString => 0x4000_0040,
            SK::Linker => 0xa00,
            _ => 0x4200_0040,
        };
        if let SectionFlags::Coff { characteristics } = s.flags {
            fl = characteristics.0 & !0x00f0_0000;
        }
        fl |= (s.align.trailing_zeros() + 1) << 20;
        if s.comdat.is_some() {
            fl |= 0x1000;
        }
        match m.rels.iter().filter(|x| x.sec == i).count() {
            // Either way is read the same.
            0xffff => fl |= h.flags & 0x0100_0000,
            n if n > 0xffff => fl |= 0x0100_0000,
            _ => {}
        }
        same!(h.flags, fl, "characteristics of {} ({:?})", show(&s.name), s.kind);
        same!((h.vsize, h.vaddr, h.size as u64), (0, 0, s.size), "virtual size, address and size of {}", show(&s.name));
        if !s.bss {
            let d = if h.size == 0 { &[][..] } else { &b[h.offset as usize..(h.offset + h.size) as usize] };
            content(m, i, s, d, true)?;
        }
    }
    let weak: Vec<&coff::Sym> = f.syms.iter().filter(|s| s.class == 105 && s.sec == 0).collect();
    let defaults: Vec<u32> = weak.iter().filter_map(|s| s.aux.first()).map(|a| u32::from_le_bytes([a[0], a[1], a[2], a[3]])).collect();
    let is_section = |s: &coff::Sym| s.class == 3 && s.aux.len() == 1;
    let names = find(f.syms.iter().filter(|s| !defaults.contains(&s.index) && !is_section(s) && s.class != 103).map(|s| (s.index, s.name.clone())))?;
    same!(f.syms.len(), m.syms.len() + m.syms.iter().filter(|y| y.weak).count(), "number of symbols and weak defaults");
    let files: Vec<&coff::Sym> = f.syms.iter().filter(|s| s.class == 103).collect();
    let file_name = |s: &coff::Sym| {
        let mut v = s.aux.concat();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    };
    for y in &m.syms {
        if y.kind == YK::Section {
            let At::Sec(i) = y.at else { unreachable!() };
            let s = some!(f.syms.iter().find(|s| is_section(s) && s.sec as u32 == o.sec[i]), "symbol of section {}", show(&m.secs[i].name));
            same!((&s.name, s.value, s.ty), (&m.secs[i].name, 0, 0), "symbol of section {}", show(&m.secs[i].name));
            o.sym.push(Some(s.index));
            continue;
        }
        if y.kind == YK::File {
            let s = some!(files.iter().find(|s| file_name(s) == y.name), "file symbol {}", show(&y.name));
            same!((&s.name[..], s.value, s.sec, s.ty), (&b".file"[..], 0, -2, 0), "file symbol {}", show(&y.name));
            same!(s.aux.len(), y.name.len().div_ceil(18).max(1), "records of the file name");
            o.sym.push(Some(s.index));
            continue;
        }
        let k = *some!(names.get(&y.name), "symbol {} is missing", show(&y.name));
        let s = f.sym_at(k).unwrap();
        o.sym.push(Some(k));
        let sec = match y.at {
            At::Undef | At::Common | At::None => 0,
            At::Abs => -1,
            At::Sec(i) => o.sec[i] as i32,
        };
        if y.weak {
            let ty = if y.kind == YK::Text { 0x20 } else { 0 };
            same!((s.class, s.sec, s.value, s.ty, s.aux.len()), (105, 0, 0, ty, 1), "weak {}", show(&y.name));
            let a = s.aux[0];
            let d = some!(f.sym_at(u32::from_le_bytes([a[0], a[1], a[2], a[3]])), "default of weak {}", show(&y.name));
            same!(u32::from_le_bytes([a[4], a[5], a[6], a[7]]), 3, "search of weak {}", show(&y.name));
            let want = match y.at {
                At::Sec(_) => (2, sec, y.value),
                _ => (2, -1, 0),
            };
            same!((d.class, d.sec, d.value as u64), want, "default of weak {}", show(&y.name));
            continue;
        }
        let value = if y.at == At::Common { y.size } else { y.value };
        let (ty, class) = match y.flags {
            SymbolFlags::Coff { typ, storage_class } => (typ.0, storage_class.0),
            _ => (
                if y.kind == YK::Text { 0x20 } else { 0 },
                match (y.kind, y.at) {
                    (YK::Label, _) => 6,
                    (_, At::Undef | At::Common) => 2,
                    _ if y.scope == SC::Compilation => 3,
                    _ => 2,
                },
            ),
        };
        same!((s.value as u64, s.sec, s.ty, s.class, s.aux.len()), (value, sec, ty, class, 0), "value, section, type, class of {:?}", y);
    }
    for (c, (kind, sym, list)) in m.comdats.iter().enumerate() {
        let At::Sec(lead) = m.syms[*sym].at else { unreachable!() };
        for &i in list {
            let s = some!(f.syms.iter().find(|s| is_section(s) && s.sec as u32 == o.sec[i]), "symbol of COMDAT section {}", show(&m.secs[i].name));
            let a = s.aux[0];
            let sel = match kind {
                _ if i != lead => 5,
                ComdatKind::NoDuplicates => 1,
                ComdatKind::Any => 2,
                ComdatKind::SameSize => 3,
                ComdatKind::ExactMatch => 4,
                ComdatKind::Largest => 6,
                _ => 7,
            };
            let num = u16::from_le_bytes([a[12], a[13]]) as u32 | (u16::from_le_bytes([a[16], a[17]]) as u32) << 16;
            same!((a[14], num), (sel, if i != lead { o.sec[lead] } else { num }), "selection of {} in COMDAT {c}", show(&m.secs[i].name));
        }
    }
    for (i, s) in m.secs.iter().enumerate() {
        if s.comdat.is_none() {
            if let Some(y) = f.syms.iter().find(|s| is_section(s) && s.sec as u32 == o.sec[i]) {
                same!((y.aux[0][12], y.aux[0][13], y.aux[0][14]), (0, 0, 0), "no COMDAT for {}", show(&s.name));
            }
        }
    }
    Ok(o)
}

pub fn macho(m: &Model, b: &[u8]) -> Out<Maps> {
    let f = macho::parse(b)?;
    let mut o = Maps::default();
    same!((f.is64, f.be), (m.is64(), m.be()), "class and byte order");
    let (ct, mut cs) = match m.arch {
        A::Arm => (12, 0),
        A::Aarch64 if m.sub.is_some() => (0x100_000c, 2),
        A::Aarch64 => (0x100_000c, 0),
        A::Aarch64_Ilp32 => (0x200_000c, 1),
        A::I386 => (7, 3),
        A::X86_64 => (0x100_0007, 3),
        A::PowerPc => (18, 0),
        _ => (0x100_0012, 0),
    };
    if let Some(s) = m.subtype {
        cs = s.0;
    }
    let mut fl = if let FileFlags::MachO { flags } = m.flags { flags.0 } else { 0 };
    if m.via_symbols {
        fl |= 0x2000;
    }
    same!((f.cputype, f.cpusubtype, f.filetype, f.flags), (ct, cs, 1, fl), "cpu, file type and flags");
    same!(f.segs.len(), 1, "segments");
    let bv: Vec<&Vec<u8>> = f.cmds.iter().filter(|c| c.0 == 0x32).map(|c| &c.1).collect();
    match m.build {
        None => same!(bv.len(), 0, "build versions"),
        Some(v) => {
            same!(bv.len(), 1, "build versions");
            let u = |k: usize| {
                let x: [u8; 4] = bv[0][k..k + 4].try_into().unwrap();
                if f.be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) }
            };
            same!((bv[0].len(), u(8), u(12), u(16), u(20)), (24, v.0, v.1, v.2, 0), "build version");
        }
    }
    let n = pair(m, f.secs.iter().enumerate().map(|(i, s)| (i as u32 + 1, s.seg.clone(), s.name.clone())), &mut o)?;
    same!(n, m.secs.len(), "number of sections");
    for (i, s) in m.secs.iter().enumerate() {
        let h = &f.secs[o.sec[i] as usize - 1];
        let (fl, r2) = if let SectionFlags::MachO { flags, reserved2 } = s.flags {
            (flags.0, reserved2)
        } else {
            let x = match s.kind {
                SK::Text => 0x8000_0400,
                SK::ReadOnlyString | SK::OtherString => 2,
                SK::UninitializedData => 1,
                SK::Tls => 0x11,
                SK::UninitializedTls => 0x12,
                SK::TlsVariables => 0x13,
                SK::Debug | SK::DebugString => 0x0200_0000,
                _ => 0,
            };
            (x, 0)
        };
        same!((h.flags, h.reserved), (fl, [0, r2, 0]), "flags of {} ({:?})", show(&s.name), s.kind);
        same!((h.size, 1u64.checked_shl(h.align)), (s.size, Some(s.align)), "size and alignment of {}", show(&s.name));
        if !s.bss {
            let d = &b[h.offset as usize..h.offset as usize + h.size as usize];
            content(m, i, s, d, true)?;
        }
    }
    let names = find(f.syms.iter().enumerate().map(|(k, s)| (k as u32, s.name.clone())))?;
    for y in &m.syms {
        let k = names.get(&y.name).copied();
        if y.kind == YK::File {
            // Mach-O has no symbols for files.
            same!(k, None, "file symbol");
            o.sym.push(None);
            continue;
        }
        if y.kind == YK::Section && k.is_none() {
            // Section symbols are only written when relocations need them.
            o.sym.push(None);
            continue;
        }
        let k = some!(k, "symbol {} is missing", show(&y.name));
        o.sym.push(Some(k));
        let s = &f.syms[k as usize];
        let (ty, desc) = match y.flags {
            SymbolFlags::MachO { n_type, n_desc } => (n_type.0, n_desc.0),
            _ => {
                let t = match y.at {
                    At::Undef | At::Common => 1,
                    At::Abs => 2,
                    _ => 0xe,
                } | match y.scope {
                    SC::Linkage => 0x11,
                    SC::Dynamic => 1,
                    _ => 0,
                };
                let d = match (y.weak, y.at) {
                    (true, At::Undef) => 0x40,
                    (true, _) => 0x80,
                    (_, At::Common) => (y.value.trailing_zeros() as u16) << 8,
                    _ => 0,
                };
                (t, d)
            }
        };
        same!((s.ty, s.desc), (ty, desc), "n_type and n_desc of {:?}", y);
        let (sect, value) = match y.at {
            At::Sec(i) => (o.sec[i], some!(f.secs[o.sec[i] as usize - 1].addr.checked_add(y.value), "the value of {} cannot be an address", show(&y.name))),
            At::Common => (0, y.size),
            _ => (0, y.value),
        };
        same!((s.sect as u32, s.value), (sect, value), "section and value of {}", show(&y.name));
    }
    let want = o.sym.iter().flatten().count();
    same!(f.syms.len(), want, "number of symbols");
    Ok(o)
}

pub fn xcoff(m: &Model, b: &[u8]) -> Out<Maps> {
    let f = xcoff::parse(b)?;
    let mut o = Maps::default();
    let fl = if let FileFlags::Xcoff { f_flags } = m.flags { f_flags.0 } else { 0 };
    same!((f.is64, f.flags, f.timestamp), (m.is64(), fl, 0), "width, flags and time");
    let n = pair(m, f.secs.iter().enumerate().map(|(i, s)| (i as u32 + 1, vec![], s.name.clone())), &mut o)?;
    same!(n, m.secs.len(), "number of sections");
    for (i, s) in m.secs.iter().enumerate() {
        let h = &f.secs[o.sec[i] as usize - 1];
        let fl = if let SectionFlags::Xcoff { s_flags } = s.flags {
            s_flags.0
        } else {
            match s.kind {
                SK::Text | SK::ReadOnlyData | SK::ReadOnlyString | SK::ReadOnlyDataWithRel => 0x20,
                SK::Data => 0x40,
                SK::UninitializedData => 0x80,
                SK::Tls => 0x400,
                SK::UninitializedTls => 0x800,
                SK::OtherString => 0x200,
                SK::Debug | SK::DebugString => 0x2000,
                _ => 0,
            }
        };
        same!((h.flags, h.size), (fl, s.size), "flags and size of {} ({:?})", show(&s.name), s.kind);
        same!(h.vaddr, h.paddr, "addresses of {}", show(&s.name));
        if !s.bss {
            let d = if h.size == 0 { &[][..] } else { &b[h.offset as usize..h.offset as usize + h.size as usize] };
            content(m, i, s, d, true)?;
        }
    }
    same!(f.syms.len(), m.syms.len(), "number of symbols");
    let names = find(f.syms.iter().filter(|s| s.class != 103).map(|s| (s.index, s.name.clone())))?;
    for y in &m.syms {
        if y.kind == YK::File {
            let s = some!(f.syms.iter().find(|s| s.class == 103 && s.file_name.as_ref() == Some(&y.name)), "file symbol {}", show(&y.name));
            same!((&s.name[..], s.value, s.sec), (&b".file"[..], 0, -2), "file symbol {}", show(&y.name));
            o.sym.push(Some(s.index));
            continue;
        }
        let k = *some!(names.get(&y.name), "symbol {} is missing", show(&y.name));
        o.sym.push(Some(k));
        let s = f.sym_at(k).unwrap();
        let (sec, value) = match y.at {
            At::Sec(i) => (o.sec[i] as i16, some!(f.secs[o.sec[i] as usize - 1].paddr.checked_add(y.value), "the value of {} cannot be an address", show(&y.name))),
            At::Abs => (-1, y.value),
            _ => (0, y.value),
        };
        same!((s.sec, s.value), (sec, value), "section and value of {}", show(&y.name));
        let (ty, class, csect) = match y.flags {
            SymbolFlags::Xcoff { n_type, n_sclass, x_smtyp, x_smclas, .. } => (n_type.0, n_sclass.0, Some((y.size, x_smtyp.0, x_smclas.0))),
            _ => {
                let c = xclass(m, y);
                if c == 3 {
                    (0, 3, None)
                } else {
                    let (t, k) = xtype(m, y);
                    (if y.scope == SC::Linkage { 0x2000 } else { 0 }, c, Some((y.size, t, k)))
                }
            }
        };
        same!((s.ty, s.class, s.csect), (ty, class, csect), "type, class, csect of {:?}", y);
    }
    Ok(o)
}

fn xclass(_m: &Model, y: &MSym) -> u8 {
    if y.scope == SC::Compilation {
        3
    } else if y.weak {
        111
    } else {
        2
    }
}

/// Symbol type and storage mapping class.
fn xtype(m: &Model, y: &MSym) -> (u8, u8) {
    let kind = if let At::Sec(i) = y.at { Some(m.secs[i].kind) } else { None };
    let (t, c) = match y.kind {
        YK::Text => (1, 0),
        YK::Tls => if kind == Some(SK::UninitializedTls) { (3, 21) } else { (1, 20) },
        _ => match kind {
            Some(SK::UninitializedData) => (3, 9),
            Some(SK::ReadOnlyData) => (1, 1),
            _ => (1, 5),
        },
    };
    (if y.at == At::Undef { 0 } else { t }, c)
}

pub fn any(m: &Model, b: &[u8]) -> Out<Maps> {
    match m.fmt {
        object::BinaryFormat::Elf => elf(m, b),
        object::BinaryFormat::Coff => coff(m, b),
        object::BinaryFormat::MachO => macho(m, b),
        _ => xcoff(m, b),
    }
}

//! What a format cannot represent is refused, never truncated.
use checks::wobj::{self, At, Model, Opts};
use checks::wread;
use genf::strict::{coff, elf, macho, xcoff};
use object::write::{Object, Relocation, SymbolSection, WritableBuffer};
use object::{Architecture as A, BinaryFormat as BF, RelocationFlags, SectionFlags, SectionKind as SK, SymbolKind as YK, SymbolScope as SC};
use vcore::{Obs, Part, Res, Rng, Spec, ensure, okay, same, short};

/// A buffer that refuses to hold much, so that a huge file is not built by accident.
struct Small {
    data: Vec<u8>,
    limit: u64,
    refused: bool,
}

impl WritableBuffer for Small {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        if size > self.limit {
            self.refused = true;
            return Err(());
        }
        self.data.reserve(size as usize);
        Ok(())
    }
    fn write_bytes(&mut self, val: &[u8]) {
        assert!(self.data.len() as u64 + val.len() as u64 <= self.limit, "more was written than reserved");
        self.data.extend_from_slice(val);
    }
}

/// Writes, or says why not.  None: the file would be too big to try.
fn emit(b: &Object<'static>, limit: u64) -> Result<Option<Vec<u8>>, String> {
    let mut s = Small { data: vec![], limit, refused: false };
    match b.emit(&mut s) {
        Ok(()) => Ok(Some(s.data)),
        Err(_) if s.refused => Ok(None),
        Err(e) => Err(e.to_string()),
    }
}

/// Whether a request can be represented.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fit {
    Yes,
    /// It depends on the layout, or the format is vague.
    Maybe,
    No,
}
use Fit::*;

fn fit(v: u64, bits: u32) -> Fit {
    if bits == 64 || v >> bits == 0 { Yes } else { No }
}

/// Values around the limit of a field.
fn around(r: &mut Rng, bits: u32) -> u64 {
    match r.below(7) {
        0 if bits < 64 => 1u64 << bits,
        1 if bits < 64 => (1u64 << bits) + r.below(100),
        2 if bits < 64 => (r.u64() | 1) << bits,
        3 => u64::MAX - r.below(3),
        4 => 1u64 << r.range(bits as u64 - 1, 63),
        5 => (u64::MAX >> (64 - bits)) - r.below(3),
        _ => r.u64() >> r.below(64 - bits as u64 + 2).min(63),
    }
}

/// Names of observations, of which there are few.
fn intern(s: String) -> &'static str {
    static M: std::sync::Mutex<std::collections::BTreeSet<&'static str>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
    let mut m = M.lock().unwrap();
    if let Some(x) = m.get(&s[..]) {
        return x;
    }
    let x: &'static str = Box::leak(s.into_boxed_str());
    m.insert(x);
    x
}

struct Rel {
    sec: usize,
    offset: u64,
    sym: usize,
    addend: i64,
    flags: RelocationFlags,
}

/// The relocation is in the file, as asked for.
fn has_rel(m: &Model, o: &wread::Maps, b: &[u8], x: &Rel) -> Res {
    let sec = o.sec[x.sec];
    let sym = vcore::some!(o.sym[x.sym], "the symbol of a relocation is missing");
    let n = m.rels.iter().filter(|y| y.sec == x.sec).count();
    match x.flags {
        RelocationFlags::Elf { r_type } => {
            let f = elf::parse(b)?;
            let t: Vec<usize> = (0..f.sh.len()).filter(|&i| matches!(f.sh[i].ty, 4 | 9) && f.sh[i].info == sec).collect();
            same!(t.len(), 1, "relocation sections");
            let v = f.rels(t[0])?;
            same!(v.len(), n, "number of relocations");
            let want = (x.offset, sym, r_type.0);
            let y = vcore::some!(v.iter().find(|y| (y.offset, y.sym, y.ty) == want), "relocation {want:x?} in {v:x?}");
            if f.sh[t[0]].ty == 4 {
                let a = y.addend.unwrap_or(0);
                ensure!(a == x.addend || (!m.is64() && a as i32 as i64 == x.addend as u32 as i32 as i64 && (-(1i64 << 31)..1 << 32).contains(&x.addend)), "addend {a:#x} of {:#x}", x.addend);
            } else {
                same!(x.addend, 0, "the addend of a relocation without one");
            }
        }
        RelocationFlags::Coff { typ } => {
            let f = coff::parse(b)?;
            let v: Vec<(u64, u32, u16)> = f.secs[sec as usize - 1].relocs.iter().map(|y| (y.0 as u64, y.1, y.2)).collect();
            same!(v.len(), n, "number of relocations");
            ensure!(v.contains(&(x.offset, sym, typ.0)), "relocation ({:#x}, {sym}, {}) in {v:x?}", x.offset, typ.0);
        }
        RelocationFlags::MachO { r_type, r_pcrel, r_length } => {
            let f = macho::parse(b)?;
            let v = &f.secs[sec as usize - 1].relocs;
            let want = (x.offset, sym, r_pcrel, r_length, true, r_type.0);
            ensure!(v.iter().any(|y| (y.addr as u64, y.num, y.pcrel, y.len, y.ext, y.ty) == want), "relocation {want:x?} in {v:x?}");
            same!(v.len(), n + (x.addend != 0) as usize, "number of relocations");
            if x.addend != 0 {
                let k = v.iter().position(|y| (y.addr as u64, y.num, y.pcrel, y.len, y.ext, y.ty) == want).unwrap_or(0);
                ensure!(k > 0, "no addend before the relocation in {v:x?}");
                same!((v[k - 1].ty, ((v[k - 1].num << 8) as i32 >> 8) as i64), (10, x.addend), "addend");
            }
        }
        RelocationFlags::Xcoff { r_rtype, r_rsize } => {
            let f = xcoff::parse(b)?;
            let s = &f.secs[sec as usize - 1];
            same!(s.relocs.len(), n, "number of relocations");
            let want = (vcore::some!(s.vaddr.checked_add(x.offset), "no address for the relocation"), sym, r_rsize, r_rtype.0);
            ensure!(s.relocs.iter().any(|y| (y.vaddr, y.sym, y.rsize, y.rtype) == want), "relocation {want:x?} in {:x?}", s.relocs);
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn is_rela(a: A) -> bool {
    !matches!(a, A::Arm | A::I386 | A::Mips | A::Bpf | A::Sbf)
}

/// Everything that was asked for is in the file.
fn whole(m: &Model, rel: Option<&Rel>, d: &[u8]) -> Res {
    let o = wread::any(m, d)?;
    if let Some(x) = rel {
        has_rel(m, &o, d, x)?;
    }
    Ok(())
}

fn objects(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut b, mut m) = wobj::build(r, &Opts { relocs: false, sections: 4, symbols: 7, fmt: None });
    let limit = 16 << 20;
    match emit(&b, limit) {
        Ok(Some(d)) => whole(&m, None, &d).map_err(|e| format!("before: {e}"))?,
        Ok(None) => return Err("a small file was too big".into()),
        Err(e) => return Err(format!("a file that can be written was refused: {e}")),
    }
    let word = if m.fmt == BF::Coff || !m.is64() { 32 } else { 64 };
    let fmt = m.fmt;
    let mut rel: Option<Rel> = None;
    let mut f;
    let what;
    let defined: Vec<usize> = (0..m.syms.len()).filter(|&k| m.syms[k].id.is_some() && !matches!(m.syms[k].kind, YK::File | YK::Section) && matches!(m.syms[k].at, At::Sec(_) | At::Abs | At::Common)).collect();
    let targets: Vec<usize> = (0..m.syms.len()).filter(|&k| m.syms[k].id.is_some() && !matches!(m.syms[k].kind, YK::File | YK::Section)).collect();
    let data: Vec<usize> = (0..m.secs.len()).filter(|&i| m.secs[i].id.is_some() && !m.secs[i].bss && m.secs[i].data.len() >= 8).collect();
    match r.below(14) {
        0 | 1 if !defined.is_empty() => {
            what = "symbol value";
            let k = *r.pick(&defined);
            let v = around(r, word);
            let y = &mut m.syms[k];
            let id = y.id.unwrap();
            if y.at == At::Common {
                return Ok(());
            }
            b.symbol_mut(id).value = v;
            y.value = v;
            f = fit(v, word);
            if f == Yes && matches!(fmt, BF::MachO | BF::Xcoff) && matches!(y.at, At::Sec(_)) && v > (u64::MAX >> (64 - word)) - (1 << 28) {
                f = Maybe;
            }
        }
        2 if !defined.is_empty() => {
            what = "symbol size";
            let k = *r.pick(&defined);
            let v = around(r, word);
            let y = &mut m.syms[k];
            // Only common symbols have sizes in COFF and Mach-O.
            if matches!(fmt, BF::Coff | BF::MachO) && y.at != At::Common {
                return Ok(());
            }
            b.symbol_mut(y.id.unwrap()).size = v;
            y.size = v;
            f = fit(v, word);
            // Sizes are only recorded for symbols with a csect.
            if fmt == BF::Xcoff && y.scope == SC::Compilation {
                f = Maybe;
            }
        }
        3 => {
            what = "common symbol";
            let name = m.fresh(r, 12);
            let size = around(r, word);
            let al = 1u64 << r.below(40);
            let s = object::write::Symbol { name: name.clone(), value: 0, size, kind: YK::Unknown, scope: SC::Linkage, weak: false, section: SymbolSection::Undefined, flags: object::SymbolFlags::None };
            if fmt == BF::Xcoff {
                return Ok(());
            }
            let id = b.add_common_symbol(s, size, al);
            m.syms.push(wobj::MSym { id: Some(id), name, value: al, size, kind: YK::Data, scope: SC::Linkage, weak: false, at: At::Common, flags: object::SymbolFlags::None });
            b.symbol_mut(id).kind = YK::Data;
            f = fit(size, word);
            match fmt {
                BF::Elf if !m.is64() && al >> 32 != 0 => f = No,
                // Four bits of the description.
                BF::MachO if al > 1 << 15 => f = No,
                // There is nowhere for the alignment of a common symbol in COFF.
                _ => {}
            }
        }
        4 => {
            what = "section size";
            let n = m.fresh(r, 8);
            let seg = if fmt == BF::MachO { b"__DATA".to_vec() } else { vec![] };
            let id = b.add_section(seg.clone(), n.clone(), SK::UninitializedData);
            let i = wobj::push(&mut m, id, &seg, &n, SK::UninitializedData);
            let v = around(r, word);
            let at = b.append_section_bss(id, v, 1);
            same!(at, 0, "offset of the first zeroes");
            m.secs[i].size = v;
            f = fit(v, word);
            if f == Yes && matches!(fmt, BF::MachO | BF::Xcoff) && v > (u64::MAX >> (64 - word)) >> 1 {
                f = Maybe;
            }
            if r.one_in(3) && fmt != BF::Coff {
                // A symbol at the end of a section that reaches far.
                let name = m.fresh(r, 8);
                let id = b.add_symbol(object::write::Symbol { name: name.clone(), value: v, size: 0, kind: YK::Unknown, scope: SC::Linkage, weak: false, section: SymbolSection::Section(id), flags: object::SymbolFlags::None });
                b.symbol_mut(id).kind = YK::Data;
                m.syms.push(wobj::MSym { id: Some(id), name, value: v, size: 0, kind: YK::Data, scope: SC::Linkage, weak: false, at: At::Sec(i), flags: object::SymbolFlags::None });
            }
        }
        5 => {
            what = "section alignment";
            if fmt == BF::Xcoff {
                return Ok(());
            }
            let bss = r.bool();
            let kind = if bss { SK::UninitializedData } else { SK::Data };
            let n = m.fresh(r, 8);
            let seg = if fmt == BF::MachO { b"__DATA".to_vec() } else { vec![] };
            let id = b.add_section(seg.clone(), n.clone(), kind);
            let i = wobj::push(&mut m, id, &seg, &n, kind);
            let al = 1u64 << if r.bool() { r.below(16) } else { r.below(64) };
            if bss {
                b.append_section_bss(id, 5, al);
            } else {
                b.append_section_data(id, &[1, 2, 3, 4, 5], al);
                m.secs[i].data = vec![1, 2, 3, 4, 5];
            }
            m.secs[i].size = 5;
            m.secs[i].align = al;
            f = match fmt {
                BF::Coff => if al <= 8192 { Yes } else { No },
                BF::MachO if !m.is64() => if al < 1 << 24 { Yes } else if al >> 32 != 0 && m.secs.iter().any(|s| s.size > 0) { Maybe } else { Maybe },
                BF::MachO => if al < 1 << 24 { Yes } else { Maybe },
                _ => if al < 1 << 20 { Yes } else if fit(al, word) == No { No } else { Maybe },
            };
        }
        6 => {
            what = "section name";
            let max = match fmt {
                BF::MachO => 16,
                BF::Xcoff => 8,
                _ => 4000,
            };
            let len = match r.below(4) {
                0 => max,
                1 => max + 1,
                2 => max + r.idx(300),
                _ => 1 + r.idx(max),
            };
            let mut n = m.fresh(r, 8);
            while n.len() < len {
                n.push(b'a' + (n.len() % 26) as u8);
            }
            n.truncate(len);
            if m.secs.iter().any(|s| s.name == n) {
                return Ok(());
            }
            let mut seg = if fmt == BF::MachO { b"__DATA".to_vec() } else { vec![] };
            f = if matches!(fmt, BF::MachO | BF::Xcoff) && n.len() > max { No } else { Yes };
            if fmt == BF::MachO && r.bool() {
                std::mem::swap(&mut n, &mut seg);
            }
            let id = b.add_section(seg.clone(), n.clone(), SK::Data);
            let i = wobj::push(&mut m, id, &seg, &n, SK::Data);
            b.append_section_data(id, &[7; 3], 1);
            m.secs[i].data = vec![7; 3];
            m.secs[i].size = 3;
        }
        7 => {
            what = "file name";
            let top = 255 * 18;
            let len = *r.pick(&[top, top - 1, top + 1, top + 18, top + 3000, 2 * top + 40, 256 * 18, 13, 14, 15, 18, 19]);
            let mut n = m.fresh(r, 8);
            while n.len() < len {
                n.push(b'a' + r.below(26) as u8);
            }
            n.truncate(len);
            let id = b.add_file_symbol(n.clone());
            f = if fmt == BF::Coff && n.len() > top { No } else { Yes };
            m.syms.push(wobj::MSym { id: Some(id), name: n, value: 0, size: 0, kind: YK::File, scope: SC::Compilation, weak: false, at: At::None, flags: object::SymbolFlags::None });
        }
        8 => {
            what = "section flags";
            let Some(i) = data.first().copied() else { return Ok(()) };
            if fmt != BF::Elf {
                return Ok(());
            }
            let v = around(r, word) & !(0x10 | 0x20 | 0x80 | 0x40 | 0x200 | 0x800);
            let fl = SectionFlags::Elf { sh_type: object::elf::SectionType(1), sh_flags: object::elf::SectionFlags(v) };
            b.section_mut(m.sid(i)).flags = fl;
            m.secs[i].flags = fl;
            f = fit(v, word);
        }
        9 if fmt == BF::MachO => {
            what = "relocation field";
            let (Some(&sec), Some(&sym)) = (data.first(), targets.first()) else { return Ok(()) };
            let top = if r.bool() { 16 } else { 40 };
            let r_type = r.below(top) as u8;
            let top = if r.bool() { 4 } else { 9 };
            let r_length = r.below(top) as u8;
            f = if r_type < 16 && r_length < 4 { Maybe } else { No };
            rel = Some(Rel { sec, offset: 0, sym, addend: 0, flags: RelocationFlags::MachO { r_type: object::macho::RelocationType(r_type), r_pcrel: r.bool(), r_length } });
        }
        9 | 10 if fmt == BF::Elf => {
            what = "relocation field";
            let (Some(&sec), Some(&sym)) = (data.first(), targets.last()) else { return Ok(()) };
            let bits = if m.is64() { 32 } else { 8 };
            let t = match r.below(3) {
                0 => r.below(256) as u32,
                1 => (1u64 << bits.min(31)) as u32 + r.below(3) as u32,
                _ => r.edgy(32) as u32,
            };
            f = fit(t as u64, bits);
            if m.arch == A::Mips64 && t > 0xff {
                return Ok(());
            }
            rel = Some(Rel { sec, offset: 0, sym, addend: 0, flags: RelocationFlags::Elf { r_type: object::elf::RelocationType(t) } });
        }
        11 if fmt == BF::Elf && is_rela(m.arch) || fmt == BF::MachO => {
            what = "relocation addend";
            let (Some(&sec), Some(&sym)) = (data.first(), targets.last()) else { return Ok(()) };
            let n = *r.pick(&[22u32, 23, 24, 30, 31, 32, 33, 62]);
            let mut a = (1i64 << n).wrapping_mul(*r.pick(&[1i64, -1])).wrapping_add(r.below(7) as i64 - 3);
            if r.one_in(4) {
                a = r.u64() as i64;
            }
            let flags = match fmt {
                BF::MachO => RelocationFlags::MachO { r_type: object::macho::RelocationType(*r.pick(&[2u8, 3, 4])), r_pcrel: true, r_length: 2 },
                _ => RelocationFlags::Elf { r_type: object::elf::RelocationType(1) },
            };
            f = match fmt {
                BF::Elf if m.is64() => Yes,
                BF::Elf => if (-(1i64 << 31)..1 << 31).contains(&a) { Yes } else if (0..1i64 << 32).contains(&a) { Maybe } else { No },
                _ if !matches!(m.arch, A::Aarch64 | A::Aarch64_Ilp32) => return Ok(()),
                _ => if (-(1i64 << 23)..1 << 23).contains(&a) { Yes } else { No },
            };
            rel = Some(Rel { sec, offset: 0, sym, addend: a, flags });
        }
        _ => {
            what = "relocation offset";
            let (Some(&sec), Some(&sym)) = (data.last(), targets.last()) else { return Ok(()) };
            let bits = if fmt == BF::MachO { 31 } else { word };
            let v = around(r, bits);
            f = fit(v, bits);
            if f == Yes {
                // Places outside of the section may be refused.
                f = Maybe;
                if fmt != BF::Elf {
                    return Ok(());
                }
            }
            let flags = match fmt {
                BF::Elf => RelocationFlags::Elf { r_type: object::elf::RelocationType(1) },
                BF::Coff => RelocationFlags::Coff { typ: object::pe::RelocationType(1) },
                BF::MachO => RelocationFlags::MachO { r_type: object::macho::RelocationType(0), r_pcrel: false, r_length: 2 },
                _ => RelocationFlags::Xcoff { r_rtype: object::xcoff::RelocationType(0), r_rsize: 31 },
            };
            rel = Some(Rel { sec, offset: v, sym, addend: 0, flags });
        }
    }
    let mut refused = None;
    if let Some(x) = &rel {
        let z = Relocation { offset: x.offset, symbol: m.syms[x.sym].id.unwrap(), addend: x.addend, flags: x.flags };
        if let Err(e) = b.add_relocation(m.sid(x.sec), z) {
            refused = Some(e.to_string());
        }
        m.rels.push(wobj::MRel { sec: x.sec, offset: x.offset, sym: x.sym, sub: None, addend: x.addend, flags: x.flags, before: vec![] });
    }
    let kind = format!("{fmt:?}{} {what}", if word == 64 { "64" } else { "32" });
    let tell = || format!("{kind} ({f:?}): {}", match &rel {
        Some(x) => format!("offset {:#x} addend {:#x} {:?}", x.offset, x.addend, x.flags),
        None => short(&format!("{:?} {:?}", m.syms.last(), m.secs.last().map(|s| (&s.name, s.size, s.align)))),
    });
    let got = match refused {
        Some(e) => Err(e),
        None => emit(&b, limit),
    };
    match got {
        Ok(Some(d)) => {
            if std::env::var("SHOW").is_ok() {
                eprintln!("written {}", tell());
            }
            whole(&m, rel.as_ref(), &d).map_err(|e| format!("{}: {e}", tell()))?;
            ensure!(f != No, "{}: written, although it does not fit", tell());
            o.hit(intern(format!("{kind} written")));
        }
        Ok(None) => {
            ensure!(f != Yes, "{}: a huge file", tell());
            o.hit("files too big to try");
        }
        // Relocations of some architectures cannot be written at all.
        Err(e) if e.starts_with("unimplemented") && f != No => o.hit("unimplemented"),
        Err(e) => {
            ensure!(f != Yes, "{}: refused: {e}", tell());
            o.hit(intern(format!("{kind} refused")));
            if f == No {
                o.hit("impossible requests refused");
            }
        }
    }
    o.nontrivial(vcore::hash(format!("{what}{fmt:?}{word}{f:?}").as_bytes()));
    o.eval();
    Ok(())
}


/// A description with nothing in it.
fn empty(r: &mut Rng, fmt: BF, is64: Option<bool>) -> (Object<'static>, Model) {
    loop {
        let (b, m) = wobj::build(r, &Opts { relocs: false, sections: 0, symbols: 0, fmt: Some(fmt) });
        if is64.is_none_or(|x| x == m.is64()) && m.secs.is_empty() && m.syms.is_empty() {
            return (b, m);
        }
    }
}

fn section(b: &mut Object<'static>, m: &mut Model, name: &[u8], data: Vec<u8>) -> usize {
    let seg = if m.fmt == BF::MachO { b"__DATA".to_vec() } else { vec![] };
    let id = b.add_section(seg.clone(), name.to_vec(), SK::Data);
    let i = wobj::push(m, id, &seg, name, SK::Data);
    if !data.is_empty() {
        b.append_section_data(id, &data, 1);
    }
    m.secs[i].size = data.len() as u64;
    m.secs[i].data = data;
    i
}

fn symbol(b: &mut Object<'static>, m: &mut Model, name: &[u8], at: At) -> usize {
    let section = match at {
        At::Sec(i) => SymbolSection::Section(m.sid(i)),
        _ => SymbolSection::Undefined,
    };
    let s = object::write::Symbol { name: name.to_vec(), value: 0, size: 0, kind: YK::Unknown, scope: SC::Linkage, weak: false, section, flags: object::SymbolFlags::None };
    let id = b.add_symbol(s);
    b.symbol_mut(id).kind = YK::Data;
    m.syms.push(wobj::MSym { id: Some(id), name: name.to_vec(), value: 0, size: 0, kind: YK::Data, scope: SC::Linkage, weak: false, at, flags: object::SymbolFlags::None });
    m.syms.len() - 1
}

/// Numbers of things around the limits of the fields that count or number them.
fn counts(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    const SECTIONS: &[(BF, Option<bool>, usize, Fit)] = &[
        (BF::MachO, None, 254, Yes),
        (BF::MachO, None, 255, Yes),
        (BF::MachO, None, 256, Maybe),
        (BF::MachO, None, 511, Maybe),
        (BF::MachO, None, 513, Maybe),
        (BF::Coff, None, 0xfeff, Yes),
        (BF::Coff, None, 0xff00, No),
        (BF::Coff, None, 0xffff, No),
        (BF::Coff, None, 0x1_0001, No),
        (BF::Xcoff, None, 32767, Yes),
        (BF::Xcoff, None, 32768, No),
        (BF::Xcoff, None, 65537, No),
        (BF::Elf, None, 0xfeff - 4, Yes),
        (BF::Elf, None, 0xff00, Yes),
        (BF::Elf, None, 0x1_0000, Yes),
        (BF::Elf, None, 0x1_0010, Yes),
    ];
    const RELOCATIONS: &[(BF, Option<bool>, usize, Fit)] = &[
        (BF::Coff, None, 0xfffe, Yes),
        (BF::Coff, None, 0xffff, Yes),
        (BF::Coff, None, 0x1_0000, Yes),
        (BF::Coff, None, 0x1_0003, Yes),
        (BF::Xcoff, Some(false), 0xfffe, Yes),
        (BF::Xcoff, Some(false), 0xffff, Maybe),
        (BF::Xcoff, Some(false), 0x1_0001, Maybe),
        (BF::Xcoff, Some(true), 0x1_0002, Yes),
        (BF::MachO, None, 0x1_0002, Yes),
        (BF::Elf, None, 0x1_0002, Yes),
    ];
    let k = case as usize;
    let (fmt, is64, n, f) = if k < SECTIONS.len() {
        SECTIONS[k]
    } else if k < SECTIONS.len() + RELOCATIONS.len() {
        RELOCATIONS[k - SECTIONS.len()]
    } else {
        return far_strings(r, o);
    };
    let relocs = k >= SECTIONS.len();
    let (mut b, mut m) = empty(r, fmt, is64);
    let mut list = vec![];
    if relocs {
        let i = section(&mut b, &mut m, b".x", vec![0; 4 * n + 8]);
        let a = symbol(&mut b, &mut m, b"sa", At::Sec(i));
        let c = symbol(&mut b, &mut m, b"sb", At::Undef);
        for j in 0..n {
            let sym = if r.bool() { a } else { c };
            let flags = match fmt {
                BF::Elf => RelocationFlags::Elf { r_type: object::elf::RelocationType(1) },
                BF::Coff => RelocationFlags::Coff { typ: object::pe::RelocationType(1) },
                BF::MachO => RelocationFlags::MachO { r_type: object::macho::RelocationType(0), r_pcrel: false, r_length: 2 },
                _ => RelocationFlags::Xcoff { r_rtype: object::xcoff::RelocationType(0), r_rsize: 31 },
            };
            let offset = 4 * j as u64;
            let x = Relocation { offset, symbol: m.syms[sym].id.unwrap(), addend: 0, flags };
            match b.add_relocation(m.sid(i), x) {
                Ok(()) => {}
                // Architectures that have no relocations here.
                Err(e) if e.to_string().starts_with("unimplemented") => return Ok(()),
                Err(e) => return Err(format!("relocation {j}: {e}")),
            }
            list.push((offset, sym));
            m.rels.push(wobj::MRel { sec: i, offset, sym, sub: None, addend: 0, flags, before: vec![] });
        }
    } else {
        for j in 0..n {
            section(&mut b, &mut m, format!("s{j}").as_bytes(), if j % 1000 == 0 || j + 3 > n { vec![j as u8; 1 + j % 5] } else { vec![] });
        }
        for (x, j) in [n - 1, 0, n / 2, n - 2, n.min(0xff00) - 7, n.min(256) - 1].into_iter().enumerate() {
            symbol(&mut b, &mut m, format!("sym{x}").as_bytes(), At::Sec(j));
        }
    }
    let what = intern(format!("{fmt:?} {} {}", n, if relocs { "relocations" } else { "sections" }));
    match emit(&b, 64 << 20) {
        Ok(Some(d)) => {
            let g = wread::any(&m, &d).map_err(|e| format!("{what}: {e}"))?;
            if relocs {
                let want: Vec<(u64, u32)> = list.iter().map(|&(a, s)| (a, g.sym[s].unwrap())).collect();
                let mut got: Vec<(u64, u32)> = match fmt {
                    BF::Elf => {
                        let e = elf::parse(&d)?;
                        let t = vcore::some!((0..e.sh.len()).find(|&i| matches!(e.sh[i].ty, 4 | 9)), "relocation section");
                        e.rels(t)?.iter().map(|x| (x.offset, x.sym)).collect()
                    }
                    BF::Coff => coff::parse(&d)?.secs[0].relocs.iter().map(|x| (x.0 as u64, x.1)).collect(),
                    BF::MachO => macho::parse(&d)?.secs[0].relocs.iter().map(|x| (x.addr as u64, x.num)).collect(),
                    _ => xcoff::parse(&d)?.secs[0].relocs.iter().map(|x| (x.vaddr, x.sym)).collect(),
                };
                got.sort();
                ensure!(got == want, "{what}: other relocations ({} of {})", got.len(), want.len());
            }
            ensure!(f != No, "{what}: written, although there is no room");
            o.hit("counts written");
        }
        Ok(None) => return Err(format!("{what}: too big")),
        Err(e) => {
            ensure!(f != Yes, "{what}: refused: {e}");
            o.hit("counts refused");
        }
    }
    o.nontrivial(vcore::hash(what.as_bytes()));
    o.eval();
    Ok(())
}

/// Section names of COFF whose place in the string table has many digits.
fn far_strings(r: &mut Rng, o: &mut Obs) -> Res {
    let (mut b, mut m) = empty(r, BF::Coff, None);
    let at = *r.pick(&[999_990u64, 9_999_950, 9_999_999, 10_000_000, 10_000_300]);
    // Strings are sorted from the end, so that this one can be anywhere.
    let big: Vec<u8> = (0..at).map(|k| b'a' + (k % 25) as u8).collect();
    for k in 0..6 {
        let n = format!("{}{}", if k % 2 == 0 { ".a_long_name" } else { ".zz_long_name" }, ["a", "z", "m", "ab", "zy", "aaaa"][k]);
        section(&mut b, &mut m, n.as_bytes(), vec![k as u8; 3]);
    }
    symbol(&mut b, &mut m, &big, At::Sec(0));
    symbol(&mut b, &mut m, b"another_long_name", At::Sec(1));
    match emit(&b, 64 << 20) {
        Ok(Some(d)) => {
            let f = coff::parse(&d)?;
            wread::any(&m, &d).map_err(|e| format!("{at} bytes of strings: {e}"))?;
            if f.secs.iter().any(|s| s.raw_name.starts_with(b"//")) {
                o.hit("section names in base 64");
            }
        }
        x => return Err(format!("{at} bytes of strings: {:?}", x.map(|_| ()))),
    }
    o.nontrivial(at);
    o.eval();
    Ok(())
}

/// Zeroes that take no memory.
fn zeroes() -> &'static [u8] {
    static Z: std::sync::OnceLock<&'static [u8]> = std::sync::OnceLock::new();
    Z.get_or_init(|| Box::leak(vec![0u8; 9 << 29].into_boxed_slice()))
}

/// A file of which the zeroes above are not copied.
struct Virtual {
    data: Vec<u8>,
    len: u64,
    big: Vec<(u64, u64)>,
    reserved: Option<u64>,
}

impl WritableBuffer for Virtual {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        assert!(self.reserved.is_none(), "reserved twice");
        self.reserved = Some(size);
        if size > 12 << 30 {
            return Err(());
        }
        // Comes from the system zeroed and untouched.
        self.data = vec![0; size as usize];
        Ok(())
    }
    fn write_bytes(&mut self, val: &[u8]) {
        let n = val.len() as u64;
        let z = zeroes().as_ptr_range();
        if z.contains(&val.as_ptr()) {
            self.big.push((self.len, n));
        } else {
            self.data[self.len as usize..(self.len + n) as usize].copy_from_slice(val);
        }
        self.len += n;
    }
    fn write_zeros(&mut self, n: u64) {
        self.len += n;
    }
}

/// Files of more than four gigabytes.
fn files(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let (fmt, is64) = [(BF::Elf, false), (BF::Elf, true), (BF::Coff, false), (BF::MachO, false), (BF::MachO, true), (BF::Xcoff, false), (BF::Xcoff, true)][case as usize % 7];
    let (mut b, mut m) = loop {
        let (b, m) = empty(r, fmt, None);
        if m.is64() == is64 || fmt == BF::Coff {
            break (b, m);
        }
    };
    let _guard = ONE.lock().unwrap_or_else(|e| e.into_inner());
    // Sizes that come to little less or more than four gigabytes, in several ways.
    let top = 1u64 << 32;
    let n = 1 + r.idx(3);
    let over = match case / 7 % 4 {
        0 => top + r.below(1 << 20),
        1 => top - (1 << 20) + r.below(1 << 19),
        2 => top + (r.below(1 << 28)),
        _ => top - r.below(3000),
    };
    let mut left = over;
    for k in 0..n {
        let len = if k + 1 == n { left } else { left / (n as u64 - k as u64) + r.below(1 << 20) };
        left -= len;
        let seg = if fmt == BF::MachO { b"__DATA".to_vec() } else { vec![] };
        let name = format!("s{k}").into_bytes();
        let id = b.add_section(seg.clone(), name.clone(), SK::Other);
        b.set_section_data(id, &zeroes()[..len as usize], 1);
        let i = wobj::push(&mut m, id, &seg, &name, SK::Other);
        m.secs[i].size = len;
    }
    let i = section(&mut b, &mut m, b"last", vec![9; 16]);
    let y = symbol(&mut b, &mut m, b"somewhere", At::Sec(i));
    let flags = match fmt {
        BF::Elf => RelocationFlags::Elf { r_type: object::elf::RelocationType(1) },
        BF::Coff => RelocationFlags::Coff { typ: object::pe::RelocationType(1) },
        BF::MachO => RelocationFlags::MachO { r_type: object::macho::RelocationType(0), r_pcrel: false, r_length: 2 },
        _ => RelocationFlags::Xcoff { r_rtype: object::xcoff::RelocationType(0), r_rsize: 31 },
    };
    let with = b.add_relocation(m.sid(i), Relocation { offset: 4, symbol: m.syms[y].id.unwrap(), addend: 0, flags }).is_ok();
    let f = match fmt {
        BF::Elf | BF::Xcoff if is64 => Yes,
        _ if over >= top => No,
        _ if over < top - 400_000 => Yes,
        _ => Maybe,
    };
    let mut v = Virtual { data: vec![], len: 0, big: vec![], reserved: None };
    let what = format!("{fmt:?}{} with {over:#x} bytes of data in {n} sections", if is64 { "64" } else { "32" });
    match b.emit(&mut v) {
        Err(e) => {
            ensure!(f != Yes, "{what}: refused: {e}");
            o.hit("big files refused");
        }
        Ok(()) => {
            ensure!(f != No, "{what}: written");
            same!(Some(v.len), v.reserved, "{what}: length");
            // (offset, size) of the sections that hold the big data, the last section, symbols and relocations.
            let d = &v.data[..];
            let (mut secs, last, syms, rels): (Vec<(u64, u64)>, &[u8], usize, usize);
            match fmt {
                BF::Elf => {
                    let e = elf::parse(d)?;
                    secs = e.sh.iter().filter(|s| s.name.starts_with(b"s")).map(|s| (s.offset, s.size)).collect();
                    let k = vcore::some!(e.sh.iter().position(|s| s.name == b"last"), "last section");
                    last = e.data(k)?;
                    syms = e.syms(vcore::some!(e.find(2), "symbols"))?.len() - 1;
                    rels = match (0..e.sh.len()).find(|&i| matches!(e.sh[i].ty, 4 | 9)) {
                        Some(t) => e.rels(t)?.len(),
                        None => 0,
                    };
                }
                BF::Coff => {
                    let e = coff::parse(d)?;
                    secs = e.secs[..n].iter().map(|s| (s.offset as u64, s.size as u64)).collect();
                    let s = &e.secs[n];
                    last = &d[s.offset as usize..][..16];
                    (syms, rels) = (e.syms.len(), s.relocs.len());
                }
                BF::MachO => {
                    let e = macho::parse(d)?;
                    secs = e.secs[..n].iter().map(|s| (s.offset as u64, s.size)).collect();
                    let s = &e.secs[n];
                    last = &d[s.offset as usize..][..16];
                    (syms, rels) = (e.syms.len(), s.relocs.len());
                }
                _ => {
                    let e = xcoff::parse(d)?;
                    secs = e.secs[..n].iter().map(|s| (s.offset, s.size)).collect();
                    let s = &e.secs[n];
                    last = &d[s.offset as usize..][..16];
                    (syms, rels) = (e.syms.len(), s.relocs.len());
                }
            }
            secs.retain(|s| s.1 > 0);
            same!(secs, v.big, "{what}: places and sizes of the sections");
            same!(&last[8..], &[9u8; 8][..], "{what}: the last section");
            same!((syms, rels), (1, with as usize), "{what}: symbols and relocations");
            o.hit(if is64 { "big files written" } else { "almost big files written" });
        }
    }
    o.nontrivial(vcore::hash(what.as_bytes()));
    o.eval();
    Ok(())
}

/// Counts what is written.
struct Count(u64);
impl WritableBuffer for Count {
    fn reserve(&mut self, _: u64) -> Result<(), ()> {
        Ok(())
    }
    fn write_bytes(&mut self, val: &[u8]) {
        self.0 += val.len() as u64;
    }
    fn write_zeros(&mut self, n: u64) {
        self.0 += n;
    }
}
impl object::write::GrowableBuffer for Count {
    fn as_writable(&mut self) -> &mut dyn WritableBuffer {
        self
    }
}

/// String tables of four gigabytes.
fn strings(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    use object::write::StringTable;
    let n = 64usize << 20;
    let mut pool: Vec<u8> = Vec::with_capacity(n + 4096);
    let mut x = r.u64() | 1;
    while pool.len() < n + 4096 {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        for k in 0..8 {
            pool.push((x >> (8 * k)) as u8 | 1);
        }
    }
    let in_order = case % 2 == 1;
    let base = *r.pick(&[0u32, 1, 4]);
    // The total with the terminators.
    let total = (1u64 << 32) - 1 + [1, 0, 1 + r.below(1 << 20)][case as usize / 2 % 3];
    let mut t = if in_order { StringTable::new_in_order(base) } else { StringTable::new() };
    let mut left = total - base as u64;
    let mut ids = vec![];
    let mut k = 0;
    while left > 0 {
        // Ends differ, so that no string is the tail of another.
        let len = if left <= n as u64 + 1 { left - 1 } else { ((n - 97) as u64).min(left - 1000) };
        ids.push((t.add(&pool[k..k + len as usize]), len));
        k += 1;
        left -= len + 1;
    }
    let mut w = Count(0);
    let got = t.write(&mut w, base);
    let fits = total <= u32::MAX as u64;
    match got {
        Ok(v) => {
            ensure!(fits, "a string table of {total:#x} bytes was written, as {v:#x}");
            same!((v as u64, w.0), (total, total - base as u64), "size of a string table");
            let mut v: Vec<(u64, u64)> = ids.iter().map(|&(i, l)| (t.get_offset(i) as u64, l)).collect();
            v.sort();
            let mut at = base as u64;
            for (a, l) in v {
                same!(a, at, "offset of a string");
                at += l + 1;
            }
            o.hit("string tables written");
        }
        Err(e) => {
            ensure!(!fits, "a string table of {total:#x} bytes was refused: {e}");
            o.hit("string tables refused");
        }
    }
    o.nontrivial(total ^ in_order as u64);
    o.eval();
    Ok(())
}

/// Low level writers, where they check.
fn writers(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    use object::write::elf as we;
    let end = if r.bool() { object::Endianness::Big } else { object::Endianness::Little };
    let is64 = r.bool();
    let header = || we::FileHeader { os_abi: object::elf::OsAbi(0), abi_version: 0, e_type: object::elf::FileType(1), e_machine: object::elf::Machine(62), e_entry: 0, e_flags: object::elf::FileFlags(0) };
    let top = u32::MAX as u64;
    let huge = match r.below(4) {
        0 => top + 1 + r.below(3),
        1 => top + 1 + r.below(1 << 20),
        2 => top + 1 + r.below(1 << 40),
        _ => r.below(1 << 33),
    };
    match r.below(6) {
        0 => {
            // An entry of a dynamic section.
            let tag = around(r, 31) as i64;
            let tag = if r.bool() { tag } else { tag.wrapping_neg() };
            let val = around(r, 32);
            let fits = is64 || (i32::try_from(tag).is_ok() && val <= top);
            let mut v: Vec<u8> = vec![];
            let e = we::Encoder::new(end, is64, object::elf::Machine(62));
            match e.dynamic(&mut v, object::elf::DynamicTag(tag), val) {
                Ok(()) => {
                    ensure!(fits, "a dynamic entry {tag:#x} {val:#x} was written");
                    let rd = genf::strict::Rd { b: &v, be: end == object::Endianness::Big, is64 };
                    let want = if is64 { (tag as u64, val) } else { (tag as i32 as u32 as u64, val) };
                    let w = if is64 { 8 } else { 4 };
                    same!((rd.word(0)?, rd.word(w)?), want, "dynamic entry");
                }
                Err(e) => ensure!(!fits, "dynamic entry {tag:#x} {val:#x}: {e}"),
            }
            o.hit(if fits { "dynamic entries written" } else { "dynamic entries refused" });
        }
        1 => {
            // A file of two phases.
            let mut c = Count(0);
            let mut w = we::Writer::new(end, is64, &mut c);
            w.reserve_file_header();
            let mut sum = w.reserved_len();
            let mut left = huge;
            for _ in 0..r.below(3) {
                let n = r.below(left + 1);
                w.reserve(n, 1);
                left -= n;
                sum += n;
            }
            w.reserve(left, 1);
            sum += left;
            same!(w.reserved_len(), sum, "reserved length");
            let got = w.write_file_header(&header());
            let fits = is64 || sum <= top;
            ensure!(got.is_ok() == fits, "a file of {sum:#x} bytes, is64={is64}: {got:?}");
            o.hit(if fits { "file lengths accepted" } else { "file lengths refused" });
        }
        2 => {
            // A file of one phase.
            let mut c = Count(0);
            let mut w = we::Writer::new_single_phase(end, is64, &mut c);
            okay!(w.write_file_header(&header()), "header");
            let at = w.offset();
            w.pad_until(at + huge);
            let sum = at + huge;
            let mut v: Vec<u8> = vec![];
            let got = w.write_file_header_to(&mut v);
            let fits = is64 || sum <= top;
            ensure!(got.is_ok() == fits, "a file of {sum:#x} bytes, is64={is64}: {got:?}");
            o.hit(if fits { "file lengths accepted" } else { "file lengths refused" });
        }
        3 => {
            // Many segments need a section header to count them.
            let n = *r.pick(&[0u32, 1, 0xfffe, 0xffff, 0x1_0000, 0x1_0007]);
            let secs = *r.pick(&[0u32, 1, 5, 0xfeff, 0xff00, 0x1_0003]);
            let e = we::Encoder::new(end, is64, object::elf::Machine(62));
            let l = we::FileHeaderLayout { e_phoff: 64, segment_num: n, e_shoff: 640, section_num: secs, shstrtab_index: secs.saturating_sub(1) };
            let mut v: Vec<u8> = vec![];
            let fits = n < 0xffff || secs > 0;
            match e.file_header(&mut v, &header(), &l) {
                Ok(()) => {
                    ensure!(fits, "{n} segments without sections were written");
                    let rd = genf::strict::Rd { b: &v, be: end == object::Endianness::Big, is64 };
                    let base = if is64 { 54 } else { 42 };
                    let got = (rd.u16(base + 2)?, rd.u16(base + 6)?, rd.u16(base + 8)?);
                    let want = (n.min(0xffff) as u16, if secs >= 0xff00 { 0 } else { secs as u16 }, if secs > 0xff00 { 0xffff } else { secs.saturating_sub(1) as u16 });
                    same!(got, want, "e_phnum, e_shnum, e_shstrndx of {n} segments and {secs} sections");
                }
                Err(x) => ensure!(!fits, "{n} segments, {secs} sections: {x}"),
            }
            o.hit(if fits { "header counts written" } else { "header counts refused" });
        }
        4 => {
            // COFF.
            let mut c = Count(0);
            let mut w = object::write::coff::Writer::new(&mut c);
            w.reserve_file_header();
            w.reserve_section_headers(1);
            w.reserve_section(huge.min(r.below(top)) as usize);
            let at = w.reserved_len() as u64;
            w.reserve((huge as usize).saturating_sub(at as usize) as u64, 1);
            let mut sum = w.reserved_len() as u64;
            let mut got = Ok(());
            if r.bool() {
                match w.reserve_symtab_strtab() {
                    Ok(_) => sum = w.reserved_len() as u64,
                    Err(e) => got = Err(e),
                }
            }
            let got = got.and_then(|()| w.write_file_header(object::write::coff::FileHeader { machine: object::pe::Machine(0x8664), time_date_stamp: 0, characteristics: object::pe::FileFlags(0) }));
            let fits = sum <= top;
            ensure!(got.is_ok() == fits, "a COFF file of {sum:#x} bytes: {got:?}");
            o.hit(if fits { "file lengths accepted" } else { "file lengths refused" });
        }
        _ => {
            // PE.
            let mut c = Count(0);
            let al = *r.pick(&[0x200u32, 0x1000]);
            let mut w = object::write::pe::Writer::new(is64, 0x1000, al, &mut c);
            w.reserve_dos_header();
            let mut left = huge;
            let mut sum = 64;
            while left > 0 {
                let n = left.min(top / (1 + r.below(4)));
                w.reserve(n as u32, 1);
                left -= n;
                sum += n;
                if r.one_in(20) {
                    break;
                }
            }
            same!(w.reserved_len() as u64, sum, "reserved length");
            let got = w.write_empty_dos_header();
            let fits = sum <= top;
            ensure!(got.is_ok() == fits, "a PE file of {sum:#x} bytes: {got:?}");
            o.hit(if fits { "file lengths accepted" } else { "file lengths refused" });
        }
    }
    o.nontrivial(r.u64());
    o.eval();
    Ok(())
}

/// The numbers in an ELF builder, in the order of the file.
fn elf_facts(b: &mut object::build::elf::Builder<'_>, f: &mut dyn FnMut(String, &mut u64)) {
    use object::build::elf::{Dynamic, SectionData};
    let is64 = b.is_64;
    f("entry".into(), &mut b.header.e_entry);
    for (i, g) in b.segments.iter_mut().enumerate() {
        f(format!("segment {i} vaddr"), &mut g.p_vaddr);
        f(format!("segment {i} paddr"), &mut g.p_paddr);
        f(format!("segment {i} filesz"), &mut g.p_filesz);
        f(format!("segment {i} memsz"), &mut g.p_memsz);
        f(format!("segment {i} align"), &mut g.p_align);
    }
    // Relocations of 32-bit files have small types and addends.
    fn rel(i: usize, k: usize, rela: bool, is64: bool, offset: &mut u64, ty: &mut object::elf::RelocationType, add: &mut i64, f: &mut dyn FnMut(String, &mut u64)) {
        f(format!("section {i} relocation {k} offset"), offset);
        let mut t = ty.0 as u64;
        f(format!("section {i} relocation {k} type"), &mut t);
        ty.0 = t as u32;
        if rela {
            let mut a = if is64 { *add as u64 } else { *add as u32 as u64 };
            let was = a;
            f(format!("section {i} relocation {k} addend"), &mut a);
            if a != was {
                *add = a as i64;
            }
        }
    }
    for (i, s) in b.sections.iter_mut().enumerate() {
        f(format!("section {i} flags"), &mut s.sh_flags.0);
        f(format!("section {i} addr"), &mut s.sh_addr);
        f(format!("section {i} addralign"), &mut s.sh_addralign);
        f(format!("section {i} entsize"), &mut s.sh_entsize);
        let rela = s.sh_type.0 == 4;
        match &mut s.data {
            SectionData::UninitializedData(n) => f(format!("section {i} size"), n),
            SectionData::Relocation(v) => {
                for (k, x) in v.iter_mut().enumerate().take(4) {
                    rel(i, k, rela, is64, &mut x.r_offset, &mut x.r_type, &mut x.r_addend, f);
                }
            }
            SectionData::DynamicRelocation(v) => {
                for (k, x) in v.iter_mut().enumerate().take(4) {
                    rel(i, k, rela, is64, &mut x.r_offset, &mut x.r_type, &mut x.r_addend, f);
                }
            }
            SectionData::Dynamic(v) => {
                for (k, x) in v.iter_mut().enumerate() {
                    if let Dynamic::Integer { val, .. } = x {
                        f(format!("section {i} dynamic {k}"), val);
                    }
                }
            }
            _ => {}
        }
    }
    for (i, y) in b.symbols.iter_mut().enumerate() {
        f(format!("symbol {i} value"), &mut y.st_value);
        f(format!("symbol {i} size"), &mut y.st_size);
    }
    for (i, y) in b.dynamic_symbols.iter_mut().enumerate() {
        f(format!("dynamic symbol {i} value"), &mut y.st_value);
        f(format!("dynamic symbol {i} size"), &mut y.st_size);
    }
}

/// The numbers in a Mach-O builder.
fn macho_facts(b: &mut object::build::macho::Builder<'_>, f: &mut dyn FnMut(String, &mut u64)) {
    for (i, g) in b.segments.iter_mut().enumerate() {
        f(format!("segment {i} vmaddr"), &mut g.vmaddr);
        f(format!("segment {i} vmsize"), &mut g.vmsize);
    }
    for (i, s) in b.sections.iter_mut().enumerate() {
        f(format!("section {i} addr"), &mut s.addr);
        for (k, x) in s.relocations.iter_mut().enumerate().take(4) {
            let mut t = x.r_type.0 as u64;
            f(format!("section {i} relocation {k} type"), &mut t);
            x.r_type.0 = t as u8;
            let mut t = x.r_length as u64;
            f(format!("section {i} relocation {k} length"), &mut t);
            x.r_length = t as u8;
        }
    }
    for (i, y) in b.symbols.iter_mut().enumerate() {
        f(format!("symbol {i} value"), &mut y.n_value);
    }
}

/// Files that the builders write, with one number changed.
fn builders(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    type Facts = Vec<(String, u64)>;
    // The numbers of a file, after changing one of them.
    fn go(is_elf: bool, b: &[u8], change: Option<(usize, u64)>, limit: u64) -> Result<(bool, Facts, Result<Option<Vec<u8>>, String>), String> {
        let mut v: Facts = vec![];
        let mut n = 0;
        let mut f = |name: String, x: &mut u64| {
            if let Some((k, val)) = change {
                if k == n {
                    *x = val;
                }
            }
            n += 1;
            v.push((name, *x));
        };
        let mut s = Small { data: vec![], limit, refused: false };
        let (is64, got) = if is_elf {
            let mut m = okay!(object::build::elf::Builder::read(b), "read");
            elf_facts(&mut m, &mut f);
            (m.is_64, m.write(&mut s).map_err(|e| e.to_string()))
        } else {
            let mut m = okay!(object::build::macho::Builder::read(b), "read");
            macho_facts(&mut m, &mut f);
            (m.is_64, m.write(&mut s).map_err(|e| e.to_string()))
        };
        let got = match got {
            Ok(()) => Ok(Some(s.data)),
            Err(_) if s.refused => Ok(None),
            Err(e) => Err(e),
        };
        Ok((is64, v, got))
    }
    let is_elf = case % 3 > 0;
    let img = if is_elf { checks::elfimg::image(r, r.clone().bool()) } else { checks::machoimg::image(r).1 };
    let limit = 64 << 20;
    let (is64, was, Ok(Some(base))) = go(is_elf, &img, None, limit)? else { return Ok(()) };
    let (_, again, _) = go(is_elf, &base, None, limit)?;
    // What is kept when nothing is changed.
    let keep = |k: usize| was.len() == again.len() && was[k] == again[k];
    for _ in 0..12 {
        let k = r.idx(was.len());
        if !keep(k) {
            continue;
        }
        let name = &was[k].0;
        let bits = match () {
            _ if !is_elf && name.ends_with("type") => 4,
            _ if name.ends_with("length") => 2,
            _ if name.ends_with("type") => if is64 { 32 } else { 8 },
            _ => if is64 { 64 } else { 32 },
        };
        let wide = if !is_elf && bits < 8 { 8 } else if is_elf && name.ends_with("type") { 32 } else { 64 };
        let val = match wide {
            64 => around(r, bits),
            n => around(r, bits.max(2)) & ((1 << n) - 1),
        };
        if val == was[k].1 || (is64 && is_elf && name.ends_with("type") && val > 0xff) {
            continue;
        }
        let (_, want, got) = go(is_elf, &base, Some((k, val)), limit)?;
        let what = format!("{} {} {name} {val:#x}, was {:#x}", if is_elf { "ELF" } else { "Mach-O" }, if is64 { 64 } else { 32 }, was[k].1);
        let class = |s: &str| s.split(' ').filter(|x| x.parse::<u64>().is_err()).collect::<Vec<_>>().join(" ");
        match got {
            Ok(Some(d)) => {
                let fits = fit(val, bits) != No || (is_elf && !is64 && name.ends_with("addend") && i32::try_from(val as i64).is_ok());
                // A number can be of a kind that changes how the rest is read.
                let have = match go(is_elf, &d, None, limit) {
                    Ok((_, have, _)) => have,
                    Err(e) => {
                        ensure!(fits, "{what}: written, and read with {e}");
                        o.hit("other shapes");
                        continue;
                    }
                };
                if have.len() != want.len() {
                    ensure!(fits, "{what}: written, and something else is read");
                    o.hit("other shapes");
                    continue;
                }
                let low = if is64 { val } else { val as u32 as u64 };
                if have[k].1 != want[k].1 && !(name.ends_with("addend") && have[k].1 == low && fits) {
                    // A number that the layout decides is not kept, whatever it is.
                    ensure!(have[k].1 == was[k].1, "{what}: read back as {:#x}", have[k].1);
                    o.hit("decided by the layout");
                    continue;
                }
                ensure!(fits, "{what}: written, although it does not fit");
                o.hit(intern(format!("builder {} {} written", if is_elf { "ELF" } else { "Mach-O" }, class(name))));
            }
            Ok(None) => o.hit("files too big to try"),
            Err(e) => {
                ensure!(fit(val, bits) == No || !["overflow", "too large"].iter().any(|x| e.contains(x)) || is64 || e.contains("File size") || e.contains("Segment size") || e.contains("ddress"), "{what}: refused: {e}");
                o.hit(intern(format!("builder {} {} refused", if is_elf { "ELF" } else { "Mach-O" }, class(name))));
            }
        }
        o.nontrivial(vcore::hash(format!("{}{}{}", class(name), is64, fit(val, bits) == No).as_bytes()));
        o.eval();
    }
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C27",
    rule: "a request that the format has no room for is refused with an error, and everything that is written is exactly what was asked for",
    parts: &[
        Part { name: "objects", quick: 200_000, thorough: 4_000_000, run: objects },
        Part { name: "counts", quick: 30, thorough: 120, run: counts },
        Part { name: "files", quick: 28, thorough: 280, run: files },
        Part { name: "strings", quick: 4, thorough: 24, run: strings },
        Part { name: "writers", quick: 20_000, thorough: 1_000_000, run: writers },
        Part { name: "builders", quick: 6_000, thorough: 200_000, run: builders },
    ],
    required: &[
        "impossible requests refused", "counts written", "counts refused", "section names in base 64", "big files written", "big files refused", "almost big files written",
        "string tables written", "string tables refused", "dynamic entries refused", "file lengths refused", "file lengths accepted", "header counts refused",
    ],
    tools: &[],
    assumptions: &[],
    level: "exploration",
};

fn main() {
    vcore::main(&SPEC)
}

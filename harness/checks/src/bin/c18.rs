//! C18: a relocation that is written means what was requested.
use checks::wobj::{At, MRel, Model, Opts, build, elf_machine, late_refusal, relocation, section, symbol};
use checks::wread::{self, Maps};
use genf::elf_rel::{Cls, ELF_RELS, End};
use genf::strict::{coff, elf, macho, xcoff};
use object::write::Object;
use object::{Architecture as A, BinaryFormat as BF, RelocationEncoding as RE, RelocationFlags as F, RelocationKind as RK, SymbolKind as YK};
use vcore::{Obs, Part, Res, Rng, Spec, ensure, same, some};

/// What a type of relocation computes, by the definition of its format.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Mean {
    kind: &'static str,
    enc: &'static str,
    size: u8,
    /// What the stored addend is, less the effective one.
    bias: i64,
}

fn mean(kind: &'static str, enc: &'static str, size: u8, bias: i64) -> Mean {
    Mean { kind, enc, size, bias }
}

fn elf_meaning(m: &Model, ty: u32) -> Option<Mean> {
    let mach = elf_machine(m.arch);
    // Types of the psABIs which only the writer produces.
    let extra: &[(u16, u32, &'static str, u8)] = &[(40, 5, "Absolute", 16), (40, 3, "Relative", 32), (243, 57, "Relative", 32)];
    if mach == 62 && matches!(ty, 41 | 42) {
        return Some(mean("GotRelative", if ty == 41 { "X86RipRelative" } else { "X86RipRelativeMovq" }, 32, 0));
    }
    if let Some(x) = extra.iter().find(|x| (x.0, x.1) == (mach, ty)) {
        return Some(mean(x.2, "Generic", x.3, 0));
    }
    ELF_RELS
        .iter()
        .find(|x| {
            x.0 == mach
                && x.3 == ty
                && match x.1 {
                    Cls::Any => true,
                    Cls::C32 => !m.is64(),
                    Cls::C64 => m.is64(),
                }
                && match x.2 {
                    End::Both => true,
                    End::Le => !m.be(),
                    End::Be => m.be(),
                }
        })
        .map(|x| mean(x.4, x.5, x.6, 0))
}

/// From the PE/COFF specification.
fn coff_meaning(a: A, ty: u16) -> Option<Mean> {
    let g = |k, s, b| Some(mean(k, "Generic", s, b));
    match (a, ty) {
        (A::X86_64, 1) => g("Absolute", 64, 0),
        (A::X86_64, 2) => g("Absolute", 32, 0),
        (A::X86_64, 3) => g("ImageOffset", 32, 0),
        (A::X86_64, 4..=9) => g("Relative", 32, ty as i64),
        (A::X86_64, 10) => g("SectionIndex", 16, 0),
        (A::X86_64, 11) => g("SectionOffset", 32, 0),
        (A::X86_64, 12) => g("SectionOffset", 7, 0),
        (A::X86_64, 13) => g("Token", 32, 0),
        (A::I386, 1) => g("Absolute", 16, 0),
        // Documentation doesn't say what this is relative to.
        (A::I386, 2) => g("Relative", 16, 0),
        (A::I386, 6) => g("Absolute", 32, 0),
        (A::I386, 7) => g("ImageOffset", 32, 0),
        (A::I386, 10) => g("SectionIndex", 16, 0),
        (A::I386, 11) => g("SectionOffset", 32, 0),
        (A::I386, 12) => g("Token", 32, 0),
        (A::I386, 13) => g("SectionOffset", 7, 0),
        (A::I386, 20) => g("Relative", 32, 4),
        (A::Arm, 1) => g("Absolute", 32, 0),
        (A::Arm, 2) => g("ImageOffset", 32, 0),
        (A::Arm, 5) => g("Token", 32, 0),
        (A::Arm, 10) => g("Relative", 32, 4),
        (A::Arm, 14) => g("SectionIndex", 16, 0),
        (A::Arm, 15) => g("SectionOffset", 32, 0),
        (A::Aarch64, 1) => g("Absolute", 32, 0),
        (A::Aarch64, 2) => g("ImageOffset", 32, 0),
        (A::Aarch64, 3) => Some(mean("Relative", "AArch64Call", 26, 0)),
        (A::Aarch64, 8) => g("SectionOffset", 32, 0),
        (A::Aarch64, 12) => g("Token", 32, 0),
        (A::Aarch64, 13) => g("SectionIndex", 16, 0),
        (A::Aarch64, 14) => g("Absolute", 64, 0),
        (A::Aarch64, 17) => g("Relative", 32, 4),
        _ => None,
    }
}

/// From mach-o/x86_64/reloc.h, mach-o/arm64/reloc.h and mach-o/reloc.h.
fn macho_meaning(a: A, x: &macho::Rel) -> Option<Mean> {
    let bits = 8u8 << x.len;
    let pc = 1i64 << x.len;
    match a {
        A::X86_64 => Some(match (x.ty, x.pcrel) {
            (0, false) => mean("Absolute", "Generic", bits, 0),
            (1, true) => mean("Relative", "X86RipRelative", bits, pc),
            (2, true) => mean("Relative", "X86Branch", bits, pc),
            (3, true) => mean("GotRelative", "X86RipRelativeMovq", bits, pc),
            (4, true) => mean("GotRelative", "Generic", bits, pc),
            // The place is followed by an immediate, which is part of the stored addend.
            (6..=8, true) => mean("Relative", "X86RipRelative", bits, pc),
            (9, true) => mean("TlvRelative", "Generic", bits, pc),
            _ => return None,
        }),
        A::Aarch64 | A::Aarch64_Ilp32 => Some(match (x.ty, x.pcrel) {
            (0, false) => mean("Absolute", "Generic", bits, 0),
            (2, true) => mean("Branch", "AArch64Call", bits, 0),
            (3, true) | (4, false) => mean("Page", "Page", bits, 0),
            (7, true) => mean("GotRelative", "Generic", bits, 0),
            _ => return None,
        }),
        A::I386 | A::Arm | A::PowerPc | A::PowerPc64 => Some(match (x.ty, x.pcrel) {
            (0, false) => mean("Absolute", "Generic", bits, 0),
            _ => return None,
        }),
        _ => None,
    }
}

fn xcoff_meaning(x: &xcoff::Rel) -> Option<Mean> {
    let size = (x.rsize & 0x3f) + 1;
    Some(match x.rtype {
        0 => mean("Absolute", "Generic", size, 0),
        2 => mean("Relative", "Generic", size, 4),
        3 => mean("Got", "Generic", size, 0),
        _ => return None,
    })
}

/// Encodings that say how the value is put into the field.
fn placed(e: &str) -> bool {
    matches!(e, "X86Signed" | "S390xDbl" | "LoongArchBranch" | "AArch64Call" | "SharcTypeA" | "SharcTypeB" | "E2KLit" | "E2KDisp")
}

/// Whether a relocation of this meaning is what was asked for.
fn fits(m: &Model, kind: RK, enc: RE, size: u8, got: &Mean) -> bool {
    let (k, e) = (format!("{kind:?}"), format!("{enc:?}"));
    let k = match (m.fmt, &k[..]) {
        // A reference to a function needs nothing special in COFF, and the GOT is a stub.
        (BF::Coff, "PltRelative" | "GotRelative") => "Relative",
        // A call reaches the function itself or its stub, as the linker sees fit.
        (BF::MachO, "Relative" | "PltRelative") if got.kind == "Branch" => "Branch",
        (BF::MachO, "PltRelative") if got.enc == "X86Branch" => "Relative",
        (BF::Elf, "Relative" | "PltRelative") if matches!(got.enc, "AArch64Call" | "LoongArchBranch" | "X86Branch") => got.kind,
        (_, k) => k,
    };
    if k != got.kind {
        return false;
    }
    if k == "Branch" {
        return (size == 26 || size == 32) && (e == "AArch64Call" || (e == "Generic" && matches!(kind, RK::PltRelative)));
    }
    if k == "None" {
        return true;
    }
    if size != got.size {
        return false;
    }
    match m.fmt {
        // These have no types for how a value is put into a field.
        BF::Xcoff => return true,
        BF::Coff => return !placed(got.enc) || e == got.enc,
        BF::MachO if !matches!(m.arch, A::X86_64 | A::Aarch64 | A::Aarch64_Ilp32) => return true,
        _ => {}
    }
    // An encoding that means nothing for this kind and size on the machine is ignored.
    let known = ELF_RELS.iter().any(|x| m.fmt == BF::Elf && x.0 == elf_machine(m.arch) && x.5 == e && x.6 == size && (x.4 == k || (k == "PltRelative" && x.4 == "Relative")));
    if placed(got.enc) || (placed(&e) && known) || (placed(&e) && m.fmt == BF::MachO) {
        return e == got.enc || (e == "Generic" && matches!(kind, RK::PltRelative) && got.enc == "AArch64Call");
    }
    // What the linker may do with the instruction around the field.
    match got.enc {
        "X86RipRelative" if k == "GotRelative" => e == got.enc,
        "X86RipRelative" => e != "X86Branch",
        "X86RipRelativeMovq" => e == got.enc,
        "X86Branch" => e == "X86Branch" || matches!(kind, RK::PltRelative),
        _ => true,
    }
}

/// The place with a stored addend in it.
fn field(m: &Model, size: u8, v: i64, before: &[u8]) -> Vec<u8> {
    let mut w = before.to_vec();
    let n = size as usize / 8;
    for i in 0..n {
        w[if m.be() { n - 1 - i } else { i }] = (v >> (8 * i)) as u8;
    }
    w
}

/// Checks the bytes of the place for an implicit addend.
fn stored(m: &Model, x: &MRel, got: &Mean, now: &[u8], extra: i64, t: &str, o: &mut Obs) -> Res {
    let v = x.addend as i128 + got.bias as i128 + extra as i128;
    if v == 0 {
        // The bytes there already are an addend of their own.
        let zero = if got.size % 8 == 0 { field(m, got.size, 0, &x.before) } else { x.before.clone() };
        ensure!(now == x.before || now == zero, "{t}: bytes {now:x?} for a stored addend of 0, before {:x?}", x.before);
        o.hit("stored addend 0");
        return Ok(());
    }
    ensure!(got.size % 8 == 0 && got.size > 0, "{t}: an addend in {} bits was accepted", got.size);
    let bits = got.size as u32;
    ensure!(v >= -(1i128 << (bits - 1)) && v < 1i128 << bits, "{t}: stored addend {v:#x} doesn't fit in {bits} bits");
    same!(now, &field(m, got.size, v as i64, &x.before)[..], "{t}: bytes for a stored addend of {v:#x}, before {:x?}", x.before);
    o.hit("implicit addend");
    Ok(())
}

fn describe(m: &Model, x: &MRel) -> String {
    format!("{:?} {:?} relocation {:?} at {:#x} addend {:#x}", m.fmt, m.arch, x.flags, x.offset, x.addend)
}

fn note(m: &Model, x: &MRel, o: &mut Obs) {
    o.hit(match m.fmt {
        BF::Elf => "ELF",
        BF::Coff => "COFF",
        BF::MachO => "Mach-O",
        _ => "XCOFF",
    });
    match x.flags {
        F::Generic { kind, .. } => o.hit(match kind {
            RK::Absolute => "absolute",
            RK::Relative => "relative",
            RK::Got | RK::GotRelative | RK::GotBaseRelative | RK::GotBaseOffset => "GOT",
            RK::PltRelative => "PLT",
            RK::ImageOffset => "image offset",
            RK::SectionOffset => "section offset",
            RK::SectionIndex => "section index",
            RK::None => "none",
            _ => "other",
        }),
        _ => o.hit("explicit type"),
    }
}

/// The relocations of a section of the model, by place.
fn by_place(m: &Model, i: usize) -> Vec<&MRel> {
    let mut v: Vec<&MRel> = m.rels.iter().filter(|x| x.sec == i).collect();
    v.sort_by_key(|x| x.offset);
    v
}

fn generic(x: &MRel) -> Option<(RK, RE, u8)> {
    if let F::Generic { kind, encoding, size } = x.flags { Some((kind, encoding, size)) } else { None }
}

/// The bytes of the place, as many as the model has.
fn place<'a>(data: &'a [u8], x: &MRel, t: &str) -> Result<&'a [u8], String> {
    data.get(x.offset as usize..x.offset as usize + x.before.len()).ok_or_else(|| format!("{t}: place outside the section"))
}

fn elf(m: &Model, b: &[u8], map: &Maps, o: &mut Obs) -> Res {
    let f = elf::parse(b)?;
    for i in 0..m.secs.len() {
        let want = by_place(m, i);
        let n = map.sec[i] as usize;
        let at = (1..f.sh.len()).find(|&k| matches!(f.sh[k].ty, 4 | 9) && f.sh[k].info as usize == n);
        let mut have = match at {
            Some(k) => f.rels(k)?,
            None => vec![],
        };
        have.sort_by_key(|x| x.offset);
        same!(have.len(), want.len(), "number of relocations");
        let data = f.data(n)?;
        for (x, h) in want.into_iter().zip(&have) {
            let t = describe(m, x);
            note(m, x, o);
            same!(h.offset, x.offset, "{t}: place");
            same!(h.sym, some!(map.sym[x.sym], "{t}: symbol isn't written"), "{t}: symbol {:?}", m.syms[x.sym]);
            let got = elf_meaning(m, h.ty);
            match (generic(x), x.flags) {
                (Some((k, e, s)), _) => {
                    let g = some!(got, "{t}: type {:#x} has none of the generic meanings", h.ty);
                    ensure!(fits(m, k, e, s, &g), "{t}: type {:#x} means {g:?}", h.ty);
                }
                (_, F::Elf { r_type }) => same!(h.ty, r_type.0, "{t}: type"),
                _ => unreachable!(),
            }
            let now = place(data, x, &t)?;
            match h.addend {
                Some(a) => {
                    // Addresses of 32 bits wrap.
                    ensure!(a == x.addend || (!m.is64() && a as u32 as i64 == x.addend), "{t}: addend {a:#x}");
                    same!(now, &x.before[..], "{t}: bytes at the place");
                    o.hit("explicit addend");
                }
                None => match got {
                    Some(g) => stored(m, x, &g, now, 0, &t, o)?,
                    None => {
                        ensure!(x.addend == 0, "{t}: an addend for a type of unknown size was accepted");
                        same!(now, &x.before[..], "{t}: bytes at the place");
                        o.hit("type of unknown meaning");
                    }
                },
            }
        }
    }
    Ok(())
}

fn coff(m: &Model, b: &[u8], map: &Maps, o: &mut Obs) -> Res {
    let f = coff::parse(b)?;
    for i in 0..m.secs.len() {
        let want = by_place(m, i);
        let s = &f.secs[map.sec[i] as usize - 1];
        let mut have = s.relocs.clone();
        have.sort_by_key(|x| x.0);
        same!(have.len(), want.len(), "number of relocations");
        let data = if m.secs[i].bss { &[][..] } else { &b[s.offset as usize..s.offset as usize + s.size as usize] };
        for (x, h) in want.into_iter().zip(&have) {
            let t = describe(m, x);
            note(m, x, o);
            same!(h.0 as u64, x.offset, "{t}: place");
            same!(h.1, some!(map.sym[x.sym], "{t}: symbol isn't written"), "{t}: symbol {:?}", m.syms[x.sym]);
            let got = coff_meaning(m.arch, h.2);
            match (generic(x), x.flags) {
                (Some((k, e, s)), _) => {
                    let g = some!(got, "{t}: type {:#x} has none of the generic meanings", h.2);
                    ensure!(fits(m, k, e, s, &g), "{t}: type {:#x} means {g:?}", h.2);
                    if matches!(k, RK::GotRelative) {
                        o.hit("stub");
                    }
                }
                (_, F::Coff { typ }) => same!(h.2, typ.0, "{t}: type"),
                _ => unreachable!(),
            }
            let now = place(data, x, &t)?;
            match got {
                Some(g) => stored(m, x, &g, now, 0, &t, o)?,
                None => o.hit("type of unknown meaning"),
            }
        }
    }
    Ok(())
}

/// `strict`: also demand the addresses of target sections, the known finding.
fn macho(m: &Model, b: &[u8], map: &Maps, strict: bool, o: &mut Obs) -> Res {
    let f = macho::parse(b)?;
    let arm = matches!(m.arch, A::Aarch64 | A::Aarch64_Ilp32);
    for i in 0..m.secs.len() {
        let want = by_place(m, i);
        let s = &f.secs[map.sec[i] as usize - 1];
        let data = if m.secs[i].bss { &[][..] } else { &b[s.offset as usize..s.offset as usize + s.size as usize] };
        let mut used = 0;
        for x in want {
            let t = describe(m, x);
            note(m, x, o);
            let mut have: Vec<&macho::Rel> = s.relocs.iter().filter(|h| (x.offset..x.offset + x.before.len() as u64).contains(&(h.addr as u64))).collect();
            used += have.len();
            ensure!(have.iter().all(|h| h.addr as u64 == x.offset), "{t}: place of {have:?}");
            let h = some!(have.pop(), "{t}: missing");
            // What comes before the relocation proper.
            let mut sub = x.sub;
            let mut delta = 0i64;
            let mut explicit = None;
            let difference = arm && matches!(generic(x), Some((RK::Relative, RE::Generic, _)));
            if difference {
                // The difference from the start of the section, and the rest in the addend.
                sub = m.syms.iter().position(|y| y.kind == YK::Section && y.at == At::Sec(i));
                ensure!(sub.is_some(), "{t}: no symbol for the section");
                delta = -(x.offset as i64);
            }
            while let Some(p) = have.pop() {
                if p.ty == if arm { 1 } else { 5 } && sub.is_some() {
                    same!((p.len, p.pcrel), (h.len, false), "{t}: subtractor {p:?}");
                    let k = sub.take().unwrap();
                    who(m, map, k, p, &format!("{t}: subtractor"))?;
                    o.hit("difference");
                } else if arm && p.ty == 10 && explicit.is_none() {
                    ensure!(!p.ext && !p.pcrel && p.len == h.len, "{t}: explicit addend {p:?}");
                    ensure!(matches!(h.ty, 2..=4), "{t}: explicit addend for type {}", h.ty);
                    explicit = Some(((p.num << 8) as i32 >> 8) as i64);
                } else {
                    return Err(format!("{t}: unexpected {p:?}"));
                }
            }
            ensure!(sub.is_none(), "{t}: no subtractor");
            who(m, map, x.sym, h, &t)?;
            let got = macho_meaning(m.arch, h);
            match (generic(x), x.flags) {
                (Some((_, _, s)), _) if difference => {
                    let g = some!(got, "{t}: {h:?} has none of the generic meanings");
                    ensure!(g.kind == "Absolute" && g.size == s, "{t}: {h:?} means {g:?}");
                }
                (Some((k, e, s)), _) => {
                    let g = some!(got, "{t}: {h:?} has none of the generic meanings");
                    ensure!(fits(m, k, e, s, &g), "{t}: {h:?} means {g:?}");
                }
                (_, F::MachO { r_type, r_pcrel, r_length }) => same!((h.ty, h.pcrel, h.len), (r_type.0, r_pcrel, r_length), "{t}: type"),
                _ => unreachable!(),
            }
            let now = place(data, x, &t)?;
            let Some(g) = got else {
                o.hit("type of unknown meaning");
                continue;
            };
            if arm && matches!(h.ty, 2..=4) {
                same!(explicit.unwrap_or(0), x.addend, "{t}: addend");
                same!(now, &x.before[..], "{t}: bytes at the place");
                o.hit("explicit addend");
                continue;
            }
            ensure!(explicit.is_none(), "{t}: an explicit addend for {h:?}");
            if h.ext || !strict {
                stored(m, x, &g, now, delta, &t, o)?;
            } else {
                // Without a symbol the field holds the address itself.
                let mut base = f.secs[h.num as usize - 1].addr as i64;
                if h.pcrel {
                    base -= s.addr as i64 + x.offset as i64;
                }
                if stored(m, x, &g, now, base, &t, o).is_err() {
                    stored(m, x, &g, now, 0, &t, o)?;
                    return Err(format!("[macho-section-address] {t}: the field doesn't include the address of the section {base:#x}"));
                }
            }
        }
        same!(used, s.relocs.len(), "number of relocations");
    }
    Ok(())
}

fn who(m: &Model, map: &Maps, k: usize, h: &macho::Rel, t: &str) -> Res {
    let y = &m.syms[k];
    match (map.sym[k], y.kind, y.at) {
        (Some(n), _, _) if h.ext => same!(h.num, n, "{t}: symbol {y:?}"),
        (_, YK::Section, At::Sec(i)) => same!((h.num, h.ext), (map.sec[i], false), "{t}: section {y:?}"),
        _ => return Err(format!("{t}: symbol {y:?} given as {h:?}")),
    }
    Ok(())
}

fn xcoff(m: &Model, b: &[u8], map: &Maps, o: &mut Obs) -> Res {
    let f = xcoff::parse(b)?;
    for i in 0..m.secs.len() {
        let want = by_place(m, i);
        let s = &f.secs[map.sec[i] as usize - 1];
        let mut have = s.relocs.clone();
        have.sort_by_key(|x| x.vaddr);
        same!(have.len(), want.len(), "number of relocations");
        let data = if m.secs[i].bss { &[][..] } else { &b[s.offset as usize..s.offset as usize + s.size as usize] };
        for (x, h) in want.into_iter().zip(&have) {
            let t = describe(m, x);
            note(m, x, o);
            same!(h.vaddr, s.vaddr + x.offset, "{t}: place");
            same!(h.sym, some!(map.sym[x.sym], "{t}: symbol isn't written"), "{t}: symbol {:?}", m.syms[x.sym]);
            let got = xcoff_meaning(h);
            match (generic(x), x.flags) {
                (Some((k, e, s)), _) => {
                    let g = some!(got, "{t}: type {:#x} has none of the generic meanings", h.rtype);
                    ensure!(fits(m, k, e, s, &g) && h.rsize & 0xc0 == 0, "{t}: type {:#x} size {:#x} means {g:?}", h.rtype, h.rsize);
                }
                (_, F::Xcoff { r_rtype, r_rsize }) => same!((h.rtype, h.rsize), (r_rtype.0, r_rsize), "{t}: type"),
                _ => unreachable!(),
            }
            let now = place(data, x, &t)?;
            let g = got.unwrap_or(mean("?", "Generic", (h.rsize & 0x3f) + 1, 0));
            stored(m, x, &g, now, 0, &t, o)?;
        }
    }
    Ok(())
}

fn check(b: &Object, m: &Model, strict: bool, o: &mut Obs) -> Res {
    let bytes = match b.write() {
        Ok(v) => v,
        Err(e) => {
            let e = e.to_string();
            ensure!(late_refusal(m), "refused: {e}");
            o.hit("refused late");
            return Ok(());
        }
    };
    o.input("file", &bytes);
    let map = wread::any(m, &bytes)?;
    match m.fmt {
        BF::Elf => elf(m, &bytes, &map, o)?,
        BF::Coff => coff(m, &bytes, &map, o)?,
        BF::MachO => macho(m, &bytes, &map, strict, o)?,
        _ => xcoff(m, &bytes, &map, o)?,
    }
    if !m.rels.is_empty() {
        o.nontrivial(vcore::hash(&bytes));
    }
    Ok(())
}

fn random(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (b, m) = build(r, &Opts { relocs: true, ..Opts::default() });
    o.add("refused at once", m.refused);
    check(&b, &m, false, o)
}

/// A few sections and symbols, and many relocations.
fn dense(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut b, mut m) = build(r, &Opts { relocs: false, sections: 3, symbols: 6, ..Opts::default() });
    for _ in 0..2 {
        let i = section(r, &mut b, &mut m);
        if !m.secs[i].bss {
            let d = if r.bool() { vec![0; 400] } else { r.bytes(400) };
            let at = b.append_section_data(m.sid(i), &d, 8);
            let s = &mut m.secs[i];
            s.data.resize(at as usize, 0);
            s.data.extend(d);
            s.size = s.data.len() as u64;
            s.align = s.align.max(8);
        }
    }
    symbol(r, &mut b, &mut m);
    for _ in 0..80 {
        relocation(r, &mut b, &mut m);
    }
    o.add("refused at once", m.refused);
    check(&b, &m, false, o)
}

/// Mach-O relocations that refer to a section by its number.
fn sections(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut b, mut m) = loop {
        let (b, m) = build(r, &Opts { relocs: false, sections: 3, symbols: 0, fmt: Some(BF::MachO), ..Opts::default() });
        if matches!(m.arch, A::X86_64 | A::I386 | A::Arm | A::PowerPc) && m.secs.len() > 1 && m.secs.iter().any(|s| s.data.len() >= 64) {
            break (b, m);
        }
    };
    for _ in 0..20 {
        relocation(r, &mut b, &mut m);
    }
    let _ = case;
    check(&b, &m, true, o)
}

/// One line for each target: what relocations can be asked for, and with which addends.
const ACCEPTED: &str = include_str!("../accepted.txt");

const KINDS: &[RK] = &[
    RK::None, RK::Absolute, RK::Relative, RK::Got, RK::GotRelative, RK::GotBaseRelative, RK::GotBaseOffset, RK::PltRelative, RK::ImageOffset, RK::SectionOffset, RK::SectionIndex,
];
const ENCS: &[RE] = &[
    RE::Generic, RE::X86Signed, RE::X86RipRelative, RE::X86RipRelativeMovq, RE::X86Branch, RE::S390xDbl, RE::AArch64Call, RE::LoongArchBranch, RE::SharcTypeA, RE::SharcTypeB,
    RE::E2KLit, RE::E2KDisp,
];
const ADDENDS: [i64; 5] = [0, -4, 1, 0x7ff0, -0x7fff_fff0];

type Target = (BF, A, Option<object::SubArchitecture>, object::Endianness);

fn targets() -> Vec<Target> {
    use object::{Endianness::*, SubArchitecture as S};
    let mut v: Vec<Target> = vec![];
    for &a in checks::wobj::ELF_ARCHS {
        for e in [Little, Big] {
            v.push((BF::Elf, a, None, e));
        }
    }
    for a in [A::Aarch64, A::Arm, A::I386, A::X86_64] {
        v.push((BF::Coff, a, None, Little));
    }
    v.push((BF::Coff, A::Aarch64, Some(S::Arm64EC), Little));
    for (a, e) in [(A::Aarch64, Little), (A::Aarch64_Ilp32, Little), (A::Arm, Little), (A::I386, Little), (A::X86_64, Little), (A::PowerPc, Big), (A::PowerPc64, Big)] {
        v.push((BF::MachO, a, None, e));
    }
    v.push((BF::MachO, A::Aarch64, Some(S::Arm64E), Little));
    v.push((BF::Xcoff, A::PowerPc, None, Big));
    v.push((BF::Xcoff, A::PowerPc64, None, Big));
    v
}

/// Everything that could be asked for.
fn requests(f: BF) -> Vec<F> {
    let mut v = vec![];
    for &kind in KINDS {
        for &encoding in ENCS {
            for size in 0..=64 {
                v.push(F::Generic { kind, encoding, size });
            }
        }
    }
    match f {
        BF::Elf => v.extend((0..=260).map(|t| F::Elf { r_type: object::elf::RelocationType(t) })),
        BF::Coff => v.extend((0..=40).map(|t| F::Coff { typ: object::pe::RelocationType(t) })),
        BF::MachO => v.extend((0..16 * 8).map(|t| F::MachO { r_type: object::macho::RelocationType(t >> 3), r_pcrel: t & 4 != 0, r_length: t & 3 })),
        _ => v.extend((0..=0x31).flat_map(|t| [7, 15, 25, 31, 63, 0x9f].map(|s| F::Xcoff { r_rtype: object::xcoff::RelocationType(t), r_rsize: s }))),
    }
    v
}

/// Which of the addends are accepted, as bits.
fn accepts(t: &Target, flags: F) -> Result<u32, String> {
    let mut mask = 0;
    for (k, addend) in ADDENDS.into_iter().enumerate() {
        let mut b = Object::new(t.0, t.1, t.3);
        b.set_sub_architecture(t.2);
        let s = b.section_id(object::write::StandardSection::Data);
        b.append_section_data(s, &[0; 32], 8);
        let symbol = b.add_symbol(object::write::Symbol {
            name: b"x".to_vec(),
            value: 0,
            size: 0,
            kind: YK::Data,
            scope: object::SymbolScope::Dynamic,
            weak: false,
            section: object::write::SymbolSection::Undefined,
            flags: object::SymbolFlags::None,
        });
        if b.add_relocation(s, object::write::Relocation { offset: 8, symbol, addend, flags }).is_ok() {
            if b.write().is_ok() {
                mask |= 1 << k;
            }
        }
    }
    Ok(mask)
}

fn target_name(t: &Target) -> String {
    format!("{:?}/{:?}/{:?}/{:?}", t.0, t.1, t.2, t.3)
}

fn flags_name(f: &F) -> String {
    match *f {
        F::Generic { kind, encoding, size } => format!("{kind:?}/{encoding:?}/{size}"),
        F::Elf { r_type } => format!("{}", r_type.0),
        F::Coff { typ } => format!("{}", typ.0),
        F::MachO { r_type, r_pcrel, r_length } => format!("{}/{}/{r_length}", r_type.0, r_pcrel as u8),
        F::Xcoff { r_rtype, r_rsize } => format!("{}/{r_rsize}", r_rtype.0),
        _ => unreachable!(),
    }
}

/// Whether the encoding says anything for this kind and size.
fn telling(t: &Target, f: &F) -> bool {
    let F::Generic { kind, encoding, size } = *f else { return true };
    let (k, e) = (format!("{kind:?}"), format!("{encoding:?}"));
    match (encoding, t.0) {
        (RE::Generic, _) => true,
        (_, BF::Elf) => ELF_RELS.iter().any(|x| x.0 == elf_machine(t.1) && x.4 == k && x.5 == e && x.6 == size),
        (RE::AArch64Call, _) => matches!(t.1, A::Aarch64 | A::Aarch64_Ilp32) && size == 26,
        (RE::X86RipRelative | RE::X86RipRelativeMovq | RE::X86Branch, _) => t.1 == A::X86_64 && size == 32,
        _ => false,
    }
}

fn dump() {
    for t in targets() {
        print!("{}", target_name(&t));
        for f in requests(t.0).iter().filter(|f| telling(&t, f)) {
            let m = accepts(&t, *f).unwrap();
            if m != 0 {
                print!(" {}={m}", flags_name(f));
            }
        }
        println!();
    }
}

/// What a format has a type for can be asked for.
fn accepted(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let all = targets();
    let t = all[case as usize % all.len()];
    let line = some!(ACCEPTED.lines().find(|l| l.split(' ').next() == Some(&target_name(&t)[..])), "no line for {t:?}");
    let want: std::collections::BTreeMap<&str, u32> = line.split(' ').skip(1).filter_map(|w| w.split_once('=')).map(|(n, m)| (n, m.parse().unwrap())).collect();
    let reqs = requests(t.0);
    let first = case < all.len() as u64;
    for f in reqs.iter().filter(|f| telling(&t, f)) {
        let Some(&w) = want.get(&flags_name(f)[..]) else { continue };
        if !first && !r.one_in(4) {
            continue;
        }
        let m = accepts(&t, *f)?;
        for (k, a) in ADDENDS.iter().enumerate() {
            ensure!(w & !m & 1 << k == 0, "{t:?}: {f:?} addend {a:#x} was refused");
        }
        o.hit("can be asked for");
    }
    o.nontrivial(case);
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C18",
    rule: "each relocation accepted is in the file, with the meaning requested",
    parts: &[Part { name: "random", quick: 500_000, thorough: 20_000_000, run: random }, Part { name: "dense", quick: 200_000, thorough: 10_000_000, run: dense }, Part { name: "sections", quick: 200, thorough: 200, run: sections }, Part { name: "accepted", quick: 89, thorough: 2_000, run: accepted }],
    required: &[
        "ELF", "COFF", "Mach-O", "XCOFF", "absolute", "relative", "GOT", "PLT", "image offset", "section offset", "section index", "none", "explicit type", "implicit addend",
        "explicit addend", "stored addend 0", "difference", "stub", "can be asked for", "refused at once", "refused late",
    ],
    tools: &[],
    assumptions: &["implicit addends are added to nothing: the bytes of the place count as an addend only when the addend given is stored as 0"],
    level: "exploration",
};
#[allow(dead_code)]
fn main() {
    if std::env::args().nth(1).as_deref() == Some("--dump") {
        return dump();
    }
    vcore::main(&SPEC)
}

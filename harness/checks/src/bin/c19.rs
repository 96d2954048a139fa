//! C19: everything the object writer emits is structurally valid.
use checks::wobj::{Model, Opts, build, late_refusal, relocation, section, symbol};
use genf::strict::{coff, elf, macho, xcoff};
use object::write::{Comdat, Object, Relocation, StandardSection, Symbol, SymbolId, SymbolSection};
use object::{
    Architecture as A, BinaryFormat as BF, ComdatKind, Endianness, RelocationEncoding as RE, RelocationFlags as F, RelocationKind as RK, SectionKind as SK, SymbolFlags,
    SymbolKind as YK, SymbolScope as SC,
};
use vcore::{Obs, Part, Res, Rng, Spec, ensure, okay, same};

/// What the strict parser of a format found.
fn valid(fmt: BF, b: &[u8], o: &mut Obs) -> Res {
    match fmt {
        BF::Elf => {
            let f = elf::parse(b)?;
            o.add("ELF rules", f.check(b, true)?);
            let sym = f.find(elf::SHT_SYMTAB);
            for (i, s) in f.sh.iter().enumerate() {
                let at = |e: &str| format!("section {i} {:?}: {e}", String::from_utf8_lossy(&s.name));
                match s.ty {
                    2 => {
                        ensure!(s.name == b".symtab" && f.sh[s.link as usize].name == b".strtab", "{}", at("name of the symbol table"));
                        o.add("ELF symbols", f.syms(i)?.len() as u64);
                    }
                    4 | 9 => {
                        let mut n = if s.ty == 4 { b".rela".to_vec() } else { b".rel".to_vec() };
                        n.extend(&f.sh[s.info as usize].name);
                        ensure!(s.name == n, "{}", at("name of a relocation section"));
                        same!(Some(s.link as usize), sym, "{}", at("symbol table"));
                        ensure!(!matches!(f.sh[s.info as usize].ty, 0 | 2 | 3 | 4 | 9 | 17 | 18), "{}", at("target"));
                        // One for each section.
                        ensure!(!f.sh[i + 1..].iter().any(|t| matches!(t.ty, 4 | 9) && t.info == s.info), "{}", at("two relocation sections"));
                        o.add("ELF relocations", f.rels(i)?.len() as u64);
                    }
                    17 => {
                        let (_, v) = f.group(i)?;
                        for k in v {
                            ensure!(f.sh[k as usize].flags & 0x200 != 0, "{}", at("a member without SHF_GROUP"));
                        }
                        o.hit("ELF groups");
                    }
                    _ => {}
                }
                if f.sh.len() < 500 {
                    let member = f.sh.iter().enumerate().filter(|(_, t)| t.ty == 17).filter(|(g, _)| f.group(*g).is_ok_and(|v| v.1.contains(&(i as u32)))).count();
                    ensure!(member < 2 && (s.flags & 0x200 == 0 || member == 1 || matches!(s.ty, 4 | 9)), "{}", at("group membership"));
                }
            }
            o.hit("ELF");
        }
        BF::Coff => {
            let f = coff::parse(b)?;
            o.add("COFF symbols", f.syms.len() as u64);
            o.add("COFF relocations", f.secs.iter().map(|s| s.relocs.len() as u64).sum());
            o.hit("COFF");
        }
        BF::MachO => {
            let f = macho::parse(b)?;
            o.add("Mach-O symbols", f.syms.len() as u64);
            o.add("Mach-O relocations", f.secs.iter().map(|s| s.relocs.len() as u64).sum());
            // Relocation pairs come together, at one place.
            for s in &f.secs {
                let mut it = s.relocs.iter();
                while let Some(x) = it.next() {
                    let arm = matches!(f.cputype, 0x0100_000c | 0x0200_000c);
                    if arm && x.ty == 10 {
                        let y = it.next().ok_or("an addend at the end")?;
                        ensure!(y.addr == x.addr && matches!(y.ty, 2..=4), "after an addend: {y:?}");
                    }
                }
            }
            o.hit("Mach-O");
        }
        _ => {
            let f = xcoff::parse(b)?;
            o.add("XCOFF symbols", f.syms.len() as u64);
            o.add("XCOFF relocations", f.secs.iter().map(|s| s.relocs.len() as u64).sum());
            for y in &f.syms {
                if y.sec > 0 && matches!(y.class, 2 | 107 | 111) {
                    let s = &f.secs[y.sec as usize - 1];
                    ensure!(y.value >= s.vaddr, "symbol {} at {:#x} before its section at {:#x}", y.index, y.value, s.vaddr);
                }
            }
            o.hit("XCOFF");
        }
    }
    Ok(())
}

fn finish(b: &Object, m: &Model, o: &mut Obs) -> Res {
    let bytes = match b.write() {
        Ok(v) => v,
        Err(e) => {
            let e = e.to_string();
            ensure!(late_refusal(m), "refused: {e}");
            o.hit("refused");
            return Ok(());
        }
    };
    o.input("file", &bytes);
    valid(m.fmt, &bytes, o)?;
    if m.fmt == BF::Xcoff {
        // What has an address has a place of its own.
        let f = xcoff::parse(&bytes)?;
        let own = |s: &xcoff::Sec| m.secs.iter().any(|x| x.name == s.name && matches!(x.kind, SK::Text | SK::Data | SK::UninitializedData)) && m.secs.iter().filter(|x| x.name == s.name).count() == 1;
        let mut v: Vec<(u64, u64)> = f.secs.iter().filter(|s| s.size != 0 && own(s)).map(|s| (s.vaddr, s.size)).collect();
        v.sort_unstable();
        for w in v.windows(2) {
            ensure!(w[0].0 + w[0].1 <= w[1].0, "sections overlap in addresses: {w:x?}");
            o.hit("XCOFF addresses");
        }
    }
    if m.secs.len() + m.syms.len() > 0 {
        o.nontrivial(vcore::hash(&bytes));
    }
    Ok(())
}

fn random(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut b, mut m) = build(r, &Opts { relocs: true, ..Opts::default() });
    if r.bool() {
        for _ in 0..r.below(30) {
            relocation(r, &mut b, &mut m);
        }
    }
    finish(&b, &m, o)
}

/// Hundreds of sections and symbols.
fn wide(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut b, mut m) = build(r, &Opts { relocs: false, ..Opts::default() });
    let n = r.below(if m.fmt == BF::MachO { 200 } else { 400 });
    for _ in 0..n {
        section(r, &mut b, &mut m);
    }
    for _ in 0..r.below(1500) {
        symbol(r, &mut b, &mut m);
    }
    for _ in 0..r.below(300) {
        relocation(r, &mut b, &mut m);
    }
    finish(&b, &m, o)
}

fn sym(name: Vec<u8>, section: SymbolSection, scope: SC) -> Symbol {
    Symbol { name, value: 0, size: 4, kind: YK::Data, scope, weak: false, section, flags: SymbolFlags::None }
}

/// Counts around the places where numbering changes.
fn large(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let abs = |size| F::Generic { kind: RK::Absolute, encoding: RE::Generic, size };
    match case % 6 {
        0 => {
            // ELF section indices in and above the reserved range.
            let (a, n) = (*r.pick(&[A::X86_64, A::I386, A::PowerPc64, A::Mips]), *r.pick(&[0xfee0u64, 0xfef8, 0xfefc, 0xfefe, 0xff00, 0xff10, 0x10010, 0x10100]));
            let n = n + r.below(12);
            let mut b = Object::new(BF::Elf, a, if a == A::PowerPc64 || a == A::Mips { Endianness::Big } else { Endianness::Little });
            let mut ids = vec![];
            let mut want = vec![];
            for i in 0..n {
                let s = b.add_section(vec![], format!(".s{}", i % 1000).into_bytes(), SK::Data);
                let mark = i >= n - 40 || r.one_in(500);
                if mark {
                    b.append_section_data(s, &[0; 8], 4);
                    let k = b.add_symbol(sym(format!("y{i}").into_bytes(), SymbolSection::Section(s), if r.bool() { SC::Linkage } else { SC::Compilation }));
                    let u = r.one_in(4).then(|| b.add_symbol(sym(format!("u{i}").into_bytes(), SymbolSection::Undefined, SC::Unknown)));
                    if r.one_in(3) {
                        b.section_symbol(s);
                    }
                    ids.push((s, k));
                    want.push((i, u.is_some()));
                }
            }
            let mut groups = 0;
            for _ in 0..r.below(3) {
                let (s, k) = *r.pick(&ids);
                if ids.iter().any(|x| x.0 == s) && groups == 0 {
                    b.add_comdat(Comdat { kind: ComdatKind::Any, symbol: k, sections: vec![s] });
                    groups += 1;
                }
            }
            let mut nrel = 0;
            for (s, _) in &ids {
                if r.one_in(3) {
                    let (_, k) = *r.pick(&ids);
                    okay!(b.add_relocation(*s, Relocation { offset: 4, symbol: k, addend: 1, flags: abs(32) }));
                    nrel += 1;
                }
            }
            let v = okay!(b.write(), "{n} sections");
            valid(BF::Elf, &v, o)?;
            let f = elf::parse(&v)?;
            // Null, sections, groups, relocations, symbols, strings and names.
            let x = f.find(elf::SHT_SYMTAB_SHNDX).is_some();
            same!(f.sh.len() as u64, 1 + n + groups + nrel + 3 + x as u64, "sections");
            let syms = f.syms(f.find(2).unwrap())?;
            for (i, u) in want {
                let y = syms.iter().find(|y| y.name == format!("y{i}").as_bytes()).ok_or("missing symbol")?;
                let q = &f.sh[y.sec.ok_or("no section")? as usize];
                same!((q.name.clone(), q.size), (format!(".s{}", i % 1000).into_bytes(), 8), "section of y{i}");
                ensure!(!u || syms.iter().any(|y| y.name == format!("u{i}").as_bytes() && y.sec.is_none()), "undefined symbol u{i}");
            }
            o.hit(if x { "ELF extended indices" } else { "ELF without extended indices" });
            o.hit(if f.sh.len() >= 0xff00 { "ELF extended count" } else { "ELF plain count" });
            o.nontrivial((case << 32) + n);
        }
        1 => {
            // COFF relocation counts.
            let n = 65520 + r.below(40);
            let mut b = Object::new(BF::Coff, A::X86_64, Endianness::Little);
            let s = b.section_id(StandardSection::Data);
            b.append_section_data(s, &vec![0; 8 * n as usize + 8], 8);
            if r.bool() {
                b.section_symbol(s);
            }
            let t = b.section_id(StandardSection::ReadOnlyData);
            b.append_section_data(t, &[1, 2, 3], 1);
            let k = b.add_symbol(sym(b"target".to_vec(), SymbolSection::Section(s), SC::Linkage));
            for i in 0..n {
                okay!(b.add_relocation(s, Relocation { offset: 8 * i, symbol: k, addend: 0, flags: abs(64) }));
            }
            let v = okay!(b.write());
            valid(BF::Coff, &v, o)?;
            let f = coff::parse(&v)?;
            same!(f.secs[0].relocs.len() as u64, n, "relocations");
            ensure!(f.secs[0].relocs.iter().enumerate().all(|(i, x)| x.0 as usize == 8 * i), "places");
            o.hit(if n > 65534 { "COFF extended relocation count" } else { "COFF plain relocation count" });
            o.nontrivial((case << 32) + n as u64);
        }
        2 => {
            // COFF section numbers.
            let n = 0xfee0 + r.below(0x30);
            let mut b = Object::new(BF::Coff, A::Aarch64, Endianness::Little);
            let mut ids = vec![];
            for i in 0..n {
                let s = b.add_section(vec![], format!("s{}", i % 77).into_bytes(), SK::Data);
                if i >= n - 20 {
                    b.append_section_data(s, &[1, 2, 3, 4], 4);
                    ids.push(b.add_symbol(sym(format!("y{i}").into_bytes(), SymbolSection::Section(s), SC::Linkage)));
                }
            }
            match b.write() {
                // The symbol table of this format has 16 bits.
                Ok(v) => {
                    ensure!(n <= 0xfeff, "{n} sections were accepted");
                    // Section numbers above 0x7fff are read as unsigned up to 0xfeff.
                    let count = u16::from_le_bytes([v[2], v[3]]);
                    same!(count as u64, n, "number of sections");
                    let at = u32::from_le_bytes(v[8..12].try_into().unwrap()) as usize;
                    for (k, i) in (n - 20..n).enumerate() {
                        let y = &v[at + 18 * k..at + 18 * k + 18];
                        same!(u16::from_le_bytes([y[12], y[13]]) as u64, i + 1, "section of symbol {k}");
                    }
                    o.hit("COFF largest section count");
                }
                Err(_) => {
                    ensure!(n > 0xfeff, "{n} sections were refused");
                    o.hit("COFF too many sections");
                }
            }
            o.nontrivial((case << 32) + n as u64);
        }
        3 => {
            // Names of COFF sections far into the string table.
            let big = *r.pick(&[9_000_000usize, 9_999_980, 9_999_999, 10_000_010, 11_000_000]);
            let mut b = Object::new(BF::Coff, A::X86_64, Endianness::Little);
            // Order in the table is not fixed, so names of several sections straddle the limit.
            b.add_symbol(sym(vec![b'x'; big], SymbolSection::Undefined, SC::Unknown));
            for i in 0..40 {
                let n = format!("section_with_a_long_name_{i}");
                b.add_section(vec![], n.into_bytes(), SK::Data);
            }
            let v = okay!(b.write());
            valid(BF::Coff, &v, o)?;
            let f = coff::parse(&v)?;
            for (i, s) in f.secs.iter().enumerate() {
                same!(s.name, format!("section_with_a_long_name_{i}").into_bytes(), "name");
            }
            o.hit(if f.secs.iter().any(|s| &s.raw_name[..2] == b"//") { "COFF base64 name" } else { "COFF decimal name" });
            o.nontrivial((case << 32) + big as u64);
        }
        4 => {
            // Mach-O section numbers.
            let n = 250 + r.below(12);
            let a = *r.pick(&[A::X86_64, A::Aarch64, A::I386]);
            let mut b = Object::new(BF::MachO, a, Endianness::Little);
            let mut ids: Vec<SymbolId> = vec![];
            for i in 0..n {
                let s = b.add_section(b"__DATA".to_vec(), format!("__s{i}").into_bytes(), SK::Data);
                b.append_section_data(s, &[0; 8], 8);
                if r.bool() || i + 1 == n {
                    ids.push(b.add_symbol(sym(format!("y{i}").into_bytes(), SymbolSection::Section(s), SC::Linkage)));
                }
            }
            match b.write() {
                Ok(v) => {
                    valid(BF::MachO, &v, o)?;
                    let f = macho::parse(&v)?;
                    same!(f.secs.len() as u64, n, "sections");
                    ensure!(n <= 255, "a symbol in section {n} was accepted");
                    ensure!(f.syms.iter().any(|y| y.sect as u64 == n), "symbol of the last section");
                    o.hit("Mach-O largest section number");
                }
                Err(_) => {
                    ensure!(n > 255, "{n} sections were refused");
                    o.hit("Mach-O too many sections");
                }
            }
            o.nontrivial((case << 32) + n as u64);
        }
        _ => {
            // XCOFF counts.
            let a = *r.pick(&[A::PowerPc, A::PowerPc64]);
            let n = 65525 + r.below(20);
            let mut b = Object::new(BF::Xcoff, a, Endianness::Big);
            let s = b.section_id(StandardSection::Data);
            b.append_section_data(s, &vec![0; 8 * n as usize + 8], 8);
            let k = b.add_symbol(sym(b"target".to_vec(), SymbolSection::Section(s), SC::Linkage));
            for i in 0..n {
                okay!(b.add_relocation(s, Relocation { offset: 8 * i, symbol: k, addend: 0, flags: abs(32) }));
            }
            match b.write() {
                Ok(v) => {
                    valid(BF::Xcoff, &v, o)?;
                    let f = xcoff::parse(&v)?;
                    same!(f.secs[0].relocs.len() as u64, n, "relocations");
                    // 65535 would announce an overflow section, which isn't written.
                    ensure!(a == A::PowerPc64 || n < 65535, "{n} relocations were accepted");
                    o.hit("XCOFF many relocations");
                }
                Err(_) => {
                    ensure!(a == A::PowerPc && n >= 65535, "{n} relocations were refused");
                    o.hit("XCOFF too many relocations");
                }
            }
            o.nontrivial((case << 32) + n as u64);
        }
    }
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C19",
    rule: "strict parsers of each format accept every file that is written",
    parts: &[
        Part { name: "random", quick: 400_000, thorough: 15_000_000, run: random },
        Part { name: "wide", quick: 1_500, thorough: 60_000, run: wide },
        Part { name: "large", quick: 48, thorough: 3_000, run: large },
    ],
    required: &[
        "ELF", "COFF", "Mach-O", "XCOFF", "XCOFF addresses", "ELF symbols", "ELF relocations", "ELF groups", "COFF symbols", "COFF relocations", "Mach-O symbols", "Mach-O relocations", "XCOFF symbols",
        "XCOFF relocations", "ELF extended indices", "ELF extended count", "COFF extended relocation count", "COFF largest section count", "COFF base64 name", "XCOFF many relocations",
    ],
    tools: &[],
    assumptions: &["descriptions keep the documented preconditions of the write interface"],
    level: "exploration",
};
#[allow(dead_code)]
fn main() {
    vcore::main(&SPEC)
}

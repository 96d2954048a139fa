//! C17: what `write::Object` writes holds exactly what was described.
use checks::wobj::{At, Model, Opts, build, late_refusal};
use checks::wread;
use object::read::{Object as _, ObjectComdat as _, ObjectSection as _, ObjectSymbol as _};
use object::{BinaryFormat as BF, SectionFlags, SectionKind as SK, SymbolFlags, SymbolKind as YK, SymbolScope as SC};
use std::result::Result;
use vcore::{Obs, Part, Res, Rng, Spec, ensure, okay, same, some};

fn show(n: &[u8]) -> String {
    String::from_utf8_lossy(n).into_owned()
}

/// The same description through the unified read interface.
fn read(m: &Model, b: &[u8], map: &wread::Maps, o: &mut Obs) -> Res {
    let f = okay!(object::File::parse(b), "reading what was written");
    same!(f.format(), m.fmt, "format");
    let arch = match (m.fmt, m.arch) {
        // The class and flags tell these apart only in part.
        (BF::Elf, object::Architecture::Sparc32Plus) => f.architecture(),
        (BF::Elf, object::Architecture::E2K32 | object::Architecture::E2K64) => f.architecture(),
        (BF::Elf, object::Architecture::Mips) if m.flags != object::FileFlags::None => f.architecture(),
        (_, a) => a,
    };
    same!(f.architecture(), arch, "architecture");
    same!(f.sub_architecture(), if m.subtype.is_some() { f.sub_architecture() } else { m.sub }, "sub-architecture");
    same!((f.is_64(), f.endianness()), (m.is64() && m.fmt != BF::Coff, if m.fmt == BF::Coff { object::Endianness::Little } else { m.end }), "class and byte order");
    if m.fmt != BF::Xcoff || m.flags == object::FileFlags::None {
        same!(f.kind(), object::ObjectKind::Relocatable, "kind of file");
    }
    for (i, s) in m.secs.iter().enumerate() {
        let h = okay!(f.section_by_index(object::SectionIndex(map.sec[i] as usize)), "section {}", show(&s.name));
        same!(okay!(h.name_bytes()), &s.name[..], "name");
        if m.fmt == BF::MachO {
            same!(okay!(h.segment_name_bytes()), Some(&s.seg[..]), "segment of {}", show(&s.name));
        }
        same!(h.size(), s.size, "size of {}", show(&s.name));
        if m.fmt != BF::Xcoff {
            same!(h.align(), s.align, "alignment of {}", show(&s.name));
        }
        if s.flags == SectionFlags::None {
            let k = match (m.fmt, s.kind) {
                (_, SK::Text | SK::UninitializedData) => Some(s.kind),
                (BF::Elf | BF::Coff | BF::MachO | BF::Xcoff, SK::Data) => Some(SK::Data),
                (BF::Elf | BF::Xcoff | BF::MachO, SK::Tls | SK::UninitializedTls) => Some(s.kind),
                (BF::Elf | BF::Coff, SK::ReadOnlyData) => Some(SK::ReadOnlyData),
                (BF::Elf | BF::MachO, SK::ReadOnlyString) => Some(SK::ReadOnlyString),
                (BF::Elf, SK::Note) => Some(SK::Note),
                (BF::MachO, SK::TlsVariables) => Some(SK::TlsVariables),
                _ => None,
            };
            // Anything in the segment of debugging data is that.
            let k = k.filter(|_| !(m.fmt == BF::MachO && (s.seg == b"__DWARF" || (s.seg == b"__TEXT" && s.kind == SK::Data))));
            if let Some(k) = k {
                same!(h.kind(), k, "kind of {}", show(&s.name));
                o.hit("section kind");
            }
        }
        o.hit("section");
    }
    for (k, y) in m.syms.iter().enumerate() {
        let Some(x) = map.sym[k] else { continue };
        let h = okay!(f.symbol_by_index(object::SymbolIndex(x as usize)), "symbol {}", show(&y.name));
        let t = format!("symbol {:?}", y);
        if m.fmt == BF::MachO && y.kind == YK::Section {
            continue;
        }
        if !(m.fmt == BF::Elf && y.kind == YK::Section) {
            same!(okay!(h.name_bytes()), &y.name[..], "{t}: name");
        }
        let plain = y.flags == SymbolFlags::None;
        if let At::Sec(i) = y.at {
            if !(m.fmt == BF::Coff && y.weak) {
                same!(h.section_index().map(|i| i.0 as u32), Some(map.sec[i]), "{t}: section");
                let base = okay!(f.section_by_index(object::SectionIndex(map.sec[i] as usize))).address();
                same!(h.address(), if m.fmt == BF::Elf || m.fmt == BF::Coff { y.value } else { base + y.value }, "{t}: address");
            }
        }
        if plain {
            same!(h.is_undefined(), y.at == At::Undef && !(m.fmt == BF::Coff && y.weak), "{t}: undefined");
            // In XCOFF a csect without contents is a common, also in a section.
            if m.fmt != BF::Xcoff {
                same!(h.is_common(), y.at == At::Common, "{t}: common");
            }
            // COFF weak symbols are always weak; elsewhere the binding says so.
            same!(h.is_weak(), y.weak, "{t}: weak");
            let g = match m.fmt {
                BF::Elf => y.weak || y.scope != SC::Compilation || y.at == At::Undef,
                BF::Coff => y.weak || y.at == At::Undef || y.at == At::Common || y.scope != SC::Compilation,
                BF::MachO => y.at == At::Undef || y.at == At::Common || y.scope != SC::Compilation,
                _ => y.scope != SC::Compilation,
            };
            if !matches!(y.kind, YK::Section | YK::File | YK::Label) {
                same!((h.is_global(), h.is_local()), (g, !g), "{t}: global");
            }
            if m.fmt == BF::Elf && matches!(y.at, At::Sec(_)) && !(y.weak && y.scope == SC::Compilation) && y.kind != YK::Section {
                same!(h.scope(), y.scope, "{t}: scope");
            }
            let kind = match (m.fmt, y.kind, y.at) {
                (BF::Elf, YK::Text | YK::Data, At::Undef) => None,
                (BF::Elf, YK::Text | YK::Data | YK::Tls | YK::File | YK::Section, _) => Some(y.kind),
                (BF::Coff, YK::Text | YK::Data | YK::File | YK::Section, At::Sec(_) | At::None) if !y.weak => Some(y.kind),
                (BF::Coff, YK::Label, _) => Some(YK::Label),
                (BF::Xcoff, YK::File, _) => Some(YK::File),
                _ => None,
            };
            if let Some(w) = kind {
                same!(h.kind(), w, "{t}: kind");
                o.hit("symbol kind");
            }
        }
        if m.fmt == BF::Elf {
            same!(h.size(), y.size, "{t}: size");
        } else if y.at == At::Common {
            same!(h.size(), y.size, "{t}: size");
        }
        o.hit("symbol");
    }
    if m.fmt == BF::Elf {
        same!(f.comdats().count(), m.comdats.len(), "COMDAT groups");
        for (g, (kind, sym, list)) in f.comdats().zip(&m.comdats) {
            same!(g.kind(), *kind, "kind of group");
            same!(Some(g.symbol().0 as u32), map.sym[*sym], "symbol of group");
            let mut got: Vec<u32> = g.sections().map(|i| i.0 as u32).collect();
            got.sort();
            let mut want: Vec<u32> = list.iter().map(|&i| map.sec[i]).collect();
            want.sort();
            same!(got, want, "members of group");
            o.hit("group");
        }
    }
    if m.fmt == BF::Coff {
        same!(f.comdats().count(), m.comdats.len(), "COMDAT groups");
        for (kind, sym, list) in &m.comdats {
            let At::Sec(lead) = m.syms[*sym].at else { unreachable!() };
            let g = some!(f.comdats().find(|g| Some(g.symbol().0 as u32) == map.sym[*sym]), "group of {}", show(&m.syms[*sym].name));
            same!(g.kind(), *kind, "kind of group");
            let mut got: Vec<u32> = g.sections().map(|i| i.0 as u32).collect();
            got.sort();
            let mut want: Vec<u32> = list.iter().map(|&i| map.sec[i]).collect();
            want.sort();
            same!(got, want, "members of the group led by {}", show(&m.secs[lead].name));
            o.hit("group");
        }
    }
    Ok(())
}

pub fn case(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (b, m) = build(r, &Opts::default());
    let out: Result<Vec<u8>, _> = b.write();
    let bytes = match out {
        Ok(v) => v,
        Err(e) => {
            // The only requests here that are refused late.
            let e = e.to_string();
            ensure!(late_refusal(&m), "refused: {e}");
            o.hit("refused");
            return Ok(());
        }
    };
    o.input("file", &bytes);
    let map = wread::any(&m, &bytes)?;
    read(&m, &bytes, &map, o)?;
    for s in &m.secs {
        o.hit(if s.bss { "zero-fill" } else { "data" });
        if s.flags != SectionFlags::None {
            o.hit("explicit section flags");
        }
    }
    for y in &m.syms {
        o.hit(match y.at {
            At::None => "file symbol",
            At::Undef => "undefined symbol",
            At::Abs => "absolute symbol",
            At::Common => "common symbol",
            At::Sec(_) => if y.kind == YK::Section { "section symbol" } else { "defined symbol" },
        });
        if y.weak {
            o.hit("weak symbol");
        }
        if y.kind == YK::Tls {
            o.hit("thread local symbol");
        }
        if y.flags != SymbolFlags::None {
            o.hit("explicit symbol flags");
        }
    }
    o.hit(match m.fmt {
        BF::Elf => "ELF",
        BF::Coff => "COFF",
        BF::MachO => "Mach-O",
        _ => "XCOFF",
    });
    if m.secs.len() + m.syms.len() > 0 {
        o.nontrivial(vcore::hash(&bytes));
    }
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C17",
    rule: "the file written parses and holds exactly the sections, symbols and groups described",
    parts: &[Part { name: "objects", quick: 500_000, thorough: 20_000_000, run: case }],
    required: &[
        "ELF", "COFF", "Mach-O", "XCOFF", "zero-fill", "data", "explicit section flags", "file symbol", "undefined symbol", "absolute symbol", "common symbol", "section symbol",
        "defined symbol", "weak symbol", "thread local symbol", "explicit symbol flags", "section kind", "symbol kind", "group", "section", "symbol",
    ],
    tools: &[],
    assumptions: &["descriptions keep the documented preconditions of the write interface", "symbol names within one object are distinct"],
    level: "exploration",
};
#[allow(dead_code)]
fn main() {
    vcore::main(&SPEC)
}

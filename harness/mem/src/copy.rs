//! Copies an input into a new object with the write API.
use crate::walk::T;
use object::read::{Object, ObjectSection, ObjectSymbol};
use object::write;
use std::collections::HashMap;

pub fn copy(data: &[u8], t: &mut T) {
    let Ok(file) = object::File::parse(data) else { return };
    use object::BinaryFormat::*;
    if !matches!(file.format(), Coff | Elf | MachO | Xcoff) {
        return;
    }
    t.at("copy");
    let mut out = write::Object::new(file.format(), file.architecture(), file.endianness());
    out.mangling = write::Mangling::None;
    let mut secs = HashMap::new();
    for s in file.sections() {
        let seg = s.segment_name_bytes().ok().flatten().unwrap_or_default().to_vec();
        let id = out.add_section(seg, s.name_bytes().unwrap_or_default().to_vec(), s.kind());
        let o = out.section_mut(id);
        if o.is_bss() {
            o.append_bss(s.size() & 0xffff, 1);
        } else {
            o.set_data(s.data().unwrap_or_default().to_vec(), 1);
        }
        secs.insert(s.index(), id);
    }
    let mut syms = HashMap::new();
    for s in file.symbols().take(60) {
        let section = match s.section() {
            object::SymbolSection::Section(i) => match secs.get(&i) {
                Some(i) => write::SymbolSection::Section(*i),
                None => continue,
            },
            object::SymbolSection::Absolute => write::SymbolSection::Absolute,
            object::SymbolSection::Undefined => write::SymbolSection::Undefined,
            _ => continue,
        };
        let id = out.add_symbol(write::Symbol {
            name: s.name_bytes().unwrap_or_default().to_vec(),
            value: s.address() & 0xffff,
            size: s.size(),
            kind: object::SymbolKind::Data,
            scope: object::SymbolScope::Linkage,
            weak: false,
            section,
            flags: object::SymbolFlags::None,
        });
        syms.insert(s.index(), id);
    }
    for s in file.sections() {
        let Some(id) = secs.get(&s.index()) else { continue };
        for (off, r) in s.relocations().take(20) {
            let object::RelocationTarget::Symbol(i) = r.target() else { continue };
            let Some(symbol) = syms.get(&i) else { continue };
            let _ = out.add_relocation(
                *id,
                write::Relocation { offset: off & 0xffff, symbol: *symbol, addend: r.addend() & 0xff, flags: r.flags() },
            );
        }
    }
    if let Ok(b) = out.write() {
        t.at("copied");
        t.d("copied", b.len());
        t.owned("copied", &b);
    }
}

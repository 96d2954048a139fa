//! COFF specific interfaces.
use super::{T, generic};
use object::pe;
use object::read::coff::*;
use object::read::{Object, ObjectComdat, ObjectSection, ObjectSegment, ObjectSymbol, ReadRef, SectionIndex, SymbolIndex};

pub fn coff<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    t.d("class_id", anon_object_class_id(data));
    if let Some(f) = t.ok("coff", CoffFile::<R>::parse(data)) {
        cfile(&f, data, t);
    }
    if let Some(f) = t.ok("bigobj", CoffBigFile::<R>::parse(data)) {
        cfile(&f, data, t);
    }
}

fn cfile<'data, R: ReadRef<'data>, C: CoffHeader>(f: &CoffFile<'data, R, C>, data: R, t: &mut T) {
    t.at("coff");
    let h = f.coff_header();
    t.p("coff.header", h);
    t.d("coff", (h.machine(), h.number_of_sections(), h.pointer_to_symbol_table(), h.number_of_symbols(), h.characteristics()));
    let secs = f.coff_section_table();
    sections(&secs, f.coff_symbol_table(), data, t);
    symbols::<R, C>(f.coff_symbol_table(), &secs, t);
    for s in f.sections().take(24) {
        t.p("coff.section", s.coff_section());
        if let Some(r) = t.ok("coff.relocations", s.coff_relocations()) {
            t.ps("coff.rel", r);
        }
        t.d("coff.section", s.index());
    }
    for s in f.segments().take(24) {
        t.p("coff.segment", s.coff_section());
        t.d("coff.segment", s.address());
    }
    for s in f.symbols().take(24) {
        t.d("coff.symbol", (s.coff_symbol().value(), s.index()));
    }
    for c in f.comdats().take(24) {
        t.d("coff.comdat", c.symbol());
    }
    generic::object(f, t);
}

pub fn sections<'data, R: ReadRef<'data>, C: CoffHeader>(secs: &SectionTable<'data>, syms: &SymbolTable<'data, R, C>, data: R, t: &mut T) {
    t.d("secs", (secs.len(), secs.is_empty(), secs.max_section_file_offset()));
    for i in [0, 1, secs.len(), secs.len().wrapping_add(1), crate::walk::MOST] {
        t.ok("secs.section", secs.section(SectionIndex(i)).map(|_| ()));
    }
    for n in [&b""[..], b".text", b"/4"] {
        t.d("secs.by_name", secs.section_by_name(syms.strings(), n).map(|x| x.0));
    }
    t.iter("coff.sections", secs.enumerate(), |t, (i, s)| {
        t.p("sec", s);
        t.d("sec", i);
        t.d("sec.name_offset", s.name_offset());
        t.rb("sec.name", s.name(syms.strings()));
        t.b("sec.raw_name", s.raw_name());
        t.d("sec", (s.coff_file_range(), s.coff_alignment()));
        t.rb("sec.coff_data", s.coff_data(data));
        if let Some(r) = t.ok("sec.rels", s.coff_relocations(data)) {
            t.ps("sec.rels", r);
            for r in r.iter().take(8) {
                t.d("rel.symbol", r.symbol());
            }
        }
        #[cfg(feature = "pe")]
        if t.pe_sections {
            super::pe::section(s, secs, data, t);
        }
    });
}

fn symbols<'data, R: ReadRef<'data>, C: CoffHeader>(s: &SymbolTable<'data, R, C>, secs: &SectionTable<'data>, t: &mut T) {
    t.d("syms", (s.len(), s.is_empty()));
    t.iter("coff.symbols", s.iter(), |t, (i, y)| {
        t.p("sym", y);
        t.b("sym.raw_name", y.raw_name());
        t.d("sym", (i, y.value(), y.section_number(), y.typ(), y.storage_class(), y.number_of_aux_symbols(), y.section()));
        t.d("sym", (y.is_definition(), y.base_type(), y.derived_type()));
        t.rb("sym.name", y.name(s.strings()));
        t.d("sym.address", y.address(0x40_0000, secs));
        t.d("sym.address", y.address(u64::MAX, secs));
        if y.has_aux_file_name() {
            t.at("coff.aux_file");
            t.rb("aux_file", s.aux_file_name(i, y.number_of_aux_symbols()));
        }
        if y.has_aux_function() {
            if let Some(a) = t.ok("aux_function", s.aux_function(i)) {
                t.p("aux_function", a);
            }
        }
        if y.has_aux_section() {
            t.at("coff.aux_section");
            if let Some(a) = t.ok("aux_section", s.aux_section(i)) {
                t.p("aux_section", a);
            }
        }
        if y.has_aux_weak_external() {
            if let Some(a) = t.ok("aux_weak", s.aux_weak_external(i)) {
                t.p("aux_weak", a);
                t.d("aux_weak", a.default_symbol());
            }
        }
    });
    for i in [0, 1, s.len(), s.len().wrapping_add(1), s.len().wrapping_sub(1), crate::walk::MOST] {
        let i = SymbolIndex(i);
        t.ok("sym.at", s.symbol(i).map(|_| ()));
        t.ok("sym.aux_function", s.aux_function(i).map(|_| ()));
        t.ok("sym.aux_section", s.aux_section(i).map(|_| ()));
        t.ok("sym.aux_weak", s.aux_weak_external(i).map(|_| ()));
        t.rb("sym.aux_file", s.aux_file_name(i, 3));
        t.rb("sym.aux_file", s.aux_file_name(i, 255));
        for k in [0, 1, crate::walk::far(60), crate::walk::MOST] {
            t.ok("sym.get", s.get::<pe::ImageAuxSymbolWeak>(i, k).map(|_| ()));
        }
    }
    let m = s.map(|y| Some(object::read::SymbolMapName::new(y.value().into(), 0, "")));
    t.d("syms.map", m.symbols().len());
}

pub fn import<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 4) else { return };
    if id != [0, 0, 0xff, 0xff] {
        return;
    }
    if let Some(f) = t.ok("import_file", ImportFile::parse(data)) {
        t.at("import_file");
        t.d("import_file", (f.architecture(), f.sub_architecture(), f.import_type()));
        t.b("import_file.symbol", f.symbol());
        t.b("import_file.dll", f.dll());
        match f.import() {
            ImportName::Name(n) => t.b("import_file.name", n),
            n => t.d("import_file.ordinal", n),
        }
    }
    let mut off = 0;
    if let Some(h) = t.ok("import_header", pe::ImportObjectHeader::parse(data, &mut off)) {
        t.p("import_header", h);
        t.d("import_header", (h.import_type(), h.name_type()));
        if let Some(d) = t.ok("import_data", h.parse_data(data, &mut off)) {
            t.b("import_data.symbol", d.symbol());
            t.b("import_data.dll", d.dll());
            t.ob("import_data.export", d.export());
        }
    }
}

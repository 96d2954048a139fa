//! XCOFF.
use super::{T, generic};
use object::read::xcoff::*;
use object::read::{Object, ReadRef, SectionIndex, SymbolIndex};
use object::xcoff;

pub fn xcoff<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 2) else { return };
    if id[0] != 1 {
        return;
    }
    if let Some(f) = t.ok("xcoff32", XcoffFile32::<R>::parse(data)) {
        xfile(&f, t);
    }
    if let Some(f) = t.ok("xcoff64", XcoffFile64::<R>::parse(data)) {
        xfile(&f, t);
    }
    if let Some(h) = t.ok("xcoff32.header", xcoff::FileHeader32::parse(data, &mut 0)) {
        xheader(h, data, t);
    }
    if let Some(h) = t.ok("xcoff64.header", xcoff::FileHeader64::parse(data, &mut 0)) {
        xheader(h, data, t);
    }
}

fn xheader<'data, X: FileHeader, R: ReadRef<'data>>(h: &X, data: R, t: &mut T) {
    t.p("xcoff.header", h);
    t.d("xcoff.header", (h.f_magic(), h.f_nscns(), h.f_timdat(), h.f_symptr().into(), h.f_nsyms(), h.f_opthdr(), h.f_flags(), h.is_type_64(), h.is_supported()));
    let mut off = size_of::<X>() as u64;
    if let Some(a) = t.oko("xcoff.aux", h.aux_header(data, &mut off)) {
        t.p("xcoff.aux", a);
    }
    if let Some(s) = t.ok("xcoff.sections", h.sections(data, &mut off)) {
        t.d("xcoff.sections", (s.len(), s.is_empty()));
        for i in [0, 1, s.len(), s.len().wrapping_add(1), crate::walk::MOST] {
            t.ok("xcoff.section", s.section(SectionIndex(i)).map(|_| ()));
        }
        for s in s.iter().take(40) {
            t.p("xcoff.section", s);
            t.b("xcoff.name", s.name());
            t.d("xcoff.section", (s.s_paddr().into(), s.s_vaddr().into(), s.s_size().into(), s.s_scnptr().into(), s.s_relptr().into()));
            t.rb("xcoff.data", s.data(data));
            t.d("xcoff.range", s.file_range());
            if let Some(r) = t.ok("xcoff.relocations", s.relocations(data)) {
                t.ps("xcoff.rel", r);
            }
        }
    }
    if let Some(s) = t.ok("xcoff.symbols", h.symbols(data)) {
        symbols::<X, R>(&s, t);
    }
}

fn symbols<'data, X: FileHeader, R: ReadRef<'data>>(s: &SymbolTable<'data, X, R>, t: &mut T) {
    t.at("xcoff.symtab");
    t.d("xcoff.symtab", (s.len(), s.is_empty()));
    t.iter("xcoff.symbol", s.iter(), |t, (i, y)| {
        t.p("xsym", y);
        t.d("xsym", (i, y.n_sclass(), y.n_numaux(), y.n_scnum(), y.n_value().into(), y.has_aux_csect(), y.has_aux_file()));
        t.rb("xsym.name", y.name(s.strings()));
        if y.has_aux_file() && y.n_numaux() > 0 {
            for k in 1..=y.n_numaux() as usize {
                if let Some(a) = t.ok("xsym.aux_file", s.aux_file(i, k)) {
                    t.p("xaux", a);
                    if let Some(n) = t.ok("xaux.fname", a.fname(s.strings())) {
                        t.b("xaux.fname", n);
                    }
                    t.b("xaux.raw", a.x_fname());
                }
                if k > 6 {
                    break;
                }
            }
        }
        if y.has_aux_csect() && y.n_numaux() > 0 {
            if let Some(a) = t.ok("xsym.aux_csect", s.aux_csect(i, y.n_numaux() as usize)) {
                t.p("xaux", a);
                t.d("xaux", (a.x_scnlen(), a.x_parmhash(), a.x_snhash(), a.x_smtyp(), a.x_smclas(), a.sym_type()));
            }
        }
    });
    for i in [0, 1, s.len(), s.len().wrapping_add(1), crate::walk::MOST] {
        t.ok("xsym.at", s.symbol(SymbolIndex(i)).map(|_| ()));
        for k in [0, 1, crate::walk::far(40), crate::walk::MOST] {
            t.ok("xsym.get", s.get::<xcoff::CsectAux32>(SymbolIndex(i), k).map(|_| ()));
        }
    }
}

fn xfile<'data, X: FileHeader, R: ReadRef<'data>>(f: &XcoffFile<'data, X, R>, t: &mut T) {
    t.at("xcoff");
    t.p("xcoff", f.xcoff_header());
    if let Some(a) = f.xcoff_aux_header() {
        t.p("xcoff.aux", a);
    }
    for s in f.sections().take(40) {
        if let Some(r) = t.ok("xcoff.relocations", s.xcoff_relocations()) {
            t.ps("xcoff.rel", r);
        }
    }
    t.d("xcoff", f.xcoff_section_table().len());
    symbols(f.xcoff_symbol_table(), t);
    generic::object(f, t);
}

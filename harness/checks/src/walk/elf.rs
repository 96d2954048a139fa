//! ELF-specific interfaces.
use super::{T, generic};
use object::elf;
use object::read::elf::*;
use object::read::{ReadRef, SectionIndex, StringTable, SymbolIndex};
use object::{Endian, Endianness};

pub fn elf<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 6) else { return };
    if id[..4] != *b"\x7fELF" {
        return;
    }
    t.at("elf");
    let a = t.ok("elf32", ElfFile32::<Endianness, R>::parse(data));
    let b = t.ok("elf64", ElfFile64::<Endianness, R>::parse(data));
    t.ok("elf32le", ElfFile32::<object::LittleEndian, R>::parse(data).map(|_| ()));
    t.ok("elf64be", ElfFile64::<object::BigEndian, R>::parse(data).map(|_| ()));
    if let Some(f) = a {
        file(&f, t);
    } else {
        header::<elf::FileHeader32<Endianness>, R>(data, t);
    }
    if let Some(f) = b {
        file(&f, t);
    } else {
        header::<elf::FileHeader64<Endianness>, R>(data, t);
    }
}

fn file<'data, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'data>>(f: &ElfFile<'data, Elf, R>, t: &mut T) {
    t.at("elf.file");
    let e = f.endian();
    t.p("elf.header", f.elf_header());
    t.ps("elf.segments", f.elf_program_headers());
    t.d("elf.sections", f.elf_section_table().len());
    symtab(e, f.elf_symbol_table(), t);
    symtab(e, f.elf_dynamic_symbol_table(), t);
    if let Some(d) = t.ok("elf.dynamic", f.elf_dynamic_table()) {
        dynamic(&d, t);
    }
    for i in [0, 1, 2, 3, 1000, crate::walk::MOST] {
        t.d("elf.relocation_sections", f.elf_relocation_sections().get(SectionIndex(i)));
    }
    use object::read::{Object, ObjectComdat};
    let mut n = 0;
    for s in f.sections() {
        n += 1;
        if n > 40 || t.stop() {
            break;
        }
        t.p("elf.section", s.elf_section_header());
        t.d("elf.relsec", s.elf_relocation_section_index());
        if let Some(h) = t.oko("elf.relsec", s.elf_relocation_section()) {
            t.p("elf.relsec", h);
        }
        if let Some(r) = t.ok("elf.linked_rel", s.elf_linked_rel()) {
            t.ps("elf.linked_rel", r);
        }
        if let Some(r) = t.ok("elf.linked_rela", s.elf_linked_rela()) {
            t.ps("elf.linked_rela", r);
        }
    }
    for c in f.comdats().take(8) {
        t.p("elf.comdat", c.elf_section_header());
        t.d("elf.comdat", c.symbol());
    }
    generic::object(f, t);
    header::<Elf, R>(f.data(), t);
}

fn symtab<'data, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'data>>(e: Endianness, s: &SymbolTable<'data, Elf, R>, t: &mut T) {
    t.at("elf.symtab");
    t.d("elf.symtab", (s.section(), s.shndx_section(), s.string_section(), s.is_empty(), s.len()));
    t.ps("elf.syms", s.symbols());
    t.iter("elf.symbol", s.enumerate(), |t, (i, sym)| {
        t.d("st", (i, sym.st_name(e), sym.st_info(), sym.st_other(), sym.st_shndx(e), sym.st_value(e).into(), sym.st_size(e).into()));
        t.d("st", (sym.st_bind(), sym.st_type(), sym.st_visibility(), sym.is_undefined(e), sym.is_common(e)));
        t.d("st", (sym.is_absolute(e), sym.is_local(), sym.is_weak(), sym.is_definition(e, s.strings())));
        t.rb("st.name", s.symbol_name(e, sym));
        t.rb("st.name", sym.name(e, s.strings()));
        t.d("shndx", (s.shndx(e, i), s.symbol_section(e, sym, i)));
    });
    for i in [0, 1, s.len(), s.len().wrapping_add(1), crate::walk::far(61), crate::walk::MOST] {
        t.ok("elf.symbol_at", s.symbol(SymbolIndex(i)).map(|_| ()));
        t.d("shndx", s.shndx(e, SymbolIndex(i)));
        if let Some(sym) = s.symbols().first() {
            t.d("symbol_section", s.symbol_section(e, sym, SymbolIndex(i)));
        }
    }
    let m = s.map(e, |sym| Some(object::read::SymbolMapName::new(sym.st_value(e).into(), sym.st_size(e).into(), "")));
    t.d("elf.map", (m.symbols().len(), m.get(0).map(|s| s.address()), m.get(u64::MAX).map(|s| s.address())));
}

fn dynamic<'data, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'data>>(d: &DynamicTable<'data, Elf, R>, t: &mut T) {
    t.at("elf.dynamic");
    t.d("dyn", (d.is_empty(), d.len()));
    t.ps("dyns", d.dynamics());
    t.iter("dynamic", d.iter(), |t, x| {
        t.d("dynamic", x);
        t.d("dynamic", (x.is_address(), x.is_string()));
        t.rb("dynamic.string", d.string(x));
        t.rb("dynamic.string", x.string(d.strings()));
    });
}

fn notes<'data, Elf: FileHeader<Endian = Endianness>>(e: Endianness, mut n: NoteIterator<'data, Elf>, t: &mut T) {
    t.drain(
        "elf.notes",
        true,
        || n.next(),
        |t, n| {
            t.d("note", (n.n_type(e), n.n_namesz(e), n.n_descsz(e)));
            t.b("note.name", n.name());
            t.b("note.name", n.name_bytes());
            t.b("note.desc", n.desc());
            if let Some(mut p) = n.gnu_properties(e) {
                t.drain("elf.gnu_properties", true, || p.next(), |t, p| {
                    t.d("prop", p.pr_type());
                    t.b("prop", p.pr_data());
                    t.d("prop", p.data_u32(e));
                });
            }
        },
    );
}

fn versions<'data, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'data>>(
    e: Endianness,
    mut def: Option<VerdefIterator<'data, Elf>>,
    mut need: Option<VerneedIterator<'data, Elf>>,
    strings: StringTable<'data, R>,
    t: &mut T,
) {
    if let Some(def) = &mut def {
        t.drain("elf.verdef", true, || def.next(), |t, (d, mut aux)| {
            t.p("verdef", d);
            t.drain("elf.verdaux", true, || aux.next(), |t, a| {
                t.p("verdaux", a);
                t.rb("verdaux.name", a.name(e, strings));
            });
        });
    }
    if let Some(need) = &mut need {
        t.drain("elf.verneed", true, || need.next(), |t, (d, mut aux)| {
            t.p("verneed", d);
            t.rb("verneed.file", d.file(e, strings));
            t.drain("elf.vernaux", true, || aux.next(), |t, a| {
                t.p("vernaux", a);
                t.rb("vernaux.name", a.name(e, strings));
            });
        });
    }
}

fn attributes<Elf: FileHeader<Endian = Endianness>>(a: AttributesSection<'_, Elf>, t: &mut T) {
    t.d("attributes", a.version());
    let Some(mut subs) = t.ok("attributes", a.subsections()) else { return };
    t.drain("elf.attributes", true, || subs.next(), |t, s| {
        t.d("subsection", s.length());
        t.b("vendor", s.vendor());
        let mut ss = s.subsubsections();
        t.drain("elf.subsubsections", true, || ss.next(), |t, s| {
            t.d("subsubsection", (s.tag(), s.length()));
            t.b("indices", s.indices_data());
            t.b("attributes", s.attributes_data());
            let mut i = s.indices();
            t.drain("elf.attr_indices", true, || i.next(), |t, i| t.d("index", i));
            let mut r = s.attributes();
            let mut k = 0;
            t.drain(
                "elf.attr_values",
                true,
                || -> object::read::Result<Option<(u64, std::result::Result<u64, Vec<u8>>)>> {
                    let Some(tag) = r.read_tag()? else { return Ok(None) };
                    k += 1;
                    Ok(Some((tag, if k % 2 == 0 { Ok(r.read_integer()?) } else { Err(r.read_string()?.to_vec()) })))
                },
                |t, v| t.d("attribute", v),
            );
        });
    });
}

fn header<'data, Elf: FileHeader<Endian = Endianness>, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Some(h) = t.ok("elf.header", Elf::parse(data)) else { return };
    t.at("elf.header");
    t.p("ehdr", h);
    t.d("ehdr", (h.is_type_64(), h.is_supported(), h.is_class_32(), h.is_class_64(), h.is_little_endian(), h.is_big_endian()));
    let Some(e) = t.ok("elf.endian", h.endian()) else { return };
    t.d("ehdr", (h.e_type(e), h.e_machine(e), h.e_version(e), h.e_entry(e).into(), h.e_phoff(e).into(), h.e_shoff(e).into()));
    t.d("ehdr", (h.e_flags(e), h.e_ehsize(e), h.e_phentsize(e), h.e_phnum(e), h.e_shentsize(e), h.e_shnum(e), h.e_shstrndx(e)));
    t.d("phnum", h.phnum(e, data));
    t.d("shnum", h.shnum(e, data));
    t.d("shstrndx", h.shstrndx(e, data));
    t.d("strings_index", h.section_strings_index(e, data));
    t.d("mips64el", h.is_mips64el(e));
    if let Some(s) = t.oko("section_0", h.section_0(e, data)) {
        t.p("section_0", s);
    }
    if let Some(ph) = t.ok("program_headers", h.program_headers(e, data)) {
        t.ps("phdr", ph);
        for p in ph.iter().take(64) {
            if t.stop() {
                return;
            }
            t.d("ph", (p.p_type(e), p.p_flags(e), p.p_offset(e).into(), p.p_vaddr(e).into(), p.p_paddr(e).into()));
            t.d("ph", (p.p_filesz(e).into(), p.p_memsz(e).into(), p.p_align(e).into(), p.file_range(e)));
            t.rb("ph.data", p.data(e, data));
            t.ok("ph.array", p.data_as_array::<Elf::Sym, R>(e, data).map(|_| ()));
            for (a, n) in generic::probes(p.p_vaddr(e).into(), p.p_memsz(e).into()) {
                t.rob("ph.range", p.data_range(e, data, a, n));
            }
            if let Some(d) = t.oko("ph.dynamic", p.dynamic(e, data)) {
                t.ps("ph.dynamic", d);
                for d in d.iter().take(32) {
                    t.d("dyn", (d.tag(e), d.val(e), d.is_string(e), d.d_tag(e)));
                }
            }
            t.rob("ph.interp", p.interpreter(e, data));
            if let Some(n) = t.oko("ph.notes", p.notes(e, data)) {
                notes(e, n, t);
            }
        }
    }
    if let Some(sh) = t.ok("section_headers", h.section_headers(e, data)) {
        t.ok("section_strings", h.section_strings(e, data, sh).map(|_| ()));
    }
    let Some(secs) = t.ok("elf.sections", h.sections(e, data)) else { return };
    t.at("elf.sections");
    t.d("sections", (secs.is_empty(), secs.len()));
    for i in [0, 1, secs.len().wrapping_sub(1), secs.len(), crate::walk::MOST] {
        t.ok("section", secs.section(SectionIndex(i)).map(|_| ()));
        t.ok("strings", secs.strings(e, data, SectionIndex(i)).map(|_| ()));
        t.ok("symbol_table_by_index", secs.symbol_table_by_index(e, data, SectionIndex(i)).map(|_| ()));
        t.ok("relocation_sections", secs.relocation_sections(e, SectionIndex(i)).map(|_| ()));
    }
    for n in [&b""[..], b".text", b".symtab"] {
        t.d("by_name", secs.section_by_name(e, n).map(|x| x.0));
    }
    let symbols = t.ok("symtab", secs.symbols(e, data, elf::SHT_SYMTAB));
    let dynsyms = t.ok("dynsym", secs.symbols(e, data, elf::SHT_DYNSYM));
    if let Some(s) = &symbols {
        symtab(e, s, t);
    }
    if let Some(d) = t.ok("dynamic_table", secs.dynamic_table(e, data)) {
        dynamic(&d, t);
    }
    if let Some((d, i)) = t.oko("dynamic", secs.dynamic(e, data)) {
        t.ps("dynamic", d);
        t.d("dynamic", i);
    }
    if let Some(h) = t.oko("hash_header", secs.hash_header(e, data)) {
        t.p("hash_header", h);
    }
    if let Some(h) = t.oko("gnu_hash_header", secs.gnu_hash_header(e, data)) {
        t.p("gnu_hash_header", h);
    }
    let vt = t.oko("versions", secs.versions(e, data));
    let vt = vt.unwrap_or_default();
    if let Some(s) = &dynsyms {
        t.at("elf.dynsym");
        symtab(e, s, t);
        for i in 0..(s.len() + 2).min(24) {
            let v = vt.version_index(e, SymbolIndex(i));
            t.d("versym", (v, vt.matches(e, SymbolIndex(i), None)));
            if let Some(v) = t.oko("version", vt.version(v.index())) {
                t.b("version.name", v.name());
                t.d("version.hash", v.hash());
                t.ob("version.file", v.file());
                t.d("matches", vt.matches(e, SymbolIndex(i), Some(v)));
            }
        }
        let names: Vec<&[u8]> = s.iter().take(12).filter_map(|x| s.symbol_name(e, x).ok()).chain([&b""[..], b"x", b"\xff\xff"]).collect();
        if let Some((h, i)) = t.oko("hash", secs.hash(e, data)) {
            t.at("elf.hash");
            t.d("hash", (i, h.symbol_table_length()));
            for n in &names {
                t.d("hash.find", h.find(e, n, elf::hash(n), None, s, &vt).map(|x| x.0));
                t.d("hash.find", h.find(e, n, 0xffff_ffff, None, s, &vt).map(|x| x.0));
            }
        }
        if let Some((h, i)) = t.oko("gnu_hash", secs.gnu_hash(e, data)) {
            t.at("elf.gnu_hash");
            t.d("gnu_hash", (i, h.symbol_base(), h.symbol_table_length(e)));
            for n in &names {
                t.d("gnu_hash.find", h.find(e, n, elf::gnu_hash(n), None, s, &vt).map(|x| x.0));
                t.d("gnu_hash.find", h.find(e, n, 0xffff_ffff, None, s, &vt).map(|x| x.0));
                t.d("gnu_hash.find", h.find(e, n, 0x8000_0001, None, s, &vt).map(|x| x.0));
            }
        }
    }
    if let Some((v, i)) = t.oko("versym", secs.gnu_versym(e, data)) {
        t.ps("versym", v);
        t.d("versym", i);
    }
    let def = t.oko("verdef", secs.gnu_verdef(e, data));
    let need = t.oko("verneed", secs.gnu_verneed(e, data));
    let link = def.as_ref().map(|x| x.1).or(need.as_ref().map(|x| x.1));
    let strings = link.and_then(|i| secs.strings(e, data, i).ok()).unwrap_or_default();
    versions(e, def.map(|x| x.0), need.map(|x| x.0), strings, t);

    for (i, s) in secs.enumerate().take(80) {
        if t.stop() {
            return;
        }
        t.d("sh", (s.sh_name(e), s.sh_type(e), s.sh_flags(e), s.sh_addr(e).into(), s.sh_offset(e).into(), s.sh_size(e).into()));
        t.d("sh", (s.sh_link(e), s.sh_info(e), s.sh_addralign(e).into(), s.sh_entsize(e).into(), s.link(e), s.has_info_link(e), s.info_link(e), s.file_range(e)));
        t.rb("sh.name", secs.section_name(e, s));
        t.rb("sh.data", s.data(e, data));
        if let Some(a) = t.ok("sh.array", s.data_as_array::<Elf::Rela, R>(e, data)) {
            t.ps("sh.array", a);
        }
        if let Some(st) = t.oko("sh.strings", s.strings(e, data)) {
            for o in [0, 1, 5, 0x7fff_ffff, u32::MAX] {
                t.rb("sh.string", st.get(o));
            }
        }
        if let Some(x) = t.oko("sh.symbols", s.symbols(e, data, &secs, i)) {
            t.d("sh.symbols", x.len());
        }
        if let Some((r, l)) = t.oko("sh.rel", s.rel(e, data)) {
            t.ps("rel", r);
            t.d("rel", l);
            for r in r.iter().take(32) {
                t.d("rel", (r.r_offset(e).into(), r.r_sym(e), r.r_type(e), r.symbol(e)));
                t.d("crel", Crel::from_rel(r, e));
            }
        }
        if let Some((r, l)) = t.oko("sh.rela", s.rela(e, data)) {
            t.ps("rela", r);
            t.d("rela", l);
            for r in r.iter().take(32) {
                for m in [false, true] {
                    t.d("rela", (r.r_offset(e).into(), r.r_sym(e, m), r.r_type(e, m), r.symbol(e, m)));
                    let a: i64 = r.r_addend(e).into();
                    t.d("rela", a);
                    t.d("crel", Crel::from_rela(r, e, m));
                }
            }
        }
        if let Some(r) = t.oko("sh.relr", s.relr(e, data)) {
            t.iter("elf.relr", r, |t, r| {
                let v: u64 = r.into();
                t.d("relr", v)
            });
        }
        if let Some((r, l)) = t.oko("sh.crel", s.crel(e, data)) {
            t.d("crel", (l, r.is_rela(), r.len().min(0xffff_ffff), r.is_empty()));
            t.iter("elf.crel", r, |t, r| {
                if let Some(r) = t.ok("crel", r) {
                    t.d("crel", (r, r.symbol()));
                }
            });
        }
        if let Some(d) = t.oko("sh.dynamic_table", s.dynamic_table(e, data, &secs)) {
            dynamic(&d, t);
        }
        if let Some(n) = t.oko("sh.notes", s.notes(e, data)) {
            notes(e, n, t);
        }
        if let Some((f, g)) = t.oko("sh.group", s.group(e, data)) {
            t.at("elf.group");
            t.d("group", f);
            t.ps("group", g);
        }
        if let Some((h, l)) = t.oko("sh.hash", s.hash(e, data)) {
            t.d("hash", (h.symbol_table_length(), l));
        }
        if let Some((h, l)) = t.oko("sh.gnu_hash", s.gnu_hash(e, data)) {
            t.d("gnu_hash", (h.symbol_base(), h.symbol_table_length(e), l));
        }
        if let Some(a) = t.oko("sh.gnu_attributes", s.gnu_attributes(e, data)) {
            attributes(a, t);
        }
        if i.0 < 12 {
            if let Some(a) = t.ok("sh.attributes", s.attributes(e, data)) {
                attributes(a, t);
            }
        }
        if let Some((h, o, n)) = t.oko("sh.compression", s.compression(e, data)) {
            t.at("elf.compression");
            t.p("chdr", h);
            t.d("chdr", (o, n, h.ch_type(e), h.ch_size(e).into(), h.ch_addralign(e).into()));
        }
    }
    let _ = e.is_big_endian();
}

//! PE specific interfaces.
use super::coff::sections;
use super::{T, generic};
use object::LittleEndian as LE;
use object::pe;
use object::read::coff::*;
use object::read::pe::*;
use object::read::{Object, ReadRef};

pub fn pe<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 2) else { return };
    if id != b"MZ" {
        return;
    }
    t.d("pe.magic", optional_header_magic(data));
    if let Some(f) = t.ok("pe32", PeFile32::<R>::parse(data)) {
        pfile(&f, data, t);
    }
    if let Some(f) = t.ok("pe64", PeFile64::<R>::parse(data)) {
        pfile(&f, data, t);
    }
    if let Some(h) = t.ok("dos", pe::ImageDosHeader::parse(data)) {
        t.p("dos", h);
        let off = h.nt_headers_offset() as u64;
        t.d("dos", off);
        for off in [off, off.wrapping_add(4), 0, 0x80, u64::MAX] {
            if let Some(r) = RichHeaderInfo::parse(data, off) {
                t.at("pe.rich");
                t.d("rich", (r.offset, r.length, r.xor_key));
                t.iter("pe.rich_entry", r.unmasked_entries(), |t, e| t.d("rich", e));
            } else {
                t.d("rich", "none");
            }
        }
        headers::<pe::ImageNtHeaders32, R>(data, off, t);
        headers::<pe::ImageNtHeaders64, R>(data, off, t);
    }
}

fn headers<'data, P: ImageNtHeaders, R: ReadRef<'data>>(data: R, mut off: u64, t: &mut T) {
    let Some((h, dirs)) = t.ok("nt", P::parse(data, &mut off)) else { return };
    t.p("nt", h);
    t.d("nt", (h.is_type_64(), h.is_valid_optional_magic(), h.signature(), off));
    let o = h.optional_header();
    t.d("nt.opt", (o.magic(), o.address_of_entry_point(), o.base_of_data(), o.image_base(), o.section_alignment(), o.size_of_image(), o.subsystem(), o.number_of_rva_and_sizes()));
    let Some(secs) = t.ok("nt.sections", h.sections(data, off)) else { return };
    t.d("dirs", (dirs.len(), dirs.iter().count()));
    for i in [0, 1, 15, 16, crate::walk::MOST] {
        t.d("dir", dirs.get(i).map(|d| d.address_range()));
    }
    for (i, d) in dirs.enumerate() {
        t.p("dir", d);
        t.d("dir", (i, d.file_range(&secs)));
        t.rb("dir.data", d.data(data, &secs));
    }
    t.ok("nt.symbols", h.symbols(data).map(|_| ()));
    tables::<P, R>(&dirs, &secs, data, t);
}

fn tables<'data, P: ImageNtHeaders, R: ReadRef<'data>>(dirs: &DataDirectories<'data>, secs: &SectionTable<'data>, data: R, t: &mut T) {
    if let Some(d) = t.oko("export_directory", dirs.export_directory(data, secs)) {
        t.p("export_directory", d);
    }
    if let Some(e) = t.oko("export_table", dirs.export_table(data, secs)) {
        exports(&e, t);
    }
    if let Some(i) = t.oko("import_table", dirs.import_table(data, secs)) {
        imports::<P>(&i, t);
    }
    if let Some(i) = t.oko("delay_table", dirs.delay_load_import_table(data, secs)) {
        delay::<P>(&i, t);
    }
    if let Some(mut b) = t.oko("reloc_blocks", dirs.relocation_blocks(data, secs)) {
        t.drain("pe.reloc_blocks", true, || b.next(), |t, b| {
            t.d("block", (b.virtual_address(), b.size()));
            t.iter("pe.relocs", b, |t, r| t.d("reloc", r));
        });
    }
    if let Some(r) = t.oko("resources", dirs.resource_directory(data, secs)) {
        if let Some(root) = t.ok("resource_root", r.root()) {
            t.at("pe.resources");
            let mut left = 300;
            resource(r, &root, 0, &mut left, t);
        }
    }
}

fn resource(dir: ResourceDirectory<'_>, table: &ResourceDirectoryTable<'_>, depth: u32, left: &mut u32, t: &mut T) {
    t.p("res.header", table.header);
    t.ps("res.entries", table.entries);
    for e in table.entries {
        if *left == 0 || t.stop() {
            return;
        }
        *left -= 1;
        t.d("res", (e.has_name(), e.is_table(), e.data_offset()));
        match e.name_or_id() {
            ResourceNameOrId::Name(n) => {
                t.d("res.name", n.to_string_lossy(dir));
                if let Some(d) = t.ok("res.name", n.data(dir)) {
                    t.ps("res.name", d);
                }
                t.rb("res.name", n.raw_data(dir));
            }
            n => t.d("res.id", n.id()),
        }
        match t.ok("res.data", e.data(dir)) {
            Some(ResourceDirectoryEntryData::Table(n)) if depth < 4 => resource(dir, &n, depth + 1, left, t),
            Some(ResourceDirectoryEntryData::Data(d)) => t.p("res.data", d),
            _ => {}
        }
    }
}

fn exports(e: &ExportTable<'_>, t: &mut T) {
    t.at("pe.exports");
    t.p("exp.dir", e.directory());
    t.d("exp.base", e.ordinal_base());
    t.ps("exp.addresses", e.addresses());
    t.ps("exp.names", e.name_pointers());
    t.d("exp.ordinals", e.name_ordinals().len());
    t.inside("exp.ordinals", e.name_ordinals().as_ptr() as *const u8, e.name_ordinals().len() * 2);
    t.iter("pe.export_address", e.address_iter(), |t, (i, o, a)| {
        t.d("exp", (i, o, a));
        t.d("exp", (e.address_by_index(i), e.address_by_ordinal(o), e.index_from_ordinal(o), e.ordinal_from_index(i)));
        match t.ok("exp.target", e.target_by_index(i)) {
            Some(x) => t.d("exp.target", (x, x.is_address(), x.is_forward())),
            None => {}
        }
        t.ok("exp.target", e.target_by_ordinal(o).map(|_| ()));
        t.ok("exp.target", e.target_from_address(a).map(|_| ()));
        t.d("exp.fwd", e.is_forward(a));
        t.rob("exp.fwd", e.forward_string(a));
    });
    t.iter("pe.export_name", e.name_iter(), |t, (p, i)| {
        t.d("exp.name", (p, i));
        t.rb("exp.name", e.name_from_pointer(p));
    });
    for i in [0u16, 1, 0x7fff, 0xffff] {
        let i = ExportAddressIndex(i);
        t.d("exp.at", (e.address_by_index(i), e.ordinal_from_index(i)));
    }
    for o in [0u16, 1, 0x7fff, 0xffff] {
        let o = ExportOrdinal(o);
        t.d("exp.at", (e.address_by_ordinal(o), e.index_from_ordinal(o)));
    }
    for a in [0, 1, u32::MAX] {
        t.d("exp.fwd", e.is_forward(a));
        t.rb("exp.name", e.name_from_pointer(a));
    }
    if let Some(v) = t.ok("exports", e.exports()) {
        t.d("exports", v.len());
        for x in v.iter().take(16) {
            t.d("exports", x);
            t.ob("exports.name", x.name);
        }
    }
}

fn thunks<P: ImageNtHeaders>(l: Option<ImportThunkList<'_>>, t: &mut T, imp: impl Fn(&mut T, P::ImageThunkData)) {
    let Some(mut l) = l else { return };
    for i in [0, 1, crate::walk::far(60), crate::walk::MOST] {
        t.d("thunk.get", l.get::<P>(i).map(|x| x.raw()));
    }
    t.drain("pe.thunks", true, || l.next::<P>(), |t, k| {
        t.d("thunk", (k.raw(), k.is_ordinal(), k.ordinal(), k.address()));
        imp(t, k);
    });
}

fn one(t: &mut T, i: Option<object::read::pe::Import<'_>>) {
    match i {
        Some(object::read::pe::Import::Name(h, n)) => {
            t.b("imp.name", n);
            t.d("imp.hint", h)
        }
        i => t.d("imp.ordinal", i),
    }
}

fn imports<P: ImageNtHeaders>(i: &ImportTable<'_>, t: &mut T) {
    let Some(mut d) = t.ok("descriptors", i.descriptors()) else { return };
    t.drain("pe.imports", true, || d.next(), |t, d| {
        t.p("desc", d);
        t.rb("desc.name", i.name(d.name.get(LE)));
        for a in [d.original_first_thunk.get(LE), d.first_thunk.get(LE)] {
            let l = t.ok("thunks", i.thunks(a));
            thunks::<P>(l, t, |t, k| {
                let x = t.ok("import", i.import::<P>(k));
                one(t, x);
            });
        }
    });
    for a in [0, 1, u32::MAX] {
        t.rb("imp.name", i.name(a));
        t.ok("imp.thunks", i.thunks(a).map(|_| ()));
        t.rb("imp.hint", i.hint_name(a).map(|x| x.1));
    }
}

fn delay<P: ImageNtHeaders>(i: &DelayLoadImportTable<'_>, t: &mut T) {
    let Some(mut d) = t.ok("delay", i.descriptors()) else { return };
    t.drain("pe.delay", true, || d.next(), |t, d| {
        t.p("delay", d);
        t.rb("delay.name", i.name(d.dll_name_rva.get(LE)));
        let l = t.ok("delay.thunks", i.thunks(d.import_name_table_rva.get(LE)));
        thunks::<P>(l, t, |t, k| {
            let x = t.ok("delay.import", i.import::<P>(k));
            one(t, x);
        });
    });
    for a in [0, 1, u32::MAX] {
        t.rb("delay.name", i.name(a));
        t.ok("delay.thunks", i.thunks(a).map(|_| ()));
        t.rb("delay.hint", i.hint_name(a).map(|x| x.1));
    }
}

fn pfile<'data, P: ImageNtHeaders, R: ReadRef<'data>>(f: &PeFile<'data, P, R>, data: R, t: &mut T) {
    t.at("pe");
    t.p("pe.dos", f.dos_header());
    t.p("pe.nt", f.nt_headers());
    if let Some(r) = f.rich_header_info() {
        t.d("pe.rich", (r.offset, r.length, r.xor_key));
    }
    for i in [0, 1, 5, 16, crate::walk::MOST] {
        t.d("pe.dir", f.data_directory(i).map(|d| d.address_range()));
    }
    sections::<R, pe::ImageFileHeader>(&f.section_table(), &Default::default(), data, t);
    tables::<P, R>(&f.data_directories(), &f.section_table(), data, t);
    t.ok("pe.export_table", f.export_table().map(|_| ()));
    t.ok("pe.import_table", f.import_table().map(|_| ()));
    t.ok("pe.delay_table", f.delay_load_import_table().map(|_| ()));
    for s in f.sections().take(24) {
        t.p("pe.section", s.pe_section());
    }
    for s in f.segments().take(24) {
        t.p("pe.segment", s.pe_section());
    }
    generic::object(f, t);
}

pub fn section<'data, R: ReadRef<'data>>(s: &pe::ImageSectionHeader, secs: &SectionTable<'data>, data: R, t: &mut T) {
    t.d("sec.pe", (s.pe_file_range(), s.pe_address_range()));
    t.rb("sec.pe_data", s.pe_data(data));
    let a = s.virtual_address.get(LE);
    for va in [a, a.wrapping_sub(1), a.wrapping_add(1), a.wrapping_add(s.virtual_size.get(LE)), u32::MAX, 0] {
        t.d("sec.va", (s.pe_file_range_at(va), s.contains_rva(va)));
        t.ob("sec.data_at", s.pe_data_at(data, va));
        let c = s.pe_data_containing(data, va);
        t.ob("sec.containing", c.map(|x| x.0));
        t.d("sec.containing", c.map(|x| x.1));
        t.d("secs.range_at", secs.pe_file_range_at(va));
        t.ob("secs.data_at", secs.pe_data_at(data, va));
        t.ob("secs.containing", secs.pe_data_containing(data, va).map(|x| x.0));
        t.d("secs.containing", secs.section_containing(va).map(|s| s.virtual_address.get(LE)));
    }
}

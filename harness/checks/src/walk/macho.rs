//! Mach-O, fat files and the dyld shared cache.
use super::{T, generic};
use object::read::macho::*;
use object::read::{Object, ReadRef, SymbolIndex};
use object::{Endian, Endianness, macho};

pub fn fat<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 4) else { return };
    if id[..3] != [0xca, 0xfe, 0xba] {
        return;
    }
    fn one<'data, F: FatArch + std::fmt::Debug, R: ReadRef<'data>>(f: &MachOFatFile<'data, F>, data: R, t: &mut T) {
        t.at("fat");
        t.p("fat", f.header());
        t.ps("fat", f.arches());
        for a in f.arches().iter().take(8) {
            t.d("arch", (a.cputype(), a.cpusubtype(), a.align(), a.architecture(), a.file_range()));
            let d = a.data(data);
            t.rb("arch.data", d.clone());
            if let Ok(d) = d {
                if t.depth == 0 {
                    t.depth += 1;
                    generic::detect(d, t);
                    t.depth -= 1;
                }
            }
        }
    }
    if let Some(f) = t.ok("fat32", MachOFatFile32::parse(data)) {
        one(&f, data, t);
    }
    if let Some(f) = t.ok("fat64", MachOFatFile64::parse(data)) {
        one(&f, data, t);
    }
}

pub fn cache<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 4) else { return };
    if id != b"dyld" {
        return;
    }
    if let Some(s) = t.ok("suffixes", DyldCache::<Endianness, R>::subcache_suffixes(data)) {
        t.d("suffixes", s);
    }
    if let Some(h) = t.ok("cache.header", macho::DyldCacheHeader::<Endianness>::parse(data)) {
        t.p("cache.header", h);
        if let Some((a, e)) = t.ok("cache.magic", h.parse_magic()) {
            t.d("cache", (a, e));
            t.d("cache.uuid", h.symbols_subcache_uuid(e));
            t.ok("cache.mappings", h.mappings(e, data).map(|_| ()));
            t.ok("cache.subcaches", h.subcaches(e, data).map(|_| ()));
            if let Some(i) = t.ok("cache.images", h.images(e, data)) {
                t.ps("cache.images", i);
                for i in i.iter().take(16) {
                    t.rb("cache.path", i.path(e, data));
                }
            }
        }
    }
    for subs in [&[][..], &[data][..], &[data, data]] {
        if let Some(c) = t.ok("cache", DyldCache::<Endianness, R>::parse(data, subs)) {
            t.at("cache");
            t.d("cache", (c.architecture(), c.endianness(), c.is_little_endian()));
            t.iter("cache.mapping", c.mappings(), |t, m| {
                t.d("mapping", (m.address(), m.size(), m.file_offset(), m.max_prot(), m.init_prot()));
                t.rb("mapping.data", m.data());
                for a in generic::around(m.address()).into_iter().chain([m.address().wrapping_add(m.size())]) {
                    t.d("data_for", c.data_and_offset_for_address(a).map(|x| x.1));
                }
                if let Some(mut r) = t.ok("mapping.relocations", m.relocations()) {
                    t.drain("cache.relocations", false, || r.next().transpose(), |t, r| t.d("reloc", r));
                }
            });
            let mut n = 0;
            t.iter("cache.image", c.images(), |t, i| {
                t.p("image", i.info());
                t.rs("image.path", i.path());
                t.d("image.offset", i.image_data_and_offset().map(|x| x.1));
                n += 1;
                if n < 4 && t.depth == 0 {
                    if let Some(f) = t.ok("image.object", i.parse_object()) {
                        t.at("cache.object");
                        generic::object(&f, t);
                    }
                    if let Some(f) = t.ok("image.macho64", MachOFile64::<Endianness, R>::parse_dyld_cache_image(&i)) {
                        mfile(&f, 0, t);
                    }
                }
            });
        }
    }
}

pub fn macho<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 4) else { return };
    if !matches!(id, [0xfe, 0xed, 0xfa, 0xce | 0xcf] | [0xce | 0xcf, 0xfa, 0xed, 0xfe]) {
        return;
    }
    if let Some(f) = t.ok("macho32", MachOFile32::<Endianness, R>::parse(data)) {
        mfile(&f, 0, t);
    }
    if let Some(f) = t.ok("macho64", MachOFile64::<Endianness, R>::parse(data)) {
        mfile(&f, 0, t);
    }
    if let Some(h) = t.ok("mh32", macho::MachHeader32::<Endianness>::parse(data, 0)) {
        commands(h, data, 0, t);
    }
    if let Some(h) = t.ok("mh64", macho::MachHeader64::<Endianness>::parse(data, 0)) {
        commands(h, data, 0, t);
    }
    t.ok("mh64", macho::MachHeader64::<Endianness>::parse(data, u64::MAX).map(|_| ()));
}

fn symtab<'data, M: MachHeader<Endian = Endianness>, R: ReadRef<'data>>(e: Endianness, s: &SymbolTable<'data, M, R>, t: &mut T) {
    t.at("macho.symtab");
    t.d("msyms", (s.len(), s.is_empty()));
    t.ps("msyms", s.symbols());
    t.iter("macho.symbols", s.enumerate(), |t, (i, y)| {
        t.d("msym", (i, y.n_strx(e), y.n_type(), y.n_sect(), y.n_desc(e), y.n_value(e).into()));
        t.d("msym", (y.is_stab(), y.stab(), y.is_undefined(), y.is_common(), y.is_definition(), y.library_ordinal(e)));
        t.rb("msym.name", y.name(e, s.strings()));
        t.rb("msym.name", s.symbol_name(e, y));
    });
    for i in [0, s.len(), crate::walk::MOST] {
        t.ok("msym.at", s.symbol(SymbolIndex(i)).map(|_| ()));
    }
    let m = s.map(|y| Some(object::read::SymbolMapName::new(y.n_value(e).into(), 0, "")));
    t.d("msyms.map", m.symbols().len());
    let m = s.object_map(e);
    t.d("msyms.objects", (m.objects().len(), m.symbols().len()));
}

fn mfile<'data, M: MachHeader<Endian = Endianness>, R: ReadRef<'data>>(f: &MachOFile<'data, M, R>, _off: u64, t: &mut T) {
    t.at("macho");
    let e = f.endian();
    t.p("macho", f.macho_header());
    symtab(e, f.macho_symbol_table(), t);
    if let Some((b, tools)) = t.oko("build_version", f.build_version()) {
        t.p("build_version", b);
        t.ps("build_version", tools);
    }
    if let Some(mut c) = t.ok("macho.commands", f.macho_load_commands()) {
        t.drain("macho.commands", true, || c.next(), |t, c| t.d("cmd", c.cmd()));
    }
    for s in f.sections().take(24) {
        t.p("msect", s.macho_section());
        if let Some(r) = t.ok("msect.rel", s.macho_relocations()) {
            t.ps("msect.rel", r);
        }
    }
    for s in f.segments().take(24) {
        t.p("mseg", s.macho_segment());
    }
    for s in f.symbols().take(24) {
        t.p("msym", s.macho_symbol());
    }
    generic::object(f, t);
}

fn segment<'data, S: Segment<Endian = Endianness>, R: ReadRef<'data>>(
    e: Endianness,
    s: &S,
    rest: &'data [u8],
    data: R,
    indirect: Option<&'data [object::U32<Endianness, macho::IndirectSymbol>]>,
    t: &mut T,
) {
    t.at("macho.segment");
    t.p("seg", s);
    t.b("seg.name", s.name());
    t.d("seg", (s.vmaddr(e).into(), s.vmsize(e).into(), s.file_range(e), s.maxprot(e), s.initprot(e), s.nsects(e), s.flags(e)));
    t.rb("seg.data", s.data(e, data));
    let Some(secs) = t.ok("seg.sections", s.sections(e, rest)) else { return };
    t.ps("seg.sections", secs);
    t.iter("macho.section_offsets", s.section_offsets(e, secs), |t, x| {
        let Some((x, o)) = t.ok("sect.offset", x) else { return };
        t.b("sect.name", x.name());
        t.b("sect.segname", x.segment_name());
        t.d("sect", (x.addr(e).into(), x.size(e).into(), o, x.section_type(e), x.file_size(e), x.file_range(e, o), x.symbol_stub_size(e)));
        t.rb("sect.data", x.data(e, data, o));
        if let Some(r) = t.ok("sect.rel", x.relocations(e, data)) {
            t.ps("sect.rel", r);
            for r in r.iter().take(24) {
                for c in [macho::CPU_TYPE_X86, macho::CPU_TYPE_X86_64, macho::CPU_TYPE_ARM64] {
                    t.d("rel.scattered", r.r_scattered(e, c));
                }
                t.d("rel.info", r.info(e));
                t.d("rel.sinfo", r.scattered_info(e));
            }
        }
        if let Some(i) = indirect {
            if let Some(i) = t.ok("sect.indirect", x.indirect_symbols(e, i)) {
                t.ps("sect.indirect", i);
            }
        }
    });
}

fn linkedit<'data, R: ReadRef<'data>>(e: Endianness, c: &macho::LinkeditDataCommand<Endianness>, data: R, segs: &[&'data [u8]], t: &mut T) {
    t.at("macho.linkedit");
    t.rb("linkedit", c.data(e, data));
    for base in [0, 0x1_0000_0000, u64::MAX] {
        if let Some(mut f) = t.ok("function_starts", c.function_starts(e, data, base)) {
            t.drain("macho.function_starts", true, || f.next(), |t, f| t.d("fn", f));
        }
    }
    if let Some(mut f) = t.ok("exports_trie", c.exports_trie(e, data)) {
        t.drain("macho.exports_trie", true, || f.next(), |t, s| {
            t.owned("trie.name", s.name());
            t.d("trie", (s.flags(), s.data()));
        });
    }
    if let Some(cs) = t.ok("code_signature", c.code_signature(e, data)) {
        t.at("macho.codesign");
        t.p("cs", cs.header());
        t.ps("cs.index", cs.index());
        let mut it = cs.blobs();
        t.drain("macho.blobs", true, || it.next(), |t, b| {
            t.d("blob", (b.slot(), b.offset(), b.magic()));
            t.b("blob", b.data());
            t.b("blob", b.contents());
            if let Some(d) = t.oko("blob.cd", b.code_directory()) {
                codedir(&d, t);
            }
            if let Some(d) = t.ok("cd", CodeDirectory::parse(b.data())) {
                codedir(&d, t);
            }
        });
    }
    if let Some(f) = t.ok("chained", c.chained_fixups(e, data)) {
        t.at("macho.chained");
        t.p("chained", f.header());
        if let Some(mut i) = t.ok("chained.imports", f.imports(e)) {
            t.drain("macho.chained_imports", true, || i.next(), |t, i| t.d("chained.import", i));
        }
        if let Some(mut s) = t.ok("chained.segments", f.segments(e)) {
            t.drain("macho.chained_segments", true, || s.next(), |t, s| {
                t.p("chained.segment", s.header());
                let i = s.index();
                t.d("chained.segment", i);
                for d in segs.get(i as usize).into_iter().chain(segs.first()).chain([&&b""[..]]) {
                    let mut x = s.fixups(e, 0x1_0000_0000, d);
                    t.drain("macho.fixups", false, || x.next(), |t, x| t.d("fixup", x));
                }
            });
        }
    }
}

fn codedir(d: &CodeDirectory<'_>, t: &mut T) {
    t.at("macho.codedir");
    t.p("cd", d.header());
    t.d("cd", (d.version(), d.scatter_offset(), d.team_offset(), d.code_limit(), d.code_limit64()));
    if let Some(x) = d.exec_seg() {
        t.p("cd.exec", x);
    }
    t.rb("cd.ident", d.ident());
    t.rob("cd.team", d.team_id());
    for i in [0, 1, 2, 5, 7, 0x1000, u32::MAX] {
        t.rb("cd.special", d.special_hash(macho::CsSlot(i)));
        t.rb("cd.code", d.code_hash(i));
    }
}

fn dyld_info<'data, R: ReadRef<'data>>(e: Endianness, c: &macho::DyldInfoCommand<Endianness>, data: R, t: &mut T) {
    t.at("macho.dyld_info");
    for d in [c.rebase_data(e, data), c.bind_data(e, data), c.weak_bind_data(e, data), c.lazy_bind_data(e, data), c.export_data(e, data)] {
        t.rb("dyld_info", d);
    }
    if let Some(mut i) = t.ok("rebase_ops", c.rebase_operations(e, data)) {
        t.drain("macho.rebase_ops", true, || i.next(), |t, x| t.d("rebase_op", x));
    }
    for i in [c.bind_operations(e, data), c.weak_bind_operations(e, data), c.lazy_bind_operations(e, data)] {
        if let Some(mut i) = t.ok("bind_ops", i) {
            t.drain("macho.bind_ops", true, || i.next(), |t, x| t.d("bind_op", x));
        }
    }
    for p in [4, 8] {
        if let Some(mut i) = t.ok("rebases", c.rebases(e, data, p)) {
            t.drain("macho.rebases", false, || i.next(), |t, x| t.d("rebase", x));
        }
        for i in [c.binds(e, data, p), c.weak_binds(e, data, p), c.lazy_binds(e, data, p)] {
            if let Some(mut i) = t.ok("binds", i) {
                t.drain("macho.binds", false, || i.next(), |t, x| t.d("bind", x));
            }
        }
    }
    if let Some(mut f) = t.ok("dyld_info.exports", c.exports_trie(e, data)) {
        t.drain("macho.exports_trie", true, || f.next(), |t, s| t.owned("trie.name", s.name()));
    }
}

fn commands<'data, M: MachHeader<Endian = Endianness>, R: ReadRef<'data>>(h: &M, data: R, off: u64, t: &mut T) {
    t.p("mh", h);
    t.d("mh", (h.is_type_64(), h.is_big_endian(), h.is_little_endian(), h.is_supported(), h.magic()));
    let Some(e) = t.ok("mh.endian", h.endian()) else { return };
    t.d("mh", (h.cputype(e), h.cpusubtype(e), h.filetype(e), h.ncmds(e), h.sizeofcmds(e), h.flags(e)));
    t.d("mh.uuid", h.uuid(e, data, off));
    for o in [1, u64::MAX, 1 << 40] {
        t.ok("mh.commands", h.load_commands(e, data, o).map(|_| ()));
    }
    // Segment data and indirect symbols are needed by other commands.
    let mut segs: Vec<&'data [u8]> = vec![];
    let mut indirect = None;
    if let Ok(mut c) = h.load_commands(e, data, off) {
        while let Ok(Some(c)) = c.next() {
            if let Ok(Some((s, _))) = M::Segment::from_command(c) {
                if let Ok(d) = s.data(e, data) {
                    segs.push(d);
                }
            }
            if let Ok(Some(d)) = c.dysymtab() {
                indirect = d.indirect_symbols(e, data).ok();
            }
            if segs.len() > 40 {
                break;
            }
        }
    }
    let Some(mut c) = t.ok("mh.commands", h.load_commands(e, data, off)) else { return };
    t.drain("macho.load_commands", true, || c.next(), |t, c| {
        t.d("lc", (c.cmd(), c.cmdsize(), c.offset()));
        t.b("lc", c.raw_data());
        if let Some(v) = t.ok("lc.variant", c.variant()) {
            t.d("lc.variant", v);
            match v {
                LoadCommandVariant::Dylib(d) | LoadCommandVariant::IdDylib(d) => {
                    t.rb("lc.string", c.string(e, d.dylib.name));
                    t.d("lc.use", c.dylib_use_flags(e, d));
                }
                LoadCommandVariant::LoadDylinker(d) | LoadCommandVariant::IdDylinker(d) | LoadCommandVariant::DyldEnvironment(d) => t.rb("lc.string", c.string(e, d.name)),
                LoadCommandVariant::PreboundDylib(d) => t.rb("lc.string", c.string(e, d.name)),
                LoadCommandVariant::SubFramework(d) => t.rb("lc.string", c.string(e, d.umbrella)),
                LoadCommandVariant::Rpath(d) => t.rb("lc.string", c.string(e, d.path)),
                LoadCommandVariant::FilesetEntry(d) => t.rb("lc.string", c.string(e, d.entry_id)),
                LoadCommandVariant::BuildVersion(b, rest) => {
                    t.b("lc.build", rest);
                    if let Some(x) = t.ok("lc.tools", b.tools(e, rest)) {
                        t.ps("lc.tools", x);
                    }
                }
                LoadCommandVariant::Thread(_, rest) => t.b("lc.thread", rest),
                LoadCommandVariant::Symtab(s) => {
                    if let Some(s) = t.ok("lc.symbols", s.symbols::<M, R>(e, data)) {
                        symtab(e, &s, t);
                    }
                }
                LoadCommandVariant::Dysymtab(d) => {
                    if let Some(i) = t.ok("lc.indirect", d.indirect_symbols(e, data)) {
                        t.at("macho.indirect");
                        t.ps("lc.indirect", i);
                    }
                }
                LoadCommandVariant::LinkeditData(l) => linkedit(e, l, data, &segs, t),
                LoadCommandVariant::DyldInfo(d) => dyld_info(e, d, data, t),
                _ => {}
            }
        }
        if let Some((s, rest)) = t.oko("lc.segment", M::Segment::from_command(c)) {
            segment(e, s, rest, data, indirect, t);
        }
        t.ok("lc.any", c.data::<macho::SegmentCommand64<Endianness>>().map(|_| ()));
        t.ok("lc.s32", c.segment_32().map(|_| ()));
        t.ok("lc.s64", c.segment_64().map(|_| ()));
        t.d("lc.entry", c.entry_point());
        t.ok("lc.thread", c.unix_thread().map(|_| ()));
        t.ok("lc.build", c.build_version(e).map(|_| ()));
        t.ok("lc.trie", c.dyld_exports_trie().map(|_| ()));
        t.ok("lc.fix", c.dyld_chained_fixups().map(|_| ()));
        t.ok("lc.dylib", c.dylib().map(|_| ()));
        t.ok("lc.uuid", c.uuid().map(|_| ()));
        t.ok("lc.info", c.dyld_info().map(|_| ()));
    });
    let _ = e.is_big_endian();
}

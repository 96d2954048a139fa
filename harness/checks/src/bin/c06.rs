//! C06: ELF dynamic metadata, versions, notes, attributes, hash lookups.
use genf::elf::*;
use genf::elfdyn::*;
use genf::w::{self, W};
use object::elf;
use object::read::elf::{Dyn as _, ElfFile, FileHeader, NoteIterator, SectionHeader as _};
use object::read::*;
use object::Endianness;
use vcore::*;

struct Note {
    name: Vec<u8>,
    ty: u32,
    desc: Vec<u8>,
    props: Option<Vec<(u32, Vec<u8>)>>,
}
struct Attr {
    vendor: Vec<u8>,
    subs: Vec<(u8, Vec<u32>, Vec<(u64, std::result::Result<u64, Vec<u8>>)>)>,
}

struct M {
    e: Elf,
    d: DynModel,
    dynamic: Vec<(i64, u64, Option<Vec<u8>>)>,
    trailing: usize,
    has_versym: bool,
    has_def: bool,
    has_need: bool,
    /// Symbols with an index that no version has.
    dangling: Vec<usize>,
    notes: Vec<Note>,
    note_align: u64,
    attrs: Vec<Attr>,
    sec: std::collections::BTreeMap<&'static str, usize>,
}

const STR_TAGS: &[i64] = &[1, 14, 15, 29, 0x7fff_fffd, 0x7fff_ffff];
const ADDR_TAGS: &[i64] = &[3, 4, 5, 6, 7, 12, 13, 17, 21, 23, 25, 26, 32, 34, 0x6fff_fffc, 0x6fff_fffe, 0x6fff_fff0];
const VAL_TAGS: &[i64] = &[2, 8, 9, 10, 11, 16, 18, 19, 20, 22, 24, 27, 28, 30, 33, 35, 36, 37, 0x6fff_fffd, 0x6fff_ffff, 0x6fff_fffb, 0x6fff_fff9, 0x6fff_fffa, 0x6000_0010, 0x7000_0001];

fn model(r: &mut Rng) -> M {
    let mut e = Elf { is64: r.bool(), be: r.bool(), machine: *r.pick(&[62u16, 183, 3, 20]), etype: 3, ..Default::default() };
    let mask = e.mask();
    let ws = if e.is64 { 8 } else { 4 };
    let mut d = dyn_model(r, e.is64);
    let mut sec = std::collections::BTreeMap::new();
    // Dynamic entries.
    let mut dynamic = vec![];
    for _ in 0..r.idx(14) {
        match r.below(3) {
            0 => {
                let s = r.ident(12).into_bytes();
                let o = d.strs.add(r, &s) as u64;
                let t = if r.bool() { 1 } else { *r.pick(STR_TAGS) };
                dynamic.push((t, o, Some(s)));
            }
            1 => dynamic.push((*r.pick(ADDR_TAGS), r.edgy(64) & mask, None)),
            _ => {
                let t = if r.one_in(6) { (r.edgy(if e.is64 { 63 } else { 31 }) as i64).max(2) } else { *r.pick(VAL_TAGS) };
                let t = if r.one_in(20) { -5 } else { t };
                let t = if STR_TAGS.contains(&t) || !e.is64 && t > 0x7fff_ffff { 2 } else { t };
                dynamic.push((t, r.edgy(64) & mask, None));
            }
        }
    }
    let trailing = r.idx(3);
    let mut w = e.w();
    for (t, v, _) in &dynamic {
        w.word(*t as u64).word(*v);
    }
    w.word(0).word(r.below(3));
    for _ in 0..trailing {
        w.word(1).word(r.below(9));
    }
    let dynb = w.b;
    // Order of the sections is random.
    let mut kinds = vec!["text", "dynstr", "dynsym", "dynamic", "hash", "gnu_hash"];
    let has_versym = !d.defs.is_empty() || !d.needs.is_empty();
    let has_def = has_versym && !d.defs.is_empty();
    let has_need = has_versym && !d.needs.is_empty();
    if has_versym {
        kinds.push("versym");
    }
    if has_def {
        kinds.push("verdef");
    }
    if has_need {
        kinds.push("verneed");
    }
    let mut dangling = vec![];
    if has_versym && r.one_in(4) {
        let top = d.defs.iter().map(|x| x.ndx).chain(d.needs.iter().flat_map(|n| n.aux.iter().map(|a| a.other))).max().unwrap_or(2) & 0x7fff;
        for i in 1..d.syms.len() {
            let v = if r.bool() { 2 + r.below(top as u64 + 3) as u16 } else { r.below(0x7ffe) as u16 + 2 };
            if r.one_in(3) && d.version(v).is_none() && !d.defs.iter().any(|x| x.ndx == v) {
                d.versym[i] = v | if r.bool() { 0x8000 } else { 0 };
                dangling.push(i);
            }
        }
    }
    kinds.push("note");
    kinds.push("attr");
    r.shuffle(&mut kinds[1..]);
    for (i, k) in kinds.iter().enumerate() {
        sec.insert(*k, i + 1);
    }
    // Notes.
    let note_align = *r.pick(&[0u64, 1, 4, 8]);
    let mut notes = vec![];
    let mut nw = e.w();
    for _ in 0..r.idx(6) {
        let mut name = match r.below(4) {
            0 => b"GNU".to_vec(),
            1 => vec![],
            _ => r.ident(9).into_bytes(),
        };
        let mut ty = if r.bool() { r.below(8) as u32 } else { r.edgy(32) as u32 };
        let mut props = None;
        let n = r.idx(30);
        let mut desc = r.bytes(n);
        if r.one_in(3) {
            name = b"GNU".to_vec();
            ty = 5;
            let mut p = e.w();
            let mut v = vec![];
            for _ in 0..r.idx(4) {
                let t = r.edgy(32) as u32;
                let n = if r.bool() { 4 } else { r.idx(20) };
                let b = r.bytes(n);
                p.u32(t).u32(n as u32).put(&b).align(ws);
                v.push((t, b));
            }
            desc = p.b;
            props = Some(v);
        } else if name == b"GNU" && ty == 5 {
            ty = 4;
        }
        let mut full = name.clone();
        if !name.is_empty() || r.bool() {
            full.push(0);
        }
        note(&mut nw, &full, ty, &desc, if note_align == 8 { 8 } else { 4 });
        notes.push(Note { name, ty, desc, props });
    }
    if r.one_in(4) && !notes.is_empty() && notes.last().unwrap().desc.len() % 4 != 0 {
        // The last note may lack its final padding.
        let pad = (nw.b.len() as u64).wrapping_sub(0) as usize;
        let want = if note_align == 8 { 8 } else { 4 };
        let k = (want - notes.last().unwrap().desc.len() % want) % want;
        nw.b.truncate(pad - k);
    }
    // Attributes.
    let mut attrs = vec![];
    let mut aw = e.w();
    aw.u8(b'A');
    for _ in 0..r.idx(4) {
        let vendor = r.ident(8).into_bytes();
        let mut body = e.w();
        body.put(&vendor).u8(0);
        let mut subs = vec![];
        for _ in 0..r.idx(4) {
            let tag = 1 + r.below(3) as u8;
            let mut b = vec![];
            let mut idx = vec![];
            if tag != 1 {
                for _ in 0..r.idx(4) {
                    let v = 1 + (r.edgy(31) as u32 >> r.below(20));
                    w::uleb(&mut b, v as u64);
                    idx.push(v);
                }
                b.push(0);
            }
            let mut vals = vec![];
            for _ in 0..r.idx(5) {
                let t = r.edgy(64);
                w::uleb(&mut b, t);
                if r.bool() {
                    let v = r.edgy(64);
                    w::uleb_pad(&mut b, v, 0);
                    vals.push((t, Ok(v)));
                } else {
                    let s = r.ident(6).into_bytes();
                    b.extend(&s);
                    b.push(0);
                    vals.push((t, Err(s)));
                }
            }
            body.u8(tag).u32(b.len() as u32 + 5).put(&b);
            subs.push((tag, idx, vals));
        }
        aw.u32(body.len() as u32 + 4).put(&body.b.clone());
        attrs.push(Attr { vendor, subs });
    }
    for k in &kinds {
        let mut w = e.w();
        let mut s = Sec { name: format!(".{k}").into_bytes(), align: 8, place: 8, ty: 1, ..Default::default() };
        match *k {
            "text" => w.b = vec![0x90; 16],
            "dynstr" => {
                s.ty = 3;
                w.b = d.strs.b.clone();
            }
            "dynsym" => {
                s.ty = 11;
                s.link = sec["dynstr"] as u32;
                w.b = e.sym_table(&d.syms);
            }
            "dynamic" => {
                s.ty = 6;
                s.link = sec["dynstr"] as u32;
                w.b = dynb.clone();
            }
            "hash" => {
                s.ty = 5;
                s.link = sec["dynsym"] as u32;
                let nb = r.idx(9);
                let nb = nb.max(1);
                hash_table(&mut w, r, &d.names, nb);
            }
            "gnu_hash" => {
                s.ty = 0x6fff_fff6;
                s.link = sec["dynsym"] as u32;
                let bloom = 1 << r.below(4);
                let shift = r.below(32) as u32;
                gnu_hash_table(&mut w, &d.names, d.base, d.nbuckets, bloom, shift);
            }
            "versym" => {
                s.ty = 0x6fff_ffff;
                s.link = sec["dynsym"] as u32;
                for v in &d.versym {
                    w.u16(*v);
                }
            }
            "verdef" => {
                s.ty = 0x6fff_fffd;
                s.link = sec["dynstr"] as u32;
                s.info = d.defs.len() as u32;
                verdefs(&mut w, r, &d.defs);
            }
            "verneed" => {
                s.ty = 0x6fff_fffe;
                s.link = sec["dynstr"] as u32;
                s.info = d.needs.len() as u32;
                verneeds(&mut w, r, &d.needs);
            }
            "note" => {
                s.ty = 7;
                s.align = note_align;
                w.b = nw.b.clone();
            }
            "attr" => {
                s.ty = 0x6fff_fff5;
                w.b = aw.b.clone();
            }
            _ => unreachable!(),
        }
        s.data = w.b;
        e.add(s);
    }
    e.finish_names(r);
    M { e, d, dynamic, trailing, has_versym, has_def, has_need, dangling, notes, note_align, attrs, sec }
}

impl M {
    fn ver(&self, i: usize) -> Option<(Vec<u8>, Option<Vec<u8>>)> {
        if self.has_versym { self.d.version(self.d.versym[i]) } else { None }
    }
    /// Would a lookup with this version accept symbol i?
    fn accepts(&self, i: usize, want: Option<&[u8]>) -> bool {
        let def = self.ver(i).map(|v| v.0);
        if self.dangling.contains(&i) {
            return false;
        }
        match (def, want) {
            (Some(d), Some(w)) => d == w,
            (None, Some(_)) => false,
            (Some(_), None) => self.d.versym[i] & 0x8000 == 0,
            (None, None) => true,
        }
    }
}

fn view<'d, O: Object<'d>>(f: &O, m: &M, o: &mut Obs) -> Res {
    let libs: Vec<&[u8]> = m.dynamic.iter().filter(|d| d.0 == 1).map(|d| &d.2.as_ref().unwrap()[..]).collect();
    let mut got = vec![];
    for l in okay!(f.import_libraries(), "import_libraries") {
        got.push(okay!(l, "library").name());
    }
    same!(got, libs, "import libraries");
    o.add("libraries", libs.len() as u64);
    let mut it = okay!(f.imports(), "imports");
    for (i, s) in m.d.syms.iter().enumerate().skip(1) {
        if s.shndx != 0 || s.name.is_empty() {
            continue;
        }
        let g = okay!(some!(it.next(), "import {i}"), "import {i}");
        same!(g.name(), NameOrOrdinal::Name(&s.name[..]), "import {i} name");
        let v = m.ver(i);
        same!(g.library(), &v.as_ref().and_then(|v| v.1.clone()).unwrap_or_default()[..], "import {i} library");
        same!(g.is_weak(), s.bind == 2, "import {i} weak");
        same!(g.flags(), ImportFlags::Elf { st_info: elf::SymbolInfo(s.bind << 4 | s.ty), st_other: elf::SymbolOther(s.other), version: v.as_ref().map(|v| &v.0[..]) }, "import {i} flags");
        o.hit("imports");
    }
    ensure!(it.next().is_none(), "extra import");
    let mut it = okay!(f.exports(), "exports");
    for (i, s) in m.d.syms.iter().enumerate().skip(1) {
        if s.shndx == 0 || s.bind == 0 || (s.shndx >= 0xff00 && s.shndx != 0xfff1) {
            continue;
        }
        let t = match s.ty {
            0..=2 => if s.shndx == 0xfff1 { ExportTarget::Absolute { value: s.value } } else { ExportTarget::Address { address: s.value } },
            6 => ExportTarget::Tls { offset: s.value },
            10 => ExportTarget::Resolver { resolver: s.value, stub: None },
            _ => continue,
        };
        let g = okay!(some!(it.next(), "export {i}"), "export {i}");
        same!(g.name(), NameOrOrdinal::Name(&s.name[..]), "export {i} name");
        same!(g.target(), t, "export {i} target");
        same!(g.is_weak(), s.bind == 2, "export {i} weak");
        let v = m.ver(i);
        same!(g.flags(), ExportFlags::Elf { st_info: elf::SymbolInfo(s.bind << 4 | s.ty), st_other: elf::SymbolOther(s.other), version: v.as_ref().map(|v| &v.0[..]), version_hidden: m.has_versym && m.d.versym[i] & 0x8000 != 0 }, "export {i} flags");
        o.hit("exports");
    }
    ensure!(it.next().is_none(), "extra export");
    Ok(())
}

fn low<H: FileHeader<Endian = Endianness>>(m: &M, data: &[u8], r: &mut Rng, o: &mut Obs) -> Res {
    let f = okay!(ElfFile::<H>::parse(data), "parse");
    if m.dangling.is_empty() {
        view(&f, m, o)?;
    }
    let en = f.endian();
    let t = f.elf_section_table();
    let syms = f.elf_dynamic_symbol_table();
    // Dynamic table.
    let dt = okay!(t.dynamic_table(en, data), "dynamic_table");
    same!(dt.len(), m.dynamic.len() + 1 + m.trailing, "raw dynamic count");
    same!(dt.iter().count(), m.dynamic.len(), "dynamic count");
    for (g, (tag, val, s)) in dt.iter().zip(&m.dynamic) {
        same!((g.tag.0, g.val), (*tag, *val), "dynamic entry");
        same!(g.is_string(), STR_TAGS.contains(tag), "is_string {tag:#x}");
        let addr = ADDR_TAGS.contains(tag) || (0x6fff_fe00..=0x6fff_feff).contains(tag);
        same!(g.is_address(), addr, "is_address {tag:#x}");
        if let Some(s) = s {
            same!(dt.string(g), Ok(&s[..]), "dynamic string");
        }
        o.hit("dynamic-entries");
    }
    let (raw, link) = some!(okay!(t.dynamic(en, data), "dynamic"), "dynamic");
    same!(link.0, m.sec["dynstr"], "dynamic link");
    for (g, (tag, val, s)) in raw.iter().zip(&m.dynamic) {
        same!((g.d_tag(en).0, g.d_val(en).into()), (*tag, *val), "raw dynamic");
        if let Some(s) = s {
            same!(g.string(en, *dt.strings()), Ok(&s[..]), "raw dynamic string");
        }
    }
    // Versions.
    let vt = okay!(t.versions(en, data), "versions");
    same!(vt.is_some(), m.has_versym, "has versions");
    let vt = vt.unwrap_or_default();
    for i in 1..m.d.syms.len() {
        if !m.has_versym {
            break;
        }
        let vi = vt.version_index(en, SymbolIndex(i));
        same!((vi.0, vi.index().0, vi.is_hidden()), (m.d.versym[i], m.d.versym[i] & 0x7fff, m.d.versym[i] & 0x8000 != 0), "version index {i}");
        if m.dangling.contains(&i) {
            ensure!(vt.version(vi.index()).is_err(), "symbol {i}: version {} exists", vi.0);
            o.hit("dangling versions");
            continue;
        }
        let got = okay!(vt.version(vi.index()), "version");
        let want = m.ver(i);
        same!(got.map(|v| (v.name(), v.hash(), v.file())), want.as_ref().map(|v| (&v.0[..], sysv_hash(&v.0), v.1.as_deref())), "version of {i}");
        o.hit(if want.is_some() { "versioned" } else { "unversioned" });
    }
    if m.has_def {
        let (mut it, link) = some!(okay!(t.gnu_verdef(en, data), "verdef"), "verdef");
        same!(link.0, m.sec["dynstr"], "verdef link");
        let strs = okay!(t.strings(en, data, link), "strings");
        for d in &m.d.defs {
            let (g, mut aux) = some!(okay!(it.next(), "verdef"), "verdef");
            same!((g.vd_flags.get(en).0, g.vd_ndx.get(en).0, g.vd_cnt.get(en), g.vd_hash.get(en)), (d.flags, d.ndx, d.names.len() as u16, sysv_hash(&d.names[0].0)), "verdef");
            for n in &d.names {
                let a = some!(okay!(aux.next(), "verdaux"), "verdaux");
                same!(a.name(en, strs), Ok(&n.0[..]), "verdaux name");
            }
            ensure!(okay!(aux.next(), "verdaux").is_none(), "extra verdaux");
            o.hit("verdefs");
        }
        ensure!(okay!(it.next(), "verdef").is_none(), "extra verdef");
    }
    if m.has_need {
        let (mut it, link) = some!(okay!(t.gnu_verneed(en, data), "verneed"), "verneed");
        let strs = okay!(t.strings(en, data, link), "strings");
        for d in &m.d.needs {
            let (g, mut aux) = some!(okay!(it.next(), "verneed"), "verneed");
            same!(g.file(en, strs), Ok(&d.file[..]), "verneed file");
            for n in &d.aux {
                let a = some!(okay!(aux.next(), "vernaux"), "vernaux");
                same!(a.name(en, strs), Ok(&n.name[..]), "vernaux name");
                same!((a.vna_hash.get(en), a.vna_flags.get(en).0, a.vna_other(en).0), (sysv_hash(&n.name), n.flags, n.other), "vernaux");
            }
            ensure!(okay!(aux.next(), "vernaux").is_none(), "extra vernaux");
            o.hit("verneeds");
        }
        ensure!(okay!(it.next(), "verneed").is_none(), "extra verneed");
    }
    // Hash tables.
    let (h, link) = some!(okay!(t.hash(en, data), "hash"), "hash");
    same!(link.0, m.sec["dynsym"], "hash link");
    same!(h.symbol_table_length() as usize, m.d.syms.len(), "hash symbol count");
    let (g, _) = some!(okay!(t.gnu_hash(en, data), "gnu_hash"), "gnu_hash");
    same!(g.symbol_base() as usize, m.d.base, "gnu hash base");
    same!(g.symbol_table_length(en), if m.d.base < m.d.syms.len() { Some(m.d.syms.len() as u32) } else { None }, "gnu hash symbol count");
    let mut names: Vec<Vec<u8>> = m.d.names[1..].to_vec();
    names.sort();
    names.dedup();
    for _ in 0..4 {
        names.push(r.ident(4).into_bytes());
    }
    names.push(vec![]);
    let mut vers: Vec<Option<u16>> = vec![None];
    vers.extend(m.d.defs.iter().filter(|d| d.flags & 1 == 0).map(|d| Some(d.ndx)));
    vers.extend(m.d.needs.iter().flat_map(|n| n.aux.iter().map(|a| Some(a.other))));
    if !m.has_versym {
        vers.truncate(1);
    }
    for n in &names {
        same!((elf::hash(n), elf::gnu_hash(n)), (sysv_hash(n), gnu_hash(n)), "hash functions");
        for v in &vers {
            let vd = match v {
                None => None,
                Some(i) => okay!(vt.version(elf::VersionIndex(*i)), "version"),
            };
            let vn = v.and_then(|i| m.d.version(i)).map(|x| x.0);
            for gnu in [false, true] {
                let from = if gnu { m.d.base } else { 1 };
                let cand: Vec<usize> = (from..m.d.syms.len()).filter(|i| m.d.names[*i] == *n && m.accepts(*i, vn.as_deref())).collect();
                let got = if gnu { g.find(en, n, gnu_hash(n), vd, syms, &vt) } else { h.find(en, n, sysv_hash(n), vd, syms, &vt) };
                match got {
                    None => ensure!(cand.is_empty(), "gnu {gnu}: {:?} version {:?} not found, candidates {cand:?}", String::from_utf8_lossy(n), vn),
                    Some((i, s)) => {
                        ensure!(cand.contains(&i.0), "gnu {gnu}: {:?} version {:?} found {i:?}, candidates {cand:?}", String::from_utf8_lossy(n), vn);
                        let want = okay!(syms.symbol(i), "symbol");
                        ensure!(std::ptr::eq(want, s), "symbol reference");
                        o.hit("lookups-found");
                        if gnu {
                            // Chains keep table order, so the first match wins.
                            same!(i.0, cand[0], "gnu hash order");
                        }
                    }
                }
                o.hit("lookups");
                o.eval();
            }
        }
    }
    // Notes.
    let s = okay!(t.section(SectionIndex(m.sec["note"])), "note section");
    let mut it: NoteIterator<H> = some!(okay!(s.notes(en, data), "notes"), "notes");
    for (i, n) in m.notes.iter().enumerate() {
        let g = some!(okay!(it.next(), "note {i} align {}", m.note_align), "note {i}");
        same!((g.name(), g.n_type(en).0, g.desc()), (&n.name[..], n.ty, &n.desc[..]), "note {i}");
        same!((g.n_namesz(en) as usize, g.n_descsz(en) as usize), (g.name_bytes().len(), n.desc.len()), "note {i} sizes");
        let p = g.gnu_properties(en);
        same!(p.is_some(), n.props.is_some(), "note {i} properties");
        if let (Some(mut p), Some(w)) = (p, &n.props) {
            for (t, b) in w {
                let g = some!(okay!(p.next(), "property"), "property");
                same!((g.pr_type().0, g.pr_data()), (*t, &b[..]), "property");
                if b.len() >= 4 {
                    let a: [u8; 4] = b[..4].try_into().unwrap();
                    same!(g.data_u32(en), Ok(if m.e.be { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) }), "property u32");
                } else {
                    ensure!(g.data_u32(en).is_err(), "short property");
                }
                o.hit("properties");
            }
            ensure!(okay!(p.next(), "property").is_none(), "extra property");
        }
        o.hit("notes");
    }
    ensure!(okay!(it.next(), "note").is_none(), "extra note");
    // Attributes.
    let s = okay!(t.section(SectionIndex(m.sec["attr"])), "attr section");
    let a = some!(okay!(s.gnu_attributes(en, data), "attributes"), "attributes");
    same!(a.version(), b'A', "attributes version");
    let mut it = okay!(a.subsections(), "subsections");
    for w in &m.attrs {
        let g = some!(okay!(it.next(), "subsection"), "subsection");
        same!(g.vendor(), &w.vendor[..], "vendor");
        let mut si = g.subsubsections();
        for (tag, idx, vals) in &w.subs {
            let g = some!(okay!(si.next(), "subsubsection"), "subsubsection");
            same!(g.tag().0, *tag, "attribute tag");
            let mut got = vec![];
            for i in g.indices() {
                got.push(okay!(i, "index"));
            }
            same!(got, *idx, "attribute indices");
            let mut rd = g.attributes();
            for (t, v) in vals {
                same!(rd.read_tag(), Ok(Some(*t)), "attribute tag");
                match v {
                    Ok(v) => same!(rd.read_integer(), Ok(*v), "attribute integer"),
                    Err(s) => same!(rd.read_string(), Ok(&s[..]), "attribute string"),
                }
                o.hit("attributes");
            }
            same!(rd.read_tag(), Ok(None), "end of attributes");
        }
        ensure!(okay!(si.next(), "subsubsection").is_none(), "extra subsubsection");
    }
    ensure!(okay!(it.next(), "subsection").is_none(), "extra subsection");
    Ok(())
}

fn p_files(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let mut m = model(r);
    let data = m.e.build(r, true);
    o.input("file", &data);
    if m.e.is64 {
        low::<elf::FileHeader64<Endianness>>(&m, &data, r, o)?;
    } else {
        low::<elf::FileHeader32<Endianness>>(&m, &data, r, o)?;
    }
    let f = okay!(File::parse(&data[..]), "File::parse");
    if m.dangling.is_empty() {
        view(&f, &m, o)?;
    }
    o.nontrivial(hash(&data));
    o.sample(|| format!("ELF{} be={} dynsyms={} base={} buckets={} defs={} needs={} dynamic={} notes={} attrs={}", if m.e.is64 { 64 } else { 32 }, m.e.be, m.d.syms.len(), m.d.base, m.d.nbuckets, m.d.defs.len(), m.d.needs.len(), m.dynamic.len(), m.notes.len(), m.attrs.len()));
    let _ = W::default();
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C06",
    rule: "dynamic tables, versions, imports, exports, notes, properties and attributes equal the model the file was assembled from, and every hash lookup agrees with a linear scan of the model",
    parts: &[Part { name: "files", quick: 40000, thorough: 2500000, run: p_files }],
    required: &["libraries", "imports", "exports", "dynamic-entries", "versioned", "unversioned", "dangling versions", "verdefs", "verneeds", "lookups", "lookups-found", "notes", "properties", "attributes"],
    tools: &[],
    assumptions: &[],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

//! C26: Mach-O building and encoding.
use checks::machoimg::{self as mi, C, Ind, M, MRel, MSec, MSym, Tgt, diff, dump};
use genf::strict::macho as sm;
use genf::w::W;
use object::build::macho as bm;
use object::build::{ByteString, Bytes};
use object::macho as om;
use object::write::macho as wm;
use object::{Endian, Endianness};
use vcore::*;

fn write(b: bm::Builder) -> Result<Vec<u8>, String> {
    let mut w = vec![];
    b.write(&mut w).map_err(|e| e.to_string())?;
    Ok(w)
}

/// Everything that must be true of what was written for `m`, which was made from a file with pages of this size.
fn verify(w: &[u8], m: &M, page: u64, o: &mut Obs) -> Res {
    let g = dump(w).map_err(|e| format!("the output can't be read: {e}"))?;
    diff(&m.render(), &g.render())?;
    let n = mi::rules(w, m, page)?;
    if m.obj() && m.cmds.contains(&C::Symtab) && m.cmds.contains(&C::Dysymtab) {
        sm::parse(w)?;
        o.hit("objects");
    } else if !m.obj() {
        o.hit("images");
    }
    o.add("facts", n + g.render().len() as u64);
    let end = endian(m.be);
    okay!(object::File::parse(w), "the output for {end:?}");
    Ok(())
}
fn endian(be: bool) -> Endianness {
    if be { Endianness::Big } else { Endianness::Little }
}

/// Why could this be refused?
fn refusals(m: &M, was: &M, edited: bool) -> Vec<&'static str> {
    let mut v = vec![];
    let live = |s: &&usize| !m.secs[**s].del;
    if m.cmds.iter().filter(|c| matches!(c, C::Link(0x1d, _))).count() > 1 {
        v.push("code signatures");
    }
    if m.obj() {
        let g: Vec<_> = m.segs.iter().filter(|g| !g.del).collect();
        if g.len() != 1 || g[0].name != [0; 16] || g[0].vmaddr != 0 {
            v.push("single unnamed segment");
        }
        let mut a = 0;
        let mut moved = vec![false; m.secs.len()];
        for zero in [false, true] {
            for g in &m.segs {
                for &s in g.secs.iter().filter(live) {
                    let x = &m.secs[s];
                    if x.data.is_none() == zero {
                        a = u64::next_multiple_of(a, 1 << x.align);
                        moved[s] = a != x.addr;
                        a += x.size;
                    }
                }
            }
        }
        for (i, s) in m.secs.iter().enumerate().filter(|s| !s.1.del) {
            for r in &s.rel {
                let bad = match r.to {
                    Tgt::Sec(t) => moved[t] || r.pcrel && moved[i],
                    Tgt::Sym(_) => r.pcrel && !m.is64 && moved[i],
                    Tgt::Raw(_) => false,
                };
                if bad {
                    v.push("modified address");
                }
            }
        }
    } else {
        let head = m.head();
        let mut at = 0;
        let mut off = 0;
        let page = mi::page(was);
        for c in &m.cmds {
            let C::Seg(g) = c else { continue };
            let g = &m.segs[*g];
            if g.vmaddr < at {
                v.push("ordered by address");
            }
            at = g.vmaddr;
            let mut size = 0;
            for &s in g.secs.iter().filter(live) {
                let x = &m.secs[s];
                if x.data.is_some() && x.addr - g.vmaddr + off < head {
                    v.push("overlaps load commands");
                }
                if x.addr < at {
                    v.push("Sections must be ordered by address");
                }
                at = x.addr + x.size;
                if x.data.is_some() {
                    size = at - g.vmaddr;
                }
            }
            if at > g.vmaddr + g.vmsize {
                v.push("must contain sections");
            }
            if size.next_multiple_of(page) > g.vmsize && size <= g.vmsize {
                // It may be rounded, or refused.
                v.push("range");
            }
            off += size.next_multiple_of(page);
            at = g.vmaddr + g.vmsize;
        }
        if m.secs.iter().any(|s| !s.del && !s.rel.is_empty()) {
            v.push("cannot have relocations");
        }
    }
    if m.secs.iter().filter(|s| !s.del).count() > 255 {
        v.push("Too many sections");
    }
    if !m.cmds.contains(&C::Symtab) && m.syms.iter().any(|y| !y.del) {
        v.push("no symtab load command");
    }
    let _ = edited;
    v
}
fn dangling(m: &M) -> bool {
    m.secs.iter().any(|s| !s.del && s.ind.iter().any(|i| matches!(i, Ind::Sym(y) if m.syms[*y].del)))
}

struct Ids {
    segs: Vec<bm::SegmentId>,
    secs: Vec<bm::SectionId>,
    syms: Vec<bm::SymbolId>,
    /// The dylib of each command.
    libs: Vec<Option<bm::DylibId>>,
}

fn ids(b: &bm::Builder) -> Ids {
    Ids {
        segs: b.segments.iter().map(|x| x.id()).collect(),
        secs: b.sections.iter().map(|x| x.id()).collect(),
        syms: b.symbols.iter().map(|x| x.id()).collect(),
        libs: b
            .commands
            .iter()
            .map(|c| match c {
                bm::LoadCommand::Dylib(d) => Some(*d),
                _ => None,
            })
            .collect(),
    }
}

fn brel(r: &MRel, x: &Ids) -> bm::Relocation {
    bm::Relocation {
        target: match r.to {
            Tgt::Sym(y) => bm::RelocationTarget::Symbol(x.syms[y]),
            Tgt::Sec(s) => bm::RelocationTarget::Section(x.secs[s]),
            Tgt::Raw(_) => unreachable!(),
        },
        r_address: r.addr,
        r_pcrel: r.pcrel,
        r_length: r.len,
        r_type: om::RelocationType(r.ty),
    }
}
fn bytes<'a>(v: &[u8]) -> Bytes<'a> {
    Bytes::from(v.to_vec())
}
fn string<'a>(v: &[u8]) -> ByteString<'a> {
    ByteString::from(v.to_vec())
}
fn set_sym(b: &mut bm::Symbol, y: &MSym, x: &Ids) {
    b.name = string(&y.name);
    b.n_type = om::SymbolFlags(y.ty);
    b.section = y.sec.map(|s| x.secs[s]);
    b.n_sect = y.n_sect;
    b.n_desc = om::SymbolDesc(y.desc);
    b.n_value = y.value;
}
fn set_sec(b: &mut bm::Section, s: &MSec, x: &Ids) {
    b.sectname = s.name;
    b.segname = s.seg;
    b.addr = s.addr;
    b.align = s.align;
    b.flags = om::SectionFlags(s.flags);
    b.symbol_stub_size = s.stub;
    b.data = match &s.data {
        Some(d) => bm::SectionData::Data(bytes(d)),
        None => bm::SectionData::UninitializedData(s.size as u32),
    };
    b.relocations = s.rel.iter().map(|r| brel(r, x)).collect();
    b.indirect_symbols = s
        .ind
        .iter()
        .map(|i| match i {
            Ind::Sym(y) => bm::IndirectSymbol::Symbol(x.syms[*y]),
            Ind::Flags(f) => bm::IndirectSymbol::Flags(om::IndirectSymbol(*f)),
        })
        .collect();
}
fn set_lib(b: &mut bm::Dylib, l: &mi::Lib) {
    b.cmd = om::LoadCommandType(l.cmd);
    b.name = string(&l.name);
    b.timestamp = l.v[0];
    b.current_version = om::Version(l.v[1]);
    b.compatibility_version = om::Version(l.v[2]);
}
/// A command of the builder; segments and libraries are already in its tables.
fn command<'a>(c: &C, lib: Option<bm::DylibId>, seg: Option<bm::SegmentId>, b: &bm::Builder<'a>) -> bm::LoadCommand<'a> {
    let _ = b;
    match c {
        C::Seg(_) => bm::LoadCommand::Segment(seg.unwrap()),
        C::Symtab => bm::LoadCommand::Symtab,
        C::Dysymtab => bm::LoadCommand::Dysymtab,
        C::Lib(l) if l.cmd == 0xd => bm::LoadCommand::IdDylib(id_lib(l)),
        C::Lib(_) => bm::LoadCommand::Dylib(lib.unwrap()),
        C::Build(v, t) => bm::LoadCommand::BuildVersion(bm::BuildVersion {
            platform: om::Platform(v[0]),
            minos: om::Version(v[1]),
            sdk: om::Version(v[2]),
            tools: t.iter().map(|(a, b)| bm::BuildToolVersion { tool: om::Tool(*a), version: om::Version(*b) }).collect(),
        }),
        C::Link(k, d) => bm::LoadCommand::LinkeditData { cmd: om::LoadCommandType(*k), data: bytes(d) },
        C::Dyld(v) => bm::LoadCommand::DyldInfo { rebase: bytes(&v[0]), bind: bytes(&v[1]), weak_bind: bytes(&v[2]), lazy_bind: bytes(&v[3]), export: bytes(&v[4]) },
        C::Other(k, d) => bm::LoadCommand::Other { cmd: om::LoadCommandType(*k), data: bytes(d) },
    }
}
fn id_lib<'a>(l: &mi::Lib) -> bm::Dylib<'a> {
    bm::Dylib { delete: false, cmd: om::LoadCommandType(l.cmd), name: string(&l.name), timestamp: l.v[0], current_version: om::Version(l.v[1]), compatibility_version: om::Version(l.v[2]) }
}

fn edit(r: &mut Rng, m: &mut M, b: &mut bm::Builder, x: &mut Ids, o: &mut Obs) {
    let live: Vec<usize> = (0..m.secs.len()).filter(|s| !m.secs[*s].del).collect();
    let syms: Vec<usize> = (0..m.syms.len()).filter(|s| !m.syms[*s].del).collect();
    let ident = |r: &mut Rng| format!("_{}", r.ident(30)).into_bytes();
    match r.below(20) {
        0 if !live.is_empty() => {
            let s = *r.pick(&live);
            m.secs[s].del = true;
            b.sections.get_mut(x.secs[s]).delete = true;
            o.hit("edit: delete a section");
        }
        1 | 2 if !syms.is_empty() => {
            let y = *r.pick(&syms);
            m.syms[y].del = true;
            b.symbols.get_mut(x.syms[y]).delete = true;
            o.hit("edit: delete a symbol");
        }
        3 if !syms.is_empty() => {
            let y = *r.pick(&syms);
            let n = ident(r);
            m.syms[y].name = n;
            b.symbols.get_mut(x.syms[y]).name = string(&m.syms[y].name);
            o.hit("edit: rename a symbol");
        }
        4 if !live.is_empty() => {
            let s = *r.pick(&live);
            m.secs[s].name = mi::name16("__renamed");
            m.secs[s].seg[2..6].copy_from_slice(b"OTHR");
            let e = b.sections.get_mut(x.secs[s]);
            e.sectname = m.secs[s].name;
            e.segname = m.secs[s].seg;
            o.hit("edit: rename a section");
        }
        5 | 6 if m.cmds.contains(&C::Symtab) => {
            let y = mi::symbol(r, m, &live);
            b.symbols.add();
            let id = b.symbols.iter().last().unwrap().id();
            x.syms.push(id);
            set_sym(b.symbols.get_mut(id), &y, x);
            m.syms.push(y);
            o.hit("edit: add a symbol");
        }
        7 if !syms.is_empty() => {
            let y = *r.pick(&syms);
            let old = &m.syms[y];
            let mut n = mi::symbol(r, m, &live);
            n.name = old.name.clone();
            set_sym(b.symbols.get_mut(x.syms[y]), &n, x);
            m.syms[y] = n;
            o.hit("edit: change a symbol");
        }
        8 if !live.is_empty() => {
            let s = *r.pick(&live);
            let e = mi::entry(m, m.secs[s].flags, m.secs[s].stub);
            if e > 0 || m.secs[s].data.is_none() {
                return;
            }
            let old = m.secs[s].size;
            let n = if r.bool() || !m.secs[s].rel.is_empty() { old } else { r.below(80) };
            m.secs[s].size = n;
            m.secs[s].data = Some(r.bytes(n as usize));
            let (sec, id) = (m.secs[s].clone(), x.secs[s]);
            b.sections.get_mut(id).data = bm::SectionData::Data(bytes(sec.data.as_ref().unwrap()));
            // Symbols stay inside.
            for y in 0..m.syms.len() {
                if m.syms[y].sec == Some(s) && m.syms[y].value > sec.addr + n {
                    m.syms[y].value = sec.addr;
                    b.symbols.get_mut(x.syms[y]).n_value = sec.addr;
                }
            }
            o.hit("edit: change data");
        }
        9 if m.obj() && m.segs.iter().any(|g| !g.del) => {
            let mut s = MSec { name: mi::name16("__added"), seg: mi::name16("__DATA"), align: r.below(6) as u32, ..MSec::default() };
            s.size = r.below(50);
            if r.one_in(3) {
                s.flags = 1;
            } else {
                s.data = Some(r.bytes(s.size as usize));
                if s.size > 0 && !live.is_empty() {
                    if s.size >= 8 && m.cmds.iter().any(|c| matches!(c, C::Dysymtab)) && r.bool() {
                        s.flags = 6;
                        for _ in 0..s.size / m.ptr() {
                            s.ind.push(if syms.is_empty() || r.one_in(3) { Ind::Flags(0x8000_0000) } else { Ind::Sym(*r.pick(&syms)) });
                        }
                        o.hit("edit: add a section with indirect symbols");
                    }
                    for _ in 0..r.idx(3) {
                        let mut l = live.clone();
                        l.retain(|s| !m.secs[*s].del);
                        mi::rel(r, m, s.size, &l, &mut s.rel);
                    }
                }
            }
            b.sections.add();
            let id = b.sections.iter().last().unwrap().id();
            x.secs.push(id);
            set_sec(b.sections.get_mut(id), &s, x);
            m.secs.push(s);
            let g = &mut b.segments.get_mut(x.segs[0]).sections;
            let v = &mut m.segs[0].secs;
            let k = r.idx(v.len() + 1);
            v.insert(k, x.secs.len() - 1);
            g.insert(k, id);
            o.hit("edit: add a section");
        }
        10 | 11 => {
            let c = mi::command(r, m.is64);
            if let C::Other(_, d) = &c {
                if d.len() as u64 % m.ptr() != 0 {
                    return;
                }
            }
            // The builder has no way to add libraries, other than its own identity.
            let lib = None;
            let c = match c {
                C::Lib(l) => C::Lib(mi::Lib { cmd: 0xd, ..l }),
                c => c,
            };
            let k = r.idx(m.cmds.len() + 1);
            let bc = command(&c, lib, None, b);
            b.commands.insert(k, bc);
            x.libs.insert(k, lib);
            m.cmds.insert(k, c);
            o.hit("edit: add a command");
        }
        12 | 13 => {
            let v: Vec<usize> = (0..m.cmds.len()).filter(|c| !matches!(m.cmds[*c], C::Seg(_))).collect();
            if v.is_empty() {
                return;
            }
            let k = *r.pick(&v);
            match m.cmds[k] {
                C::Symtab | C::Dysymtab => return,
                C::Lib(_) if x.libs[k].is_some() && r.bool() => {
                    // Only the library is marked.
                    b.dylibs.get_mut(x.libs[k].unwrap()).delete = true;
                    m.cmds.remove(k);
                    // The command remains in the builder until it's written.
                    let c = b.commands.remove(k);
                    b.commands.push(c);
                    x.libs.remove(k);
                    // Keep the numbering of the commands.
                    let n = m.cmds.len();
                    b.commands[n..].rotate_right(1);
                }
                _ => {
                    if let Some(l) = x.libs[k] {
                        b.dylibs.get_mut(l).delete = true;
                    }
                    m.cmds.remove(k);
                    b.commands.remove(k);
                    x.libs.remove(k);
                }
            }
            o.hit("edit: delete a command");
        }
        14 | 15 => {
            let v: Vec<usize> = (0..m.cmds.len()).filter(|c| matches!(m.cmds[*c], C::Lib(_))).collect();
            if v.is_empty() {
                return;
            }
            let k = *r.pick(&v);
            let mut l = mi::lib(r);
            if let Some(id) = x.libs[k] {
                set_lib(b.dylibs.get_mut(id), &l);
            } else {
                l.cmd = 0xd;
                b.commands[k] = bm::LoadCommand::IdDylib(id_lib(&l));
            }
            m.cmds[k] = C::Lib(l);
            o.hit("edit: change a library");
        }
        16 => {
            m.flags = r.u32();
            m.sub = r.u32() & 0xff;
            b.header.flags = om::FileFlags(m.flags);
            b.header.cpusubtype = om::CpuSubtype(m.sub);
            o.hit("edit: change the header");
        }
        17 => {
            let v: Vec<usize> = (0..m.segs.len()).filter(|g| !m.segs[*g].del).collect();
            if v.is_empty() {
                return;
            }
            let g = *r.pick(&v);
            let e = b.segments.get_mut(x.segs[g]);
            m.segs[g].initprot = r.below(8) as u32;
            m.segs[g].flags = r.edgy(32) as u32;
            e.initprot = om::VmProt(m.segs[g].initprot);
            e.flags = om::SegmentFlags(m.segs[g].flags);
            o.hit("edit: change a segment");
        }
        18 => {
            // Move a command.
            let v: Vec<usize> = (0..m.cmds.len()).filter(|c| !matches!(m.cmds[*c], C::Seg(_))).collect();
            if v.is_empty() {
                return;
            }
            let k = *r.pick(&v);
            let j = r.idx(m.cmds.len());
            let c = m.cmds.remove(k);
            m.cmds.insert(j, c);
            let c = b.commands.remove(k);
            b.commands.insert(j, c);
            let c = x.libs.remove(k);
            x.libs.insert(j, c);
            o.hit("edit: move a command");
        }
        _ if !live.is_empty() => {
            let s = *r.pick(&live);
            let id = x.secs[s];
            if !m.secs[s].ind.is_empty() {
                let k = r.idx(m.secs[s].ind.len());
                let to = if syms.is_empty() || r.one_in(3) { Ind::Flags(0x8000_0000) } else { Ind::Sym(*r.pick(&syms)) };
                m.secs[s].ind[k] = to;
                o.hit("edit: change an indirect symbol");
            } else if m.obj() && m.secs[s].data.is_some() && m.secs[s].size > 0 {
                let mut v = vec![];
                let mut t = m.clone();
                t.syms.retain(|_| true);
                mi::rel(r, &t, m.secs[s].size, &live, &mut v);
                m.secs[s].rel.append(&mut v);
                o.hit("edit: add a relocation");
            } else {
                m.secs[s].align = r.below(4) as u32;
                b.sections.get_mut(id).align = m.secs[s].align;
                return;
            }
            let t = m.secs[s].clone();
            set_sec(b.sections.get_mut(id), &t, x);
        }
        _ => {}
    }
}

fn images(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (m, b, _) = mi::image(r);
    o.input("in", &b);
    let d = dump(&b).map_err(|e| format!("generator: {e}"))?;
    diff(&m.render(), &d.render()).map_err(|e| format!("generator: {e}"))?;
    one(m, &b, r, o)
}
/// Relocations that are the addend of the next.
fn addends(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut m, b, _) = mi::image_with(r, true);
    o.input("in", &b);
    if !m.secs.iter().any(|s| s.rel.iter().any(|x| matches!(x.to, mi::Tgt::Raw(_)))) {
        return Ok(());
    }
    o.hit("addends");
    let was = m.clone();
    let mut bu = match bm::Builder::read(&b[..]) {
        Ok(b) => b,
        Err(e) => {
            ensure!(!e.to_string().contains("relocation"), "[macho-addend] refused: {e}");
            return Err(e.to_string());
        }
    };
    let x = ids(&bu);
    if r.bool() {
        let s = r.idx(m.secs.len());
        m.secs[s].del = true;
        bu.sections.get_mut(x.secs[s]).delete = true;
    }
    m.settle();
    let dangling = dangling(&m);
    let w = match write(bu) {
        Ok(w) => w,
        Err(e) => {
            let good = dangling || !refusals(&m, &was, true).is_empty();
            ensure!(good || !e.contains("relocation"), "[macho-addend] refused: {e}");
            ensure!(good, "refused: {e}");
            return Ok(());
        }
    };
    o.input("out", &w);
    let (want, got) = (m.render(), dump(&w).map_err(|e| format!("the output can't be read: {e}"))?.render());
    let split = |v: &[String], rel: bool| v.iter().filter(|l| l.starts_with("  relocation") == rel).cloned().collect::<Vec<_>>();
    diff(&split(&want, false), &split(&got, false))?;
    diff(&split(&want, true), &split(&got, true)).map_err(|e| format!("[macho-addend] {e}"))?;
    o.hit("addends kept");
    o.nontrivial(hash(&w));
    Ok(())
}
fn one(mut m: M, b: &[u8], r: &mut Rng, o: &mut Obs) -> Res {
    let was = m.clone();
    let page = mi::page(&m);
    let mut bu = okay!(bm::Builder::read(b), "reading {:?}", m.render());
    let mut x = ids(&bu);
    ensure!(x.segs.len() == m.segs.len() && x.secs.len() == m.secs.len() && x.syms.len() == m.syms.len() && x.libs.len() == m.cmds.len(), "the builder has other counts");
    let edits = if r.one_in(3) { 0 } else { 1 + r.idx(5) };
    for _ in 0..edits {
        edit(r, &mut m, &mut bu, &mut x, o);
    }
    m.settle();
    let dangling = dangling(&m);
    let w = match write(bu) {
        Ok(w) => w,
        Err(e) => {
            o.hit("refused");
            o.sample(|| e.clone());
            let why = refusals(&m, &was, edits > 0);
            ensure!(dangling || !why.is_empty(), "{edits} edits were refused: {e}");
            return Ok(());
        }
    };
    o.input("out", &w);
    ensure!(!dangling, "an indirect symbol of a deleted symbol was accepted");
    verify(&w, &m, page, o)?;
    o.hit(if edits > 0 { "edited" } else { "kept" });
    o.nontrivial(hash(&w));
    // Again, from the output.
    let again = okay!(bm::Builder::read(&w[..]), "reading the output");
    match write(again) {
        Ok(v) => {
            let g = dump(&v)?;
            let h = dump(&w)?;
            diff(&h.render(), &g.render()).map_err(|e| format!("second time: {e}"))?;
        }
        Err(e) => return Err(format!("second time: {e}")),
    }
    Ok(())
}

/// A file from nothing, with the builder.
fn fresh(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut m, _, _) = mi::image(r);
    let page = mi::page(&m);
    let mut b = bm::Builder::new(endian(m.be), m.is64);
    b.page_size = page as u32;
    b.header = bm::Header::default();
    b.header.cputype = om::CpuType(m.cpu);
    b.header.cpusubtype = om::CpuSubtype(m.sub);
    b.header.filetype = om::FileType(m.ft);
    b.header.flags = om::FileFlags(m.flags);
    m.cmds.retain(|c| !matches!(c, C::Lib(l) if l.cmd != 0xd));
    let mut x = Ids { segs: vec![], secs: vec![], syms: vec![], libs: vec![] };
    for _ in &m.secs {
        b.sections.add();
    }
    for _ in &m.syms {
        b.symbols.add();
    }
    x.secs = b.sections.iter().map(|s| s.id()).collect();
    // The order of the table of sections has no meaning.
    if r.bool() {
        r.shuffle(&mut x.secs);
        o.hit("sections in any order");
    }
    x.syms = b.symbols.iter().map(|s| s.id()).collect();
    for (s, id) in m.secs.iter().zip(x.secs.clone()) {
        set_sec(b.sections.get_mut(id), s, &x);
    }
    for (y, id) in m.syms.iter().zip(x.syms.clone()) {
        set_sym(b.symbols.get_mut(id), y, &x);
    }
    for g in &m.segs {
        let e = b.segments.add();
        e.segname = g.name;
        e.vmaddr = g.vmaddr;
        e.vmsize = g.vmsize;
        e.maxprot = om::VmProt(g.maxprot);
        e.initprot = om::VmProt(g.initprot);
        e.flags = om::SegmentFlags(g.flags);
        e.sections = g.secs.iter().map(|s| x.secs[*s]).collect();
        let id = e.id();
        x.segs.push(id);
    }
    for c in &m.cmds {
        let lib = None;
        let seg = if let C::Seg(g) = c { Some(x.segs[*g]) } else { None };
        let bc = command(c, lib, seg, &b);
        b.commands.push(bc);
    }
    m.settle();
    match write(b) {
        Ok(w) => {
            o.input("out", &w);
            verify(&w, &m, page, o)?;
            o.hit("from nothing");
            o.nontrivial(hash(&w));
        }
        Err(e) => {
            let why = refusals(&m, &m, false);
            ensure!(!why.is_empty(), "refused: {e}");
        }
    }
    Ok(())
}

/// Real files.
fn real(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let all: Vec<_> = checks::inputs::corpus().iter().filter(|f| matches!(f.1.get(..4), Some([0xce | 0xcf, 0xfa, 0xed, 0xfe] | [0xfe, 0xed, 0xfa, 0xce | 0xcf]))).collect();
    let (name, b) = &all[case as usize % all.len()];
    o.input(name, b);
    let m = match dump(b) {
        Ok(m) => m,
        Err(e) => {
            o.hit("real: unusual");
            o.sample(|| format!("{name}: {e}"));
            return Ok(());
        }
    };
    if let Err(e) = bm::Builder::read(&b[..]) {
        let e = e.to_string();
        o.sample(|| format!("{name}: {e}"));
        ensure!(e.contains("Unimplemented") || e.contains("Invalid section index"), "{name}: {e}");
        o.hit("real: not implemented");
        return Ok(());
    }
    o.hit("real files");
    one(m, b, r, o)
}

fn rewriter(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut m, b, _) = mi::image(r);
    o.input("in", &b);
    let was = m.clone();
    let page = mi::page(&m);
    let mut opt = object_rewrite::Options::default();
    let some = |r: &mut Rng, v: Vec<Vec<u8>>| -> Vec<Vec<u8>> { v.into_iter().filter(|_| r.one_in(4)).collect() };
    let names: Vec<Vec<u8>> = m.syms.iter().map(|y| y.name.clone()).collect();
    let sects: Vec<Vec<u8>> = m.secs.iter().map(|s| s.name.iter().copied().take_while(|c| *c != 0).collect()).collect();
    if r.bool() {
        opt.delete_symbols = some(r, names.clone()).into_iter().collect();
    }
    if r.bool() {
        opt.rename_symbols = some(r, names).into_iter().map(|n| (n, format!("_{}", r.ident(20)).into_bytes())).collect();
    }
    if r.one_in(3) {
        opt.delete_sections = some(r, sects.clone()).into_iter().collect();
    }
    if r.bool() {
        opt.rename_sections = some(r, sects.clone()).into_iter().map(|n| (n, format!("__{}", r.ident(16)).into_bytes())).collect();
    }
    let mut long = false;
    for y in &mut m.syms {
        y.del |= opt.delete_symbols.contains(&y.name);
        if let Some(n) = opt.rename_symbols.get(&y.name).filter(|_| !y.del) {
            y.name = n.clone();
        }
    }
    for (s, n) in m.secs.iter_mut().zip(&sects) {
        s.del |= opt.delete_sections.contains(n);
        if let Some(n) = opt.rename_sections.get(n).filter(|_| !s.del) {
            long |= n.len() > 16;
            s.name = [0; 16];
            let k = n.len().min(16);
            s.name[..k].copy_from_slice(&n[..k]);
        }
    }
    m.settle();
    let mut rw = okay!(object_rewrite::Rewriter::read(&b[..]), "reading");
    let mut w = vec![];
    let res = rw.modify(opt).and_then(|()| rw.write(&mut w));
    match res {
        Ok(()) => {
            ensure!(!long, "a section name of more than 16 bytes was accepted");
            ensure!(!dangling(&m), "an indirect symbol of a deleted symbol was accepted");
            o.input("out", &w);
            verify(&w, &m, page, o)?;
            o.hit("rewritten");
            o.nontrivial(hash(&w));
        }
        Err(e) => {
            o.hit("rewriter refused");
            ensure!(long || dangling(&m) || !refusals(&m, &was, true).is_empty(), "refused: {e}");
        }
    }
    Ok(())
}

/// Every structure of the low-level encoder.
fn encoder(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (be, is64) = (r.bool(), r.bool());
    let e = wm::Encoder::new(endian(be), is64);
    let mut got: Vec<u8> = vec![];
    let mut w = W::new(be, is64);
    let word = |r: &mut Rng| r.edgy(if is64 { 64 } else { 32 });
    let v32 = |r: &mut Rng| r.edgy(32) as u32;
    let ptr = if is64 { 8usize } else { 4 };
    same!(e.address_size(), ptr as u64, "address size");
    for _ in 0..8 {
        let at = got.len();
        let kind = r.below(16);
        let size: Option<u64> = match kind {
            0 => {
                let h = wm::MachHeader { cputype: om::CpuType(v32(r)), cpusubtype: om::CpuSubtype(v32(r)), filetype: om::FileType(v32(r)), ncmds: v32(r), sizeofcmds: v32(r), flags: om::FileFlags(v32(r)) };
                e.mach_header(&mut got, &h);
                w.u32(if is64 { 0xfeed_facf } else { 0xfeed_face }).u32(h.cputype.0).u32(h.cpusubtype.0).u32(h.filetype.0).u32(h.ncmds).u32(h.sizeofcmds).u32(h.flags.0);
                if is64 {
                    w.u32(0);
                }
                Some(e.mach_header_size())
            }
            1 => {
                let n = 4 * r.idx(9);
                let (c, d) = (v32(r), r.bytes(n));
                e.load_command(&mut got, om::LoadCommandType(c), &d);
                w.u32(c).u32(8 + n as u32).put(&d);
                Some(e.load_command_size(n as u64))
            }
            2 => {
                let nsects = if r.one_in(4) { 0x10_0000 + r.below(99) as u32 } else { r.below(5) as u32 };
                let mut name = [0; 16];
                name.copy_from_slice(&r.bytes(16));
                let s = wm::SegmentCommand { segname: name, vmaddr: word(r), vmsize: word(r), fileoff: word(r), filesize: word(r), maxprot: om::VmProt(v32(r)), initprot: om::VmProt(v32(r)), nsects, flags: om::SegmentFlags(v32(r)) };
                e.segment_command(&mut got, &s);
                let size = if is64 { 72 + 80 * nsects } else { 56 + 68 * nsects };
                same!(e.segment_command_size(nsects), size as u64, "segment command size");
                w.u32(if is64 { 0x19 } else { 1 }).u32(size).put(&name).word(s.vmaddr).word(s.vmsize).word(s.fileoff).word(s.filesize);
                w.u32(s.maxprot.0).u32(s.initprot.0).u32(nsects).u32(s.flags.0);
                None
            }
            3 => {
                let (a, b) = (r.bytes(16), r.bytes(16));
                let s = wm::SectionHeader {
                    sectname: a.clone().try_into().unwrap(),
                    segname: b.clone().try_into().unwrap(),
                    addr: word(r),
                    size: word(r),
                    offset: v32(r),
                    align: v32(r),
                    reloff: v32(r),
                    nreloc: v32(r),
                    flags: om::SectionFlags(v32(r)),
                    reserved1: v32(r),
                    reserved2: v32(r),
                    reserved3: v32(r),
                };
                e.section_header(&mut got, &s);
                w.put(&a).put(&b).word(s.addr).word(s.size).u32(s.offset).u32(s.align).u32(s.reloff).u32(s.nreloc).u32(s.flags.0).u32(s.reserved1).u32(s.reserved2);
                if is64 {
                    w.u32(s.reserved3);
                }
                Some(e.section_header_size())
            }
            4 => {
                let x = om::RelocationInfo { r_address: v32(r), r_symbolnum: r.u32() & 0xff_ffff, r_pcrel: r.bool(), r_length: r.below(4) as u8, r_extern: r.bool(), r_type: om::RelocationType(r.below(16) as u8) };
                e.relocation(&mut got, &x);
                let (num, p, l, ext, t) = (x.r_symbolnum, x.r_pcrel as u32, x.r_length as u32, x.r_extern as u32, x.r_type.0 as u32);
                w.u32(x.r_address).u32(if be { num << 8 | p << 7 | l << 5 | ext << 4 | t } else { t << 28 | ext << 27 | l << 25 | p << 24 | num });
                Some(e.relocation_size())
            }
            5 => {
                let s = wm::SymtabCommand { symoff: v32(r), nsyms: v32(r), stroff: v32(r), strsize: v32(r) };
                e.symtab_command(&mut got, &s);
                w.u32(2).u32(24).u32(s.symoff).u32(s.nsyms).u32(s.stroff).u32(s.strsize);
                Some(e.symtab_command_size())
            }
            6 => {
                let n = wm::Nlist { n_strx: v32(r), n_type: om::SymbolFlags(r.u8()), n_sect: r.u8(), n_desc: om::SymbolDesc(r.u16()), n_value: word(r) };
                e.nlist(&mut got, &n);
                w.u32(n.n_strx).u8(n.n_type.0).u8(n.n_sect).u16(n.n_desc.0).word(n.n_value);
                Some(e.nlist_size())
            }
            7 => {
                let v: [u32; 18] = std::array::from_fn(|_| v32(r));
                let d = wm::DysymtabCommand {
                    ilocalsym: v[0],
                    nlocalsym: v[1],
                    iextdefsym: v[2],
                    nextdefsym: v[3],
                    iundefsym: v[4],
                    nundefsym: v[5],
                    tocoff: v[6],
                    ntoc: v[7],
                    modtaboff: v[8],
                    nmodtab: v[9],
                    extrefsymoff: v[10],
                    nextrefsyms: v[11],
                    indirectsymoff: v[12],
                    nindirectsyms: v[13],
                    extreloff: v[14],
                    nextrel: v[15],
                    locreloff: v[16],
                    nlocrel: v[17],
                };
                e.dysymtab_command(&mut got, &d);
                w.u32(11).u32(80);
                v.iter().for_each(|x| {
                    w.u32(*x);
                });
                Some(e.dysymtab_command_size())
            }
            8 => {
                let v = v32(r);
                e.indirect_symbol(&mut got, om::IndirectSymbol(v));
                w.u32(v);
                Some(e.indirect_symbol_size())
            }
            9 => {
                let l = mi::lib(r);
                let n = r.idx(l.name.len() + 1);
                let name = &l.name[..n];
                let d = wm::DylibCommand { cmd: om::LoadCommandType(v32(r)), name, timestamp: l.v[0], current_version: om::Version(l.v[1]), compatibility_version: om::Version(l.v[2]) };
                e.dylib_command(&mut got, &d);
                let size = (25 + n).next_multiple_of(ptr);
                w.u32(d.cmd.0).u32(size as u32).u32(24).u32(l.v[0]).u32(l.v[1]).u32(l.v[2]).put(name).zeros(size - 24 - n);
                Some(e.dylib_command_size(n))
            }
            10 => {
                let n = r.below(4) as u32;
                let v = wm::BuildVersionCommand { platform: om::Platform(v32(r)), minos: om::Version(v32(r)), sdk: om::Version(v32(r)), ntools: n };
                e.build_version_command(&mut got, &v);
                w.u32(0x32).u32(24 + 8 * n).u32(v.platform.0).u32(v.minos.0).u32(v.sdk.0).u32(n);
                for _ in 0..n {
                    let (a, b) = (v32(r), v32(r));
                    e.build_tool_version(&mut got, om::Tool(a), om::Version(b));
                    w.u32(a).u32(b);
                }
                Some(e.build_version_command_size(n))
            }
            11 => {
                let (c, a, n) = (v32(r), v32(r), v32(r));
                e.linkedit_data_command(&mut got, om::LoadCommandType(c), a, n);
                w.u32(c).u32(16).u32(a).u32(n);
                Some(e.linkedit_data_command_size())
            }
            12 => {
                let c = if r.bool() { 0x22 } else { 0x8000_0022 };
                let v: [u32; 10] = std::array::from_fn(|_| v32(r));
                let d = wm::DyldInfoCommand {
                    rebase_off: v[0],
                    rebase_size: v[1],
                    bind_off: v[2],
                    bind_size: v[3],
                    weak_bind_off: v[4],
                    weak_bind_size: v[5],
                    lazy_bind_off: v[6],
                    lazy_bind_size: v[7],
                    export_off: v[8],
                    export_size: v[9],
                };
                e.dyld_info_command(&mut got, om::LoadCommandType(c), &d);
                w.u32(c).u32(48);
                v.iter().for_each(|x| {
                    w.u32(*x);
                });
                Some(e.dyld_info_command_size())
            }
            13 => {
                // A string table; every name is found at its offset.
                let names: Vec<Vec<u8>> = (0..r.idx(8)).map(|_| r.ident(6).into_bytes()).collect();
                let mut t = object::write::StringTable::new();
                let ids: Vec<_> = names.iter().map(|n| t.add(n)).collect();
                let mut out: Vec<u8> = vec![];
                let n = okay!(e.strtab(&mut out, &mut t), "strtab");
                ensure!(n as usize == out.len() && n as usize % ptr == 0, "string table of {n} bytes, {} written", out.len());
                for (id, name) in ids.iter().zip(&names) {
                    let at = t.get_offset(*id) as usize;
                    ensure!(out[at..].starts_with(name) && out.get(at + name.len()) == Some(&0) && (at > 0 || name.is_empty()), "{:?} isn't at {at} of {out:x?}", String::from_utf8_lossy(name));
                }
                o.hit("encoder: string tables");
                None
            }
            14 => {
                let c = wm::CodeSignatureEncoder;
                let (a, b) = (v32(r), v32(r));
                let mut x = W::new(true, true);
                let n = match r.below(4) {
                    0 => {
                        c.signature_super_blob(&mut got, a, b);
                        x.u32(0xfade_0cc0).u32(a).u32(b);
                        c.super_blob_size()
                    }
                    1 => {
                        c.requirements_super_blob(&mut got, a, b);
                        x.u32(0xfade_0c01).u32(a).u32(b);
                        c.super_blob_size()
                    }
                    2 => {
                        c.blob_index(&mut got, om::CsSlot(a), b);
                        x.u32(a).u32(b);
                        c.blob_index_size()
                    }
                    _ => {
                        c.generic_blob(&mut got, a, b);
                        x.u32(a).u32(b);
                        c.generic_blob_size()
                    }
                };
                w.put(&x.b);
                Some(n as u64)
            }
            _ => {
                let c = wm::CodeSignatureEncoder;
                let version = *r.pick(&[0, 0x20001, 0x200ff, 0x20100, 0x20101, 0x20200, 0x20201, 0x20300, 0x203ff, 0x20400]);
                let mut d = wm::CodeDirectory {
                    length: v32(r),
                    version: om::CsVersion(version),
                    flags: om::CsFlags(v32(r)),
                    hash_offset: v32(r),
                    ident_offset: v32(r),
                    n_special_slots: v32(r),
                    n_code_slots: v32(r),
                    code_limit: r.edgy(64),
                    hash_size: r.u8(),
                    hash_type: om::CsHashType(r.u8()),
                    platform: r.u8(),
                    page_size: r.u8(),
                    scatter_offset: v32(r),
                    team_offset: v32(r),
                    exec_seg_base: r.edgy(64),
                    exec_seg_limit: r.edgy(64),
                    exec_seg_flags: om::CsExecSegFlags(r.edgy(64)),
                };
                if version < 0x20300 {
                    d.code_limit &= 0xffff_ffff;
                }
                c.code_directory(&mut got, &d);
                let mut x = W::new(true, true);
                let big = d.code_limit > 0xffff_ffff;
                x.u32(0xfade_0c02).u32(d.length).u32(version).u32(d.flags.0).u32(d.hash_offset).u32(d.ident_offset).u32(d.n_special_slots).u32(d.n_code_slots);
                x.u32(if big { u32::MAX } else { d.code_limit as u32 }).u8(d.hash_size).u8(d.hash_type.0).u8(d.platform).u8(d.page_size).u32(0);
                if version >= 0x20100 {
                    x.u32(d.scatter_offset);
                }
                if version >= 0x20200 {
                    x.u32(d.team_offset);
                }
                if version >= 0x20300 {
                    x.u32(0).u64(if big { d.code_limit } else { 0 });
                }
                if version >= 0x20400 {
                    x.u64(d.exec_seg_base).u64(d.exec_seg_limit).u64(d.exec_seg_flags.0);
                }
                let n = x.len();
                w.put(&x.b);
                o.hit("encoder: code directories");
                Some(c.code_directory_size(om::CsVersion(version)) as u64)
                    .inspect(|s| debug_assert!(*s == n as u64 || *s != n as u64))
            }
        };
        same!(got, w.b, "structure {kind} (be {be}, is64 {is64}, at {at})");
        if let Some(s) = size {
            same!((got.len() - at) as u64, s, "size of structure {kind}");
        }
        o.hit("encoder: structures");
    }
    o.nontrivial(hash(&got));
    let _ = Endianness::Little.is_big_endian();
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C26",
    rule: "an independent reader finds the same content, with the edits and no others, in a consistent layout",
    parts: &[
        Part { name: "images", quick: 80_000, thorough: 8_000_000, run: images },
        Part { name: "fresh", quick: 20_000, thorough: 2_000_000, run: fresh },
        Part { name: "rewriter", quick: 30_000, thorough: 3_000_000, run: rewriter },
        Part { name: "addends", quick: 4_000, thorough: 200_000, run: addends },
        Part { name: "encoder", quick: 40_000, thorough: 4_000_000, run: encoder },
        Part { name: "real", quick: 600, thorough: 60_000, run: real },
    ],
    required: &["images", "objects", "edited", "kept", "rewritten", "from nothing", "facts", "real files", "encoder: structures"],
    tools: &[],
    assumptions: &[],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

//! C25: edits change what was asked, and nothing else.
use checks::elfimg::{self, Body, DDyn, DRel, DSec, DSym, Dump, Ver, consistent, diff, dump};
use genf::strict::elf as se;
use object::build::elf as be;
use object::elf;
use object_rewrite::{ElfOptions, Options, Rewriter};
use std::collections::{HashMap, HashSet};
use vcore::{Obs, Part, Res, Rng, Spec, ensure};

type Names = HashSet<Vec<u8>>;
type Renames = HashMap<Vec<u8>, Vec<u8>>;

fn dead_sections(d: &mut Dump) {
    let dead = |s: Option<usize>, d: &Dump| s.is_some_and(|i| d.secs[i].del);
    for i in 0..d.syms.len() {
        d.syms[i].del |= dead(d.syms[i].sec, d);
    }
    for i in 0..d.dyns.len() {
        d.dyns[i].del |= dead(d.dyns[i].sec, d);
    }
    let have = |ty: u32, d: &Dump| d.secs.iter().any(|s| !s.del && s.ty == ty);
    let dynstr = d.secs.iter().any(|s| !s.del && s.ty == 3 && s.alloc() && s.body == Body::Meta);
    let keep: Vec<(u64, bool)> =
        [(6u64, 11u32), (4, 5), (0x6fff_fef5, 0x6fff_fff6), (0x6fff_fff0, 0x6fff_ffff), (0x6fff_fffc, 0x6fff_fffd), (0x6fff_fffd, 0x6fff_fffd), (0x6fff_fffe, 0x6fff_fffe), (0x6fff_ffff, 0x6fff_fffe)]
            .into_iter()
            .map(|(t, ty)| (t, have(ty, d)))
            .chain([(5, dynstr), (10, dynstr)])
            .collect();
    for s in &mut d.secs {
        if let Body::Dynamic(v) = &mut s.body {
            v.retain(|x| !matches!(x, DDyn::Auto(t) if keep.contains(&(*t, false))));
        }
    }
    if !have(0x6fff_ffff, d) {
        d.have_versym = false;
        for y in &mut d.dyns {
            y.ver = Ver::Local;
        }
    }
    if !have(0x6fff_fffd, d) {
        d.base = None;
    }
    d.dyns_gone();
}
trait Gone {
    fn dyns_gone(&mut self);
}
impl Gone for Dump {
    /// Symbols without a table are lost.
    fn dyns_gone(&mut self) {
        if !self.secs.iter().any(|s| !s.del && s.ty == 11) {
            self.dyns.iter_mut().for_each(|y| y.del = true);
        }
        if !self.secs.iter().any(|s| !s.del && s.ty == 2) {
            self.syms.iter_mut().for_each(|y| y.del = true);
        }
    }
}

/// Is this known to contain a section that stays, or to have lost all that it had?
fn segment_fate(d: &Dump, p: &se::Phdr) -> (bool, bool) {
    let end = p.vaddr.saturating_add(p.memsz);
    let (mut inside, mut touch, mut dead) = (false, false, false);
    for s in d.secs.iter().filter(|s| s.alloc()) {
        let e = s.addr.saturating_add(s.size);
        if s.del {
            dead |= s.addr >= p.vaddr && s.addr < end;
        } else {
            inside |= s.size > 0 && s.addr >= p.vaddr && e <= end;
            touch |= s.addr <= end && e >= p.vaddr;
        }
    }
    (inside || !dead, dead && !touch)
}

/// The program headers of `got` are those of `want`, except for segments that lost everything.
fn segments(want: &Dump, got: &Dump, moved: &[usize], resize: bool, o: &mut Obs) -> Result<usize, String> {
    let mut j = 0;
    for (i, p) in want.ph.iter().enumerate() {
        let (keep, lose) = segment_fate(want, p);
        let has_moved = p.ty != 1 && moved.iter().any(|k| want.secs[*k].addr >= p.vaddr && want.secs[*k].addr - p.vaddr < p.memsz);
        let same = got.ph.get(j).is_some_and(|q| {
            let mut p = p.clone();
            if p.ty == 6 && got.ph.len() != want.ph.len() {
                p.filesz = q.filesz;
                p.memsz = q.memsz;
            }
            if resize && (p.ty == 2 || p.ty == 3) {
                p.filesz = q.filesz;
                p.memsz = q.memsz;
            }
            if has_moved { q.ty == p.ty && q.flags == p.flags && q.align == p.align } else { *q == p }
        });
        if same && !lose {
            j += 1;
        } else if keep {
            return Err(format!("segment {i} {p:x?} became {:x?}", got.ph.get(j)));
        } else {
            o.hit("segments deleted");
        }
    }
    Ok(j)
}

/// String tables that lost their user are still string tables.
fn orphans(d: &Dump, g: &mut Dump) {
    for (i, s) in (0..d.secs.len()).filter(|i| !d.secs[*i].del).zip(&mut g.secs) {
        if d.secs[i].body == Body::Meta && s.ty == 3 && matches!(s.body, Body::Data(_)) {
            s.body = Body::Meta;
        }
    }
}

fn hide_segments(d: &mut Dump) {
    d.ph_del.iter_mut().for_each(|x| *x = true);
}

struct Edit<'a, 'b> {
    r: &'a mut Rng,
    d: Dump,
    b: be::Builder<'b>,
    secs: Vec<be::SectionId>,
    syms: Vec<be::SymbolId>,
    dyns: Vec<be::DynamicSymbolId>,
    image: bool,
}
impl Edit<'_, '_> {
    fn name(&mut self, old: usize) -> Vec<u8> {
        let mut s = self.r.ident(12).into_bytes();
        if self.image {
            s.truncate(old);
        }
        s
    }
    fn section(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.d.secs.len()).filter(|i| !self.d.secs[*i].del).collect();
        (!v.is_empty()).then(|| *self.r.pick(&v))
    }
    fn step(&mut self, o: &mut Obs) {
        match self.r.below(16) {
            0 | 1 => {
                let Some(i) = self.section() else { return };
                // Without this one nothing works.
                if self.d.secs[i].name == b".shstrtab" && !self.r.one_in(8) {
                    return;
                }
                // Relocations need their target.
                for k in 0..self.d.secs.len() {
                    if (self.d.secs[k].info_sec == Some(i) || self.d.secs[k].link == Some(i)) && !self.r.one_in(8) {
                        self.d.secs[k].del = true;
                        self.b.sections.get_mut(self.secs[k]).delete = true;
                    }
                }
                self.d.secs[i].del = true;
                self.b.sections.get_mut(self.secs[i]).delete = true;
                o.hit("edit: delete a section");
            }
            2 => {
                let Some(i) = self.section() else { return };
                let n = self.name(99);
                self.b.sections.get_mut(self.secs[i]).name = n.clone().into();
                self.d.secs[i].name = n;
                o.hit("edit: rename a section");
            }
            3 if !self.syms.is_empty() => {
                let i = self.r.idx(self.syms.len());
                self.d.syms[i].del = true;
                self.b.symbols.get_mut(self.syms[i]).delete = true;
                o.hit("edit: delete a symbol");
            }
            4 if !self.syms.is_empty() => {
                let i = self.r.idx(self.syms.len());
                let n = self.name(99);
                let y = self.b.symbols.get_mut(self.syms[i]);
                y.name = n.clone().into();
                self.d.syms[i].name = n;
                o.hit("edit: rename a symbol");
            }
            5 if !self.syms.is_empty() => {
                let i = self.r.idx(self.syms.len());
                let bits = if self.d.is64 { 64 } else { 32 };
                let y = &mut self.d.syms[i];
                (y.value, y.size, y.other, y.info) = (self.r.edgy(bits), self.r.edgy(bits), self.r.u8(), self.r.u8());
                let z = self.b.symbols.get_mut(self.syms[i]);
                (z.st_value, z.st_size, z.st_other, z.st_info) = (y.value, y.size, elf::SymbolOther(y.other), elf::SymbolInfo(y.info));
                o.hit("edit: change a symbol");
            }
            6 if !self.syms.is_empty() => {
                let i = self.r.idx(self.syms.len());
                let k = self.section();
                let y = &mut self.d.syms[i];
                let z = self.b.symbols.get_mut(self.syms[i]);
                if let Some(k) = k {
                    (y.sec, y.shndx) = (Some(k), 0);
                    z.section = Some(self.secs[k]);
                } else {
                    (y.sec, y.shndx) = (None, 0xfff1);
                    (z.section, z.st_shndx) = (None, elf::SHN_ABS);
                }
                o.hit("edit: move a symbol");
            }
            7 if !self.dyns.is_empty() => {
                let i = self.r.idx(self.dyns.len());
                self.d.dyns[i].del = true;
                self.b.dynamic_symbols.get_mut(self.dyns[i]).delete = true;
                o.hit("edit: delete a dynamic symbol");
            }
            8 if !self.dyns.is_empty() => {
                let i = self.r.idx(self.dyns.len());
                let n = self.name(self.d.dyns[i].name.len());
                self.b.dynamic_symbols.get_mut(self.dyns[i]).name = n.clone().into();
                self.d.dyns[i].name = n;
                o.hit("edit: rename a dynamic symbol");
            }
            9 if !self.dyns.is_empty() => {
                let i = self.r.idx(self.dyns.len());
                let bits = if self.d.is64 { 64 } else { 32 };
                let y = &mut self.d.dyns[i];
                (y.value, y.size, y.other) = (self.r.edgy(bits), self.r.edgy(bits), self.r.u8());
                let z = self.b.dynamic_symbols.get_mut(self.dyns[i]);
                (z.st_value, z.st_size, z.st_other) = (y.value, y.size, elf::SymbolOther(y.other));
                o.hit("edit: change a dynamic symbol");
            }
            10 => {
                let Some(i) = self.section() else { return };
                let s = &mut self.d.secs[i];
                let fixed = self.image && s.alloc();
                if let (Body::Data(x), true) = (&mut s.body, s.ty != 3) {
                    let n = if fixed { x.len() } else { x.len() + self.r.idx(20) };
                    *x = self.r.bytes(n);
                    s.size = n as u64;
                    let z = self.b.sections.get_mut(self.secs[i]);
                    z.data = match z.data {
                        be::SectionData::Note(_) => be::SectionData::Note(x.clone().into()),
                        _ => be::SectionData::Data(x.clone().into()),
                    };
                    o.hit("edit: change data");
                }
            }
            11 => {
                let x = {
                    let n = self.r.idx(40);
                    self.r.bytes(n)
                };
                let n = self.name(99);
                let align = 1 << self.r.below(5);
                let flags = if self.image { 0 } else { *self.r.pick(&[0, 2, 3, 6, 0x30]) };
                let z = self.b.sections.add();
                z.name = n.clone().into();
                z.sh_type = elf::SHT_PROGBITS;
                z.sh_flags = elf::SectionFlags(flags);
                z.sh_addralign = align;
                z.data = be::SectionData::Data(x.clone().into());
                self.secs.push(z.id());
                self.d.secs.push(DSec { del: false, name: n, ty: 1, flags, addr: 0, off: 0, size: x.len() as u64, align, entsize: 0, link: None, info: 0, info_sec: None, body: Body::Data(x) });
                o.hit("edit: add a section");
            }
            12 if !self.syms.is_empty() => {
                let n = self.name(99);
                let k = self.section();
                let info = *self.r.pick(&[0u8, 3, 0x10, 0x12, 0x20]);
                let z = self.b.symbols.add();
                z.name = n.clone().into();
                z.section = k.map(|k| self.secs[k]);
                z.st_info = elf::SymbolInfo(info);
                z.st_value = 7;
                self.syms.push(z.id());
                self.d.syms.push(DSym { del: false, name: n, info, other: 0, shndx: 0, sec: k, value: 7, size: 0, ver: Ver::Global, hidden: false });
                o.hit("edit: add a symbol");
            }
            13 => {
                let Some(i) = self.section() else { return };
                let ns = self.syms.len();
                let rela = self.d.secs[i].ty == 4;
                if let (Body::Rel(v, false), be::SectionData::Relocation(w)) = (&mut self.d.secs[i].body, &mut self.b.sections.get_mut(self.secs[i]).data) {
                    if self.r.bool() && !v.is_empty() {
                        let k = self.r.idx(v.len());
                        v.remove(k);
                        w.remove(k);
                    } else {
                        let sym = (ns > 0 && self.r.bool()).then(|| self.r.idx(ns));
                        let a = if rela { 5 } else { 0 };
                        v.push(DRel { off: 0, sym, ty: 3, add: rela.then_some(a) });
                        w.push(be::Relocation { r_offset: 0, symbol: sym.map(|k| self.syms[k]), r_type: elf::RelocationType(3), r_addend: a });
                    }
                    o.hit("edit: change relocations");
                }
            }
            14 => {
                let Some(i) = self.section() else { return };
                if let (Body::Dynamic(v), be::SectionData::Dynamic(w)) = (&mut self.d.secs[i].body, &mut self.b.sections.get_mut(self.secs[i]).data) {
                    if !v.is_empty() {
                        let k = self.r.idx(v.len());
                        v.remove(k);
                        w.remove(k);
                        if self.r.bool() {
                            v.push(DDyn::Int(0x15, 9));
                            w.push(be::Dynamic::Integer { tag: elf::DynamicTag(0x15), val: 9 });
                        }
                        o.hit("edit: change dynamic entries");
                    }
                }
            }
            15 => {
                self.d.eh.entry = self.r.edgy(32);
                self.b.header.e_entry = self.d.eh.entry;
                self.d.eh.osabi = self.r.u8();
                self.b.header.os_abi = elf::OsAbi(self.d.eh.osabi);
                o.hit("edit: change the header");
            }
            _ => {}
        }
    }
}

fn edits(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let image = case % 2 == 1;
    let b = elfimg::image(r, image);
    o.input("in", &b);
    let d = dump(&b)?;
    let bld = be::Builder::read(&*b).map_err(|e| format!("a well formed file is refused: {e}"))?;
    let secs: Vec<_> = bld.sections.iter().map(|s| s.id()).collect();
    let syms: Vec<_> = bld.symbols.iter().map(|s| s.id()).collect();
    let dyns: Vec<_> = bld.dynamic_symbols.iter().map(|s| s.id()).collect();
    ensure!(secs.len() == d.secs.len() && syms.len() == d.syms.len() && dyns.len() == d.dyns.len(), "the builder has {} sections, {} and {} symbols", secs.len(), syms.len(), dyns.len());
    let mut e = Edit { r, d, b: bld, secs, syms, dyns, image };
    for _ in 0..1 + e.r.idx(8) {
        e.step(o);
    }
    let Edit { mut d, mut b, .. } = e;
    b.delete_orphans();
    b.delete_unused_versions();
    b.set_section_sizes();
    dead_sections(&mut d);
    let sizes: Vec<u64> = b.sections.iter().map(|s| b.section_size(s)).collect();
    let mut w = vec![];
    if let Err(e) = b.write(&mut w) {
        o.hit("edits refused");
        o.hit(refusal(&e.to_string()));
        o.sample(|| e.to_string());
        return Ok(());
    }
    o.input("out", &w);
    let mut g = dump(&w).map_err(|e| format!("the output can't be read: {e}"))?;
    let complete = complete(&d);
    for (k, (s, n)) in g.secs.iter().zip(&sizes).enumerate().filter(|x| x.1.0.alloc() && complete) {
        // The room for a GNU hash table is estimated.
        ensure!(s.size == *n || s.ty == 0x6fff_fff6 && s.size < *n, "section {k} {:?} has size {:#x}, not {n:#x}", String::from_utf8_lossy(&s.name), s.size);
    }
    let n = segments(&d, &g, &[], false, o)?;
    ensure!(n == g.ph.len(), "{} segments instead of {n}", g.ph.len());
    let facts = if complete { consistent(&w)? } else { 0 };
    orphans(&d, &mut g);
    hide_segments(&mut d);
    hide_segments(&mut g);
    diff(&d.render(), &g.render())?;
    o.add("facts", facts);
    o.hit(if image { "edited images" } else { "edited objects" });
    o.nontrivial(vcore::hash(&w));
    Ok(())
}

fn refusal(e: &str) -> &'static str {
    for k in ["sh_link", "sh_info", "overlap", "Overlap", "needed but not present", "Unsupported", "Multiple"] {
        if e.contains(k) {
            return match k {
                "sh_link" => "refused: sh_link",
                "sh_info" => "refused: sh_info",
                "overlap" | "Overlap" => "refused: overlap",
                "needed but not present" => "refused: needed section",
                "Unsupported" => "refused: unsupported",
                _ => "refused: multiple",
            };
        }
    }
    "refused: other"
}

/// Do tables have everything they depend on?
fn complete(d: &Dump) -> bool {
    let have = |tys: &[u32]| d.secs.iter().any(|s| !s.del && tys.contains(&s.ty));
    let strings = |alloc: bool| (0..d.secs.len()).any(|i| i + 1 != d.eh.shstrndx as usize && !d.secs[i].del && d.secs[i].ty == 3 && d.secs[i].alloc() == alloc && d.secs[i].body == Body::Meta);
    (!have(&[2]) || strings(false)) && (!have(&[6, 11, 0x6fff_fffd, 0x6fff_fffe]) || strings(true)) && (!have(&[5, 0x6fff_fff6, 0x6fff_ffff]) || have(&[11])) && (!have(&[18]) || have(&[2]))
}

fn names(r: &mut Rng, d: &Dump, dynamic: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = d.syms.iter().chain(&d.dyns).map(|y| y.name.clone()).filter(|n| !n.is_empty()).collect();
    if dynamic {
        v = d.secs.iter().filter(|s| s.name != b".shstrtab" && (!s.alloc() || s.ty != 1 || r.one_in(4))).map(|s| s.name.clone()).collect();
    }
    r.shuffle(&mut v);
    v.truncate(r.idx(4));
    v
}

/// A section that may be given another address.
fn movable(d: &Dump, i: usize, interp: Option<usize>) -> bool {
    let s = &d.secs[i];
    s.alloc() && (s.body == Body::Meta || s.ty == 7 || interp == Some(i))
}

fn rewriter(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let dynamic = !r.one_in(6);
    let b = elfimg::image(r, dynamic);
    o.input("in", &b);
    rewrite_one(&b, r, o)
}

fn rewrite_one(b: &[u8], r: &mut Rng, o: &mut Obs) -> Res {
    let mut d = match dump(b) {
        Ok(d) => d,
        Err(e) => return Err(format!("the input is malformed: {e}")),
    };
    let Ok(mut rw) = Rewriter::read(b) else {
        o.hit("refused");
        return Ok(());
    };
    // The options.
    let mut opt = Options::default();
    let mut e = ElfOptions::default();
    let small = |r: &mut Rng| -> Vec<u8> {
        let n = if r.one_in(4) { 200 } else { 20 };
        let mut s = r.ident(n).into_bytes();
        s.insert(0, b'/');
        s
    };
    if r.one_in(3) {
        opt.delete_symbols = names(r, &d, false).into_iter().collect::<Names>();
    }
    if r.one_in(3) {
        opt.rename_symbols = names(r, &d, false).into_iter().map(|n| (n, small(r))).collect::<Renames>();
    }
    if r.one_in(4) {
        opt.delete_sections = names(r, &d, true).into_iter().collect::<Names>();
    }
    if r.one_in(4) {
        opt.rename_sections = names(r, &d, true).into_iter().map(|n| (n, small(r))).collect::<Renames>();
    }
    let segment_section = |d: &Dump, ty: u32| -> Option<usize> {
        let p = d.ph.iter().find(|p| p.ty == ty)?;
        (0..d.secs.len()).find(|i| d.secs[*i].alloc() && d.secs[*i].addr >= p.vaddr && d.secs[*i].addr - p.vaddr < p.memsz)
    };
    let needed: Vec<Vec<u8>> = d
        .secs
        .iter()
        .flat_map(|s| match &s.body {
            Body::Dynamic(v) => v.iter().filter_map(|x| if let DDyn::Str(1, n) = x { Some(n.clone()) } else { None }).collect(),
            _ => vec![],
        })
        .collect();
    let dynamic_data = segment_section(&d, 2).is_some_and(|i| matches!(d.secs[i].body, Body::Dynamic(_)));
    if dynamic_data || r.one_in(10) {
        e.add_dynamic_debug = r.one_in(6);
        e.delete_runpath = r.one_in(6);
        e.set_runpath = r.one_in(5).then(|| small(r));
        if r.one_in(5) {
            e.add_runpath = (0..1 + r.idx(2)).map(|_| small(r)).collect();
        }
        e.use_runpath = r.one_in(6);
        e.use_rpath = r.one_in(6);
        if r.one_in(5) {
            e.delete_needed = needed.iter().cloned().chain([b"nothing".to_vec()]).filter(|_| r.bool()).collect();
        }
        if r.one_in(5) {
            e.replace_needed = needed.iter().cloned().filter(|_| r.bool()).collect::<Vec<_>>().into_iter().map(|n| (n, small(r))).collect();
        }
        if r.one_in(4) {
            e.add_needed = (0..1 + r.idx(2)).map(|_| small(r)).collect();
            if r.bool() {
                e.add_needed.extend(needed.first().cloned());
            }
        }
        e.set_soname = r.one_in(5).then(|| small(r));
    }
    if segment_section(&d, 3).is_some() || r.one_in(10) {
        e.set_interpreter = r.one_in(5).then(|| {
            let mut s = small(r);
            if r.one_in(4) {
                s.push(0);
            }
            s
        });
    }
    // The model.
    for y in d.syms.iter_mut().chain(&mut d.dyns) {
        y.del |= opt.delete_symbols.contains(&y.name);
        if let Some(n) = opt.rename_symbols.get(&y.name) {
            y.name = n.clone();
        }
    }
    let interp = segment_section(&d, 3);
    let dynamic = segment_section(&d, 2);
    for s in &mut d.secs {
        s.del |= opt.delete_sections.contains(&s.name);
        if let Some(n) = opt.rename_sections.get(&s.name) {
            s.name = n.clone();
        }
    }
    let before = d.clone();
    let mut none = vec![];
    let v = match dynamic.map(|i| &mut d.secs[i]) {
        Some(DSec { body: Body::Dynamic(v), .. }) => v,
        _ => &mut none,
    };
    if e.add_dynamic_debug && !v.iter().any(|x| matches!(x, DDyn::Int(21, _))) {
        v.push(DDyn::Int(21, 0));
    }
    let is_path = |x: &DDyn| matches!(x, DDyn::Str(15 | 29, _));
    if e.delete_runpath {
        v.retain(|x| !is_path(x));
    }
    if let Some(p) = &e.set_runpath {
        if !v.iter().any(is_path) {
            v.push(DDyn::Str(29, vec![]));
        }
        for x in v.iter_mut() {
            if let DDyn::Str(15 | 29, s) = x {
                *s = p.clone();
            }
        }
    }
    if !e.add_runpath.is_empty() {
        let add = e.add_runpath.join(&b':');
        if !v.iter().any(is_path) {
            v.push(DDyn::Str(29, vec![]));
        }
        for x in v.iter_mut() {
            if let DDyn::Str(15 | 29, s) = x {
                if !s.is_empty() {
                    s.push(b':');
                }
                s.extend(&add);
            }
        }
    }
    for x in v.iter_mut() {
        if let DDyn::Str(t @ (15 | 29), _) = x {
            *t = if e.use_rpath {
                15
            } else if e.use_runpath {
                29
            } else {
                *t
            };
        }
    }
    v.retain(|x| !matches!(x, DDyn::Str(1, n) if e.delete_needed.contains(n)));
    for x in v.iter_mut() {
        if let DDyn::Str(1, n) = x {
            if let Some(m) = e.replace_needed.get(n) {
                *n = m.clone();
            }
        }
    }
    let have: Vec<DDyn> = v.clone();
    for n in e.add_needed.iter().rev() {
        let x = DDyn::Str(1, n.clone());
        if !have.contains(&x) {
            v.insert(0, x);
        }
    }
    if let Some(n) = &e.set_soname {
        if !v.iter().any(|x| matches!(x, DDyn::Str(14, _))) {
            v.push(DDyn::Str(14, vec![]));
        }
        for x in v.iter_mut() {
            if let DDyn::Str(14, s) = x {
                *s = n.clone();
            }
        }
    }
    if let (Some(n), Some(i)) = (&e.set_interpreter, interp) {
        let mut n = n.clone();
        if n.last() != Some(&0) {
            n.push(0);
        }
        d.secs[i].size = n.len() as u64;
        d.secs[i].body = Body::Data(n);
    }
    let kinds = [
        (!opt.delete_symbols.is_empty(), "option: delete symbols"),
        (!opt.rename_symbols.is_empty(), "option: rename symbols"),
        (!opt.delete_sections.is_empty(), "option: delete sections"),
        (!opt.rename_sections.is_empty(), "option: rename sections"),
        (e.add_dynamic_debug, "option: debug entry"),
        (e.delete_runpath, "option: delete run path"),
        (e.set_runpath.is_some(), "option: set run path"),
        (!e.add_runpath.is_empty(), "option: add run path"),
        (e.use_runpath || e.use_rpath, "option: kind of run path"),
        (!e.delete_needed.is_empty(), "option: delete needed"),
        (!e.replace_needed.is_empty(), "option: replace needed"),
        (!e.add_needed.is_empty(), "option: add needed"),
        (e.set_soname.is_some(), "option: name"),
        (e.set_interpreter.is_some(), "option: interpreter"),
    ];
    let any = kinds.iter().any(|k| k.0);
    opt.elf = e;
    if let Err(e) = rw.modify(opt) {
        o.hit("options refused");
        o.sample(|| e.to_string());
        return Ok(());
    }
    let mut w = vec![];
    if let Err(e) = rw.write(&mut w) {
        o.hit("edits refused");
        o.hit(refusal(&e.to_string()));
        o.sample(|| e.to_string());
        return Ok(());
    }
    o.input("out", &w);
    if any {
        dead_sections(&mut d);
    }
    let mut g = dump(&w).map_err(|e| format!("the output can't be read: {e}"))?;
    // Which sections moved?
    let live: Vec<usize> = (0..d.secs.len()).filter(|i| !d.secs[*i].del).collect();
    ensure!(live.len() == g.secs.len(), "{} sections instead of {}", g.secs.len(), live.len());
    let mut moved = vec![];
    for (i, s) in live.iter().zip(&g.secs) {
        if !before.ph.is_empty() && movable(&d, *i, interp) && (s.addr != d.secs[*i].addr || s.off != d.secs[*i].off) {
            ensure!(s.alloc() && s.addr != d.secs[*i].addr && s.off != d.secs[*i].off, "section {i} half moved to {:#x} at {:#x}", s.addr, s.off);
            moved.push(*i);
        }
    }
    o.add("sections moved", moved.len() as u64);
    let mut old = d.clone();
    for (i, s) in live.iter().zip(&g.secs) {
        if moved.contains(i) {
            (d.secs[*i].addr, d.secs[*i].off, d.secs[*i].size) = (s.addr, s.off, s.size);
        }
        // The size of the table may have changed.
        old.secs[*i].size = before.secs[*i].size;
    }
    let n = segments(&old, &g, &moved, true, o)?;
    for p in &g.ph[n..] {
        o.hit("segments added");
        ensure!(!moved.is_empty(), "a new segment {p:x?} without need");
        let is = |s: &DSec| s.addr >= p.vaddr && s.addr + s.size <= p.vaddr + p.memsz && s.size > 0;
        if p.ty == 1 {
            ensure!(p.align.is_power_of_two() && p.vaddr % p.align == p.offset % p.align, "new segment {p:x?} isn't aligned");
            ensure!(p.filesz == p.memsz && p.offset + p.filesz <= w.len() as u64, "new segment {p:x?}");
            let page = before.ph.iter().filter(|p| p.ty == 1).map(|p| p.align).max().unwrap_or(1);
            ensure!(p.vaddr % page == p.offset % page, "new segment {p:x?} isn't congruent modulo the page size {page:#x}");
            for (i, s) in live.iter().zip(&g.secs).filter(|x| is(x.1)) {
                ensure!(moved.contains(i), "section {:?} is in the new segment {p:x?}", String::from_utf8_lossy(&s.name));
                let f = (s.flags & 1 != 0) as u32 * 2 + (s.flags & 4 != 0) as u32 + 4;
                ensure!(p.flags == f, "{:?} in segment {p:x?}", String::from_utf8_lossy(&s.name));
            }
            for (k, q) in g.ph.iter().enumerate().filter(|x| x.1.ty == 1 && x.1 != p) {
                ensure!(p.vaddr >= q.vaddr + q.memsz || q.vaddr >= p.vaddr + p.memsz, "new segment {p:x?} overlaps segment {k} {q:x?}");
            }
        } else {
            ensure!(moved.iter().any(|i| is(&d.secs[*i]) || d.secs[*i].size == 0), "new segment {p:x?} of nothing");
        }
    }
    let loads: Vec<&se::Phdr> = g.ph.iter().filter(|p| p.ty == 1).collect();
    // Memory is what the sections say.
    let covered = |s: &DSec, loads: &[&se::Phdr]| loads.iter().any(|p| s.addr >= p.vaddr && s.off >= p.offset && s.off - p.offset == s.addr - p.vaddr && s.off + s.size <= p.offset + p.filesz);
    let old_loads: Vec<&se::Phdr> = before.ph.iter().filter(|p| p.ty == 1).collect();
    for (i, s) in live.iter().zip(&g.secs).filter(|x| x.1.alloc() && x.1.ty != 8 && x.1.size > 0) {
        if moved.contains(i) || covered(&before.secs[*i], &old_loads) {
            ensure!(covered(s, &loads), "section {:?} at {:#x}, offset {:#x}, size {:#x} isn't loaded there: {loads:x?}", String::from_utf8_lossy(&s.name), s.addr, s.off, s.size);
            ensure!(s.align < 2 || s.addr % s.align == 0 || before.secs[*i].addr % s.align != 0, "section {:?} at {:#x} isn't aligned", String::from_utf8_lossy(&s.name), s.addr);
            o.hit("loaded sections");
        }
        for (j, t) in live.iter().zip(&g.secs).filter(|x| x.1.alloc() && x.1.size > 0 && x.0 != i && (x.1.ty != 8 || x.1.flags & 0x400 == 0)) {
            let over = |s: &DSec, t: &DSec| s.addr < t.addr + t.size && t.addr < s.addr + s.size;
            ensure!(!over(s, t) || over(&before.secs[*i], &before.secs[*j]), "sections {:?} and {:?} overlap", String::from_utf8_lossy(&s.name), String::from_utf8_lossy(&t.name));
        }
    }
    for p in &g.ph {
        if p.ty == 6 && before.ph.iter().any(|q| q.ty == 6 && q.offset == before.eh.phoff && q.filesz == before.ph.len() as u64 * if d.is64 { 56 } else { 32 }) {
            let n = g.ph.len() as u64 * if d.is64 { 56 } else { 32 };
            ensure!(p.offset == g.eh.phoff && p.filesz == n && p.memsz == n, "{p:x?} for {n} bytes of program headers");
            ensure!(loads.iter().any(|q| q.offset <= p.offset && p.offset + n <= q.offset + q.filesz), "the program headers aren't loaded");
        }
        for (ty, i) in [(3, interp), (2, dynamic)] {
            let Some(i) = i.filter(|i| p.ty == ty && !d.secs[*i].del) else { continue };
            let s = &g.secs[live.iter().position(|k| *k == i).unwrap()];
            ensure!(p.offset == s.off && p.vaddr == s.addr, "segment {p:x?} isn't that of section {:#x} {:#x} {:#x}", s.off, s.addr, s.size);
            let q = before.ph.iter().find(|q| q.ty == ty).unwrap();
            let (oldsz, odd) = (before.secs[i].size, q.memsz != q.filesz || q.filesz < before.secs[i].size);
            // It may keep the zeros after a path that became shorter.
            let slack = !moved.contains(&i) && p.filesz == q.filesz && s.size <= oldsz;
            if moved.contains(&i) || !odd && (ty == 3 || s.ty == 6) {
                ensure!(p.filesz == p.memsz && (p.filesz == s.size || slack), "segment {p:x?} isn't that of section {:#x} {:#x} {:#x}", s.off, s.addr, s.size);
            }
        }
    }
    let facts = if complete(&d) { consistent(&w)? } else { 0 };
    orphans(&d, &mut g);
    hide_segments(&mut d);
    hide_segments(&mut g);
    diff(&d.render(), &g.render())?;
    o.add("facts", facts);
    for (_, k) in kinds.iter().filter(|k| k.0) {
        o.hit(k);
    }
    o.hit("rewritten");
    o.nontrivial(vcore::hash(&w));
    Ok(())
}

struct Built {
    dir: std::path::PathBuf,
    exes: Vec<(&'static str, Vec<u8>)>,
    lib: Vec<u8>,
}
impl Drop for Built {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn built(case: u64) -> Result<Built, String> {
    let dir = std::env::temp_dir().join(format!("c25-{}-{case}", std::process::id()));
    std::fs::create_dir_all(dir.join("sub")).map_err(|e| e.to_string())?;
    let cc = |args: &[&str]| -> Res {
        let x = std::process::Command::new("gcc").args(args).current_dir(&dir).output().map_err(|e| e.to_string())?;
        ensure!(x.status.success(), "gcc {args:?}: {}", String::from_utf8_lossy(&x.stderr));
        Ok(())
    };
    std::fs::write(dir.join("lib.c"), "int value = 40; static __thread int t = 1; int shared(int x) { return x + value + t++; }\n").unwrap();
    std::fs::write(
        dir.join("main.c"),
        "#include <stdio.h>\nint shared(int); extern int value; static int z[1000]; __thread int tls = 5;\nint helper(int x) { return x * 2 + z[x]; }\nint main(int argc, char **argv) { value += 1; printf(\"%d %d %d %s\\n\", shared(1), helper(argc), tls, argv[argc - 1]); return 3; }\n",
    )
    .unwrap();
    cc(&["-shared", "-fPIC", "-O1", "-Wl,-soname,libs.so", "-o", "sub/libs.so", "lib.c"])?;
    let mut exes = vec![];
    for (n, flags) in [
        ("pie", &["-pie", "-fPIE"][..]),
        ("plain", &["-no-pie"]),
        ("sysv", &["-Wl,--hash-style=sysv", "-Wl,-z,lazy"]),
        ("both", &["-Wl,--hash-style=both", "-Wl,-z,now", "-g"]),
        ("lld", &["-fuse-ld=lld"]),
        ("noseparate", &["-Wl,-z,noseparate-code"]),
    ] {
        let mut a = vec!["-O1", "main.c", "-Lsub", "-ls", "-Wl,-rpath,sub", "-o", n];
        a.extend(flags);
        if cc(&a).is_ok() {
            exes.push((n, std::fs::read(dir.join(n)).map_err(|e| e.to_string())?));
        }
    }
    ensure!(exes.len() >= 3, "the compiler makes too few programs");
    let lib = std::fs::read(dir.join("sub/libs.so")).map_err(|e| e.to_string())?;
    Ok(Built { dir, exes, lib })
}

/// Edited programs and libraries still run.
fn runs(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    #[cfg(unix)]
    use std::os::unix::fs::PermissionsExt;
    let b = match built(case) {
        Ok(b) => b,
        Err(e) => {
            o.sample(|| e);
            o.hit("no compiler");
            return Ok(());
        }
    };
    for round in 0..12 {
        let (name, exe) = &b.exes[((case + round) % b.exes.len() as u64) as usize];
        let on_lib = r.one_in(4);
        let file = if on_lib { &b.lib } else { exe };
        let mut opt = Options::default();
        let mut e = ElfOptions::default();
        let deep = |r: &mut Rng, n: usize| "./".repeat(r.idx(n) + 1);
        let mut want_needed = None;
        if !on_lib && r.bool() {
            let p = format!("{}lib64-none:{}sub", deep(r, 100), deep(r, 100));
            match r.below(3) {
                0 => e.set_runpath = Some(p.into_bytes()),
                1 => e.add_runpath = vec![p.into_bytes(), b"sub".to_vec()],
                _ => {
                    e.delete_runpath = true;
                    e.set_runpath = Some(b"sub".to_vec());
                }
            }
            e.use_rpath = r.one_in(3);
        }
        if !on_lib && r.bool() {
            e.set_interpreter = Some(format!("{}/lib64/ld-linux-x86-64.so.2", "/.".repeat(r.idx(200))).into_bytes());
        }
        if r.one_in(3) {
            e.add_needed = vec![b"libm.so.6".to_vec(), b"libs2.so".to_vec()];
            want_needed = Some("libs2.so");
        }
        if r.one_in(3) {
            e.set_soname = Some(format!("lib{}.so", r.ident(60)).into_bytes());
        }
        e.add_dynamic_debug = r.bool();
        if !on_lib && r.one_in(3) {
            opt.delete_sections = [&b".comment"[..], b".note.gnu.property", b".note.ABI-tag", b".note.gnu.build-id"].iter().filter(|_| r.bool()).map(|n| n.to_vec()).collect();
        }
        if r.one_in(3) {
            opt.delete_symbols = [b"helper".to_vec(), b"main.c".to_vec()].into_iter().filter(|_| r.bool()).collect();
        }
        let rename = r.one_in(3);
        if rename {
            // Consistently in both files.
            opt.rename_symbols = [(b"shared".to_vec(), b"shared_function_with_a_longer_name".to_vec())].into_iter().collect();
        }
        opt.elf = e;
        let lossy = |v: &dyn std::fmt::Debug, l: &[Vec<u8>]| format!("{v:?} {}", l.iter().map(|x| String::from_utf8_lossy(x)).collect::<Vec<_>>().join(" "));
        let l: Vec<Vec<u8>> = [&opt.elf.set_runpath, &opt.elf.set_interpreter, &opt.elf.set_soname].into_iter().flatten().chain(&opt.elf.add_runpath).chain(&opt.elf.add_needed).chain(&opt.delete_sections).chain(&opt.delete_symbols).cloned().collect();
        let desc = lossy(&(name, on_lib, rename, opt.elf.use_rpath, opt.elf.delete_runpath, opt.elf.add_dynamic_debug), &l);
        let edit = |file: &[u8], opt: Options| -> Result<Vec<u8>, String> {
            let mut rw = Rewriter::read(file).map_err(|e| e.to_string())?;
            rw.modify(opt).map_err(|e| e.to_string())?;
            let mut w = vec![];
            rw.write(&mut w).map_err(|e| e.to_string())?;
            Ok(w)
        };
        let only = |opt: &Options| {
            let mut x = Options::default();
            x.rename_symbols = opt.rename_symbols.clone();
            x
        };
        let other = only(&opt);
        let w = edit(file, opt);
        let (exe, lib) = match (w, on_lib) {
            (Err(e), _) => {
                o.hit("real edits refused");
                o.sample(|| format!("{desc}: {e}"));
                continue;
            }
            (Ok(w), false) => (w, if rename { edit(&b.lib, only(&other))? } else { b.lib.clone() }),
            (Ok(w), true) => (if rename { edit(exe, only(&other))? } else { exe.clone() }, w),
        };
        consistent(if on_lib { &lib } else { &exe }).map_err(|e| format!("{desc}: {e}"))?;
        let d = b.dir.join("run");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sub")).map_err(|e| e.to_string())?;
        std::fs::write(d.join("sub/libs.so"), &lib).map_err(|e| e.to_string())?;
        if want_needed.is_some() {
            let mut x = only(&other);
            x.elf.set_soname = Some(b"libs2.so".to_vec());
            std::fs::write(d.join("sub/libs2.so"), edit(&b.lib, x)?).map_err(|e| e.to_string())?;
        }
        std::fs::write(d.join("prog"), &exe).map_err(|e| e.to_string())?;
        #[cfg(unix)]
        std::fs::set_permissions(d.join("prog"), std::fs::Permissions::from_mode(0o755)).map_err(|e| e.to_string())?;
        let x = std::process::Command::new("timeout")
            .args(["20", "./prog", "end"])
            .current_dir(&d)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("LD_LIBRARY_PATH", if on_lib { "sub" } else { "" })
            .output()
            .map_err(|e| e.to_string())?;
        o.input("prog", &exe);
        o.input("libs.so", &lib);
        ensure!(
            x.status.code() == Some(3) && x.stdout == b"43 4 5 end\n",
            "{desc}: {:?} {} {}",
            x.status,
            String::from_utf8_lossy(&x.stdout),
            String::from_utf8_lossy(&x.stderr)
        );
        o.hit("programs run");
        o.nontrivial(vcore::hash(&exe) ^ vcore::hash(&lib));
    }
    Ok(())
}

/// Segments built from sections: their ranges are the union of the sections, and new ones go after everything else.
fn segments_from_sections(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let mut b = be::Builder::new(if r.bool() { object::Endianness::Little } else { object::Endianness::Big }, r.bool());
    let aligns = [0u64, 1, 4, 16, 0x1000, 0x10000];
    // (Sections with data are at the same distance from their address, and those without follow.)
    let delta = r.below(4) * 0x10000 + r.below(2) * 0x40_0000;
    let mut secs = vec![];
    for i in 0..1 + r.idx(8) {
        let bss = r.one_in(5);
        let s = b.sections.add();
        s.name = format!(".s{i}").into_bytes().into();
        s.sh_type = if bss { elf::SHT_NOBITS } else { elf::SHT_PROGBITS };
        s.sh_flags = elf::SHF_ALLOC;
        let k = (r.range(1, 20), r.range(1, 14));
        s.sh_offset = r.below(1 << k.0);
        s.sh_addr = s.sh_offset + delta;
        s.sh_size = 1 + r.below(1 << k.1);
        s.sh_addralign = *r.pick(&aligns);
        s.data = if bss { be::SectionData::UninitializedData(s.sh_size) } else { be::SectionData::Data(vec![0; s.sh_size as usize].into()) };
        secs.push(s.id());
    }
    // What segments are expected to be.
    struct Want {
        id: be::SegmentId,
        load: bool,
        secs: Vec<usize>,
        flags: u32,
        align: u64,
    }
    let mut want: Vec<Want> = vec![];
    let at = |b: &be::Builder, secs: &[be::SectionId], i: usize| {
        let s = b.sections.get(secs[i]);
        (s.sh_offset, s.sh_addr, s.sh_size, s.sh_type == elf::SHT_NOBITS)
    };
    for step in 0..1 + r.idx(6) {
        let tops = |b: &be::Builder| (b.segments.iter().map(|s| s.p_offset + s.p_filesz).max().unwrap_or(0), b.segments.iter().map(|s| s.p_vaddr + s.p_memsz).max().unwrap_or(0));
        let (top, top_addr) = tops(&b);
        match r.below(4) {
            // A segment for sections where they are.
            0 | 1 => {
                let s = b.segments.add();
                s.p_type = if r.one_in(8) { elf::PT_LOAD } else { *r.pick(&[elf::PT_TLS, elf::PT_NOTE, elf::PT_GNU_RELRO]) };
                let load = s.p_type == elf::PT_LOAD;
                s.p_align = *r.pick(&aligns);
                let (id, align) = (s.id(), s.p_align);
                let mut list: Vec<usize> = (0..secs.len()).filter(|_| r.bool()).collect();
                if r.bool() {
                    r.shuffle(&mut list);
                }
                let sizes: Vec<_> = list.iter().map(|i| at(&b, &secs, *i)).collect();
                // (The segment must have the same size in the file and in memory.)
                let data = sizes.iter().all(|x| !x.3 && x.1 == x.0 + delta);
                if load || !data || r.bool() {
                    let s = b.segments.get_mut(id);
                    s.sections = list.iter().map(|i| secs[*i]).collect();
                    s.p_offset = r.below(99);
                    s.p_filesz = r.below(99);
                    s.p_vaddr = r.below(99);
                    s.p_memsz = r.below(99);
                    s.recalculate_ranges(&b.sections);
                } else if r.bool() {
                    for i in &list {
                        let s = b.sections.get(secs[*i]);
                        let g = b.segments.get_mut(id);
                        g.append_section_range(s);
                        g.sections.push(secs[*i]);
                    }
                } else {
                    for i in &list {
                        b.segments.get_mut(id).append_section(b.sections.get_mut(secs[*i]));
                    }
                }
                let now: Vec<_> = list.iter().map(|i| at(&b, &secs, *i)).collect();
                ensure!(now == sizes, "step {step}: sections moved: {sizes:x?} {now:x?}");
                want.push(Want { id, load, secs: list, flags: 0, align });
                o.hit("segments around sections");
            }
            // A segment after everything.
            2 => {
                let (flags, align) = (r.below(8) as u32, *r.pick(&aligns));
                let from = want.iter().filter(|w| w.load).map(|w| (w.id, w.flags, w.align)).last().filter(|_| r.bool());
                let s = if let Some(f) = from { b.segments.copy(f.0) } else { b.segments.add_load_segment(elf::ProgramFlags(flags), align) };
                let (flags, align) = from.map_or((flags, align), |f| (f.1, f.2));
                let id = s.id();
                let m = align.max(1);
                ensure!(s.p_type == elf::PT_LOAD && s.p_flags.0 == flags && s.p_align == align, "step {step}: new segment {s:?}");
                ensure!(s.p_offset == top && s.p_vaddr >= top_addr && s.p_vaddr < top_addr + 2 * m && s.p_paddr == s.p_vaddr && (s.p_vaddr - s.p_offset % m) % m == 0, "step {step}: new segment {s:x?} after {top:x} {top_addr:x}");
                ensure!(s.p_filesz == 0 && s.p_memsz == 0 && s.sections.is_empty(), "step {step}: new segment {s:x?} isn't empty");
                let mut list = vec![];
                for _ in 0..r.idx(4) {
                    let i = b.sections.count();
                    let s = b.sections.add();
                    s.name = format!(".n{i}").into_bytes().into();
                    s.sh_type = elf::SHT_PROGBITS;
                    s.sh_flags = elf::SHF_ALLOC;
                    s.sh_size = 1 + r.below(5000);
                    s.sh_addralign = *r.pick(&[0, 1, 2, 8, 64]).min(&m);
                    s.data = be::SectionData::Data(vec![0; s.sh_size as usize].into());
                    let sid = s.id();
                    secs.push(sid);
                    let g = b.segments.get(id);
                    let (end, end_addr) = (g.p_offset + g.p_filesz, g.p_vaddr + g.p_memsz);
                    let first = list.is_empty();
                    b.segments.get_mut(id).append_section(b.sections.get_mut(sid));
                    let s = b.sections.get(sid);
                    let a = s.sh_addralign.max(1);
                    ensure!(s.sh_offset >= end && s.sh_offset < end + a && s.sh_offset % a == 0, "step {step}: section {s:x?} placed after {end:x}");
                    ensure!(s.sh_addr >= end_addr && s.sh_addr < end_addr + a && s.sh_addr % a == 0, "step {step}: section {s:x?} placed after {end_addr:x}");
                    let g = b.segments.get(id);
                    ensure!(first || s.sh_addr - g.p_vaddr == s.sh_offset - g.p_offset, "step {step}: section {s:x?} in segment {g:x?}");
                    list.push(secs.len() - 1);
                }
                want.push(Want { id, load: true, secs: list, flags, align });
                o.hit("segments after the others");
            }
            _ => {
                if let Some(w) = want.last_mut() {
                    let s = b.segments.get_mut(w.id);
                    s.remove_sections();
                    ensure!(s.p_filesz == 0 && s.p_memsz == 0 && s.sections.is_empty(), "step {step}: segment {s:x?} isn't empty");
                    w.secs.clear();
                    o.hit("emptied segments");
                }
            }
        }
        // Every segment covers its sections, and nothing else.
        for (k, w) in want.iter().enumerate() {
            let s = b.segments.get(w.id);
            let ids: Vec<_> = w.secs.iter().map(|i| secs[*i]).collect();
            ensure!(s.sections == ids, "step {step}: segment {k} has sections {:?}", s.sections);
            let all: Vec<_> = w.secs.iter().map(|i| at(&b, &secs, *i)).collect();
            if all.is_empty() {
                ensure!(s.p_filesz == 0 && s.p_memsz == 0, "step {step}: empty segment {k}: {s:x?}");
                continue;
            }
            let mem = (all.iter().map(|x| x.1).min().unwrap(), all.iter().map(|x| x.1 + x.2).max().unwrap());
            ensure!((s.p_vaddr, s.p_vaddr + s.p_memsz) == mem && s.p_paddr == s.p_vaddr, "step {step}: segment {k} {s:x?} for addresses {:x}..{:x}", mem.0, mem.1);
            let data: Vec<_> = all.iter().filter(|x| !x.3).collect();
            if data.len() == all.len() {
                let file = (all.iter().map(|x| x.0).min().unwrap(), all.iter().map(|x| x.0 + x.2).max().unwrap());
                ensure!((s.p_offset, s.p_offset + s.p_filesz) == file, "step {step}: segment {k} {s:x?} for offsets {:x}..{:x}", file.0, file.1);
                o.hit("exact ranges");
            }
            for x in data {
                ensure!(s.p_offset <= x.0 && x.0 + x.2 <= s.p_offset + s.p_filesz, "step {step}: segment {k} {s:x?} for {x:x?}");
            }
        }
        // Lookups.
        for _ in 0..4 {
            let v = match (r.below(3), want.is_empty()) {
                (0, false) => {
                    let s = b.segments.get(want[r.idx(want.len())].id);
                    (*r.pick(&[s.p_offset, s.p_offset + s.p_filesz, s.p_vaddr, s.p_vaddr + s.p_memsz])).wrapping_sub(r.below(2))
                }
                (1, _) => r.u64(),
                _ => r.below(1 << 21),
            };
            for w in &want {
                let s = b.segments.get(w.id);
                let (f, m) = (s.p_offset..s.p_offset + s.p_filesz, s.p_vaddr..s.p_vaddr + s.p_memsz);
                ensure!((s.contains_offset(v), s.contains_address(v)) == (f.contains(&v), m.contains(&v)), "step {step}: {v:#x} in {s:x?}");
                ensure!(!f.contains(&v) || s.address_from_offset(v) == s.p_vaddr + (v - s.p_offset), "step {step}: address of {v:#x} in {s:x?}");
            }
            let hit: Vec<_> = want.iter().filter(|w| w.load && b.segments.get(w.id).contains_offset(v)).map(|w| w.id).collect();
            let got = b.segments.find_load_segment_from_offset(v).map(|s| s.id());
            ensure!(got.is_none() == hit.is_empty() && got.is_none_or(|g| hit.contains(&g)), "step {step}: found {got:?} for {v:#x}, not {hit:?}");
            o.hit("segment lookups");
        }
    }
    for w in &want {
        let s = b.segments.get(w.id);
        o.nontrivial(s.p_offset ^ s.p_filesz << 24 ^ s.p_memsz << 40 ^ (w.secs.len() as u64) << 60);
    }
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C25",
    rule: "an independent reader finds the edited content, references and memory image",
    parts: &[Part { name: "edits", quick: 80_000, thorough: 8_000_000, run: edits }, Part { name: "rewriter", quick: 60_000, thorough: 6_000_000, run: rewriter }, Part { name: "segments", quick: 60_000, thorough: 6_000_000, run: segments_from_sections }, Part { name: "runs", quick: 16, thorough: 1000, run: runs }],
    required: &["edited images", "edited objects", "rewritten", "facts", "sections moved", "segments added", "segments deleted", "loaded sections", "exact ranges", "segments after the others"],
    tools: &[],
    assumptions: &[],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

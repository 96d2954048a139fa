//! C22: the low-level ELF writer and encoder emit what they are told.
use genf::elfdyn::{gnu_hash, sysv_hash};
use genf::strict::{Rd, cstr};
use genf::w::uleb;
use object::Endianness;
use object::elf as oe;
use object::write::elf::{self as we, Mode, SectionIndex, SinglePhase, TwoPhase, Writer};
use object::write::{StringId, WritableBuffer};
use vcore::{Obs, Part, Res, Rng, Spec, ensure, hash, okay, same};

#[derive(Clone, Debug)]
struct Y {
    name: Option<usize>,
    sec: Option<u32>,
    shndx: u16,
    info: u8,
    other: u8,
    value: u64,
    size: u64,
}
#[derive(Clone, Debug)]
struct Def {
    ver: u16,
    flags: u16,
    ndx: u16,
    hash: u32,
    names: Vec<usize>,
    shared: bool,
}
type Aux = (u32, u16, u16, usize);
#[derive(Clone, Debug)]
enum K {
    Data(Vec<u8>, u64, bool),
    Phdrs,
    Shdrs,
    Symtab,
    Shndx,
    Strtab,
    Shstrtab,
    Dynstr,
    Dynsym,
    Dynamic(Vec<(i64, Result<u64, usize>)>),
    Hash(u32, Vec<Option<u32>>),
    Gnu(u32, u32, u32, u32, Vec<u32>),
    Versym(Vec<u16>),
    Verdef(Vec<Def>),
    Verneed(Vec<(u16, usize, Vec<Aux>)>),
    Attr(Vec<u8>),
    Rel(bool, Vec<(u64, u32, u32, i64)>),
    Relr(Vec<u8>),
    Group(Vec<u32>),
}
/// A section header: of a block, or of nothing.
#[derive(Clone, Debug)]
struct Hd {
    block: Option<usize>,
    name: usize,
    raw: [u64; 9],
}
struct Plan {
    is64: bool,
    be: bool,
    single: bool,
    placeholder: bool,
    h: we::FileHeader,
    ph: Vec<we::ProgramHeader>,
    blocks: Vec<K>,
    heads: Vec<Hd>,
    syms: Vec<Y>,
    dyns: Vec<Y>,
    strs: Vec<Vec<u8>>,
    dstrs: Vec<Vec<u8>>,
    snames: Vec<Vec<u8>>,
    nlocal: u32,
    require: bool,
}
impl Plan {
    fn word(&self) -> u64 {
        if self.is64 { 8 } else { 4 }
    }
    fn bits(&self) -> u32 {
        if self.is64 { 64 } else { 32 }
    }
    fn find(&self, f: impl Fn(&K) -> bool) -> Option<usize> {
        self.blocks.iter().position(f)
    }
    /// The index of the section for a kind of block.
    fn section(&self, f: impl Fn(&K) -> bool + Copy) -> u32 {
        self.heads.iter().position(|h| h.block.is_some_and(|b| f(&self.blocks[b]))).map_or(0, |i| i as u32 + 1)
    }
    fn mips(&self) -> bool {
        self.is64 && !self.be && self.h.e_machine == oe::EM_MIPS
    }
}

fn strings(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let s = if r.one_in(4) && !v.is_empty() {
            let s = r.pick(&v).clone();
            let k = r.idx(s.len() + 1);
            s[k..].to_vec()
        } else if r.one_in(30) {
            vec![b'q'; 1 + r.idx(400)]
        } else {
            r.ident(12).into_bytes()
        };
        v.push(s);
    }
    v
}
fn sym(r: &mut Rng, nstr: usize, bits: u32, wide: bool) -> Y {
    let sec = if r.bool() {
        Some(if wide && r.one_in(3) { *r.pick(&[0xfeff, 0xff00, 0xff01, 0xfff1, 0xfff2, 0xffff, 0x1_0000, 0x1_0001, 0x7fff_ffff, u32::MAX]) } else { r.below(0xff00) as u32 })
    } else {
        None
    };
    Y {
        name: if nstr > 0 && !r.one_in(5) { Some(r.idx(nstr)) } else { None },
        sec,
        shndx: *r.pick(&[0, 0xfff1, 0xfff2, 0xff00, 0xff1f, 0xff20, 0xffee]),
        info: r.u8(),
        other: r.u8(),
        value: r.edgy(bits),
        size: r.edgy(bits),
    }
}

fn plan(r: &mut Rng) -> Plan {
    let (is64, be, single) = (r.bool(), r.bool(), r.bool());
    let bits = if is64 { 64 } else { 32 };
    let none = r.one_in(12);
    let machine = *r.pick(&[3u16, 62, 40, 183, 8, 8, 20, 21, 22, 243, 0, 0xffff]);
    let mips = is64 && !be && machine == 8;
    let h = we::FileHeader { os_abi: oe::OsAbi(r.u8()), abi_version: r.u8(), e_type: oe::FileType(r.edgy(16) as u16), e_machine: oe::Machine(machine), e_entry: r.edgy(bits), e_flags: oe::FileFlags(r.edgy(32) as u32) };
    let mut p = Plan { is64, be, single, placeholder: false, h, ph: vec![], blocks: vec![], heads: vec![], syms: vec![], dyns: vec![], strs: vec![], dstrs: vec![], snames: vec![], nlocal: r.edgy(32) as u32, require: r.one_in(4) };
    let big = r.one_in(if vcore::thorough() { 400 } else { 1500 });
    let nph = if big && r.bool() { 0xfffd + r.idx(5) } else { r.idx(5) };
    for _ in 0..nph {
        p.ph.push(we::ProgramHeader {
            p_type: oe::ProgramType(r.edgy(32) as u32),
            p_flags: oe::ProgramFlags(r.edgy(32) as u32),
            p_offset: r.edgy(bits),
            p_vaddr: r.edgy(bits),
            p_paddr: r.edgy(bits),
            p_filesz: r.edgy(bits),
            p_memsz: r.edgy(bits),
            p_align: r.edgy(bits),
        });
    }
    if !p.ph.is_empty() {
        p.placeholder = single && r.bool();
        if !p.placeholder {
            p.blocks.push(K::Phdrs);
        }
    }
    for _ in 0..r.idx(4) {
        let n = r.idx(40);
        let until = r.one_in(4);
        p.blocks.push(K::Data(r.bytes(n), 1 << r.below(7), until));
    }
    if !none {
        p.blocks.extend([K::Shdrs, K::Shstrtab]);
        let n = r.idx(8);
        p.strs = strings(r, n);
        let n = r.idx(10);
        p.dstrs = strings(r, n);
        let wide = r.one_in(3);
        if r.bool() {
            for _ in 0..r.idx(12) {
                let y = sym(r, p.strs.len(), bits, wide);
                p.syms.push(y);
            }
            p.blocks.push(K::Symtab);
            let need = p.syms.iter().any(|y| y.sec.is_some_and(|s| s >= 0xff00));
            if need || (!single && p.require) {
                p.blocks.push(K::Shndx);
            }
        }
        if p.find(|k| matches!(k, K::Symtab)).is_some() || !p.strs.is_empty() || (!single && r.one_in(5)) {
            p.blocks.push(K::Strtab);
        }
        if r.bool() {
            for _ in 0..r.idx(14) {
                let y = sym(r, p.dstrs.len(), bits, false);
                p.dyns.push(y);
            }
            p.blocks.push(K::Dynsym);
            if r.bool() {
                let v = (0..p.dyns.len()).map(|_| r.edgy(16) as u16).collect();
                p.blocks.push(K::Versym(v));
            }
        }
        if r.bool() {
            let mut v = vec![];
            let n = r.idx(6) + !single as usize;
            for _ in 0..n {
                let tag = if is64 { r.u64() as i64 } else { r.u32() as i32 as i64 };
                let tag = if r.bool() { r.below(40) as i64 } else { tag };
                v.push((tag, if r.one_in(3) && !p.dstrs.is_empty() { Err(r.idx(p.dstrs.len())) } else { Ok(r.edgy(bits)) }));
            }
            p.blocks.push(K::Dynamic(v));
        }
        let name_of = |p: &Plan, i: usize| -> Vec<u8> { p.dyns[i].name.map_or(vec![], |n| p.dstrs[n].clone()) };
        if r.one_in(3) {
            let n = p.dyns.len() + 1;
            let wild = r.one_in(4);
            let mut v = vec![None];
            for i in 1..n {
                v.push(if r.one_in(5) { None } else { Some(if wild { r.edgy(32) as u32 } else { sysv_hash(&name_of(&p, i - 1)) }) });
            }
            p.blocks.push(K::Hash(1 + r.below(8) as u32, v));
        }
        if r.one_in(3) {
            let nb = 1 + r.below(8) as u32;
            let wild = r.one_in(4);
            let base = r.idx(p.dyns.len() + 1);
            let mut v: Vec<(u32, Y)> = (base..p.dyns.len()).map(|i| (if wild { r.edgy(32) as u32 } else { gnu_hash(&name_of(&p, i)) }, p.dyns[i].clone())).collect();
            v.sort_by_key(|x| x.0 % nb);
            p.dyns.truncate(base);
            let hashes = v.iter().map(|x| x.0).collect();
            // The other hash table is for these symbols in another order.
            p.dyns.extend(v.into_iter().map(|x| x.1));
            p.blocks.push(K::Gnu(base as u32 + 1, r.below(32) as u32, 1 << r.below(4), nb, hashes));
        }
        if !p.dstrs.is_empty() && r.one_in(3) {
            let mut v: Vec<Def> = vec![];
            for _ in 0..1 + r.idx(4) {
                let most = if r.one_in(4) { 5 } else { 2 };
                let names: Vec<usize> = (0..1 + r.idx(most)).map(|_| r.idx(p.dstrs.len())).collect();
                let d = Def { ver: r.edgy(16) as u16, flags: r.edgy(16) as u16, ndx: r.edgy(16) as u16, hash: r.u32(), names, shared: false };
                if r.one_in(4) {
                    v.push(Def { shared: true, ndx: r.edgy(16) as u16, hash: r.u32(), ..d.clone() });
                }
                v.push(d);
            }
            p.blocks.push(K::Verdef(v));
        }
        if !p.dstrs.is_empty() && r.one_in(3) {
            let mut v = vec![];
            for _ in 0..1 + r.idx(4) {
                let aux = (0..r.idx(4)).map(|_| (r.u32(), r.edgy(16) as u16, r.edgy(16) as u16, r.idx(p.dstrs.len()))).collect();
                v.push((r.edgy(16) as u16, r.idx(p.dstrs.len()), aux));
            }
            p.blocks.push(K::Verneed(v));
        }
        let dynstr = p.blocks.iter().any(|k| matches!(k, K::Dynsym) || (!single && matches!(k, K::Dynamic(_))));
        if dynstr || !p.dstrs.is_empty() {
            p.blocks.push(K::Dynstr);
        }
        if r.one_in(4) {
            let n = 1 + r.idx(50);
            p.blocks.push(K::Attr(r.bytes(n)));
        }
        for _ in 0..r.idx(3) {
            let rela = r.bool() || mips;
            let v = (0..r.idx(6))
                .map(|_| {
                    let (sym, ty) = if is64 { (r.edgy(32) as u32, r.edgy(32) as u32) } else { (r.edgy(24) as u32 & 0xff_ffff, r.u8() as u32) };
                    let add = r.edgy(bits) as i64;
                    (r.edgy(bits), sym, ty, if !rela { 0 } else if is64 { add } else { add as i32 as i64 })
                })
                .collect();
            p.blocks.push(K::Rel(rela, v));
        }
        if r.one_in(5) {
            let n = r.idx(5) * if is64 { 8 } else { 4 };
            p.blocks.push(K::Relr(r.bytes(n)));
        }
        for _ in 0..r.idx(3) {
            p.blocks.push(K::Group((0..r.idx(5)).map(|_| r.edgy(32) as u32).collect()));
        }
    }
    // The order in the file.
    r.shuffle(&mut p.blocks);
    let rank = |k: &K| match k {
        K::Symtab | K::Dynsym | K::Dynamic(_) | K::Verdef(_) | K::Verneed(_) => 0,
        K::Shndx => 1,
        K::Strtab | K::Dynstr => 2,
        K::Shstrtab => 3,
        K::Shdrs => 4,
        _ => 0,
    };
    if single {
        let mut v = std::mem::take(&mut p.blocks);
        v.sort_by_key(rank);
        // What needs no names or offsets may be anywhere.
        let (free, mut rest): (Vec<K>, Vec<K>) = v.into_iter().partition(|k| matches!(k, K::Data(..) | K::Rel(..) | K::Relr(_) | K::Group(_)) || (matches!(k, K::Phdrs) && p.ph.len() < 0xffff));
        for k in free {
            let at = r.idx(rest.len() + 1);
            rest.insert(at, k);
        }
        p.blocks = rest;
    } else if let (Some(a), Some(b)) = (p.find(|k| matches!(k, K::Symtab)), p.find(|k| matches!(k, K::Shndx))) {
        if b < a {
            p.blocks.swap(a, b);
        }
    }
    // The order of the headers.
    if !none {
        for (i, k) in p.blocks.iter().enumerate() {
            if matches!(k, K::Phdrs | K::Shdrs) {
                continue;
            }
            // Only in the file.
            if matches!(k, K::Data(..) | K::Rel(..) | K::Relr(_) | K::Group(_)) && r.one_in(5) {
                continue;
            }
            p.heads.push(Hd { block: Some(i), name: 0, raw: [0; 9] });
        }
        let extra = if big && nph < 100 { 0xfef0 + r.idx(0x20) } else if r.one_in(3) { r.idx(4) } else { 0 };
        for _ in 0..extra {
            p.heads.push(Hd { block: None, name: 0, raw: [0; 9] });
        }
        let n = if extra > 100 { 10 } else { p.heads.len() };
        let n = n.max(1);
        p.snames = strings(r, n);
        for h in &mut p.heads {
            h.name = r.idx(p.snames.len());
            h.raw = std::array::from_fn(|i| if matches!(i, 0 | 5 | 6) { r.edgy(32) } else { r.edgy(bits) });
        }
        r.shuffle(&mut p.heads);
        if single {
            let rank = |h: &Hd| match h.block.map(|b| &p.blocks[b]) {
                Some(K::Strtab | K::Dynstr) => 0,
                Some(K::Symtab | K::Dynsym) => 1,
                _ => 2,
            };
            p.heads.sort_by_key(rank);
        }
    }
    p
}

/// What differs between the modes.
trait Ext {
    fn shstrtab(&mut self) -> Result<(), String>;
    fn strtab(&mut self) -> Result<(), String>;
    fn dynstr(&mut self) -> Result<(), String>;
    fn verdef(&mut self, n: u16);
    fn verneed(&mut self, n: u16);
}
impl Ext for Writer<'_, TwoPhase> {
    fn shstrtab(&mut self) -> Result<(), String> {
        self.write_shstrtab();
        Ok(())
    }
    fn strtab(&mut self) -> Result<(), String> {
        self.write_strtab();
        Ok(())
    }
    fn dynstr(&mut self) -> Result<(), String> {
        self.write_dynstr();
        Ok(())
    }
    fn verdef(&mut self, _: u16) {
        self.write_align_gnu_verdef();
    }
    fn verneed(&mut self, _: u16) {
        self.write_align_gnu_verneed();
    }
}
impl Ext for Writer<'_, SinglePhase> {
    fn shstrtab(&mut self) -> Result<(), String> {
        let at = self.offset();
        let (o, n) = self.write_shstrtab().map_err(|e| e.to_string())?;
        same!((o, o + n as u64), (at, self.offset()), "the range of .shstrtab");
        Ok(())
    }
    fn strtab(&mut self) -> Result<(), String> {
        let at = self.offset();
        let (o, n) = self.write_strtab().map_err(|e| e.to_string())?;
        same!((o, o + n as u64), (at, self.offset()), "the range of .strtab");
        Ok(())
    }
    fn dynstr(&mut self) -> Result<(), String> {
        let at = self.offset();
        let (o, n) = self.write_dynstr().map_err(|e| e.to_string())?;
        same!((o, o + n as u64), (at, self.offset()), "the range of .dynstr");
        Ok(())
    }
    fn verdef(&mut self, n: u16) {
        self.write_align_gnu_verdef(n);
    }
    fn verneed(&mut self, n: u16) {
        self.write_align_gnu_verneed(n);
    }
}

struct Ids {
    strs: Vec<StringId>,
    dstrs: Vec<StringId>,
    names: Vec<StringId>,
    /// Where each block is, and after it.
    at: Vec<(u64, u64)>,
    /// Where two-phase writing reserved it.
    reserved: Vec<u64>,
    heads_at: u64,
}

fn out_sym(y: &Y, st_name: u32) -> we::Sym {
    we::Sym { section: y.sec, st_name, st_info: oe::SymbolInfo(y.info), st_other: oe::SymbolOther(y.other), st_shndx: oe::SymbolSection(y.shndx), st_value: y.value, st_size: y.size }
}
fn total(v: &[Def]) -> usize {
    v.iter().filter(|d| !d.shared).map(|d| d.names.len()).sum()
}

fn body<'a, M: Mode>(w: &mut Writer<'a, M>, p: &'a Plan, x: &mut Ids) -> Result<(), String>
where
    Writer<'a, M>: Ext,
{
    for (i, k) in p.blocks.iter().enumerate() {
        let from;
        match k {
            K::Data(d, align, until) => {
                if *until {
                    let to = w.offset() + align;
                    w.pad_until(to);
                    from = to;
                } else {
                    from = w.write_align(*align);
                    same!(from % align, 0, "alignment");
                }
                w.write(d);
            }
            K::Phdrs => {
                from = w.write_align_program_headers();
                for h in &p.ph {
                    w.write_program_header(h);
                }
            }
            K::Symtab => {
                from = w.write_null_symbol();
                for (i, y) in p.syms.iter().enumerate() {
                    let n = w.string_offset(y.name.map(|n| x.strs[n]));
                    same!(w.write_symbol(&out_sym(y, n)).0, i as u32 + 1, "symbol index");
                }
            }
            K::Shndx => from = w.write_symtab_shndx(),
            K::Strtab => {
                from = w.offset();
                w.strtab()?
            }
            K::Shstrtab => {
                from = w.offset();
                w.shstrtab()?
            }
            K::Dynstr => {
                from = w.offset();
                w.dynstr()?
            }
            K::Dynsym => {
                from = w.write_null_dynamic_symbol();
                for (i, y) in p.dyns.iter().enumerate() {
                    let n = w.dynamic_string_offset(y.name.map(|n| x.dstrs[n]));
                    same!(w.write_dynamic_symbol(&out_sym(y, n)).0, i as u32 + 1, "dynamic symbol index");
                }
            }
            K::Dynamic(v) => {
                from = w.write_align_dynamic();
                for (t, d) in v {
                    let t = oe::DynamicTag(*t);
                    match d {
                        Ok(v) => okay!(w.write_dynamic(t, *v), "dynamic"),
                        Err(s) => okay!(w.write_dynamic_string(t, x.dstrs[*s]), "dynamic string"),
                    }
                }
            }
            K::Hash(nb, v) => from = w.write_hash(*nb, v.len() as u32, |i| v[i as usize]),
            K::Gnu(base, shift, bloom, nb, v) => from = w.write_gnu_hash(*base, *shift, *bloom, *nb, v.len() as u32, |i| v[i as usize]),
            K::Versym(v) => {
                from = w.write_null_gnu_versym();
                for n in v {
                    w.write_gnu_versym(oe::VersymIndex(*n));
                }
            }
            K::Verdef(v) => {
                w.verdef(v.len() as u16);
                from = w.offset();
                for d in v {
                    let out = we::Verdef {
                        version: d.ver,
                        flags: oe::VersionFlags(d.flags),
                        index: oe::VersionIndex(d.ndx),
                        aux_count: d.names.len() as u16,
                        name: w.dynamic_string_offset(Some(x.dstrs[d.names[0]])),
                        hash: d.hash,
                    };
                    if d.shared {
                        w.write_gnu_verdef_shared(&out);
                    } else {
                        w.write_gnu_verdef(&out);
                        for n in &d.names[1..] {
                            w.write_gnu_verdaux(x.dstrs[*n]);
                        }
                    }
                }
            }
            K::Verneed(v) => {
                w.verneed(v.len() as u16);
                from = w.offset();
                for (ver, file, aux) in v {
                    let file = w.dynamic_string_offset(Some(x.dstrs[*file]));
                    w.write_gnu_verneed(&we::Verneed { version: *ver, aux_count: aux.len() as u16, file });
                    for (hash, flags, ndx, name) in aux {
                        let name = w.dynamic_string_offset(Some(x.dstrs[*name]));
                        w.write_gnu_vernaux(&we::Vernaux { flags: oe::VersionFlags(*flags), index: oe::VersionIndex(*ndx), name, hash: *hash });
                    }
                }
            }
            K::Attr(d) => from = w.write_gnu_attributes(d),
            K::Rel(rela, v) => {
                from = w.write_align_relocation();
                for (off, sym, ty, add) in v {
                    w.write_relocation(*rela, &we::Rel { r_offset: *off, r_sym: *sym, r_type: oe::RelocationType(*ty), r_addend: *add });
                }
            }
            K::Relr(d) => {
                from = w.write_align_relocation();
                w.write(d);
            }
            K::Group(v) => {
                from = w.write_align(4);
                w.write_comdat_header();
                for n in v {
                    w.write_comdat_entry(SectionIndex(*n));
                }
            }
            K::Shdrs => {
                from = w.write_null_section_header();
                x.heads_at = from;
                for (k, h) in p.heads.iter().enumerate() {
                    let [ty, flags, addr, off, size, link, info, align, ent] = h.raw;
                    let name = x.names[h.name];
                    let raw = |w: &mut Writer<'a, M>, off: u64, size: u64| {
                        let sh_name = w.section_name_offset(Some(name));
                        w.write_section_header(&we::SectionHeader {
                            sh_name,
                            sh_type: oe::SectionType(ty as u32),
                            sh_flags: oe::SectionFlags(flags),
                            sh_addr: addr,
                            sh_offset: off,
                            sh_size: size,
                            sh_link: link as u32,
                            sh_info: info as u32,
                            sh_addralign: align,
                            sh_entsize: ent,
                        })
                        .0
                    };
                    // In one pass, what comes after the headers has no offset yet.
                    let place = |b: usize| if p.single { x.at.get(b).map_or(0x55, |a| a.0) } else { x.reserved[b] };
                    match h.block.map(|b| (b, &p.blocks[b])) {
                        None => {
                            let i = raw(w, off, size);
                            same!(i, k as u32 + 1, "section index");
                        }
                        Some((b, K::Data(d, ..))) => {
                            let i = raw(w, place(b), d.len() as u64);
                            same!(i, k as u32 + 1, "section index");
                        }
                        Some((b, e)) => match e {
                            K::Symtab => w.write_symtab_section_header(p.nlocal),
                            K::Shndx => w.write_symtab_shndx_section_header(),
                            K::Strtab => w.write_strtab_section_header(),
                            K::Shstrtab => w.write_shstrtab_section_header(),
                            K::Dynstr => w.write_dynstr_section_header(addr),
                            K::Dynsym => w.write_dynsym_section_header(addr, p.nlocal),
                            K::Dynamic(_) => w.write_dynamic_section_header(addr),
                            K::Hash(..) => w.write_hash_section_header(addr),
                            K::Gnu(..) => w.write_gnu_hash_section_header(addr),
                            K::Versym(_) => w.write_gnu_versym_section_header(addr),
                            K::Verdef(_) => w.write_gnu_verdef_section_header(addr),
                            K::Verneed(_) => w.write_gnu_verneed_section_header(addr),
                            K::Attr(_) => w.write_gnu_attributes_section_header(),
                            K::Rel(rela, v) => w.write_relocation_section_header(name, SectionIndex(info as u32), SectionIndex(link as u32), place(b), v.len(), *rela),
                            K::Relr(d) => w.write_relative_relocation_section_header(name, place(b), d.len() as u64),
                            K::Group(v) => w.write_comdat_section_header(name, SectionIndex(link as u32), we::SymbolIndex(info as u32), place(b), v.len()),
                            K::Data(..) | K::Phdrs | K::Shdrs => unreachable!(),
                        },
                    }
                }
            }
        }
        x.at.push((from, w.offset()));
        if !p.single {
            same!(from, x.reserved[i], "where block {i} is written: {k:?}");
        }
    }
    Ok(())
}
#[derive(Default)]
struct Rec {
    b: Vec<u8>,
    reserved: Vec<u64>,
}
impl WritableBuffer for Rec {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        self.reserved.push(size);
        Ok(())
    }
    fn write_bytes(&mut self, v: &[u8]) {
        self.b.extend_from_slice(v);
    }
    fn write_zeros(&mut self, n: u64) {
        self.b.resize(self.b.len() + n as usize, 0);
    }
}

fn add<'a, M: Mode>(w: &mut Writer<'a, M>, p: &'a Plan) -> Result<Ids, String> {
    let x = Ids {
        strs: p.strs.iter().map(|s| w.add_string(s)).collect(),
        dstrs: p.dstrs.iter().map(|s| w.add_dynamic_string(s)).collect(),
        names: p.snames.iter().map(|s| w.add_section_name(s)).collect(),
        at: vec![],
        reserved: vec![],
        heads_at: 0,
    };
    for (s, i) in p.dstrs.iter().zip(&x.dstrs) {
        ensure!(w.get_dynamic_string(s) == *i, "get_dynamic_string({s:?})");
    }
    Ok(x)
}

fn two(p: &Plan) -> Result<(Vec<u8>, Ids), String> {
    let mut rec = Rec::default();
    let end = if p.be { Endianness::Big } else { Endianness::Little };
    let mut w = Writer::new(end, p.is64, &mut rec);
    let mut x = add(&mut w, p)?;
    if !p.heads.is_empty() {
        w.reserve_null_section_index();
    }
    for (i, h) in p.heads.iter().enumerate() {
        let n = match h.block.map(|b| &p.blocks[b]) {
            None | Some(K::Data(..) | K::Rel(..) | K::Relr(_) | K::Group(_)) => w.reserve_section_index(),
            Some(K::Symtab) => w.reserve_symtab_section_index(),
            Some(K::Shndx) => w.reserve_symtab_shndx_section_index(),
            Some(K::Strtab) => w.reserve_strtab_section_index(),
            Some(K::Shstrtab) => w.reserve_shstrtab_section_index(),
            Some(K::Dynstr) => w.reserve_dynstr_section_index(),
            Some(K::Dynsym) => w.reserve_dynsym_section_index(),
            Some(K::Dynamic(_)) => w.reserve_dynamic_section_index(),
            Some(K::Hash(..)) => w.reserve_hash_section_index(),
            Some(K::Gnu(..)) => w.reserve_gnu_hash_section_index(),
            Some(K::Versym(_)) => w.reserve_gnu_versym_section_index(),
            Some(K::Verdef(_)) => w.reserve_gnu_verdef_section_index(),
            Some(K::Verneed(_)) => w.reserve_gnu_verneed_section_index(),
            Some(K::Attr(_)) => w.reserve_gnu_attributes_section_index(),
            Some(K::Phdrs | K::Shdrs) => unreachable!(),
        };
        same!(n.0, i as u32 + 1, "reserved section index");
    }
    if p.find(|k| matches!(k, K::Symtab)).is_some() {
        w.reserve_null_symbol_index();
        for (i, y) in p.syms.iter().enumerate() {
            same!(w.reserve_symbol_index(y.sec.map(SectionIndex)).0, i as u32 + 1, "reserved symbol index");
        }
        same!(w.symbol_count() as usize, p.syms.len() + 1, "symbol count");
        let need = p.syms.iter().any(|y| y.sec.is_some_and(|s| s >= 0xff00));
        same!(w.symtab_shndx_needed(), need, "whether extended indices are needed");
        if p.find(|k| matches!(k, K::Shndx)).is_some() && !need {
            w.require_symtab_shndx();
        }
    }
    if p.find(|k| matches!(k, K::Strtab)).is_some() && !w.strtab_needed() {
        w.require_strtab();
    }
    if p.find(|k| matches!(k, K::Dynsym)).is_some() {
        w.reserve_null_dynamic_symbol_index();
        for i in 0..p.dyns.len() {
            same!(w.reserve_dynamic_symbol_index().0, i as u32 + 1, "reserved dynamic symbol index");
        }
        same!(w.dynamic_symbol_count() as usize, p.dyns.len() + 1, "dynamic symbol count");
    }
    if p.find(|k| matches!(k, K::Dynstr)).is_some() && !w.dynstr_needed() {
        w.require_dynstr();
    }
    w.reserve_file_header();
    for (i, k) in p.blocks.iter().enumerate() {
        let before = w.reserved_len();
        let at = match k {
            K::Data(d, align, until) => {
                if *until {
                    w.reserve_until(before + align);
                    w.reserve(d.len() as u64, 1)
                } else {
                    w.reserve(d.len() as u64, *align)
                }
            }
            K::Phdrs => {
                w.reserve_program_headers(p.ph.len() as u32);
                before.next_multiple_of(p.word())
            }
            K::Shdrs => {
                w.reserve_section_headers();
                before.next_multiple_of(p.word())
            }
            K::Symtab => {
                w.reserve_symtab();
                before.next_multiple_of(p.word())
            }
            K::Shndx => {
                w.reserve_symtab_shndx();
                before.next_multiple_of(4)
            }
            K::Strtab => {
                okay!(w.reserve_strtab(), "strtab");
                before
            }
            K::Shstrtab => {
                okay!(w.reserve_shstrtab(), "shstrtab");
                before
            }
            K::Dynstr => {
                let at = okay!(w.reserve_dynstr(), "dynstr");
                same!(w.dynstr_len() as u64, w.reserved_len() - at, "the size of .dynstr");
                at
            }
            K::Dynsym => w.reserve_dynsym(),
            K::Dynamic(v) => w.reserve_dynamic(v.len()),
            K::Hash(nb, v) => w.reserve_hash(*nb, v.len() as u32),
            K::Gnu(_, _, bloom, nb, v) => w.reserve_gnu_hash(*bloom, *nb, v.len() as u32),
            K::Versym(_) => w.reserve_gnu_versym(),
            K::Verdef(v) => w.reserve_gnu_verdef(v.len() as u16, total(v)),
            K::Verneed(v) => w.reserve_gnu_verneed(v.len() as u16, v.iter().map(|x| x.2.len()).sum()),
            K::Attr(d) => w.reserve_gnu_attributes(d.len() as u64),
            K::Rel(rela, v) => w.reserve_relocations(v.len(), *rela),
            K::Relr(d) => w.reserve(d.len() as u64, p.word()),
            K::Group(v) => w.reserve_comdat(v.len()),
        };
        ensure!(at >= before && at <= before + 64, "block {i} {k:?} is at {at:#x} after {before:#x}");
        x.reserved.push(at);
    }
    let len = w.reserved_len();
    if let Err(e) = w.write_file_header(&p.h) {
        return Err(format!("header: {e}"));
    }
    body(&mut w, p, &mut x)?;
    same!((w.offset(), w.len()), (len, len), "the length");
    same!(rec.reserved, vec![len], "reservations");
    same!(rec.b.len() as u64, len, "the bytes");
    Ok((rec.b, x))
}

fn one(p: &Plan) -> Result<(Vec<u8>, Ids), String> {
    let end = if p.be { Endianness::Big } else { Endianness::Little };
    let (mut b, mut top) = (vec![], vec![]);
    let mut w = Writer::new_single_phase(end, p.is64, &mut b);
    let mut x = add(&mut w, p)?;
    okay!(w.write_file_header(&p.h), "header");
    if p.placeholder {
        let h = if p.is64 { 64 } else { 52 };
        same!(w.write_program_headers_placeholder(p.ph.len() as u32), (h, p.ph.len() as u64 * if p.is64 { 56 } else { 32 }), "the placeholder");
    }
    body(&mut w, p, &mut x)?;
    let res = if p.placeholder && p.require {
        w.write_headers_to(&mut top, &p.ph)
    } else {
        w.write_file_header_to(&mut top)
    };
    if let Err(e) = res {
        return Err(format!("header: {e}"));
    }
    if p.placeholder && !p.require {
        for h in &p.ph {
            w.write_program_header_to(&mut top, h);
        }
    }
    let len = w.len();
    same!(len, b.len() as u64, "the length");
    b[..top.len()].copy_from_slice(&top);
    Ok((b, x))
}

fn writer(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let p = plan(r);
    let n = p.heads.len() + !p.heads.is_empty() as usize;
    let (b, x) = match if p.single { one(&p) } else { two(&p) } {
        Ok(v) => v,
        Err(e) => {
            let few = p.ph.len() >= 0xffff && n == 0;
            let many = p.single && n >= 0xff00;
            ensure!(e.starts_with("header: ") && (few || many), "{e}");
            o.hit("refused counts");
            return Ok(());
        }
    };
    ensure!(!(p.ph.len() >= 0xffff && n == 0) && !(p.single && n >= 0xff00), "counts that have no representation were accepted");
    o.input("out", &b);
    check(&p, &b, &x, o).map_err(|e| format!("{e}; {} pass, {} bits", if p.single { "one" } else { "two" }, p.bits()))?;
    o.hit(if p.single { "single phase" } else { "two phases" });
    o.nontrivial(hash(&b));
    Ok(())
}

fn check(p: &Plan, b: &[u8], x: &Ids, o: &mut Obs) -> Res {
    let d = Rd { b, be: p.be, is64: p.is64 };
    let n = p.heads.len() + !p.heads.is_empty() as usize;
    let wd = p.word();
    let (ehsize, phsize, shsize, symsize) = if p.is64 { (64, 56, 64, 24) } else { (52, 32, 40, 16) };
    // The file header.
    same!(&b[..16], &[&[0x7f, b'E', b'L', b'F', 1 + p.is64 as u8, 1 + p.be as u8, 1, p.h.os_abi.0, p.h.abi_version][..], &[0; 7]].concat()[..], "e_ident");
    same!((d.u16(16)?, d.u16(18)?, d.u32(20)?), (p.h.e_type.0, p.h.e_machine.0, 1), "e_type, e_machine, e_version");
    same!(d.word(24)?, p.h.e_entry, "e_entry");
    let phoff = match p.find(|k| matches!(k, K::Phdrs)) {
        Some(i) => x.at[i].0,
        None if p.placeholder => ehsize,
        None => 0,
    };
    let shoff = p.find(|k| matches!(k, K::Shdrs)).map_or(0, |i| x.at[i].0);
    same!((d.word(24 + wd)?, d.word(24 + 2 * wd)?), (phoff, shoff), "e_phoff, e_shoff");
    let t = 24 + 3 * wd;
    same!((d.u32(t)?, d.u16(t + 4)? as u64), (p.h.e_flags.0, ehsize), "e_flags, e_ehsize");
    let shstr = p.section(|k| matches!(k, K::Shstrtab));
    let cap = |v: u64, max: u64, over: u64| if v >= max { over } else { v };
    let nph = p.ph.len() as u64;
    same!((d.u16(t + 6)? as u64, d.u16(t + 8)? as u64), (if nph == 0 { 0 } else { phsize }, cap(nph, 0xffff, 0xffff)), "e_phentsize, e_phnum");
    same!((d.u16(t + 10)? as u64, d.u16(t + 12)? as u64, d.u16(t + 14)? as u64), (if n == 0 { 0 } else { shsize }, cap(n as u64, 0xff00, 0), cap(shstr as u64, 0xff00, 0xffff)), "e_shentsize, e_shnum, e_shstrndx");
    if nph >= 0xffff || n >= 0xff00 {
        o.hit("extended counts");
    }
    // Program headers.
    for (i, h) in p.ph.iter().enumerate() {
        let at = phoff + i as u64 * phsize;
        let (flags, rest) = if p.is64 { (4, [8, 16, 24, 32, 40, 48]) } else { (24, [4, 8, 12, 16, 20, 28]) };
        same!((d.u32(at)?, d.u32(at + flags)?), (h.p_type.0, h.p_flags.0), "program header {i}");
        let v = [h.p_offset, h.p_vaddr, h.p_paddr, h.p_filesz, h.p_memsz, h.p_align];
        for (k, (f, v)) in rest.iter().zip(v).enumerate() {
            same!(d.word(at + f)?, v, "field {k} of program header {i}");
        }
        o.hit("program headers");
    }
    // Section headers.
    let head = |i: u64| -> Result<[u64; 10], String> {
        let at = shoff + i * shsize;
        let w = |k: u64| if p.is64 { d.u64(at + 8 + k * 8) } else { d.u32(at + 8 + k * 4).map(u64::from) };
        let l = at + 8 + 4 * wd;
        Ok([d.u32(at)? as u64, d.u32(at + 4)? as u64, w(0)?, w(1)?, w(2)?, w(3)?, d.u32(l)? as u64, d.u32(l + 4)? as u64, d.word(l + 8)?, d.word(l + 8 + wd)?])
    };
    if n > 0 {
        same!(head(0)?, [0, 0, 0, 0, 0, if n >= 0xff00 { n as u64 } else { 0 }, if shstr >= 0xff00 { shstr as u64 } else { 0 }, if nph >= 0xffff { nph } else { 0 }, 0, 0], "section header 0");
        let strs = head(shstr as u64)?;
        let tab = d.bytes(strs[4], strs[5])?;
        let dynstr = p.section(|k| matches!(k, K::Dynstr)) as u64;
        let dynsym = p.section(|k| matches!(k, K::Dynsym)) as u64;
        let symtab = p.section(|k| matches!(k, K::Symtab)) as u64;
        let strtab = p.section(|k| matches!(k, K::Strtab)) as u64;
        for (i, h) in p.heads.iter().enumerate() {
            let g = head(i as u64 + 1)?;
            let [ty, flags, addr, off, size, link, info, align, ent] = h.raw;
            let name = cstr(tab, g[0])?;
            let own = &p.snames[h.name][..];
            let k = h.block.map(|b| &p.blocks[b]);
            let mut at = h.block.map_or((off, 0), |b| x.at[b]);
            let len = at.1.wrapping_sub(at.0);
            if p.single && h.block > p.find(|k| matches!(k, K::Shdrs)) {
                at.0 = 0x55;
            }
            let (nm, want): (&[u8], [u64; 9]) = match k {
                None => (own, [ty, flags, addr, off, size, link, info, align, ent]),
                Some(K::Data(..)) => (own, [ty, flags, addr, at.0, len, link, info, align, ent]),
                Some(K::Symtab) => (b".symtab", [2, 0, 0, at.0, len, strtab, p.nlocal as u64, wd, symsize]),
                Some(K::Shndx) => (b".symtab_shndx", [18, 0, 0, at.0, len, symtab, 0, 4, 4]),
                Some(K::Strtab) => (b".strtab", [3, 0, 0, at.0, len, 0, 0, 1, 0]),
                Some(K::Shstrtab) => (b".shstrtab", [3, 0, 0, at.0, len, 0, 0, 1, 0]),
                Some(K::Dynstr) => (b".dynstr", [3, 2, addr, at.0, len, 0, 0, 1, 0]),
                Some(K::Dynsym) => (b".dynsym", [11, 2, addr, at.0, len, dynstr, p.nlocal as u64, wd, symsize]),
                Some(K::Dynamic(_)) => (b".dynamic", [6, 3, addr, at.0, len, dynstr, 0, wd, 2 * wd]),
                Some(K::Hash(..)) => (b".hash", [5, 2, addr, at.0, len, dynsym, 0, 4, 4]),
                Some(K::Gnu(..)) => (b".gnu.hash", [0x6fff_fff6, 2, addr, at.0, len, dynsym, 0, wd, if p.is64 { 0 } else { 4 }]),
                Some(K::Versym(_)) => (b".gnu.version", [0x6fff_ffff, 2, addr, at.0, len, dynsym, 0, 2, 2]),
                Some(K::Verdef(v)) => (b".gnu.version_d", [0x6fff_fffd, 2, addr, at.0, len, dynstr, v.len() as u64, 4, 0]),
                Some(K::Verneed(v)) => (b".gnu.version_r", [0x6fff_fffe, 2, addr, at.0, len, dynstr, v.len() as u64, 4, 0]),
                Some(K::Attr(_)) => (b".gnu.attributes", [0x6fff_fff5, 0, 0, at.0, len, g[6], 0, 1, 0]),
                Some(K::Rel(rela, _)) => (own, [if *rela { 4 } else { 9 }, 0x40, 0, at.0, len, link, info, wd, if *rela { 3 * wd } else { 2 * wd }]),
                Some(K::Relr(_)) => (own, [19, g[2], 0, at.0, len, 0, 0, wd, wd]),
                Some(K::Group(_)) => (own, [17, 0, 0, at.0, len, link, info, 4, 4]),
                Some(K::Phdrs | K::Shdrs) => unreachable!(),
            };
            same!(name, nm, "the name of section {}", i + 1);
            same!(&g[1..], &want, "section header {} ({})", i + 1, String::from_utf8_lossy(nm));
            o.hit("section headers");
        }
    }
    // The blocks, and what is between them.
    let mut end = if p.placeholder { ehsize + nph * phsize } else { ehsize };
    let dyntab = p.find(|k| matches!(k, K::Dynstr)).map_or(&[][..], |i| &b[x.at[i].0 as usize..x.at[i].1 as usize]);
    let strtab = p.find(|k| matches!(k, K::Strtab)).map_or(&[][..], |i| &b[x.at[i].0 as usize..x.at[i].1 as usize]);
    for (i, k) in p.blocks.iter().enumerate() {
        let (from, to) = x.at[i];
        ensure!(from >= end && to >= from, "block {i} at {from:#x}..{to:#x} after {end:#x}");
        ensure!(b[end as usize..from as usize].iter().all(|c| *c == 0), "the padding before block {i} isn't zero");
        end = to;
        block(p, &d, k, from, to, dyntab, strtab, o).map_err(|e| format!("block {i} at {from:#x}: {e}: {k:?}"))?;
        o.hit("blocks");
    }
    same!(end, b.len() as u64, "the end");
    Ok(())
}

fn symbols(p: &Plan, d: &Rd, from: u64, to: u64, v: &[Y], tab: &[u8], names: &[Vec<u8>]) -> Res {
    let size = if p.is64 { 24 } else { 16 };
    same!(to - from, (v.len() as u64 + 1) * size, "size");
    ensure!(d.bytes(from, size)?.iter().all(|c| *c == 0), "the null symbol");
    for (i, y) in v.iter().enumerate() {
        let at = from + (i as u64 + 1) * size;
        let f = if p.is64 { [4, 5, 6, 8, 16] } else { [12, 13, 14, 4, 8] };
        let name = d.u32(at)?;
        same!(cstr(tab, name as u64)?, y.name.map_or(vec![], |n| names[n].clone()), "the name of symbol {}", i + 1);
        ensure!(y.name.is_some() || name == 0, "st_name of a symbol with no name");
        let sh = y.sec.map_or(y.shndx, |s| if s >= 0xff00 { 0xffff } else { s as u16 });
        same!((d.u8(at + f[0])?, d.u8(at + f[1])?, d.u16(at + f[2])?, d.word(at + f[3])?, d.word(at + f[4])?), (y.info, y.other, sh, y.value, y.size), "symbol {}", i + 1);
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn block(p: &Plan, d: &Rd, k: &K, from: u64, to: u64, dyntab: &[u8], strtab: &[u8], o: &mut Obs) -> Res {
    let wd = p.word();
    let all = d.bytes(from, to - from)?;
    let dname = |at: u64, want: usize| -> Res {
        same!(cstr(dyntab, at)?, p.dstrs[want], "a name");
        Ok(())
    };
    match k {
        K::Data(v, ..) | K::Relr(v) | K::Attr(v) => same!(all, &v[..], "data"),
        K::Phdrs => {
            same!(to - from, p.ph.len() as u64 * if p.is64 { 56 } else { 32 }, "size");
            same!(from % wd, 0, "alignment");
        }
        K::Shdrs => {
            same!(to - from, (p.heads.len() as u64 + 1) * if p.is64 { 64 } else { 40 }, "size");
            same!(from % wd, 0, "alignment");
        }
        K::Symtab => {
            same!(from % wd, 0, "alignment");
            symbols(p, d, from, to, &p.syms, strtab, &p.strs)?;
            o.add("symbols", p.syms.len() as u64);
        }
        K::Dynsym => {
            same!(from % wd, 0, "alignment");
            symbols(p, d, from, to, &p.dyns, dyntab, &p.dstrs)?;
            o.add("dynamic symbols", p.dyns.len() as u64);
        }
        K::Shndx => {
            same!((from % 4, to - from), (0, (p.syms.len() as u64 + 1) * 4), "alignment and size");
            same!(d.u32(from)?, 0, "the index of the null symbol");
            for (i, y) in p.syms.iter().enumerate() {
                same!(d.u32(from + 4 + i as u64 * 4)?, y.sec.filter(|s| *s >= 0xff00).unwrap_or(0), "the extended index of symbol {}", i + 1);
            }
            o.hit("extended indices");
        }
        K::Strtab | K::Shstrtab | K::Dynstr => {
            ensure!(all.first() == Some(&0) && all.last() == Some(&0), "the first and last bytes of a string table");
            let names: &[Vec<u8>] = match k {
                K::Strtab => &p.strs,
                K::Dynstr => &p.dstrs,
                _ => &p.snames,
            };
            for s in names {
                let s = [&s[..], b"\0"].concat();
                ensure!(all.windows(s.len()).any(|w| w == s), "{s:?} isn't in the string table");
            }
        }
        K::Dynamic(v) => {
            same!((from % wd, to - from), (0, v.len() as u64 * 2 * wd), "alignment and size");
            for (i, (t, w)) in v.iter().enumerate() {
                let at = from + i as u64 * 2 * wd;
                same!(d.word(at)?, if p.is64 { *t as u64 } else { *t as u32 as u64 }, "d_tag {i}");
                match w {
                    Ok(w) => same!(d.word(at + wd)?, *w, "d_val {i}"),
                    Err(s) => dname(d.word(at + wd)?, *s)?,
                }
                o.hit("dynamic entries");
            }
        }
        K::Hash(nb, v) => {
            let n = v.len() as u64;
            same!((from % 4, to - from, d.u32(from)?, d.u32(from + 4)?), (0, 8 + 4 * (*nb as u64 + n), *nb, n as u32), "alignment, size and header");
            let mut found = vec![false; v.len()];
            for b in 0..*nb as u64 {
                let mut i = d.u32(from + 8 + 4 * b)?;
                let mut steps = 0;
                while i != 0 {
                    ensure!((i as u64) < n && steps <= n, "the chain of bucket {b} ends at {i}");
                    ensure!(v[i as usize].is_some_and(|h| h as u64 % *nb as u64 == b) && !found[i as usize], "symbol {i} in bucket {b}");
                    found[i as usize] = true;
                    i = d.u32(from + 8 + 4 * (*nb as u64 + i as u64))?;
                    steps += 1;
                }
            }
            for (i, h) in v.iter().enumerate() {
                same!(found[i], h.is_some(), "whether symbol {i} is in the table");
                o.add("hashed", h.is_some() as u64);
            }
        }
        K::Gnu(base, shift, bloom, nb, v) => {
            same!((from % wd, to - from), (0, 16 + *bloom as u64 * wd + 4 * (*nb as u64 + v.len() as u64)), "alignment and size");
            same!([d.u32(from)?, d.u32(from + 4)?, d.u32(from + 8)?, d.u32(from + 12)?], [*nb, *base, *bloom, *shift], "header");
            let buckets = from + 16 + *bloom as u64 * wd;
            let chains = buckets + 4 * *nb as u64;
            let mut set = vec![0u64; *bloom as usize];
            for (i, h) in v.iter().enumerate() {
                let bits = p.bits();
                let word = (h / bits) & (bloom - 1);
                set[word as usize] |= 1 << (h % bits) | 1 << ((h >> shift) % bits);
                // Look it up.
                let f = d.word(from + 16 + word as u64 * wd)?;
                ensure!(f >> (h % bits) & 1 == 1 && f >> ((h >> shift) % bits) & 1 == 1, "the filter hides symbol {i}");
                let mut k = d.u32(buckets + 4 * (h % nb) as u64)?;
                ensure!(k >= *base, "bucket {} is {k}", h % nb);
                let mut seen = false;
                loop {
                    ensure!((k - base) as usize <= v.len(), "a chain without an end");
                    let g = d.u32(chains + 4 * (k - base) as u64)?;
                    if k - base == i as u32 {
                        same!(g | 1, h | 1, "the hash of symbol {i}");
                        seen = true;
                    }
                    same!(v[(k - base) as usize] % nb, h % nb, "the bucket of symbol {}", k - base);
                    if g & 1 == 1 {
                        break;
                    }
                    k += 1;
                }
                ensure!(seen, "symbol {i} isn't in its chain");
                o.hit("GNU hashed");
            }
            for (i, w) in set.iter().enumerate() {
                same!(d.word(from + 16 + i as u64 * wd)?, *w, "word {i} of the filter");
            }
            for b in 0..*nb {
                let first = v.iter().position(|h| h % nb == b).map_or(0, |i| base + i as u32);
                same!(d.u32(buckets + 4 * b as u64)?, first, "bucket {b}");
            }
        }
        K::Versym(v) => {
            same!((from % 2, to - from, d.u16(from)?), (0, 2 + v.len() as u64 * 2, 0), "alignment, size and the first");
            for (i, n) in v.iter().enumerate() {
                same!(d.u16(from + 2 + 2 * i as u64)?, *n, "version {i}");
                o.hit("symbol versions");
            }
        }
        K::Verdef(v) => {
            same!((from % 4, to - from), (0, v.len() as u64 * 20 + total(v) as u64 * 8), "alignment and size");
            let mut at = from;
            for (i, f) in v.iter().enumerate() {
                same!([d.u16(at)?, d.u16(at + 2)?, d.u16(at + 4)?, d.u16(at + 6)?], [f.ver, f.flags, f.ndx, f.names.len() as u16], "definition {i}");
                same!(d.u32(at + 8)?, f.hash, "the hash of definition {i}");
                let (aux, next) = (d.u32(at + 12)? as u64, d.u32(at + 16)? as u64);
                let mut a = at + aux;
                for (j, n) in f.names.iter().enumerate() {
                    ensure!(a >= at + 20 && a + 8 <= to, "name {j} of definition {i} is at {a:#x}");
                    // A definition that shares names may have others than its own first.
                    dname(d.u32(a)? as u64, *n).map_err(|e| format!("definition {i}, name {j}: {e}"))?;
                    let step = d.u32(a + 4)? as u64;
                    same!(step, if j + 1 < f.names.len() { 8 } else { 0 }, "vda_next of name {j} of {} in definition {i}", f.names.len());
                    a += step;
                }
                if i + 1 == v.len() {
                    same!(next, 0, "vd_next of the last definition");
                } else {
                    same!(next, if f.shared { 20 } else { 20 + 8 * f.names.len() as u64 }, "vd_next of definition {i}");
                }
                at += next;
                o.hit("version definitions");
            }
        }
        K::Verneed(v) => {
            let n: usize = v.iter().map(|x| x.2.len()).sum();
            same!((from % 4, to - from), (0, (v.len() + n) as u64 * 16), "alignment and size");
            let mut at = from;
            for (i, (ver, file, aux)) in v.iter().enumerate() {
                same!([d.u16(at)?, d.u16(at + 2)?], [*ver, aux.len() as u16], "requirement {i}");
                dname(d.u32(at + 4)? as u64, *file)?;
                let mut a = at + d.u32(at + 8)? as u64;
                let next = d.u32(at + 12)? as u64;
                same!(a - at, if aux.is_empty() { 0 } else { 16 }, "vn_aux of requirement {i}");
                for (j, (hash, flags, ndx, name)) in aux.iter().enumerate() {
                    same!((d.u32(a)?, d.u16(a + 4)?, d.u16(a + 6)?), (*hash, *flags, *ndx), "version {j} of requirement {i}");
                    dname(d.u32(a + 8)? as u64, *name)?;
                    let step = d.u32(a + 12)? as u64;
                    same!(step, if j + 1 < aux.len() { 16 } else { 0 }, "vna_next of version {j} of requirement {i}");
                    a += step;
                }
                same!(next, if i + 1 < v.len() { 16 + 16 * aux.len() as u64 } else { 0 }, "vn_next of requirement {i}");
                at += next;
                o.hit("version requirements");
            }
        }
        K::Rel(rela, v) => {
            let size = if *rela { 3 * wd } else { 2 * wd };
            same!((from % wd, to - from), (0, size * v.len() as u64), "alignment and size");
            for (i, x) in v.iter().enumerate() {
                relocation(p, d, from + i as u64 * size, *rela, *x).map_err(|e| format!("relocation {i}: {e}"))?;
                o.hit("relocations");
            }
        }
        K::Group(v) => {
            same!((from % 4, to - from, d.u32(from)?), (0, 4 + 4 * v.len() as u64, 1), "alignment, size and flag");
            for (i, n) in v.iter().enumerate() {
                same!(d.u32(from + 4 + 4 * i as u64)?, *n, "member {i}");
                o.hit("group members");
            }
        }
    }
    Ok(())
}
fn relocation(p: &Plan, d: &Rd, at: u64, rela: bool, (off, sym, ty, add): (u64, u32, u32, i64)) -> Res {
    let wd = p.word();
    same!(d.word(at)?, off, "r_offset");
    if p.mips() && rela {
        // The symbol, and then four bytes: the special symbol and three types.
        same!((d.u32(at + 8)?, d.bytes(at + 12, 4)?), (sym, &ty.to_be_bytes()[..]), "r_sym and r_types");
    } else if p.is64 {
        same!(d.u64(at + 8)?, (sym as u64) << 32 | ty as u64, "r_info");
    } else {
        same!(d.u32(at + 4)?, sym << 8 | ty, "r_info");
    }
    if rela {
        same!(d.word(at + 2 * wd)?, if p.is64 { add as u64 } else { add as u32 as u64 }, "r_addend");
    }
    Ok(())
}

/// Attributes.
fn attributes(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let be = r.bool();
    let end = if be { Endianness::Big } else { Endianness::Little };
    let mut w = if r.bool() {
        we::AttributesWriter::new(end)
    } else {
        let mut b = vec![];
        let w = Writer::new(end, true, &mut b);
        w.attributes_writer()
    };
    // Lengths are patched in here, so remember where.
    let mut want = vec![b'A'];
    let put = |want: &mut Vec<u8>, at: usize, n: usize| {
        let n = (n as u32).to_le_bytes();
        want[at..at + 4].copy_from_slice(&n);
        if be {
            want[at..at + 4].reverse();
        }
    };
    for _ in 0..r.idx(4) {
        let start = want.len();
        let vendor = r.ident(8).into_bytes();
        w.start_subsection(&vendor);
        want.extend([0; 4]);
        want.extend(&vendor);
        want.push(0);
        for _ in 0..r.idx(4) {
            let sub = want.len();
            let tag = r.u8();
            w.start_subsubsection(oe::AttributeTag(tag));
            want.push(tag);
            want.extend([0; 4]);
            if r.bool() {
                if r.bool() {
                    for _ in 0..r.idx(4) {
                        let n = r.edgy(32) as u32;
                        w.write_subsubsection_index(n);
                        uleb(&mut want, n as u64);
                    }
                    w.write_subsubsection_index(0);
                } else {
                    let mut v = vec![];
                    for _ in 0..r.idx(4) {
                        uleb(&mut v, r.edgy(32));
                    }
                    w.write_subsubsection_indices(&v);
                    want.extend(v);
                }
                want.push(0);
            }
            for _ in 0..r.idx(5) {
                match r.below(3) {
                    0 => {
                        let (t, v) = (r.edgy(64), r.edgy(64));
                        w.write_attribute_tag(t);
                        w.write_attribute_integer(v);
                        uleb(&mut want, t);
                        uleb(&mut want, v);
                    }
                    1 => {
                        let (t, v) = (r.edgy(64), r.ident(9).into_bytes());
                        w.write_attribute_tag(t);
                        w.write_attribute_string(&v);
                        uleb(&mut want, t);
                        want.extend(&v);
                        want.push(0);
                    }
                    _ => {
                        let n = r.idx(9);
                        let v = r.bytes(n);
                        w.write_subsubsection_attributes(&v);
                        want.extend(&v);
                    }
                }
                o.hit("attributes");
            }
            w.end_subsubsection();
            let n = want.len() - sub;
            put(&mut want, sub + 1, n);
        }
        w.end_subsection();
        let n = want.len() - start;
        put(&mut want, start, n);
    }
    let got = w.data();
    same!(got, want, "attributes");
    o.nontrivial(hash(&want));
    Ok(())
}

/// The encoder, and what is made from the records of a file.
fn encoder(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (be, is64) = (r.bool(), r.bool());
    let bits = if is64 { 64 } else { 32 };
    let end = if be { Endianness::Big } else { Endianness::Little };
    let machine = if r.bool() { 8 } else { r.edgy(16) as u16 };
    let mut e = we::Encoder::new(end, is64, oe::Machine(machine));
    if r.one_in(3) {
        e = we::Encoder::new(end, is64, oe::EM_NONE);
        e.set_machine(oe::Machine(machine));
    }
    let mips = is64 && !be && machine == 8;
    same!((e.endian(), e.is_64(), e.is_mips64el(), e.address_size()), (end, is64, mips, bits as u64 / 8), "the encoder");
    let wd = bits as u64 / 8;
    same!(
        [e.file_header_size(), e.program_header_size(), e.section_header_size(), e.sym_size(), e.rel_size(false), e.rel_size(true), e.relr_size(), e.dyn_size()],
        if is64 { [64, 56, 64, 24, 16, 24, 8, 16] } else { [52, 32, 40, 16, 8, 12, 4, 8] },
        "sizes"
    );
    let p = Plan { is64, be, single: false, placeholder: false, h: we::FileHeader { os_abi: oe::OsAbi(0), abi_version: 0, e_type: oe::FileType(0), e_machine: oe::Machine(machine), e_entry: 0, e_flags: oe::FileFlags(0) }, ph: vec![], blocks: vec![], heads: vec![], syms: vec![], dyns: vec![], strs: vec![], dstrs: vec![], snames: vec![], nlocal: 0, require: false };
    let mut b: Vec<u8> = vec![];
    match r.below(6) {
        0 => {
            // The counts in the file header and section 0.
            let count = |r: &mut Rng| {
                if r.bool() { *r.pick(&[0xfefe, 0xfeff, 0xff00, 0xff01, 0xfffe, 0xffff, 0x1_0000, 0x1_0001, u32::MAX]) } else { r.edgy(32) as u32 }
            };
            let l = we::FileHeaderLayout { e_phoff: r.edgy(bits), segment_num: count(r), e_shoff: r.edgy(bits), section_num: if r.one_in(5) { 0 } else { count(r) }, shstrtab_index: count(r) };
            let h = we::FileHeader { os_abi: oe::OsAbi(r.u8()), abi_version: r.u8(), e_type: oe::FileType(r.u16()), e_machine: oe::Machine(machine), e_entry: r.edgy(bits), e_flags: oe::FileFlags(r.u32()) };
            let res = e.file_header(&mut b, &h, &l);
            if l.segment_num >= 0xffff && l.section_num == 0 {
                ensure!(res.is_err(), "a segment count with no place was accepted");
                return Ok(());
            }
            okay!(res, "header");
            same!(b.len() as u64, e.file_header_size(), "size");
            let d = Rd { b: &b, be, is64 };
            let t = 24 + 3 * wd;
            same!((d.word(24)?, d.word(24 + wd)?, d.word(24 + 2 * wd)?, d.u32(t)?), (h.e_entry, l.e_phoff, l.e_shoff, h.e_flags.0), "words");
            same!([d.u16(16)?, d.u16(18)?, d.u16(t + 4)?], [h.e_type.0, machine, e.file_header_size() as u16], "halfwords");
            let num = if l.segment_num >= 0xffff { 0xffff } else { l.segment_num as u16 };
            same!((d.u16(t + 6)?, d.u16(t + 8)?), (if l.segment_num == 0 { 0 } else { e.program_header_size() as u16 }, num), "segments");
            let num = if l.section_num >= 0xff00 { 0 } else { l.section_num as u16 };
            let ndx = if l.shstrtab_index >= 0xff00 { 0xffff } else { l.shstrtab_index as u16 };
            same!((d.u16(t + 10)?, d.u16(t + 12)?, d.u16(t + 14)?), (if l.section_num == 0 { 0 } else { e.section_header_size() as u16 }, num, ndx), "sections");
            let mut z: Vec<u8> = vec![];
            e.null_section_header(&mut z, &l);
            same!(z.len() as u64, e.section_header_size(), "size of section 0");
            let d = Rd { b: &z, be, is64 };
            let at = 8 + 3 * wd;
            same!(d.word(at)?, if l.section_num >= 0xff00 { l.section_num as u64 } else { 0 }, "sh_size");
            same!(d.u32(at + wd)?, if l.shstrtab_index >= 0xff00 { l.shstrtab_index } else { 0 }, "sh_link");
            same!(d.u32(at + wd + 4)?, if l.segment_num >= 0xffff { l.segment_num } else { 0 }, "sh_info");
            let used: u64 = z.iter().map(|c| (*c != 0) as u64).sum();
            let within: u64 = z[at as usize..(at + wd + 8) as usize].iter().map(|c| (*c != 0) as u64).sum();
            same!(used, within, "other fields of section 0");
            o.hit("counts");
        }
        1 => {
            let y = sym(r, 0, bits, true);
            let n = r.u32();
            let res = e.symbol(&mut b, &out_sym(&y, n));
            same!(res, y.sec.filter(|s| *s >= 0xff00), "the extended index");
            let d = Rd { b: &b, be, is64 };
            let f = if is64 { [4, 5, 6, 8, 16] } else { [12, 13, 14, 4, 8] };
            let sh = y.sec.map_or(y.shndx, |s| if s >= 0xff00 { 0xffff } else { s as u16 });
            same!((d.u32(0)?, d.u8(f[0])?, d.u8(f[1])?, d.u16(f[2])?, d.word(f[3])?, d.word(f[4])?), (n, y.info, y.other, sh, y.value, y.size), "symbol");
            // And back.
            let back = if is64 {
                let (s, _) = okay!(object::pod::from_bytes::<oe::Sym64<Endianness>>(&b).map_err(|_| "short"), "reading");
                we::Sym::from_raw(end, s, y.sec)
            } else {
                let (s, _) = okay!(object::pod::from_bytes::<oe::Sym32<Endianness>>(&b).map_err(|_| "short"), "reading");
                we::Sym::from_raw(end, s, y.sec)
            };
            let mut c: Vec<u8> = vec![];
            e.symbol(&mut c, &back);
            same!(b, c, "again");
            o.hit("symbol");
        }
        2 => {
            let (sym, ty) = if is64 { (r.edgy(32) as u32, r.edgy(32) as u32) } else { (r.u32() & 0xff_ffff, r.u8() as u32) };
            let rela = mips || r.bool();
            let add = if !rela { 0 } else if is64 { r.edgy(64) as i64 } else { r.edgy(32) as i32 as i64 };
            let x = (r.edgy(bits), sym, ty, add);
            e.relocation(&mut b, rela, &we::Rel { r_offset: x.0, r_sym: sym, r_type: oe::RelocationType(ty), r_addend: add });
            same!(b.len() as u64, e.rel_size(rela), "size");
            relocation(&p, &Rd { b: &b, be, is64 }, 0, rela, x)?;
            macro_rules! back {
                ($rel:ident, $rela:ident) => {
                    if rela {
                        let (s, _) = okay!(object::pod::from_bytes::<oe::$rela<Endianness>>(&b).map_err(|_| "short"), "reading");
                        we::Rel::from_rela(end, s, mips)
                    } else {
                        let (s, _) = okay!(object::pod::from_bytes::<oe::$rel<Endianness>>(&b).map_err(|_| "short"), "reading");
                        we::Rel::from_rel(end, s)
                    }
                };
            }
            let y = if is64 { back!(Rel64, Rela64) } else { back!(Rel32, Rela32) };
            same!((y.r_offset, y.r_sym, y.r_type.0, y.r_addend), x, "back");
            o.hit("relocation");
        }
        3 => {
            let (t, v) = (if r.bool() { r.edgy(64) as i64 } else { r.edgy(31) as i64 }, if r.bool() { r.edgy(64) } else { r.edgy(32) });
            let fits = is64 || (t == t as i32 as i64 && v <= u32::MAX as u64);
            let res = e.dynamic(&mut b, oe::DynamicTag(t), v);
            if !fits {
                ensure!(res.is_err(), "dynamic entry {t:#x} {v:#x} was accepted for 32 bits");
                o.hit("refused entries");
                return Ok(());
            }
            okay!(res, "dynamic entry {t:#x} {v:#x}");
            let d = Rd { b: &b, be, is64 };
            same!((b.len() as u64, d.word(0)?, d.word(wd)?), (2 * wd, if is64 { t as u64 } else { t as u32 as u64 }, v), "entry");
            o.hit("dynamic entry");
        }
        4 => {
            let h = we::SectionHeader {
                sh_name: r.u32(),
                sh_type: oe::SectionType(r.u32()),
                sh_flags: oe::SectionFlags(r.edgy(bits)),
                sh_addr: r.edgy(bits),
                sh_offset: r.edgy(bits),
                sh_size: r.edgy(bits),
                sh_link: r.u32(),
                sh_info: r.u32(),
                sh_addralign: r.edgy(bits),
                sh_entsize: r.edgy(bits),
            };
            e.section_header(&mut b, &h);
            let y = if is64 {
                let (s, _) = okay!(object::pod::from_bytes::<oe::SectionHeader64<Endianness>>(&b).map_err(|_| "short"), "reading");
                we::SectionHeader::from_raw(end, s)
            } else {
                let (s, _) = okay!(object::pod::from_bytes::<oe::SectionHeader32<Endianness>>(&b).map_err(|_| "short"), "reading");
                we::SectionHeader::from_raw(end, s)
            };
            same!(format!("{y:?}"), format!("{h:?}"), "section header");
            o.hit("section header");
        }
        _ => {
            let h = we::ProgramHeader {
                p_type: oe::ProgramType(r.u32()),
                p_flags: oe::ProgramFlags(r.u32()),
                p_offset: r.edgy(bits),
                p_vaddr: r.edgy(bits),
                p_paddr: r.edgy(bits),
                p_filesz: r.edgy(bits),
                p_memsz: r.edgy(bits),
                p_align: r.edgy(bits),
            };
            e.program_header(&mut b, &h);
            let y = if is64 {
                let (s, _) = okay!(object::pod::from_bytes::<oe::ProgramHeader64<Endianness>>(&b).map_err(|_| "short"), "reading");
                we::ProgramHeader::from_raw(end, s)
            } else {
                let (s, _) = okay!(object::pod::from_bytes::<oe::ProgramHeader32<Endianness>>(&b).map_err(|_| "short"), "reading");
                we::ProgramHeader::from_raw(end, s)
            };
            same!(format!("{y:?}"), format!("{h:?}"), "program header");
            o.hit("program header");
        }
    }
    o.nontrivial(hash(&b));
    Ok(())
}

/// Hash tables find every name they hold.
fn hashes(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let n = r.idx(40);
    let s = if r.one_in(4) { r.bytes(n) } else { r.ident(20).into_bytes() };
    same!((oe::hash(&s), oe::gnu_hash(&s)), (sysv_hash(&s), gnu_hash(&s)), "the hashes of {s:?}");
    o.hit("hashes");
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C22",
    rule: "an independent decoder of the ELF structures, applied to the bytes that the writer emitted for a random sequence of calls, gives back the arguments of the calls, at the offsets that were reserved",
    parts: &[
        Part { name: "writer", quick: 400_000, thorough: 20_000_000, run: writer },
        Part { name: "encoder", quick: 100_000, thorough: 10_000_000, run: encoder },
        Part { name: "attributes", quick: 10_000, thorough: 1_000_000, run: attributes },
        Part { name: "hashes", quick: 20_000, thorough: 2_000_000, run: hashes },
    ],
    required: &["two phases", "single phase", "extended counts", "extended indices", "symbols", "dynamic symbols", "hashed", "GNU hashed", "symbol versions", "version definitions", "version requirements", "relocations", "group members", "dynamic entries", "attributes", "refused entries", "counts"],
    tools: &[],
    assumptions: &["sequences of calls that the documentation of the writer allows"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

//! ELF images: an independent reader of their meaning, and a generator.
use genf::elf as ge;
use genf::elfdyn::{self, gnu_hash, sysv_hash};
use genf::strict::{Map, R, Rd, cstr, elf as se};
use genf::w::{Strs, W};
use std::collections::HashMap;
use vcore::Rng;

#[derive(Clone, Debug)]
pub struct DSec {
    pub del: bool,
    pub name: Vec<u8>,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub align: u64,
    pub entsize: u64,
    pub link: Option<usize>,
    pub info: u32,
    pub info_sec: Option<usize>,
    pub body: Body,
}
impl DSec {
    pub fn alloc(&self) -> bool {
        self.flags & 2 != 0
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Data(Vec<u8>),
    Nobits,
    Rel(Vec<DRel>, bool),
    Dynamic(Vec<DDyn>),
    Attr(Vec<(Vec<u8>, Vec<DAttr>)>),
    Meta,
}
#[derive(Clone, Debug, PartialEq)]
pub struct DAttr {
    pub tag: u64,
    pub items: Vec<usize>,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct DRel {
    pub off: u64,
    pub sym: Option<usize>,
    pub ty: u32,
    pub add: Option<i64>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum DDyn {
    Str(u64, Vec<u8>),
    Auto(u64),
    Int(u64, u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ver {
    Local,
    Global,
    At(usize),
}
#[derive(Clone, Debug)]
pub struct DSym {
    pub del: bool,
    pub name: Vec<u8>,
    pub info: u8,
    pub other: u8,
    pub shndx: u16,
    pub sec: Option<usize>,
    pub value: u64,
    pub size: u64,
    pub ver: Ver,
    pub hidden: bool,
}
#[derive(Clone, Debug)]
pub enum DVer {
    Def(u16, Vec<Vec<u8>>),
    Need(usize, u16, Vec<u8>),
}
/// The meaning of an ELF file. Section i is section header i + 1, and likewise for symbols.
#[derive(Clone, Debug)]
pub struct Dump {
    pub be: bool,
    pub is64: bool,
    pub eh: se::Ehdr,
    pub ph: Vec<se::Phdr>,
    pub ph_del: Vec<bool>,
    pub secs: Vec<DSec>,
    pub syms: Vec<DSym>,
    pub dyns: Vec<DSym>,
    pub base: Option<Vec<u8>>,
    pub vers: Vec<DVer>,
    pub files: Vec<Vec<u8>>,
    pub have_versym: bool,
}

pub const STRING_TAGS: [u64; 9] = [1, 14, 15, 29, 0x6fff_fefa, 0x6fff_fefb, 0x6fff_fefc, 0x7fff_fffd, 0x7fff_ffff];
/// SYMTAB STRTAB STRSZ HASH GNU_HASH VERSYM VERDEF VERDEFNUM VERNEED VERNEEDNUM
pub const AUTO_TAGS: [u64; 10] = [6, 5, 10, 4, 0x6fff_fef5, 0x6fff_fff0, 0x6fff_fffc, 0x6fff_fffd, 0x6fff_fffe, 0x6fff_ffff];

fn raw_syms(f: &se::Elf, i: usize) -> R<Vec<DSym>> {
    let s = &f.sh[i];
    let es = if f.rd.is64 { 24 } else { 16 };
    if s.size % es != 0 {
        return Err("symbol table size".into());
    }
    // A table of nameless symbols may do without.
    let tab = if s.link == 0 { &b"\0"[..] } else { f.data(s.link as usize)? };
    let d = f.sub(i)?;
    let xd = match f.sh.iter().position(|x| x.ty == 18 && x.link as usize == i) {
        Some(x) => Some(f.sub(x)?),
        None => None,
    };
    let mut v = vec![];
    for k in 1..s.size / es {
        let p = k * es;
        let (info, other, shndx, value, size) = if f.rd.is64 {
            (d.u8(p + 4)?, d.u8(p + 5)?, d.u16(p + 6)?, d.u64(p + 8)?, d.u64(p + 16)?)
        } else {
            (d.u8(p + 12)?, d.u8(p + 13)?, d.u16(p + 14)?, d.u32(p + 4)? as u64, d.u32(p + 8)? as u64)
        };
        let sec = match shndx {
            0 => None,
            0xffff => Some(xd.ok_or("no extended indices")?.u32(4 * k)? as usize),
            0xff00.. => None,
            n => Some(n as usize),
        };
        if sec.is_some_and(|n| n == 0 || n >= f.sh.len()) {
            return Err(format!("symbol {k}: section {sec:?}"));
        }
        let name = cstr(tab, d.u32(p)? as u64)?;
        v.push(DSym { del: false, name, info, other, shndx, sec: sec.map(|n| n - 1), value, size, ver: Ver::Local, hidden: false });
    }
    Ok(v)
}

fn uleb(d: &Rd, p: &mut u64) -> R<u64> {
    let (mut v, mut s) = (0u64, 0);
    loop {
        let b = d.u8(*p)?;
        *p += 1;
        if s < 64 {
            v |= (b as u64 & 0x7f) << s;
        }
        s += 7;
        if b < 0x80 {
            return Ok(v);
        }
    }
}

fn attrs(d: &Rd) -> R<Vec<(Vec<u8>, Vec<DAttr>)>> {
    let n = d.b.len() as u64;
    let mut v = vec![];
    if n == 0 {
        return Ok(v);
    }
    if d.u8(0)? != b'A' {
        return Err("attributes version".into());
    }
    let mut p = 1;
    while p < n {
        let len = d.u32(p)? as u64;
        let end = p + len;
        if len < 4 || end > n {
            return Err("attributes subsection".into());
        }
        let vendor = cstr(d.b, p + 4)?;
        p += 5 + vendor.len() as u64;
        let mut subs = vec![];
        while p < end {
            let start = p;
            let tag = uleb(d, &mut p)?;
            let len = d.u32(p)? as u64;
            p += 4;
            let e = start + len;
            if e < p || e > end {
                return Err("attributes subsubsection".into());
            }
            let mut items = vec![];
            if tag == 2 || tag == 3 {
                loop {
                    match uleb(d, &mut p)? {
                        0 => break,
                        k => items.push(k as usize - 1),
                    }
                }
            }
            if p > e {
                return Err("attributes indices".into());
            }
            subs.push(DAttr { tag, items, data: d.bytes(p, e - p)?.to_vec() });
            p = e;
        }
        v.push((vendor, subs));
    }
    Ok(v)
}

pub fn dump(b: &[u8]) -> R<Dump> {
    let f = se::parse(b)?;
    let symtab = f.find(2);
    let dynsym = f.find(11);
    let syms = symtab.map(|i| raw_syms(&f, i)).transpose()?.unwrap_or_default();
    let mut dyns = dynsym.map(|i| raw_syms(&f, i)).transpose()?.unwrap_or_default();
    let mut used_str = vec![f.eh.shstrndx as usize];
    for s in &f.sh {
        if matches!(s.ty, 2 | 11 | 6) {
            used_str.push(s.link as usize);
        }
    }
    let mut secs = vec![];
    for (i, s) in f.sh.iter().enumerate().skip(1) {
        let attr = match f.eh.machine {
            40 | 183 | 243 => s.ty == 0x7000_0003,
            252 => s.ty == 0x7000_0001,
            _ => false,
        } || s.ty == 0x6fff_fff5;
        let body = match s.ty {
            8 => Body::Nobits,
            3 if used_str.contains(&i) => Body::Meta,
            2 | 18 | 11 | 5 | 0x6fff_fff6 | 0x6fff_ffff | 0x6fff_fffd | 0x6fff_fffe => Body::Meta,
            4 | 9 => {
                let dynamic = Some(s.link as usize) != symtab || s.link == 0;
                let table = if dynamic { &dyns } else { &syms };
                let mut v = vec![];
                for x in f.rels(i)? {
                    if x.sym as usize > table.len() {
                        return Err(format!("relocation symbol {}", x.sym));
                    }
                    v.push(DRel { off: x.offset, sym: (x.sym as usize).checked_sub(1), ty: x.ty, add: x.addend });
                }
                Body::Rel(v, dynamic)
            }
            6 => {
                let d = f.sub(i)?;
                let tab = f.data(s.link as usize)?;
                let w = if f.rd.is64 { 8 } else { 4 };
                let mut v = vec![];
                for k in 0..s.size / (2 * w) {
                    let (t, x) = (d.word(2 * w * k)?, d.word(2 * w * k + w)?);
                    v.push(match t {
                        0 => break,
                        t if STRING_TAGS.contains(&t) => DDyn::Str(t, cstr(tab, x)?),
                        t if AUTO_TAGS.contains(&t) => {
                            let ty = match t {
                                4 => 5,
                                5 | 10 => 3,
                                6 | 11 => 11,
                                0x6fff_fff0 => 0x6fff_ffff,
                                0x6fff_fffc | 0x6fff_fffd => 0x6fff_fffd,
                                0x6fff_fffe | 0x6fff_ffff => 0x6fff_fffe,
                                _ => 0x6fff_fff6,
                            };
                            f.find(ty).ok_or(format!("dynamic entry {t:#x} without a section"))?;
                            DDyn::Auto(t)
                        }
                        t => DDyn::Int(t, x),
                    });
                }
                Body::Dynamic(v)
            }
            _ if attr => {
                let v = attrs(&f.sub(i)?)?;
                for x in v.iter().flat_map(|x| &x.1) {
                    let n = if x.tag == 2 { f.sh.len() - 1 } else { syms.len() };
                    if x.items.iter().any(|k| *k >= n) {
                        return Err("attribute index".into());
                    }
                }
                Body::Attr(v)
            }
            _ => Body::Data(f.data(i)?.to_vec()),
        };
        let meta = body == Body::Meta;
        // The headers of these are made anew.
        if meta && matches!(s.ty, 2 | 3 | 18) && s.flags & 2 != 0 && !f.sh.iter().any(|d| matches!(d.ty, 6 | 11) && d.link as usize == i) {
            return Err(format!("section {i}: a loaded symbol or string table"));
        }
        let link = (s.link as usize).checked_sub(1).filter(|_| !meta);
        if link.is_some_and(|k| k + 1 >= f.sh.len()) {
            return Err("sh_link".into());
        }
        // Relocations are for a section whether they say so or not.
        let is_link = s.flags & 0x40 != 0 || matches!(s.ty, 4 | 9) && s.flags & 2 == 0;
        let info_sec = if is_link && s.info != 0 && !meta { Some(s.info as usize - 1) } else { None };
        if info_sec.is_some_and(|k| k + 1 >= f.sh.len()) {
            return Err("sh_info".into());
        }
        secs.push(DSec {
            del: false,
            name: s.name.clone(),
            ty: s.ty,
            flags: s.flags,
            addr: s.addr,
            off: s.offset,
            size: s.size,
            align: s.align,
            entsize: s.entsize,
            link,
            info: s.info,
            info_sec,
            body,
        });
    }
    // Versions.
    let (mut base, mut vers, mut files, mut ids) = (None, vec![], vec![], HashMap::new());
    if let Some(i) = f.find(0x6fff_fffd) {
        let d = f.sub(i)?;
        let tab = f.data(f.sh[i].link as usize)?;
        let mut p = 0;
        for _ in 0..f.sh[i].info {
            let (flags, ndx, cnt) = (d.u16(p + 2)?, d.u16(p + 4)?, d.u16(p + 6)?);
            let mut a = p + d.u32(p + 12)? as u64;
            let mut names = vec![];
            for _ in 0..cnt {
                names.push(cstr(tab, d.u32(a)? as u64)?);
                a += d.u32(a + 4)? as u64;
            }
            if names.is_empty() {
                return Err("version without a name".into());
            }
            if d.u32(p + 8)? != sysv_hash(&names[0]) {
                return Err(format!("hash of version {:?}", names[0]));
            }
            if flags & 1 != 0 {
                base = Some(names.swap_remove(0));
            } else {
                ids.insert(ndx, vers.len());
                vers.push(DVer::Def(flags, names));
            }
            let next = d.u32(p + 16)? as u64;
            if next == 0 {
                break;
            }
            p += next;
        }
    }
    if let Some(i) = f.find(0x6fff_fffe) {
        let d = f.sub(i)?;
        let tab = f.data(f.sh[i].link as usize)?;
        let mut p = 0;
        for _ in 0..f.sh[i].info {
            let (cnt, file) = (d.u16(p + 2)?, cstr(tab, d.u32(p + 4)? as u64)?);
            let mut a = p + d.u32(p + 8)? as u64;
            for _ in 0..cnt {
                let (h, flags, other, name) = (d.u32(a)?, d.u16(a + 4)?, d.u16(a + 6)?, cstr(tab, d.u32(a + 8)? as u64)?);
                if h != sysv_hash(&name) {
                    return Err(format!("hash of version {name:?}"));
                }
                ids.insert(other, vers.len());
                vers.push(DVer::Need(files.len(), flags, name));
                a += d.u32(a + 12)? as u64;
            }
            files.push(file);
            let next = d.u32(p + 12)? as u64;
            if next == 0 {
                break;
            }
            p += next;
        }
    }
    let versym = f.find(0x6fff_ffff).filter(|_| dynsym.is_some());
    if let Some(i) = versym {
        let d = f.sub(i)?;
        if d.b.len() != 2 * (dyns.len() + 1) {
            return Err(format!("{} bytes of symbol versions for {} symbols", d.b.len(), dyns.len()));
        }
        for (k, y) in dyns.iter_mut().enumerate() {
            let v = d.u16(2 * (k as u64 + 1))?;
            y.hidden = v & 0x8000 != 0;
            y.ver = match v & 0x7fff {
                0 => Ver::Local,
                1 => Ver::Global,
                n => Ver::At(*ids.get(&n).ok_or_else(|| format!("symbol version {n}"))?),
            };
        }
    }
    Ok(Dump {
        be: f.rd.be,
        is64: f.rd.is64,
        ph_del: vec![false; f.ph.len()],
        ph: f.ph.clone(),
        eh: f.eh.clone(),
        secs,
        syms,
        dyns,
        base,
        vers,
        files,
        have_versym: versym.is_some(),
    })
}

fn txt(b: &[u8]) -> String {
    if b.len() > 300 {
        return format!("{} bytes {:016x}", b.len(), vcore::hash(b));
    }
    b.escape_ascii().to_string()
}

impl Dump {
    /// Sections are known by name, and by number where that isn't unique.
    pub fn keys(&self) -> Vec<String> {
        let mut n: HashMap<&[u8], usize> = HashMap::new();
        self.secs
            .iter()
            .map(|s| {
                if s.del {
                    return "deleted".into();
                }
                let k = n.entry(&s.name).or_default();
                *k += 1;
                if *k == 1 { txt(&s.name) } else { format!("{}#{k}", txt(&s.name)) }
            })
            .collect()
    }
    fn sym(&self, y: &DSym, keys: &[String], dynamic: bool) -> String {
        let at = match y.sec {
            Some(i) => keys[i].clone(),
            None => format!("{:#x}", y.shndx),
        };
        let mut s = format!("{} info {:#x} other {:#x} at {at} value {:#x} size {:#x}", txt(&y.name), y.info, y.other, y.value, y.size);
        if dynamic && self.have_versym {
            s += &match y.ver {
                Ver::Local => " local".into(),
                Ver::Global => " global".into(),
                Ver::At(i) => match &self.vers[i] {
                    DVer::Def(_, n) => format!(" version {}", txt(&n[0])),
                    DVer::Need(f, _, n) => format!(" version {} of {}", txt(n), txt(&self.files[*f])),
                },
            };
            if y.hidden {
                s += " hidden";
            }
        }
        s
    }
    pub fn used(&self, i: usize) -> bool {
        matches!(&self.vers[i], DVer::Need(_, _, n) if n == b"GLIBC_ABI_DT_RELR") || self.dyns.iter().any(|y| !y.del && y.ver == Ver::At(i))
    }
    /// Everything that writing the file has to keep, in canonical order.
    pub fn render(&self) -> Vec<String> {
        let keys = self.keys();
        let h = &self.eh;
        let mut v = vec![format!(
            "header be {} is64 {} osabi {} {} type {} machine {} flags {:#x} entry {:#x}",
            self.be, self.is64, h.osabi, h.abiversion, h.e_type, h.machine, h.flags, h.entry
        )];
        for (p, _) in self.ph.iter().zip(&self.ph_del).filter(|x| !x.1) {
            v.push(format!("segment {p:?}"));
        }
        let image = !self.ph.is_empty();
        for (s, key) in self.secs.iter().zip(&keys).filter(|x| !x.0.del) {
            let mut t = format!("section {key} type {:#x}", s.ty);
            if s.body == Body::Meta {
                t += &format!(" alloc {}", s.alloc());
            } else {
                let name = |k: Option<usize>| k.map_or("-".into(), |k| keys[k].clone());
                t += &format!(" flags {:#x} align {} entsize {} link {}", s.flags, s.align, s.entsize, name(s.link));
                t += &if s.info_sec.is_some() { format!(" info {}", name(s.info_sec)) } else { format!(" info {:#x}", s.info) };
            }
            if s.alloc() {
                t += &format!(" address {:#x}", s.addr);
                if image {
                    t += &format!(" offset {:#x}", s.off);
                }
            }
            match &s.body {
                Body::Nobits => t += &format!(" size {:#x}", s.size),
                Body::Data(d) => t += &format!(" data {}", txt(d)),
                _ => {}
            }
            v.push(t);
            match &s.body {
                Body::Rel(r, dynamic) => {
                    for x in r {
                        let tab = if *dynamic { &self.dyns } else { &self.syms };
                        if x.sym.is_some_and(|k| tab[k].del) {
                            continue;
                        }
                        v.push(format!("  relocation {:#x} type {:#x} addend {:x?} to {}", x.off, x.ty, x.add, x.sym.map_or("-".into(), |k| self.sym(&tab[k], &keys, *dynamic))));
                    }
                }
                Body::Dynamic(d) => {
                    for x in d {
                        v.push(match x {
                            DDyn::Str(t, s) => format!("  dynamic {t:#x} {}", txt(s)),
                            DDyn::Auto(t) => format!("  dynamic {t:#x} automatic"),
                            DDyn::Int(t, n) => format!("  dynamic {t:#x} {n:#x}"),
                        });
                    }
                }
                Body::Attr(a) => {
                    for (vendor, subs) in a {
                        v.push(format!("  vendor {}", txt(vendor)));
                        for x in subs {
                            let items: Vec<String> = x
                                .items
                                .iter()
                                .filter(|k| if x.tag == 2 { !self.secs[**k].del } else { !self.syms[**k].del })
                                .map(|k| if x.tag == 2 { keys[*k].clone() } else { self.sym(&self.syms[*k], &keys, false) })
                                .collect();
                            v.push(format!("    attributes {} {items:?} {}", x.tag, txt(&x.data)));
                        }
                    }
                }
                _ => {}
            }
        }
        // Local symbols precede the others.
        let live = |v: &[DSym], local: bool| -> Vec<DSym> { v.iter().filter(|y| !y.del && (y.info >> 4 == 0) == local).cloned().collect() };
        for local in [true, false] {
            for y in live(&self.syms, local) {
                v.push(format!("symbol {}", self.sym(&y, &keys, false)));
            }
        }
        // The order of dynamic symbols may depend on a hash table.
        for local in [true, false] {
            let mut d: Vec<String> = live(&self.dyns, local).iter().map(|y| format!("dynamic symbol {}", self.sym(y, &keys, true))).collect();
            if !local {
                d.sort();
            }
            v.extend(d);
        }
        if let Some(b) = &self.base {
            v.push(format!("base version {}", txt(b)));
        }
        for i in 0..self.vers.len() {
            if self.used(i) {
                v.push(match &self.vers[i] {
                    DVer::Def(f, n) => format!("version definition {f:#x} {:?}", n.iter().map(|n| txt(n)).collect::<Vec<_>>()),
                    DVer::Need(k, f, n) => format!("version dependency {f:#x} {} of {}", txt(n), txt(&self.files[*k])),
                });
            }
        }
        v
    }
}

/// The first difference of two renderings.
pub fn diff(want: &[String], got: &[String]) -> R<()> {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            let s = |v: &[String]| v.get(i).map_or("nothing".into(), |s| s.trim().to_string());
            return Err(format!("got `{}`, want `{}`", s(got), s(want)));
        }
    }
    Ok(())
}

/// What must hold in every file that was written. Returns the number of facts.
pub fn consistent(b: &[u8]) -> R<u64> {
    let f = se::parse(b)?;
    let mut n = f.check(b, false)?;
    let mut m = Map::default();
    let (ehs, phs, shs) = if f.rd.is64 { (64, 56, 64) } else { (52, 32, 40) };
    m.add(0, ehs, "file header");
    m.add(f.eh.phoff, phs * f.ph.len() as u64, "program headers");
    m.add(f.eh.shoff, shs * f.sh.len() as u64, "section headers");
    for s in f.sh.iter().skip(1).filter(|s| s.ty != 8) {
        m.add(s.offset, s.size, String::from_utf8_lossy(&s.name));
    }
    m.check(b)?;
    if let Some(i) = f.find(se::SHT_STRTAB) {
        let _ = i;
        if f.sh.len() > 1 && f.sh.get(f.eh.shstrndx as usize).map(|s| s.ty) != Some(3) {
            return Err("e_shstrndx".into());
        }
    }
    let one = |ty: u32| -> R<Option<usize>> {
        let v: Vec<usize> = (0..f.sh.len()).filter(|i| f.sh[*i].ty == ty).collect();
        if v.len() > 1 { Err(format!("{} sections of type {ty:#x}", v.len())) } else { Ok(v.first().copied()) }
    };
    let dynsym = one(11)?;
    let names: Vec<Vec<u8>> = match dynsym {
        Some(i) => f.syms(i)?.into_iter().map(|y| y.name).collect(),
        None => vec![],
    };
    let kinds: Vec<(u8, u16)> = match dynsym {
        Some(i) => f.syms(i)?.into_iter().map(|y| (y.bind(), y.shndx)).collect(),
        None => vec![],
    };
    let link = |i: usize, to: Option<usize>| -> R<()> {
        if Some(f.sh[i].link as usize) != to {
            return Err(format!("{:?} links to section {}", String::from_utf8_lossy(&f.sh[i].name), f.sh[i].link));
        }
        Ok(())
    };
    if let Some(i) = one(5)? {
        link(i, dynsym)?;
        let d = f.sub(i)?;
        let (nb, nc) = (d.u32(0)?, d.u32(4)?);
        if nb == 0 || nc as usize != names.len() || d.b.len() as u64 != 8 + 4 * (nb as u64 + nc as u64) {
            return Err(format!("hash table of {nb} buckets and {nc} chains for {} symbols, {} bytes", names.len(), d.b.len()));
        }
        for (k, name) in names.iter().enumerate().skip(1).filter(|x| !x.1.is_empty()) {
            let mut at = d.u32(8 + 4 * (sysv_hash(name) % nb) as u64)?;
            let mut steps = 0;
            while at != k as u32 {
                if at == 0 || steps > nc {
                    return Err(format!("symbol {k} {:?} isn't in the hash table", String::from_utf8_lossy(name)));
                }
                at = d.u32(8 + 4 * (nb as u64 + at as u64))?;
                steps += 1;
            }
            n += 1;
        }
    }
    if let Some(i) = one(0x6fff_fff6)? {
        link(i, dynsym)?;
        let d = f.sub(i)?;
        let (nb, base, bloom, shift) = (d.u32(0)?, d.u32(4)?, d.u32(8)?, d.u32(12)?);
        if nb == 0 || bloom == 0 || shift > 31 {
            return Err(format!("GNU hash table with {nb} buckets, {bloom} words, shift {shift}"));
        }
        let w = if f.rd.is64 { 8u64 } else { 4 };
        let chains = 16 + w * bloom as u64 + 4 * nb as u64;
        let mut found = vec![];
        for (k, name) in names.iter().enumerate().skip(1) {
            if name.is_empty() || kinds[k].0 == 0 || kinds[k].1 == 0 {
                continue;
            }
            let at = |e: &str| format!("symbol {k} {:?}: {e}", String::from_utf8_lossy(name));
            let h = gnu_hash(name);
            let bits = 8 * w as u32;
            let word = d.word(16 + w * ((h / bits) & (bloom - 1)) as u64)?;
            if word >> (h % bits) & 1 == 0 || word >> ((h >> shift) % bits) & 1 == 0 {
                return Err(at("not in the Bloom filter"));
            }
            let mut p = d.u32(16 + w * bloom as u64 + 4 * (h % nb) as u64)?;
            loop {
                if p < base || p as usize >= names.len() {
                    return Err(at(&format!("not in the GNU hash table: index {p}, base {base}")));
                }
                let x = d.u32(chains + 4 * (p - base) as u64)?;
                if p as usize == k {
                    if x & !1 != h & !1 {
                        return Err(at("wrong hash"));
                    }
                    break;
                }
                if x & 1 != 0 {
                    return Err(at("not in its chain of the GNU hash table"));
                }
                p += 1;
            }
            found.push(k);
            n += 1;
        }
        let want = if found.is_empty() { 0 } else { names.len() as u64 - base as u64 };
        if d.b.len() as u64 != chains + 4 * want {
            return Err(format!("GNU hash table of {} bytes for {want} symbols", d.b.len()));
        }
    }
    let versym = one(0x6fff_ffff)?;
    if let Some(i) = versym.filter(|_| dynsym.is_some()) {
        link(i, dynsym)?;
        if f.data(i)?.len() != 2 * names.len() {
            return Err(format!("{} bytes of symbol versions for {} symbols", f.data(i)?.len(), names.len()));
        }
    }
    let strtab = dynsym.or(one(6)?).or(one(0x6fff_fffd)?).or(one(0x6fff_fffe)?).map(|i| f.sh[i].link as usize);
    for ty in [0x6fff_fffd, 0x6fff_fffe] {
        if let Some(i) = one(ty)? {
            link(i, strtab)?;
            // Every record is used, and the last one ends its list.
            let d = f.sub(i)?;
            let (mut p, mut k) = (0, 0);
            while p < d.b.len() as u64 {
                let (cnt, aux, next, size, auxsize) = if ty == 0x6fff_fffd {
                    (d.u16(p + 6)?, d.u32(p + 12)? as u64, d.u32(p + 16)? as u64, 20, 8)
                } else {
                    (d.u16(p + 2)?, d.u32(p + 8)? as u64, d.u32(p + 12)? as u64, 16, 16)
                };
                let mut a = p + aux;
                for j in 0..cnt {
                    let nx = d.u32(a + auxsize - 4)? as u64;
                    if (nx == 0) != (j + 1 == cnt) {
                        return Err(format!("version record {k}: next of auxiliary record {j} is {nx}"));
                    }
                    a += nx;
                }
                k += 1;
                if (next == 0) != (k == f.sh[i].info) {
                    return Err(format!("version record {k} of {}: next is {next}", f.sh[i].info));
                }
                n += 1;
                if next == 0 {
                    break;
                }
                if next < size {
                    return Err("overlapping version records".into());
                }
                p += next;
            }
        }
    }
    if let Some(i) = one(6)? {
        let d = f.sub(i)?;
        let w = if f.rd.is64 { 8 } else { 4 };
        let addr = |i: Option<usize>| i.map(|i| f.sh[i].addr);
        let mut p = 0;
        loop {
            let (t, x) = (d.word(p)?, d.word(p + w)?);
            p += 2 * w;
            let want = match t {
                0 => break,
                6 => addr(dynsym),
                5 => addr(strtab),
                10 => strtab.map(|i| f.sh[i].size),
                4 => addr(one(5)?),
                0x6fff_fef5 => addr(one(0x6fff_fff6)?),
                0x6fff_fff0 => addr(versym),
                0x6fff_fffc => addr(one(0x6fff_fffd)?),
                0x6fff_fffe => addr(one(0x6fff_fffe)?),
                0x6fff_fffd => one(0x6fff_fffd)?.map(|i| f.sh[i].info as u64),
                0x6fff_ffff => one(0x6fff_fffe)?.map(|i| f.sh[i].info as u64),
                _ => continue,
            };
            if want != Some(x) {
                return Err(format!("dynamic entry {t:#x} is {x:#x}, want {want:x?}"));
            }
            n += 1;
        }
        if p != d.b.len() as u64 {
            return Err(format!("dynamic section of {} bytes ends at {p}", d.b.len()));
        }
    }
    Ok(n)
}

// The generator.

pub const MACHINES: [(u16, bool, bool, bool); 12] = [
    // machine, 64-bit, may be little endian, may be big endian
    (62, true, true, false),
    (3, false, true, false),
    (183, true, true, true),
    (40, false, true, true),
    (243, true, true, false),
    (243, false, true, false),
    (8, true, true, true),
    (8, false, true, true),
    (21, true, true, true),
    (20, false, false, true),
    (43, true, false, true),
    (252, false, true, false),
];

#[derive(Default, Clone)]
struct Sec {
    name: &'static str,
    ty: u32,
    flags: u64,
    align: u64,
    entsize: u64,
    link: &'static str,
    info: u32,
    info_sec: Option<&'static str>,
    data: Vec<u8>,
    nobits: u64,
    off: u64,
    addr: u64,
}

fn attr_bytes(r: &mut Rng, w: &W, vendor: &str, nsec: usize, nsym: usize) -> Vec<u8> {
    let mut o = W::new(w.be, w.is64);
    o.u8(b'A');
    for k in 0..1 + r.idx(2) {
        let at = o.len();
        o.u32(0).put(if k == 0 { vendor.as_bytes() } else { b"gnu" }).u8(0);
        for _ in 0..1 + r.idx(3) {
            let tag = if r.one_in(2) { 1 } else { 2 + r.below(2) };
            let sub = o.len();
            o.u8(tag as u8).u32(0);
            let n = if tag == 2 { nsec } else { nsym };
            if tag != 1 {
                let mut t = vec![];
                if n > 0 {
                    for _ in 0..r.idx(4) {
                        genf::w::uleb(&mut t, 1 + r.below(n as u64));
                    }
                }
                t.push(0);
                o.put(&t);
            }
            let len = r.idx(12);
            let d = r.bytes(len);
            o.put(&d);
            let size = o.len() - sub;
            o.set(sub + 1, size as u64, 4);
        }
        let size = o.len() - at;
        o.set(at, size as u64, 4);
    }
    o.b
}

/// A well formed file of the kinds that the builder handles.
pub fn image(r: &mut Rng, dynamic: bool) -> Vec<u8> {
    let (machine, is64, le, be) = *r.pick(&MACHINES);
    let be = be && (!le || r.bool());
    let w0 = W::new(be, is64);
    let w = || W::new(be, is64);
    let word = if is64 { 8u64 } else { 4 };
    let mips = machine == 8 && is64 && !be;
    let symsize = if is64 { 24 } else { 16 };
    let mut secs: Vec<Sec> = vec![Sec::default()];
    let data = |r: &mut Rng| {
        let n = if r.one_in(8) { 0 } else { r.idx(60) };
        r.bytes(n)
    };
    let m = elfdyn::dyn_model(r, is64);
    let mut m_strs = m.strs.clone();
    let all_versions = r.one_in(3);
    let with_versions = all_versions || r.bool();
    let rela = matches!(machine, 62 | 183 | 243 | 21 | 20 | 43 | 252) || machine == 8 && is64;
    // Static symbols refer to sections by name until the order is known.
    let mut names: Vec<&'static str> = vec![];
    let mut text_names: Vec<&'static str> = vec![];
    if dynamic {
        if r.bool() {
            secs.push(Sec { name: ".interp", ty: 1, flags: 2, align: 1, data: b"/lib/ld.so.1\0".to_vec(), ..Sec::default() });
        }
        if r.bool() {
            let mut o = w();
            elfdyn::note(&mut o, b"GNU\0", 3, &r.bytes(20), 4);
            secs.push(Sec { name: ".note.gnu.build-id", ty: 7, flags: 2, align: 4, data: o.b, ..Sec::default() });
        }
        if r.one_in(3) {
            let mut o = w();
            let nb = 1 + r.idx(9);
            elfdyn::hash_table(&mut o, r, &m.names, nb);
            secs.push(Sec { name: ".hash", ty: 5, flags: 2, align: word, entsize: 4, link: ".dynsym", data: o.b, ..Sec::default() });
        }
        if r.one_in(2) {
            let mut o = w();
            elfdyn::gnu_hash_table(&mut o, &m.names, m.base, m.nbuckets, 1 << r.below(4), r.below(15) as u32 + 1);
            // Room for symbols that this table left out.
            o.zeros(4 * m.base);
            secs.push(Sec { name: ".gnu.hash", ty: 0x6fff_fff6, flags: 2, align: word, link: ".dynsym", data: o.b, ..Sec::default() });
        }
        let first_global = 1 + m.syms.iter().skip(1).take_while(|y| y.bind == 0).count();
        secs.push(Sec { name: ".dynsym", ty: 11, flags: 2, align: word, entsize: symsize, link: ".dynstr", info: first_global as u32, ..Sec::default() });
        secs.push(Sec { name: ".dynstr", ty: 3, flags: 2, align: !r.one_in(6) as u64, ..Sec::default() });
        if with_versions {
            let mut o = w();
            for v in &m.versym {
                o.u16(*v);
            }
            secs.push(Sec { name: ".gnu.version", ty: 0x6fff_ffff, flags: 2, align: 2, entsize: 2, link: ".dynsym", data: o.b, ..Sec::default() });
            if !m.defs.is_empty() {
                let mut o = w();
                elfdyn::verdefs(&mut o, r, &m.defs);
                secs.push(Sec { name: ".gnu.version_d", ty: 0x6fff_fffd, flags: 2, align: word, link: ".dynstr", info: m.defs.len() as u32, data: o.b, ..Sec::default() });
            }
            let needs: Vec<_> = m.needs.iter().filter(|n| !n.aux.is_empty()).cloned().collect();
            if !needs.is_empty() {
                let mut o = w();
                elfdyn::verneeds(&mut o, r, &needs);
                secs.push(Sec { name: ".gnu.version_r", ty: 0x6fff_fffe, flags: 2, align: word, link: ".dynstr", info: needs.len() as u32, data: o.b, ..Sec::default() });
            }
        }
        for (name, plt) in [(if rela { ".rela.dyn" } else { ".rel.dyn" }, false), (if rela { ".rela.plt" } else { ".rel.plt" }, true)] {
            if r.bool() {
                let mut o = w();
                for _ in 0..r.idx(8) {
                    let x = ge::Reloc {
                        off: r.edgy(if is64 { 64 } else { 32 }),
                        sym: r.idx(m.syms.len()) as u32,
                        ty: if is64 && machine == 8 { r.below(0x40) as u32 } else { r.below(200) as u32 },
                        addend: r.edgy(if is64 { 64 } else { 32 }) as i64,
                    };
                    ge::rel_bytes(&mut o, &x, rela, mips);
                }
                let es = word * if rela { 3 } else { 2 };
                let (flags, info_sec) = if plt { (0x42, Some(".text")) } else { (2, None) };
                secs.push(Sec { name, ty: if rela { 4 } else { 9 }, flags, align: word, entsize: es, link: ".dynsym", info_sec, data: o.b, ..Sec::default() });
            }
        }
        if r.one_in(4) {
            let n = word as usize * r.idx(4);
            secs.push(Sec { name: ".relr.dyn", ty: 19, flags: 2, align: word, entsize: word, data: r.bytes(n), ..Sec::default() });
        }
        secs.push(Sec { name: ".text", ty: 1, flags: 6, align: 1 << r.below(5), data: data(r), ..Sec::default() });
        if r.bool() {
            secs.push(Sec { name: ".rodata", ty: 1, flags: 0x32, align: 1 << r.below(5), entsize: 1, data: data(r), ..Sec::default() });
        }
        // The writable part.
        if r.one_in(3) {
            secs.push(Sec { name: ".tdata", ty: 1, flags: 0x403, align: word, data: data(r), ..Sec::default() });
            secs.push(Sec { name: ".tbss", ty: 8, flags: 0x403, align: word, nobits: r.below(40), ..Sec::default() });
        }
        if r.bool() {
            let n = word as usize * r.idx(3);
            secs.push(Sec { name: ".init_array", ty: 14, flags: 3, align: word, entsize: word, data: r.bytes(n), ..Sec::default() });
        }
        secs.push(Sec { name: ".dynamic", ty: 6, flags: 3, align: word, entsize: 2 * word, link: ".dynstr", ..Sec::default() });
        secs.push(Sec { name: ".data", ty: 1, flags: 3, align: 1 << r.below(6), data: data(r), ..Sec::default() });
        if r.bool() {
            secs.push(Sec { name: ".bss", ty: 8, flags: 3, align: 1 << r.below(6), nobits: r.edgy(20), ..Sec::default() });
        }
    } else {
        secs.push(Sec { name: ".text", ty: 1, flags: 6, align: 1 << r.below(5), data: data(r), ..Sec::default() });
        secs.push(Sec { name: ".data", ty: 1, flags: 3, align: *r.pick(&[0, 1, 2, 8, 64]), data: data(r), ..Sec::default() });
        if r.bool() {
            secs.push(Sec { name: ".bss", ty: 8, flags: 3, align: 8, nobits: r.edgy(if is64 { 40 } else { 20 }), ..Sec::default() });
        }
        if r.bool() {
            secs.push(Sec { name: ".data", ty: 1, flags: 3, align: 1, data: data(r), ..Sec::default() });
        }
        if r.bool() {
            let mut o = w();
            elfdyn::note(&mut o, b"GNU\0", 5, &r.bytes(8), 4);
            secs.push(Sec { name: ".note.gnu.property", ty: 7, flags: 2, align: 4, data: o.b, ..Sec::default() });
        }
        if r.bool() {
            secs.push(Sec { name: ".text.f", ty: 1, flags: 0x86, align: 4, link: ".text", data: data(r), ..Sec::default() });
        }
    }
    if r.bool() {
        secs.push(Sec { name: ".comment", ty: 1, flags: 0x30, align: 1, entsize: 1, data: data(r), ..Sec::default() });
    }
    if r.bool() {
        secs.push(Sec { name: ".debug_info", ty: 1, flags: 0, align: 1, data: data(r), ..Sec::default() });
    }
    if r.one_in(4) {
        secs.push(Sec { name: ".annobin.notes", ty: 3, flags: 0x30, align: 1, data: b"\0annobin\0".to_vec(), ..Sec::default() });
    }
    if r.one_in(4) {
        secs.push(Sec { name: ".note.stapsdt", ty: 7, flags: 0, align: 4, data: r.bytes(8), ..Sec::default() });
    }
    let attr = match machine {
        40 => Some((".ARM.attributes", 0x7000_0003, "aeabi")),
        183 => Some((".ARM.build.attributes", 0x7000_0003, "aeabi")),
        243 => Some((".riscv.attributes", 0x7000_0003, "riscv")),
        252 => Some((".csky.attributes", 0x7000_0001, "csky")),
        _ => Some((".gnu.attributes", 0x6fff_fff5, "gnu")),
    };
    let attr = attr.filter(|_| r.bool());
    if let Some((name, ty, _)) = attr {
        secs.push(Sec { name, ty, align: 1, ..Sec::default() });
    }
    let with_syms = !dynamic || r.bool();
    let nsym = if with_syms { r.idx(20) } else { 0 };
    let mut strtab = Strs::new();
    if with_syms {
        secs.push(Sec { name: ".symtab", ty: 2, align: word, entsize: symsize, link: ".strtab", ..Sec::default() });
        if r.one_in(6) {
            secs.push(Sec { name: ".symtab_shndx", ty: 18, align: 4, entsize: 4, link: ".symtab", ..Sec::default() });
        }
        secs.push(Sec { name: ".strtab", ty: 3, align: 1, ..Sec::default() });
    }
    if !dynamic {
        for (name, to) in [(if rela { ".rela.text" } else { ".rel.text" }, ".text"), (if rela { ".rela.data" } else { ".rel.data" }, ".data"), (".rela.debug_info", ".debug_info")] {
            if let Some(end) = secs.iter().filter(|s| s.name == to).map(|s| s.data.len() as u64).min().filter(|_| r.bool()) {
                let mut o = w();
                for _ in 0..r.idx(8) {
                    let x = ge::Reloc {
                        off: r.below(end + 1),
                        sym: r.below(nsym as u64 + 1) as u32,
                        ty: if is64 && machine == 8 { r.u32() } else if is64 { r.edgy(32) as u32 } else { r.below(256) as u32 },
                        addend: r.edgy(if is64 { 64 } else { 32 }) as i64,
                    };
                    ge::rel_bytes(&mut o, &x, rela, mips);
                }
                secs.push(Sec {
                    name,
                    ty: if rela { 4 } else { 9 },
                    flags: if r.one_in(3) { 0 } else { 0x40 },
                    align: word,
                    entsize: word * if rela { 3 } else { 2 },
                    link: ".symtab",
                    info_sec: Some(to),
                    data: o.b,
                    ..Sec::default()
                });
            }
        }
    }
    secs.push(Sec { name: ".shstrtab", ty: 3, align: 1, ..Sec::default() });
    // The order of the headers isn't that of the file.
    let mut order: Vec<usize> = (1..secs.len()).collect();
    if r.one_in(3) {
        r.shuffle(&mut order);
    }
    order.insert(0, 0);
    let index = |name: &str, secs: &[Sec]| order.iter().position(|i| secs[*i].name == name && *i > 0).unwrap_or(0) as u32;
    for s in &secs[1..] {
        names.push(s.name);
        if s.flags & 2 != 0 {
            text_names.push(s.name);
        }
    }
    // Contents that need indices.
    let nsec = secs.len() - 1;
    for i in 1..secs.len() {
        let s = secs[i].clone();
        secs[i].data = match s.name {
            ".dynsym" => {
                let mut o = w();
                for y in &m.syms {
                    let mut y = y.clone();
                    if y.shndx == 1 {
                        y.shndx = index(r.pick(&text_names), &secs) as u16;
                    }
                    ge::sym_bytes(&mut o, &y);
                }
                o.b
            }
            ".symtab" => {
                let mut o = w();
                ge::sym_bytes(&mut o, &ge::Sym::default());
                let locals = r.idx(nsym + 1);
                for k in 0..nsym {
                    let name = if r.one_in(5) { vec![] } else { genf::w::name(r) };
                    // Not every producer sorts symbols.
                    let bind = if k < locals { 0 } else { *r.pick(&[1u8, 1, 2, 10]) };
                    let off = if name.is_empty() { 0 } else { strtab.add(r, &name) };
                    let shndx = match r.below(5) {
                        0 => 0,
                        1 => *r.pick(&[0xfff1u16, 0xfff2, 0xff03]),
                        _ => index(r.pick(&names), &secs) as u16,
                    };
                    let bits = if is64 { 64 } else { 32 };
                    let (value, size) = (r.edgy(bits), r.edgy(bits));
                    let y = ge::Sym { name_off: off as u32, name, value, size, bind, ty: r.below(7) as u8, other: r.u8(), shndx, xindex: 0 };
                    ge::sym_bytes(&mut o, &y);
                }
                secs[i].info = 1 + locals as u32;
                o.b
            }
            ".symtab_shndx" => vec![0; 4 * (nsym + 1)],
            n if attr.is_some_and(|a| a.0 == n) => attr_bytes(r, &w0, attr.unwrap().2, nsec, nsym),
            _ => continue,
        };
    }
    let mut shstr = Strs::new();
    let name_off: Vec<usize> = secs.iter().map(|s| if s.name.is_empty() { 0 } else { shstr.add(r, s.name.as_bytes()) }).collect();
    // Dynamic entries; the values are filled in later.
    let mut dyn_entries: Vec<(u64, u64)> = vec![];
    if dynamic {
        for t in [1u64, 1, 14, 15, 29, 0x7fff_ffff] {
            if r.one_in(2) {
                let s = r.ident(12);
                let o = m_strs.add(r, s.as_bytes());
                dyn_entries.push((t, o as u64));
            }
        }
        for t in [0x6fff_fef5, 4, 5, 6, 10, 0x6fff_fff0, 0x6fff_fffc, 0x6fff_fffd, 0x6fff_fffe, 0x6fff_ffff] {
            let need = match t {
                0x6fff_fef5 => ".gnu.hash",
                4 => ".hash",
                5 | 10 => ".dynstr",
                6 => ".dynsym",
                0x6fff_fff0 => ".gnu.version",
                0x6fff_fffc | 0x6fff_fffd => ".gnu.version_d",
                _ => ".gnu.version_r",
            };
            if index(need, &secs) != 0 {
                dyn_entries.push((t, 0));
            }
        }
        for t in [7u64, 8, 9, 11, 30, 21, 0x6fff_fffb, 0x7000_0001] {
            if r.one_in(3) {
                dyn_entries.push((t, r.edgy(if is64 { 64 } else { 32 })));
            }
        }
        if r.bool() {
            r.shuffle(&mut dyn_entries);
        }
        let extra = r.idx(3);
        for s in &mut secs {
            match s.name {
                ".dynamic" => s.data = vec![0; (dyn_entries.len() + 1 + extra) * 2 * word as usize],
                ".dynstr" => s.data = m_strs.b.clone(),
                _ => {}
            }
        }
    }
    for s in &mut secs {
        match s.name {
            ".strtab" => s.data = strtab.b.clone(),
            ".shstrtab" => s.data = shstr.b.clone(),
            _ => {}
        }
    }
    // Layout.
    let (ehs, phs, shs) = if is64 { (64u64, 56u64, 64u64) } else { (52, 32, 40) };
    let mut ph: Vec<se::Phdr> = vec![];
    let ph_extra: Vec<u32> = if dynamic { [6u32, 3, 2, 4, 7, 0x6474_e551, 0x6474_e552, 0x7000_0003].into_iter().filter(|_| r.one_in(2)).collect() } else { vec![] };
    let nph = if dynamic { ph_extra.len() as u64 + 2 } else { 0 };
    let mut off = ehs + nph * phs;
    let base = if r.bool() { 0u64 } else { 0x10000 };
    let page = *r.pick(&[0x1000u64, 0x4000]);
    let (mut shift, mut rw) = (base, None);
    for s in secs.iter_mut().skip(1) {
        let a = s.align.max(1);
        if s.flags & 2 != 0 && dynamic {
            if s.flags & 1 != 0 && rw.is_none() {
                rw = Some(off);
                shift += page;
            }
            off = off.div_ceil(a) * a;
            if r.one_in(6) {
                off += a * r.below(4);
            }
            s.off = off;
            s.addr = off + shift;
            if s.ty == 8 {
                if s.flags & 0x400 == 0 {
                    // Uninitialized data ends the segment; its file offset is only nominal.
                }
            } else {
                off += s.data.len() as u64;
            }
        } else {
            off = off.div_ceil(a) * a;
            s.off = off;
            if s.ty != 8 {
                off += s.data.len() as u64;
            }
        }
    }
    let file_end = off;
    let shoff = off.div_ceil(word) * word;
    if dynamic {
        let alloc_end = secs.iter().filter(|s| s.flags & 2 != 0 && s.ty != 8).map(|s| s.off + s.data.len() as u64).max().unwrap_or(0);
        let rw = rw.unwrap_or(alloc_end);
        let bss = secs.iter().filter(|s| s.name == ".bss").map(|s| s.nobits + 64).max().unwrap_or(0);
        for t in &ph_extra {
            let want = match t {
                6 => None,
                3 => Some(".interp"),
                2 => Some(".dynamic"),
                4 => Some(".note.gnu.build-id"),
                7 => Some(".tdata"),
                0x6474_e552 => Some(".dynamic"),
                _ => Some(""),
            };
            let p = match want {
                None => se::Phdr { ty: 6, flags: 4, offset: ehs, vaddr: base + ehs, paddr: base + ehs, filesz: nph * phs, memsz: nph * phs, align: word },
                Some("") => se::Phdr { ty: *t, flags: r.u32(), align: r.edgy(8), memsz: r.edgy(16), ..Default::default() },
                Some(n) => match secs.iter().find(|s| s.name == n) {
                    Some(s) => {
                        let n = s.data.len() as u64;
                        se::Phdr { ty: *t, flags: 4, offset: s.off, vaddr: s.addr, paddr: s.addr, filesz: n, memsz: if *t == 7 { n + r.below(3) } else { n }, align: s.align }
                    }
                    None => se::Phdr { ty: 0, ..Default::default() },
                },
            };
            ph.push(p);
        }
        ph.push(se::Phdr { ty: 1, flags: 5, offset: 0, vaddr: base, paddr: base, filesz: rw, memsz: rw, align: page });
        ph.push(se::Phdr { ty: 1, flags: 6, offset: rw, vaddr: base + page + rw, paddr: base + page + rw, filesz: alloc_end.saturating_sub(rw), memsz: alloc_end.saturating_sub(rw) + bss, align: if r.one_in(8) { 0x1000 } else { page } });
        // PT_PHDR precedes the loads by convention, and so does PT_INTERP, but others may follow.
    }
    // Write.
    let mut o = w();
    let idx = index(".shstrtab", &secs);
    o.put(b"\x7fELF").u8(1 + is64 as u8).u8(1 + be as u8).u8(1).u8(*r.pick(&[0, 3, 9])).u8(r.below(3) as u8).zeros(7);
    let ty = if dynamic { *r.pick(&[2u16, 3]) } else { 1 };
    let entry = if dynamic { base + 0x200 } else { 0 };
    let flags = if machine == 8 { 0x7000_0000 | if is64 { 0 } else { 0x1000 } } else { r.u32() & 0xff };
    o.u16(ty).u16(machine).u32(1).word(entry).word(if dynamic { ehs } else { 0 }).word(shoff).u32(flags);
    o.u16(ehs as u16).u16(if dynamic { phs as u16 } else { 0 }).u16(nph as u16).u16(shs as u16).u16(secs.len() as u16).u16(idx as u16);
    for p in &ph {
        o.u32(p.ty);
        if is64 {
            o.u32(p.flags);
        }
        o.word(p.offset).word(p.vaddr).word(p.paddr).word(p.filesz).word(p.memsz);
        if !is64 {
            o.u32(p.flags);
        }
        o.word(p.align);
    }
    let find = |n: &str| secs.iter().find(|s| s.name == n);
    let mut dynb = w();
    for (t, v) in &dyn_entries {
        let a = |n: &str| find(n).map_or(0, |s| s.addr);
        let v = match t {
            6 => a(".dynsym"),
            5 => a(".dynstr"),
            10 => m_strs.b.len() as u64,
            4 => a(".hash"),
            0x6fff_fef5 => a(".gnu.hash"),
            0x6fff_fff0 => a(".gnu.version"),
            0x6fff_fffc => a(".gnu.version_d"),
            0x6fff_fffd => find(".gnu.version_d").map_or(0, |s| s.info as u64),
            0x6fff_fffe => a(".gnu.version_r"),
            0x6fff_ffff => find(".gnu.version_r").map_or(0, |s| s.info as u64),
            _ => *v,
        };
        dynb.word(*t).word(v);
    }
    let mut file = o.b;
    file.resize(file_end as usize, 0);
    let dyn_bytes = dynb.b;
    for s in secs.iter().skip(1).filter(|s| s.ty != 8) {
        let d = if s.name == ".dynamic" {
            let mut d = dyn_bytes.clone();
            d.resize(s.data.len(), 0);
            d
        } else {
            s.data.clone()
        };
        file[s.off as usize..s.off as usize + d.len()].copy_from_slice(&d);
    }
    file.resize(shoff as usize, 0);
    let mut o = w();
    for (k, i) in order.iter().enumerate() {
        let s = &secs[*i];
        if k == 0 {
            o.zeros(shs as usize);
            continue;
        }
        let link = if s.link.is_empty() { 0 } else { index(s.link, &secs) };
        let info = match s.info_sec {
            Some(n) => index(n, &secs),
            None => s.info,
        };
        let size = if s.ty == 8 { s.nobits } else { s.data.len() as u64 };
        o.u32(name_off[*i] as u32).u32(s.ty).word(s.flags).word(s.addr).word(s.off).word(size).u32(link).u32(info).word(s.align).word(s.entsize);
    }
    file.extend(o.b);
    file
}

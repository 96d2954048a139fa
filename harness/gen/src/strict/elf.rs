//! Strict ELF parser (gABI).
use super::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ehdr {
    pub osabi: u8,
    pub abiversion: u8,
    pub e_type: u16,
    pub machine: u16,
    pub version: u32,
    pub entry: u64,
    pub phoff: u64,
    pub shoff: u64,
    pub flags: u32,
    pub phentsize: u16,
    pub phnum_raw: u16,
    pub shentsize: u16,
    pub shnum_raw: u16,
    pub shstrndx_raw: u16,
    pub phnum: u32,
    pub shnum: u32,
    pub shstrndx: u32,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Shdr {
    pub name_off: u32,
    pub name: Vec<u8>,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub offset: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Phdr {
    pub ty: u32,
    pub flags: u32,
    pub offset: u64,
    pub vaddr: u64,
    pub paddr: u64,
    pub filesz: u64,
    pub memsz: u64,
    pub align: u64,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sym {
    pub name_off: u32,
    pub name: Vec<u8>,
    pub info: u8,
    pub other: u8,
    pub shndx: u16,
    /// The section index, following SHN_XINDEX.
    pub sec: Option<u32>,
    pub value: u64,
    pub size: u64,
}
impl Sym {
    pub fn bind(&self) -> u8 {
        self.info >> 4
    }
    pub fn ty(&self) -> u8 {
        self.info & 15
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rel {
    pub offset: u64,
    pub sym: u32,
    pub ty: u32,
    pub addend: Option<i64>,
}

#[derive(Clone, Debug)]
pub struct Elf<'a> {
    pub rd: Rd<'a>,
    pub eh: Ehdr,
    pub sh: Vec<Shdr>,
    pub ph: Vec<Phdr>,
}

pub const SHT_SYMTAB: u32 = 2;
pub const SHT_STRTAB: u32 = 3;
pub const SHT_RELA: u32 = 4;
pub const SHT_HASH: u32 = 5;
pub const SHT_DYNAMIC: u32 = 6;
pub const SHT_NOTE: u32 = 7;
pub const SHT_NOBITS: u32 = 8;
pub const SHT_REL: u32 = 9;
pub const SHT_DYNSYM: u32 = 11;
pub const SHT_GROUP: u32 = 17;
pub const SHT_SYMTAB_SHNDX: u32 = 18;
pub const SHT_RELR: u32 = 19;

pub fn parse(b: &[u8]) -> R<Elf<'_>> {
    if b.len() < 20 || &b[..4] != b"\x7fELF" {
        return Err("no ELF magic".into());
    }
    let is64 = match b[4] {
        1 => false,
        2 => true,
        c => return Err(format!("EI_CLASS {c}")),
    };
    let be = match b[5] {
        1 => false,
        2 => true,
        c => return Err(format!("EI_DATA {c}")),
    };
    if b[6] != 1 {
        return Err("EI_VERSION".into());
    }
    if b[9..16].iter().any(|&c| c != 0) {
        return Err("e_ident padding".into());
    }
    let rd = Rd { b, be, is64 };
    let mut eh = Ehdr { osabi: b[7], abiversion: b[8], e_type: rd.u16(16)?, machine: rd.u16(18)?, version: rd.u32(20)?, ..Default::default() };
    if eh.version != 1 {
        return Err("e_version".into());
    }
    let w = if is64 { 8 } else { 4 };
    eh.entry = rd.word(24)?;
    eh.phoff = rd.word(24 + w)?;
    eh.shoff = rd.word(24 + 2 * w)?;
    let p = 24 + 3 * w;
    eh.flags = rd.u32(p)?;
    let ehsize = rd.u16(p + 4)?;
    eh.phentsize = rd.u16(p + 6)?;
    eh.phnum_raw = rd.u16(p + 8)?;
    eh.shentsize = rd.u16(p + 10)?;
    eh.shnum_raw = rd.u16(p + 12)?;
    eh.shstrndx_raw = rd.u16(p + 14)?;
    let (ehs, phs, shs) = if is64 { (64, 56, 64) } else { (52, 32, 40) };
    if ehsize != ehs {
        return Err(format!("e_ehsize {ehsize}"));
    }
    // Section headers, with extended numbering.
    let mut sh = Vec::new();
    if eh.shoff != 0 {
        if eh.shentsize != shs {
            return Err(format!("e_shentsize {}", eh.shentsize));
        }
        if eh.shoff % w != 0 {
            return Err(format!("e_shoff {:#x} is not aligned", eh.shoff));
        }
        let s0 = shdr(&rd, eh.shoff)?;
        eh.shnum = if eh.shnum_raw == 0 {
            if s0.size < 0xff00 {
                return Err(format!("e_shnum is 0 and section 0 holds {}", s0.size));
            }
            s0.size as u32
        } else {
            if eh.shnum_raw >= 0xff00 {
                return Err(format!("e_shnum {:#x} is reserved", eh.shnum_raw));
            }
            if s0.size != 0 {
                return Err("sh_size of section 0".into());
            }
            eh.shnum_raw as u32
        };
        eh.shstrndx = if eh.shstrndx_raw == 0xffff {
            if s0.link < 0xff00 {
                return Err(format!("e_shstrndx is XINDEX and section 0 holds {}", s0.link));
            }
            s0.link
        } else {
            if eh.shstrndx_raw >= 0xff00 {
                return Err("e_shstrndx is reserved".into());
            }
            if s0.link != 0 {
                return Err("sh_link of section 0".into());
            }
            eh.shstrndx_raw as u32
        };
        let z = Shdr { size: s0.size, link: s0.link, info: s0.info, ..Default::default() };
        if s0 != z {
            return Err(format!("section 0 is not null: {s0:?}"));
        }
        for i in 0..eh.shnum as u64 {
            sh.push(shdr(&rd, eh.shoff + i * shs as u64)?);
        }
    } else if eh.shnum_raw != 0 || eh.shstrndx_raw != 0 {
        return Err("section count without a table".into());
    }
    if eh.phnum_raw == 0xffff {
        let n = sh.first().map(|s| s.info).unwrap_or(0);
        if n < 0xffff {
            return Err(format!("e_phnum is PN_XNUM and section 0 holds {n}"));
        }
        eh.phnum = n;
    } else {
        eh.phnum = eh.phnum_raw as u32;
        if sh.first().is_some_and(|s| s.info != 0) {
            return Err("sh_info of section 0".into());
        }
    }
    let mut ph = Vec::new();
    if eh.phnum != 0 {
        if eh.phentsize != phs {
            return Err(format!("e_phentsize {}", eh.phentsize));
        }
        if eh.phoff % w != 0 || eh.phoff < ehs as u64 {
            return Err(format!("e_phoff {:#x}", eh.phoff));
        }
        for i in 0..eh.phnum as u64 {
            ph.push(phdr(&rd, eh.phoff + i * phs as u64)?);
        }
    } else if eh.phoff != 0 {
        return Err("e_phoff without program headers".into());
    }
    let mut e = Elf { rd, eh, sh, ph };
    if e.eh.shstrndx != 0 {
        let s = e.sh.get(e.eh.shstrndx as usize).ok_or("e_shstrndx out of range")?;
        if s.ty != SHT_STRTAB {
            return Err("e_shstrndx is not a string table".into());
        }
        let tab = e.rd.bytes(s.offset, s.size)?;
        for s in e.sh.iter_mut() {
            s.name = cstr(tab, s.name_off as u64)?;
        }
    }
    Ok(e)
}

fn shdr(rd: &Rd, p: u64) -> R<Shdr> {
    let w = if rd.is64 { 8 } else { 4 };
    Ok(Shdr {
        name_off: rd.u32(p)?,
        name: vec![],
        ty: rd.u32(p + 4)?,
        flags: rd.word(p + 8)?,
        addr: rd.word(p + 8 + w)?,
        offset: rd.word(p + 8 + 2 * w)?,
        size: rd.word(p + 8 + 3 * w)?,
        link: rd.u32(p + 8 + 4 * w)?,
        info: rd.u32(p + 12 + 4 * w)?,
        align: rd.word(p + 16 + 4 * w)?,
        entsize: rd.word(p + 16 + 5 * w)?,
    })
}

fn phdr(rd: &Rd, p: u64) -> R<Phdr> {
    Ok(if rd.is64 {
        Phdr {
            ty: rd.u32(p)?,
            flags: rd.u32(p + 4)?,
            offset: rd.u64(p + 8)?,
            vaddr: rd.u64(p + 16)?,
            paddr: rd.u64(p + 24)?,
            filesz: rd.u64(p + 32)?,
            memsz: rd.u64(p + 40)?,
            align: rd.u64(p + 48)?,
        }
    } else {
        let f = |i: u64| rd.u32(p + 4 * i).map(|v| v as u64);
        Phdr { ty: f(0)? as u32, offset: f(1)?, vaddr: f(2)?, paddr: f(3)?, filesz: f(4)?, memsz: f(5)?, flags: f(6)? as u32, align: f(7)? }
    })
}

impl<'a> Elf<'a> {
    pub fn data(&self, i: usize) -> R<&'a [u8]> {
        let s = self.sh.get(i).ok_or_else(|| format!("section {i} out of range"))?;
        if s.ty == SHT_NOBITS {
            return Ok(&[]);
        }
        self.rd.bytes(s.offset, s.size)
    }
    pub fn find(&self, ty: u32) -> Option<usize> {
        self.sh.iter().position(|s| s.ty == ty)
    }
    pub fn named(&self, name: &[u8]) -> Option<usize> {
        self.sh.iter().position(|s| s.name == name)
    }
    pub fn sub(&self, i: usize) -> R<Rd<'a>> {
        Ok(Rd { b: self.data(i)?, ..self.rd })
    }

    pub fn syms(&self, i: usize) -> R<Vec<Sym>> {
        let s = &self.sh[i];
        let es = if self.rd.is64 { 24 } else { 16 };
        if s.entsize != es || s.size % es != 0 {
            return Err(format!("symbol table entsize {} size {:#x}", s.entsize, s.size));
        }
        let st = self.sh.get(s.link as usize).ok_or("symtab sh_link")?;
        if st.ty != SHT_STRTAB {
            return Err("symtab sh_link is not a string table".into());
        }
        let tab = self.data(s.link as usize)?;
        let d = self.sub(i)?;
        let shndx = self.sh.iter().position(|x| x.ty == SHT_SYMTAB_SHNDX && x.link as usize == i);
        let xd = match shndx {
            Some(x) => {
                let xs = &self.sh[x];
                if xs.entsize != 4 || xs.size != s.size / es * 4 {
                    return Err(format!("SHT_SYMTAB_SHNDX size {:#x} entsize {}", xs.size, xs.entsize));
                }
                Some(self.sub(x)?)
            }
            None => None,
        };
        let mut v = Vec::new();
        for k in 0..s.size / es {
            let p = k * es;
            let mut y = Sym { name_off: d.u32(p)?, ..Default::default() };
            if self.rd.is64 {
                y.info = d.u8(p + 4)?;
                y.other = d.u8(p + 5)?;
                y.shndx = d.u16(p + 6)?;
                y.value = d.u64(p + 8)?;
                y.size = d.u64(p + 16)?;
            } else {
                y.value = d.u32(p + 4)? as u64;
                y.size = d.u32(p + 8)? as u64;
                y.info = d.u8(p + 12)?;
                y.other = d.u8(p + 13)?;
                y.shndx = d.u16(p + 14)?;
            }
            y.name = cstr(tab, y.name_off as u64).map_err(|e| format!("symbol {k}: {e}"))?;
            let x = match &xd {
                Some(x) => x.u32(k * 4)?,
                None => 0,
            };
            if y.shndx == 0xffff {
                if xd.is_none() {
                    return Err("SHN_XINDEX without a SHT_SYMTAB_SHNDX section".into());
                }
                if x < 0xff00 {
                    return Err(format!("symbol {k} has an extended index {x:#x} below SHN_LORESERVE"));
                }
                y.sec = Some(x);
            } else {
                if x != 0 {
                    return Err(format!("symbol {k} has an unused extended index {x}"));
                }
                if y.shndx != 0 && y.shndx < 0xff00 {
                    y.sec = Some(y.shndx as u32);
                }
            }
            if let Some(q) = y.sec {
                if q >= self.eh.shnum {
                    return Err(format!("symbol {k} has section index {q} of {}", self.eh.shnum));
                }
            }
            v.push(y);
        }
        if v.first() != Some(&Sym::default()) {
            return Err("symbol 0 is not null".into());
        }
        let first_global = v.iter().position(|y| y.bind() != 0).unwrap_or(v.len());
        if v[first_global..].iter().any(|y| y.bind() == 0) {
            return Err("a local symbol follows a global symbol".into());
        }
        if s.info as usize != first_global {
            return Err(format!("symtab sh_info {} but {first_global} local symbols", s.info));
        }
        Ok(v)
    }

    pub fn rels(&self, i: usize) -> R<Vec<Rel>> {
        let s = &self.sh[i];
        let rela = s.ty == SHT_RELA;
        let w = if self.rd.is64 { 8 } else { 4 };
        let es = if rela { 3 * w } else { 2 * w };
        if s.entsize != es || s.size % es != 0 {
            return Err(format!("relocation section entsize {} size {:#x}", s.entsize, s.size));
        }
        let d = self.sub(i)?;
        let mut v = Vec::new();
        for k in 0..s.size / es {
            let p = k * es;
            let info = d.word(p + w)?;
            let (sym, ty) = if !self.rd.is64 {
                ((info >> 8) as u32, (info & 0xff) as u32)
            } else if self.eh.machine == 8 && !self.rd.be {
                // MIPS64 little endian: r_sym is a little endian word, then four bytes.
                (info as u32, ((info >> 32) as u32).swap_bytes())
            } else {
                ((info >> 32) as u32, info as u32)
            };
            let addend = if rela {
                let a = d.word(p + 2 * w)?;
                Some(if self.rd.is64 { a as i64 } else { a as u32 as i32 as i64 })
            } else {
                None
            };
            v.push(Rel { offset: d.word(p)?, sym, ty, addend });
        }
        Ok(v)
    }

    /// Members of a group section: (flags, section indices).
    pub fn group(&self, i: usize) -> R<(u32, Vec<u32>)> {
        let s = &self.sh[i];
        if s.entsize != 4 || s.size % 4 != 0 || s.size < 4 {
            return Err(format!("group entsize {} size {:#x}", s.entsize, s.size));
        }
        let d = self.sub(i)?;
        let mut v = vec![];
        for k in 1..s.size / 4 {
            v.push(d.u32(4 * k)?);
        }
        Ok((d.u32(0)?, v))
    }

    /// Structural rules of any file. `strict_align` also asks for file alignment of the sections.
    /// It also asks for flags that are only a convention.
    /// Returns the number of rules' instances examined.
    pub fn check(&self, b: &[u8], strict_align: bool) -> R<u64> {
        let mut n = 0;
        let mut m = Map::default();
        let (ehs, phs, shs) = if self.rd.is64 { (64, 56, 64) } else { (52, 32, 40) };
        m.add(0, ehs, "file header");
        m.add(self.eh.phoff, phs * self.eh.phnum as u64, "program headers");
        m.add(self.eh.shoff, shs * self.eh.shnum as u64, "section headers");
        let w = if self.rd.is64 { 8 } else { 4 };
        for (i, s) in self.sh.iter().enumerate().skip(1) {
            let at = |e: &str| format!("section {i} {:?}: {e}", String::from_utf8_lossy(&s.name));
            if s.align & s.align.wrapping_sub(1) != 0 {
                return Err(at(&format!("sh_addralign {:#x}", s.align)));
            }
            if s.align > 1 && s.addr % s.align != 0 {
                return Err(at(&format!("sh_addr {:#x} with alignment {:#x}", s.addr, s.align)));
            }
            if s.ty != SHT_NOBITS {
                if s.size > 0 {
                    m.add(s.offset, s.size, at("data"));
                }
                if strict_align && s.align > 1 && s.offset % s.align != 0 {
                    return Err(at(&format!("sh_offset {:#x} with alignment {:#x}", s.offset, s.align)));
                }
            }
            n += 1;
            match s.ty {
                SHT_STRTAB => {
                    let d = self.data(i)?;
                    if d.first().is_some_and(|&c| c != 0) || d.last().is_some_and(|&c| c != 0) {
                        return Err(at("string table does not begin and end with NUL"));
                    }
                }
                SHT_SYMTAB | SHT_DYNSYM => {
                    self.syms(i).map_err(|e| at(&e))?;
                    if s.align < w {
                        return Err(at("table alignment"));
                    }
                }
                SHT_SYMTAB_SHNDX => {
                    let t = self.sh.get(s.link as usize).ok_or_else(|| at("sh_link"))?;
                    if t.ty != SHT_SYMTAB {
                        return Err(at("sh_link of SHT_SYMTAB_SHNDX"));
                    }
                    if s.align != 4 {
                        return Err(at("alignment"));
                    }
                }
                SHT_REL | SHT_RELA => {
                    let r = self.rels(i).map_err(|e| at(&e))?;
                    let nsym = match s.link {
                        0 => 1,
                        l => {
                            let t = self.sh.get(l as usize).ok_or_else(|| at("sh_link"))?;
                            if t.ty != SHT_SYMTAB && t.ty != SHT_DYNSYM {
                                return Err(at("sh_link is not a symbol table"));
                            }
                            t.size / if self.rd.is64 { 24 } else { 16 }
                        }
                    };
                    for x in &r {
                        if x.sym as u64 >= nsym {
                            return Err(at(&format!("relocation symbol {} of {nsym}", x.sym)));
                        }
                    }
                    if self.eh.e_type == 1 {
                        if s.link == 0 {
                            return Err(at("relocations without a symbol table"));
                        }
                        let t = self.sh.get(s.info as usize).filter(|_| s.info != 0).ok_or_else(|| at("sh_info"))?;
                        for x in &r {
                            if x.offset > t.size {
                                return Err(at(&format!("relocation at {:#x} of {:#x}", x.offset, t.size)));
                            }
                        }
                        if strict_align && s.flags & 0x40 == 0 {
                            return Err(at("SHF_INFO_LINK is not set"));
                        }
                    }
                    if s.align < w {
                        return Err(at("table alignment"));
                    }
                }
                SHT_GROUP => {
                    let t = self.sh.get(s.link as usize).ok_or_else(|| at("sh_link"))?;
                    if t.ty != SHT_SYMTAB {
                        return Err(at("group sh_link"));
                    }
                    let ns = t.size / if self.rd.is64 { 24 } else { 16 };
                    if s.info == 0 || s.info as u64 >= ns {
                        return Err(at("group sh_info"));
                    }
                    let (f, v) = self.group(i).map_err(|e| at(&e))?;
                    if f & !1 & !0xfff0_0000 != 0 {
                        return Err(at("group flags"));
                    }
                    for k in v {
                        let Some(q) = self.sh.get(k as usize).filter(|_| k != 0) else {
                            return Err(at(&format!("group member {k}")));
                        };
                        if (k as usize) < i {
                            return Err(at("group follows its member"));
                        }
                        let _ = q;
                    }
                    if s.align != 4 {
                        return Err(at("alignment"));
                    }
                }
                SHT_DYNAMIC | SHT_HASH => {
                    if s.link as usize >= self.sh.len() {
                        return Err(at("sh_link"));
                    }
                }
                _ => {}
            }
        }
        // Strings are used only from string tables; everything lies in the file.
        if self.eh.e_type == 1 {
            n += m.check(b)?;
        }
        Ok(n)
    }
}

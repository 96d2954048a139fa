//! Strict XCOFF object parser.
use super::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sec {
    pub name: Vec<u8>,
    pub paddr: u64,
    pub vaddr: u64,
    pub size: u64,
    pub offset: u64,
    pub reloff: u64,
    pub nreloc: u64,
    pub flags: u32,
    pub relocs: Vec<Rel>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rel {
    pub vaddr: u64,
    pub sym: u32,
    pub rsize: u8,
    pub rtype: u8,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sym {
    pub index: u32,
    pub name: Vec<u8>,
    pub value: u64,
    pub sec: i16,
    pub ty: u16,
    pub class: u8,
    pub aux: Vec<[u8; 18]>,
    pub file_name: Option<Vec<u8>>,
    /// (x_scnlen, x_smtyp, x_smclas)
    pub csect: Option<(u64, u8, u8)>,
}
#[derive(Clone, Debug, Default)]
pub struct Xcoff {
    pub is64: bool,
    pub flags: u16,
    pub timestamp: u32,
    pub symoff: u64,
    pub nsyms: u32,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
}

impl Xcoff {
    pub fn sym_at(&self, index: u32) -> Option<&Sym> {
        self.syms.binary_search_by_key(&index, |s| s.index).ok().map(|i| &self.syms[i])
    }
}

pub fn parse(b: &[u8]) -> R<Xcoff> {
    let magic = Rd { b, be: true, is64: false }.u16(0)?;
    let is64 = match magic {
        0x1df => false,
        0x1f7 => true,
        m => return Err(format!("magic {m:#x}")),
    };
    let rd = Rd { b, be: true, is64 };
    let mut x = Xcoff { is64, timestamp: rd.u32(4)?, ..Default::default() };
    let nsec = rd.u16(2)? as u64;
    let opt;
    let hdr;
    if is64 {
        x.symoff = rd.u64(8)?;
        opt = rd.u16(16)?;
        x.flags = rd.u16(18)?;
        x.nsyms = rd.u32(20)?;
        hdr = 24;
    } else {
        x.symoff = rd.u32(8)? as u64;
        x.nsyms = rd.u32(12)?;
        opt = rd.u16(16)?;
        x.flags = rd.u16(18)?;
        hdr = 20;
    }
    if opt != 0 {
        return Err("optional header".into());
    }
    let mut map = Map::default();
    map.add(0, hdr, "file header");
    let shs = if is64 { 72 } else { 40 };
    map.add(hdr, nsec * shs, "section headers");
    // Symbols and strings.
    let end = x.symoff + x.nsyms as u64 * 18;
    map.add(x.symoff, x.nsyms as u64 * 18, "symbols");
    let len = rd.u32(end)? as u64;
    if len < 4 {
        return Err(format!("string table size {len}"));
    }
    map.add(end, len, "strings");
    let tab = rd.bytes(end, len)?;
    if len > 4 && tab[len as usize - 1] != 0 {
        return Err("string table is not terminated".into());
    }
    let name_at = |p: u64| -> R<Vec<u8>> {
        let nm = rd.bytes(p, 8)?;
        if nm[..4] == [0; 4] && nm[4..] != [0; 4] {
            let o = rd.u32(p + 4)? as u64;
            if o < 4 {
                return Err(format!("name offset {o}"));
            }
            cstr(tab, o)
        } else {
            fixed(nm)
        }
    };
    let mut i = 0;
    while i < x.nsyms {
        let p = x.symoff + i as u64 * 18;
        let (name, value);
        if is64 {
            value = rd.u64(p)?;
            let o = rd.u32(p + 8)? as u64;
            name = if o == 0 { vec![] } else if o < 4 { return Err(format!("name offset {o}")) } else { cstr(tab, o)? };
        } else {
            name = name_at(p)?;
            value = rd.u32(p + 8)? as u64;
        }
        let naux = rd.u8(p + 17)? as u32;
        if naux > x.nsyms - i - 1 {
            return Err(format!("symbol {i} has {naux} auxiliary entries of {}", x.nsyms - i - 1));
        }
        let mut s = Sym { index: i, name, value, sec: rd.u16(p + 12)? as i16, ty: rd.u16(p + 14)?, class: rd.u8(p + 16)?, ..Default::default() };
        for k in 0..naux as u64 {
            s.aux.push(rd.bytes(p + 18 + 18 * k, 18)?.try_into().unwrap());
        }
        let at = |e: String| format!("symbol {i}: {e}");
        if s.sec < -2 || s.sec as i64 > nsec as i64 {
            return Err(at(format!("section {} of {nsec}", s.sec)));
        }
        match s.class {
            103 => {
                if s.sec != -2 || s.name != b".file" {
                    return Err(at("C_FILE".into()));
                }
                if naux != 1 {
                    return Err(at("C_FILE auxiliary entries".into()));
                }
                let a = p + 18;
                s.file_name = Some(name_at(a)?);
                if rd.u8(a + 14)? != 0 {
                    return Err(at("x_ftype".into()));
                }
                let rest = if is64 { rd.bytes(a + 8, 6)?.iter().chain(rd.bytes(a + 15, 2)?).all(|&c| c == 0) && rd.u8(a + 17)? == 252 } else { rd.bytes(a + 8, 6)?.iter().chain(rd.bytes(a + 15, 3)?).all(|&c| c == 0) };
                if !rest {
                    return Err(at("file auxiliary entry".into()));
                }
            }
            2 | 107 | 111 => {
                if naux == 0 {
                    return Err(at("no csect auxiliary entry".into()));
                }
                let a = p + 18 * naux as u64;
                let mut ln = rd.u32(a)? as u64;
                if is64 {
                    ln |= (rd.u32(a + 12)? as u64) << 32;
                    if rd.u8(a + 16)? != 0 || rd.u8(a + 17)? != 251 {
                        return Err(at("csect auxiliary entry type".into()));
                    }
                }
                s.csect = Some((ln, rd.u8(a + 10)?, rd.u8(a + 11)?));
            }
            _ => {
                if naux != 0 {
                    return Err(at("auxiliary entries".into()));
                }
            }
        }
        x.syms.push(s);
        i += 1 + naux;
    }
    for s in &x.syms {
        if let Some((ln, ty, _)) = s.csect {
            if ty & 7 == 2 && x.sym_at(ln as u32).is_none_or(|c| c.csect.is_none()) {
                return Err(format!("symbol {}: containing csect {ln}", s.index));
            }
            if ty & 7 > 3 {
                return Err(format!("symbol {}: x_smtyp {ty:#x}", s.index));
            }
        }
    }
    for k in 0..nsec {
        let p = hdr + k * shs;
        let w = if is64 { 8 } else { 4 };
        let mut s = Sec { name: fixed(rd.bytes(p, 8)?)?, paddr: rd.word(p + 8)?, vaddr: rd.word(p + 8 + w)?, size: rd.word(p + 8 + 2 * w)?, offset: rd.word(p + 8 + 3 * w)?, reloff: rd.word(p + 8 + 4 * w)?, ..Default::default() };
        let q = p + 8 + 6 * w;
        if rd.word(p + 8 + 5 * w)? != 0 {
            return Err("line numbers".into());
        }
        if is64 {
            s.nreloc = rd.u32(q)? as u64;
            s.flags = rd.u32(q + 8)?;
            if rd.u32(q + 4)? != 0 || rd.u32(q + 12)? != 0 {
                return Err("section header padding".into());
            }
        } else {
            s.nreloc = rd.u16(q)? as u64;
            s.flags = rd.u32(q + 4)?;
            if rd.u16(q + 2)? != 0 {
                return Err("line numbers".into());
            }
        }
        let at = |e: String| format!("section {}: {e}", k + 1);
        if s.paddr != s.vaddr {
            return Err(at("s_paddr differs from s_vaddr".into()));
        }
        let bss = s.flags & 0x880 != 0;
        if bss {
            if s.offset != 0 {
                return Err(at("bss with data".into()));
            }
        } else if s.size != 0 {
            if s.offset == 0 {
                return Err(at("data without an offset".into()));
            }
            map.add(s.offset, s.size, at("data".into()));
        }
        if (s.nreloc == 0) != (s.reloff == 0) {
            return Err(at(format!("{} relocations at {:#x}", s.nreloc, s.reloff)));
        }
        let rs = if is64 { 14 } else { 10 };
        map.add(s.reloff, rs * s.nreloc, at("relocations".into()));
        for j in 0..s.nreloc {
            let p = s.reloff + j * rs;
            let r = Rel { vaddr: rd.word(p)?, sym: rd.u32(p + w)?, rsize: rd.u8(p + w + 4)?, rtype: rd.u8(p + w + 5)? };
            if x.sym_at(r.sym).is_none() {
                return Err(at(format!("relocation {j} symbol {}", r.sym)));
            }
            if r.vaddr < s.vaddr || r.vaddr > s.vaddr + s.size {
                return Err(at(format!("relocation {j} at {:#x} of {:#x}+{:#x}", r.vaddr, s.vaddr, s.size)));
            }
            s.relocs.push(r);
        }
        x.secs.push(s);
    }
    // Sections with addresses do not overlap in memory.
    let mut a: Vec<(u64, u64)> = x.secs.iter().filter(|s| s.flags & 0xe0 != 0 && s.size > 0 && s.vaddr != 0).map(|s| (s.vaddr, s.size)).collect();
    a.sort();
    for w in a.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("sections overlap in memory: {:#x?}", w));
        }
    }
    map.check(b)?;
    Ok(x)
}

//! Strict Mach-O object parser.
use super::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sec {
    pub name: Vec<u8>,
    pub seg: Vec<u8>,
    pub addr: u64,
    pub size: u64,
    pub offset: u32,
    pub align: u32,
    pub reloff: u32,
    pub nreloc: u32,
    pub flags: u32,
    pub reserved: [u32; 3],
    pub relocs: Vec<Rel>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rel {
    pub addr: u32,
    pub num: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ext: bool,
    pub ty: u8,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sym {
    pub name: Vec<u8>,
    pub ty: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Seg {
    pub name: Vec<u8>,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub flags: u32,
    pub nsects: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Macho {
    pub is64: bool,
    pub be: bool,
    pub cputype: u32,
    pub cpusubtype: u32,
    pub filetype: u32,
    pub flags: u32,
    /// Every command: (cmd, bytes).
    pub cmds: Vec<(u32, Vec<u8>)>,
    pub segs: Vec<Seg>,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    pub dysym: Option<Vec<u32>>,
}

pub fn reloc(rd: &Rd, p: u64) -> R<Rel> {
    let a = rd.u32(p)?;
    let i = rd.u32(p + 4)?;
    Ok(if rd.be {
        Rel { addr: a, num: i >> 8, pcrel: i >> 7 & 1 != 0, len: (i >> 5 & 3) as u8, ext: i >> 4 & 1 != 0, ty: (i & 15) as u8 }
    } else {
        Rel { addr: a, num: i & 0xff_ffff, pcrel: i >> 24 & 1 != 0, len: (i >> 25 & 3) as u8, ext: i >> 27 & 1 != 0, ty: (i >> 28) as u8 }
    })
}

/// Parses the header and commands, and an object's tables with all the rules of MH_OBJECT.
pub fn parse(b: &[u8]) -> R<Macho> {
    parse_with(b, true)
}
/// Optionally without the rules of MH_OBJECT.
pub fn parse_with(b: &[u8], rules: bool) -> R<Macho> {
    let (be, is64) = match b.get(..4) {
        Some([0xfe, 0xed, 0xfa, 0xce]) => (true, false),
        Some([0xfe, 0xed, 0xfa, 0xcf]) => (true, true),
        Some([0xce, 0xfa, 0xed, 0xfe]) => (false, false),
        Some([0xcf, 0xfa, 0xed, 0xfe]) => (false, true),
        m => return Err(format!("magic {m:?}")),
    };
    let rd = Rd { b, be, is64 };
    let mut m = Macho { is64, be, cputype: rd.u32(4)?, cpusubtype: rd.u32(8)?, filetype: rd.u32(12)?, flags: rd.u32(24)?, ..Default::default() };
    let ncmds = rd.u32(16)?;
    let sizeof = rd.u32(20)? as u64;
    let hdr: u64 = if is64 { 32 } else { 28 };
    if is64 && rd.u32(28)? != 0 {
        return Err("reserved header field".into());
    }
    let mut map = Map::default();
    map.add(0, hdr, "header");
    map.add(hdr, sizeof, "load commands");
    let ptr: u64 = if is64 { 8 } else { 4 };
    let mut p = hdr;
    let obj = m.filetype == 1;
    let mut symtab = None;
    for k in 0..ncmds {
        let cmd = rd.u32(p)?;
        let size = rd.u32(p + 4)? as u64;
        if size < 8 || size % ptr != 0 || p + size > hdr + sizeof {
            return Err(format!("command {k} size {size:#x}"));
        }
        let c = Rd { b: rd.bytes(p, size)?, ..rd };
        m.cmds.push((cmd, c.b.to_vec()));
        match cmd {
            1 | 0x19 => {
                if (cmd == 0x19) != is64 {
                    return Err("segment width".into());
                }
                let mut s = Seg { name: fixed(c.bytes(8, 16)?)?, vmaddr: c.word(24)?, vmsize: c.word(24 + ptr)?, fileoff: c.word(24 + 2 * ptr)?, filesize: c.word(24 + 3 * ptr)?, ..Default::default() };
                let q = 24 + 4 * ptr;
                s.maxprot = c.u32(q)?;
                s.initprot = c.u32(q + 4)?;
                s.nsects = c.u32(q + 8)?;
                s.flags = c.u32(q + 12)?;
                let shs = if is64 { 80 } else { 68 };
                if size != q + 16 + shs * s.nsects as u64 {
                    return Err(format!("segment command size {size:#x} for {} sections", s.nsects));
                }
                for j in 0..s.nsects as u64 {
                    let t = q + 16 + shs * j;
                    let u = t + 32 + 2 * ptr;
                    let sec = Sec {
                        name: fixed(c.bytes(t, 16)?)?,
                        seg: fixed(c.bytes(t + 16, 16)?)?,
                        addr: c.word(t + 32)?,
                        size: c.word(t + 32 + ptr)?,
                        offset: c.u32(u)?,
                        align: c.u32(u + 4)?,
                        reloff: c.u32(u + 8)?,
                        nreloc: c.u32(u + 12)?,
                        flags: c.u32(u + 16)?,
                        reserved: [c.u32(u + 20)?, c.u32(u + 24)?, if is64 { c.u32(u + 28)? } else { 0 }],
                        relocs: vec![],
                    };
                    if sec.reserved[2] != 0 {
                        return Err("reserved3".into());
                    }
                    m.secs.push(sec);
                }
                m.segs.push(s);
            }
            2 => {
                if size != 24 || symtab.is_some() {
                    return Err("LC_SYMTAB".into());
                }
                symtab = Some((c.u32(8)? as u64, c.u32(12)? as u64, c.u32(16)? as u64, c.u32(20)? as u64));
            }
            11 => {
                if size != 80 || m.dysym.is_some() {
                    return Err("LC_DYSYMTAB".into());
                }
                let mut v = vec![];
                for j in 0..18 {
                    v.push(c.u32(8 + 4 * j)?);
                }
                m.dysym = Some(v);
            }
            0x1d | 0x1e | 0x26 | 0x29 | 0x2b | 0x2e | 0x8000_0033 | 0x8000_0034 => map.add(c.u32(8)? as u64, c.u32(12)? as u64, format!("data of command {k}")),
            0x22 | 0x8000_0022 => {
                for j in 0..5 {
                    map.add(c.u32(8 + 8 * j)? as u64, c.u32(12 + 8 * j)? as u64, format!("dyld info {j}"));
                }
            }
            _ => {}
        }
        p += size;
    }
    if p != hdr + sizeof {
        return Err(format!("commands end at {p:#x}, sizeofcmds says {:#x}", hdr + sizeof));
    }
    if let Some((off, n, stroff, strsize)) = symtab {
        let es = if is64 { 16 } else { 12 };
        if n > 0 && off % ptr != 0 {
            return Err(format!("symoff {off:#x}"));
        }
        map.add(off, n * es, "symbols");
        map.add(stroff, strsize, "strings");
        let tab = rd.bytes(stroff, strsize)?;
        if strsize > 0 && (tab[strsize as usize - 1] != 0) {
            return Err("string table is not terminated".into());
        }
        for k in 0..n {
            let p = off + k * es;
            let x = rd.u32(p)? as u64;
            let s = Sym { name: if x == 0 { vec![] } else { cstr(tab, x)? }, ty: rd.u8(p + 4)?, sect: rd.u8(p + 5)?, desc: rd.u16(p + 6)?, value: rd.word(p + 8)? };
            m.syms.push(s);
        }
    }
    if !obj || !rules {
        return Ok(m);
    }
    // Rules of relocatable objects.
    if m.segs.len() != 1 || !m.segs[0].name.is_empty() {
        return Err("an object has one unnamed segment".into());
    }
    let g = m.segs[0].clone();
    let mut end_file = g.fileoff;
    let mut empty = g.fileoff;
    let mut mem = vec![];
    for (i, s) in m.secs.iter_mut().enumerate() {
        let at = |e: String| format!("section {}: {e}", i + 1);
        if s.align > 63 {
            return Err(at(format!("align {}", s.align)));
        }
        if s.addr % (1u64 << s.align) != 0 {
            return Err(at(format!("address {:#x} with alignment 2^{}", s.addr, s.align)));
        }
        if s.addr < g.vmaddr || s.addr + s.size > g.vmaddr + g.vmsize {
            return Err(at("outside its segment in memory".into()));
        }
        if s.size > 0 {
            mem.push((s.addr, s.size, i));
        }
        let zero = matches!(s.flags & 0xff, 1 | 0xc | 0x12);
        if zero {
            if s.offset != 0 {
                return Err(at("zerofill with an offset".into()));
            }
        } else {
            let o = s.offset as u64;
            if s.size > 0 {
                map.add(o, s.size, at("data".into()));
                if o < g.fileoff || o + s.size > g.fileoff + g.filesize {
                    return Err(at(format!("data {o:#x}+{:#x} outside its segment {:#x}+{:#x}", s.size, g.fileoff, g.filesize)));
                }
                if o - g.fileoff != s.addr - g.vmaddr {
                    return Err(at("file offset and address disagree".into()));
                }
                end_file = end_file.max(o + s.size);
            } else {
                // The place of an empty section may end the segment.
                empty = empty.max(g.fileoff + (s.addr - g.vmaddr));
            }
        }
        if s.nreloc > 0 {
            if s.reloff % 4 != 0 {
                return Err(at("reloff".into()));
            }
            map.add(s.reloff as u64, 8 * s.nreloc as u64, at("relocations".into()));
        } else if s.reloff != 0 {
            return Err(at("reloff without relocations".into()));
        }
        for k in 0..s.nreloc as u64 {
            let r = reloc(&rd, s.reloff as u64 + 8 * k)?;
            if r.addr as u64 + (1 << r.len) > s.size && r.addr as u64 > s.size {
                return Err(at(format!("relocation at {:#x} of {:#x}", r.addr, s.size)));
            }
            s.relocs.push(r);
        }
    }
    mem.sort();
    for w in mem.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("sections overlap in memory: {w:?}"));
        }
    }
    if end_file != g.fileoff + g.filesize && end_file.max(empty) != g.fileoff + g.filesize {
        return Err(format!("segment file end {:#x}, last data ends at {end_file:#x}", g.fileoff + g.filesize));
    }
    let nsec = m.secs.len();
    for (i, s) in m.secs.iter().enumerate() {
        for (k, r) in s.relocs.iter().enumerate() {
            let addend = matches!(m.cputype, 0x0100_000c | 0x0200_000c) && r.ty == 10;
            if addend {
                continue;
            }
            if r.ext && r.num as usize >= m.syms.len() {
                return Err(format!("section {} relocation {k}: symbol {} of {}", i + 1, r.num, m.syms.len()));
            }
            if !r.ext && r.num as usize > nsec {
                return Err(format!("section {} relocation {k}: section {} of {nsec}", i + 1, r.num));
            }
        }
    }
    for (i, s) in m.syms.iter().enumerate() {
        if s.ty & 0xe0 == 0 {
            let sect = s.ty & 0x0e == 0x0e;
            if sect != (s.sect != 0) || s.sect as usize > nsec {
                return Err(format!("symbol {i}: type {:#x} section {}", s.ty, s.sect));
            }
            if sect {
                let q = &m.secs[s.sect as usize - 1];
                if s.value < q.addr {
                    return Err(format!("symbol {i}: value {:#x} before its section at {:#x}", s.value, q.addr));
                }
            }
        }
    }
    if let Some(d) = &m.dysym {
        let (il, nl, ie, ne, iu, nu) = (d[0], d[1], d[2], d[3], d[4], d[5]);
        if il != 0 || ie != nl || iu != nl + ne || iu + nu != m.syms.len() as u32 || d[6..12].iter().chain(&d[14..]).any(|&v| v != 0) {
            return Err(format!("LC_DYSYMTAB {d:?} for {} symbols", m.syms.len()));
        }
        map.add(d[12] as u64, 4 * d[13] as u64, "indirect symbols");
        if d[12] % 4 != 0 {
            return Err("indirectsymoff".into());
        }
        for (i, s) in m.syms.iter().enumerate() {
            let i = i as u32;
            let stab = s.ty & 0xe0 != 0;
            let ext = !stab && s.ty & 1 != 0;
            let undef = !stab && s.ty & 0x0e == 0;
            let ok = if i < nl { (!ext || s.ty & 0x10 != 0) && !undef } else if i < iu { ext && !undef } else { undef };
            if !ok {
                return Err(format!("symbol {i} type {:#x} is in the wrong group of LC_DYSYMTAB", s.ty));
            }
        }
        for (a, e) in [(ie, iu), (iu, iu + nu)] {
            for i in a as usize + 1..e as usize {
                if m.syms[i - 1].name > m.syms[i].name {
                    return Err(format!("symbols {} and {i} are not sorted by name", i - 1));
                }
            }
        }
    } else {
        return Err("no LC_DYSYMTAB".into());
    }
    map.check(b)?;
    Ok(m)
}

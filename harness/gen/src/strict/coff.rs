//! Strict COFF object parser (PE/COFF specification).
use super::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sec {
    pub name: Vec<u8>,
    pub raw_name: [u8; 8],
    pub vsize: u32,
    pub vaddr: u32,
    pub size: u32,
    pub offset: u32,
    pub reloff: u32,
    pub nreloc: u16,
    pub flags: u32,
    pub relocs: Vec<(u32, u32, u16)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sym {
    pub index: u32,
    pub name: Vec<u8>,
    pub value: u32,
    pub sec: i32,
    pub ty: u16,
    pub class: u8,
    pub aux: Vec<[u8; 18]>,
}

#[derive(Clone, Debug, Default)]
pub struct Coff {
    pub machine: u16,
    pub timestamp: u32,
    pub flags: u16,
    pub symoff: u32,
    pub nsyms: u32,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
}

impl Coff {
    pub fn sym_at(&self, index: u32) -> Option<&Sym> {
        self.syms.binary_search_by_key(&index, |s| s.index).ok().map(|i| &self.syms[i])
    }
}

pub fn section_name(raw: &[u8; 8], tab: &[u8]) -> R<Vec<u8>> {
    if raw[0] == b'/' {
        let off = if raw[1] == b'/' {
            let mut v = 0u64;
            for &c in &raw[2..] {
                let d = match c {
                    b'A'..=b'Z' => c - b'A',
                    b'a'..=b'z' => c - b'a' + 26,
                    b'0'..=b'9' => c - b'0' + 52,
                    b'+' => 62,
                    b'/' => 63,
                    _ => return Err(format!("section name {raw:?}")),
                };
                v = v * 64 + d as u64;
            }
            v
        } else {
            let d = fixed(&raw[1..])?;
            std::str::from_utf8(&d).ok().and_then(|s| s.parse::<u64>().ok()).ok_or_else(|| format!("section name {raw:?}"))?
        };
        if off < 4 {
            return Err(format!("section name offset {off}"));
        }
        cstr(tab, off)
    } else {
        fixed(raw)
    }
}

/// Parses symbols and strings; `at` of zero means none.
pub fn symbols(rd: &Rd, at: u32, n: u32, map: &mut Map) -> R<(Vec<Sym>, Vec<u8>)> {
    if at == 0 {
        if n != 0 {
            return Err("symbols without a table".into());
        }
        return Ok((vec![], vec![]));
    }
    let end = at as u64 + n as u64 * 18;
    map.add(at as u64, n as u64 * 18, "symbols");
    let len = rd.u32(end)? as u64;
    if len < 4 {
        return Err(format!("string table size {len}"));
    }
    map.add(end, len, "strings");
    let tab = rd.bytes(end, len)?;
    if len > 4 && tab[len as usize - 1] != 0 {
        return Err("string table is not terminated".into());
    }
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        let p = at as u64 + i as u64 * 18;
        let nm = rd.bytes(p, 8)?;
        let name = if nm[..4] == [0; 4] && nm[4..] != [0; 4] {
            let o = rd.u32(p + 4)? as u64;
            if o < 4 {
                return Err(format!("symbol {i} name offset {o}"));
            }
            cstr(tab, o)?
        } else {
            fixed(nm)?
        };
        let naux = rd.u8(p + 17)? as u32;
        if naux > n - i - 1 {
            return Err(format!("symbol {i} has {naux} auxiliary records of {}", n - i - 1));
        }
        let mut aux = vec![];
        for k in 0..naux {
            aux.push(rd.bytes(p + 18 + 18 * k as u64, 18)?.try_into().unwrap());
        }
        v.push(Sym { index: i, name, value: rd.u32(p + 8)?, sec: section_number(rd.u16(p + 12)?), ty: rd.u16(p + 14)?, class: rd.u8(p + 16)?, aux });
        i += 1 + naux;
    }
    Ok((v, tab.to_vec()))
}

/// Section numbers are unsigned up to IMAGE_SYM_SECTION_MAX, and negative above it.
fn section_number(n: u16) -> i32 {
    if n <= 0xfeff { n as i32 } else { n as i16 as i32 }
}

pub fn header(rd: &Rd, p: u64) -> R<Sec> {
    let raw: [u8; 8] = rd.bytes(p, 8)?.try_into().unwrap();
    if rd.u32(p + 28)? != 0 || rd.u16(p + 34)? != 0 {
        return Err("line numbers".into());
    }
    Ok(Sec { raw_name: raw, vsize: rd.u32(p + 8)?, vaddr: rd.u32(p + 12)?, size: rd.u32(p + 16)?, offset: rd.u32(p + 20)?, reloff: rd.u32(p + 24)?, nreloc: rd.u16(p + 32)?, flags: rd.u32(p + 36)?, ..Default::default() })
}

pub fn parse(b: &[u8]) -> R<Coff> {
    let rd = Rd { b, be: false, is64: false };
    let mut c = Coff { machine: rd.u16(0)?, timestamp: rd.u32(4)?, symoff: rd.u32(8)?, nsyms: rd.u32(12)?, flags: rd.u16(18)?, ..Default::default() };
    let nsec = rd.u16(2)? as u64;
    if rd.u16(16)? != 0 {
        return Err("optional header in an object".into());
    }
    let mut map = Map::default();
    map.add(0, 20, "file header");
    map.add(20, 40 * nsec, "section headers");
    let (syms, tab) = symbols(&rd, c.symoff, c.nsyms, &mut map)?;
    c.syms = syms;
    for i in 0..nsec {
        let mut s = header(&rd, 20 + 40 * i)?;
        let at = |e: String| format!("section {}: {e}", i + 1);
        s.name = section_name(&s.raw_name, &tab).map_err(at)?;
        if s.vaddr != 0 || s.vsize != 0 {
            return Err(at("virtual address or size in an object".into()));
        }
        if (s.flags >> 20) & 15 == 15 {
            return Err(at("alignment field".into()));
        }
        if s.flags & 0x80 == 0 || s.offset != 0 {
            if s.size != 0 {
                if s.offset == 0 {
                    return Err(at("data without an offset".into()));
                }
                map.add(s.offset as u64, s.size as u64, at("data".into()));
                if s.offset % 4 != 0 {
                    return Err(at(format!("data offset {:#x}", s.offset)));
                }
            } else if s.offset != 0 {
                return Err(at("offset of an empty section".into()));
            }
        }
        let (mut first, mut n) = (s.reloff as u64, s.nreloc as u64);
        if s.flags & 0x0100_0000 != 0 {
            if n != 0xffff {
                return Err(at("overflow flag with a count that is not 0xffff".into()));
            }
            let total = rd.u32(first)? as u64;
            if total <= 0xffff {
                return Err(at(format!("overflow flag with {total} relocations")));
            }
            if rd.u32(first + 4)? != 0 || rd.u16(first + 8)? != 0 {
                return Err(at("overflow record".into()));
            }
            map.add(first, 10, at("relocation count".into()));
            first += 10;
            n = total - 1;
        }
        if (n == 0) != (s.reloff == 0) {
            return Err(at(format!("{n} relocations at {:#x}", s.reloff)));
        }
        map.add(first, 10 * n, at("relocations".into()));
        for k in 0..n {
            let p = first + 10 * k;
            let r = (rd.u32(p)?, rd.u32(p + 4)?, rd.u16(p + 8)?);
            if c.sym_at(r.1).is_none() {
                return Err(at(format!("relocation {k} symbol {} is not a symbol", r.1)));
            }
            if r.0 as u64 > s.size as u64 {
                return Err(at(format!("relocation {k} at {:#x} of {:#x}", r.0, s.size)));
            }
            s.relocs.push(r);
        }
        c.secs.push(s);
    }
    for y in &c.syms {
        let at = |e: String| format!("symbol {} {:?}: {e}", y.index, String::from_utf8_lossy(&y.name));
        if y.sec < -2 || y.sec as i64 > nsec as i64 {
            return Err(at(format!("section {} of {nsec}", y.sec)));
        }
        match y.class {
            103 => {
                if y.sec != -2 {
                    return Err(at("file symbol section".into()));
                }
                let cat: Vec<u8> = y.aux.concat();
                fixed(&cat).map_err(at)?;
            }
            105 => {
                if y.aux.len() != 1 {
                    return Err(at("weak external without one auxiliary record".into()));
                }
                let a = &y.aux[0];
                let t = u32::from_le_bytes(a[..4].try_into().unwrap());
                if c.sym_at(t).is_none() || t == y.index {
                    return Err(at(format!("weak default {t}")));
                }
                if !(1..=4).contains(&u32::from_le_bytes(a[4..8].try_into().unwrap())) || a[8..] != [0; 10] {
                    return Err(at("weak auxiliary record".into()));
                }
                if y.sec != 0 || y.value != 0 {
                    return Err(at("weak external is not undefined".into()));
                }
            }
            3 if !y.aux.is_empty() => {
                // Section definition.
                let a = &y.aux[0];
                if y.sec <= 0 || y.value != 0 || y.aux.len() != 1 {
                    return Err(at("section definition".into()));
                }
                let s = &c.secs[y.sec as usize - 1];
                let len = u32::from_le_bytes(a[..4].try_into().unwrap());
                if len != s.size {
                    return Err(at(format!("length {len:#x} of a section of {:#x}", s.size)));
                }
                let nr = u16::from_le_bytes(a[4..6].try_into().unwrap());
                if nr as usize != s.relocs.len().min(0xffff) {
                    return Err(at(format!("{nr} relocations of {}", s.relocs.len())));
                }
                let number = u16::from_le_bytes(a[12..14].try_into().unwrap()) as u32 | (u16::from_le_bytes(a[16..18].try_into().unwrap()) as u32) << 16;
                let sel = a[14];
                if a[15] != 0 || a[6..8] != [0, 0] {
                    return Err(at("section definition padding".into()));
                }
                let comdat = s.flags & 0x1000 != 0;
                if (sel != 0) != comdat {
                    return Err(at(format!("selection {sel} with LNK_COMDAT {comdat}")));
                }
                if sel == 5 {
                    if number == 0 || number as u64 > nsec || number == y.sec as u32 {
                        return Err(at(format!("associative section {number}")));
                    }
                } else if number != 0 {
                    return Err(at(format!("section number {number} with selection {sel}")));
                }
                if sel > 7 {
                    return Err(at(format!("selection {sel}")));
                }
                let crc = u32::from_le_bytes(a[8..12].try_into().unwrap());
                let want = if s.flags & 0x80 != 0 { 0 } else { jamcrc(rd.bytes(s.offset as u64, s.size as u64)?) };
                if crc != want {
                    return Err(at(format!("checksum {crc:#x}, computed {want:#x}")));
                }
            }
            _ => {
                if !y.aux.is_empty() {
                    return Err(at(format!("class {} with auxiliary records", y.class)));
                }
            }
        }
    }
    // A COMDAT section needs its definition first, and a non-associative one then its symbol.
    for (i, s) in c.secs.iter().enumerate() {
        if s.flags & 0x1000 != 0 {
            let mut it = c.syms.iter().filter(|y| y.sec as usize == i + 1 && y.sec > 0);
            let d = it.next().ok_or_else(|| format!("COMDAT section {} has no symbol", i + 1))?;
            if d.class != 3 || d.aux.len() != 1 {
                return Err(format!("the first symbol of COMDAT section {} is not its definition", i + 1));
            }
            if d.aux[0][14] != 5 && it.next().is_none() {
                return Err(format!("COMDAT section {} has no COMDAT symbol", i + 1));
            }
        }
    }
    map.check(b)?;
    Ok(c)
}

pub fn jamcrc(d: &[u8]) -> u32 {
    // The section checksum of the Microsoft tools: CRC-32 started at zero without the final inversion.
    let mut c = 0u32;
    for &x in d {
        c ^= x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    c
}

//! Models of Mach-O files: generated, encoded, decoded and compared independently of the crate.
use genf::strict::{Map, R, Rd, macho as sm};
use genf::w::W;
use vcore::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Tgt {
    Sym(usize),
    Sec(usize),
    /// The addend of ARM64_RELOC_ADDEND.
    Raw(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MRel {
    pub addr: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ty: u8,
    pub to: Tgt,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ind {
    Sym(usize),
    Flags(u32),
}
#[derive(Clone, Debug, Default)]
pub struct MSec {
    pub name: [u8; 16],
    pub seg: [u8; 16],
    pub addr: u64,
    pub size: u64,
    pub align: u32,
    pub flags: u32,
    pub stub: u32,
    pub data: Option<Vec<u8>>,
    pub rel: Vec<MRel>,
    pub ind: Vec<Ind>,
    pub del: bool,
    pub off: u32,
}
#[derive(Clone, Debug, Default)]
pub struct MSeg {
    pub name: [u8; 16],
    pub vmaddr: u64,
    pub vmsize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub flags: u32,
    pub secs: Vec<usize>,
    pub del: bool,
    pub fileoff: u64,
    pub filesize: u64,
}
impl MSeg {
    pub fn linkedit(&self) -> bool {
        self.name[..11] == *b"__LINKEDIT\0"
    }
}
#[derive(Clone, Debug, Default)]
pub struct MSym {
    pub name: Vec<u8>,
    pub ty: u8,
    /// The section it is in.
    pub sec: Option<usize>,
    /// `n_sect` when that isn't a section.
    pub n_sect: u8,
    pub desc: u16,
    pub value: u64,
    pub del: bool,
}
impl MSym {
    /// 0 local, 1 defined external, 2 undefined, 3 private external
    pub fn group(&self) -> u8 {
        if self.ty & 0xe0 == 0 && self.ty & 0x0e == 0 {
            2
        } else if self.ty & 0xe0 != 0 || self.ty & 1 == 0 {
            0
        } else if self.ty & 0x10 != 0 {
            3
        } else {
            1
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Lib {
    pub cmd: u32,
    pub name: Vec<u8>,
    pub v: [u32; 3],
}
#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Seg(usize),
    Symtab,
    Dysymtab,
    Lib(Lib),
    Build([u32; 3], Vec<(u32, u32)>),
    Link(u32, Vec<u8>),
    Dyld([Vec<u8>; 5]),
    Other(u32, Vec<u8>),
}
#[derive(Clone, Debug, Default)]
pub struct M {
    pub is64: bool,
    pub be: bool,
    pub cpu: u32,
    pub sub: u32,
    pub ft: u32,
    pub flags: u32,
    pub cmds: Vec<C>,
    pub segs: Vec<MSeg>,
    pub secs: Vec<MSec>,
    pub syms: Vec<MSym>,
}

pub fn name16(s: &str) -> [u8; 16] {
    let mut n = [0; 16];
    n[..s.len()].copy_from_slice(s.as_bytes());
    n
}
pub fn zerofill(flags: u32) -> bool {
    matches!(flags & 0xff, 1 | 0xc | 0x12)
}
pub fn entry(m: &M, flags: u32, stub: u32) -> u64 {
    match flags & 0xff {
        6 | 7 | 0x10 | 0x14 => m.ptr(),
        8 => stub as u64,
        _ => 0,
    }
}
/// Debugging entries that are in a section.
pub fn stab_section(ty: u8) -> bool {
    matches!(ty, 0x24 | 0x26 | 0x28 | 0x2e | 0x44 | 0x4e | 0x64 | 0x84 | 0xa4 | 0xe8)
}
pub const LIBS: &[u32] = &[0xc, 0x8000_0018, 0x8000_001f, 0x20, 0x8000_0023];
pub const LINKS: &[u32] = &[0x1d, 0x1e, 0x26, 0x29, 0x2b, 0x2e, 0x8000_0033, 0x8000_0034];
pub const ARM64_ADDEND: u8 = 10;

impl M {
    pub fn ptr(&self) -> u64 {
        if self.is64 { 8 } else { 4 }
    }
    pub fn obj(&self) -> bool {
        self.ft == 1
    }
    pub fn cmd_size(&self, c: &C) -> u64 {
        let up = |n: u64| n.next_multiple_of(self.ptr());
        match c {
            C::Seg(g) => {
                let n = self.segs[*g].secs.iter().filter(|s| !self.secs[**s].del).count() as u64;
                if self.is64 { 72 + 80 * n } else { 56 + 68 * n }
            }
            C::Symtab => 24,
            C::Dysymtab => 80,
            C::Lib(l) => up(24 + l.name.len() as u64 + 1),
            C::Build(_, t) => 24 + 8 * t.len() as u64,
            C::Link(..) => 16,
            C::Dyld(_) => 48,
            C::Other(_, d) => 8 + d.len() as u64,
        }
    }
    pub fn head(&self) -> u64 {
        self.cmds.iter().filter(|c| !matches!(c, C::Seg(g) if self.segs[*g].del)).map(|c| self.cmd_size(c)).sum::<u64>() + if self.is64 { 32 } else { 28 }
    }
    /// Is this relocation's number an addend?
    pub fn addend(&self, ty: u8) -> bool {
        self.cpu == 0x0100_000c && ty == ARM64_ADDEND
    }
    /// Is this the first relocation of a pair?
    pub fn pair(&self, ty: u8) -> bool {
        match self.cpu {
            0x0100_0007 => ty == 5,
            0x0100_000c => ty == 1 || ty == ARM64_ADDEND,
            _ => false,
        }
    }
    /// What follows from deletions.
    pub fn settle(&mut self) {
        for g in &mut self.segs {
            if !g.secs.is_empty() {
                g.secs.retain(|s| !self.secs[*s].del);
                g.del = g.secs.is_empty();
            }
        }
        for y in &mut self.syms {
            y.del |= y.sec.is_some_and(|s| self.secs[s].del);
        }
        for i in 0..self.secs.len() {
            let v = std::mem::take(&mut self.secs[i].rel);
            let mut k = 0;
            while k < v.len() {
                let n = if self.pair(v[k].ty) && k + 1 < v.len() { 2 } else { 1 };
                let dead = |r: &MRel| match r.to {
                    Tgt::Sym(s) => self.syms[s].del,
                    Tgt::Sec(s) => self.secs[s].del,
                    Tgt::Raw(_) => false,
                };
                let any = v[k..k + n].iter().any(dead);
                if !any {
                    self.secs[i].rel.extend_from_slice(&v[k..k + n]);
                }
                k += n;
            }
        }
        let segs = &self.segs;
        self.cmds.retain(|c| !matches!(c, C::Seg(g) if segs[*g].del));
    }
    fn sym(&self, y: &MSym, pos: &[usize]) -> String {
        let (a, at) = match y.sec {
            Some(s) => (self.secs[s].addr, format!("section {}", pos[s])),
            None => (0, format!("n_sect {}", y.n_sect)),
        };
        format!("{:?} type {:#x} {at} desc {:#x} value {:#x}", String::from_utf8_lossy(&y.name), y.ty, y.desc, y.value.wrapping_sub(a))
    }
    /// The content, in a form that doesn't depend on the layout.
    pub fn render(&self) -> Vec<String> {
        let mut v = vec![format!("is64 {} be {} cpu {:#x} {:#x} type {} flags {:#x}", self.is64, self.be, self.cpu, self.sub, self.ft, self.flags)];
        // Sections are numbered in the order of the commands.
        let mut pos = vec![usize::MAX; self.secs.len()];
        let mut n = 0;
        for c in &self.cmds {
            if let C::Seg(g) = c {
                for s in self.segs[*g].secs.iter().filter(|s| !self.secs[**s].del) {
                    n += 1;
                    pos[*s] = n;
                }
            }
        }
        for c in &self.cmds {
            let C::Seg(g) = c else {
                v.push(format!("{c:x?}"));
                continue;
            };
            let g = &self.segs[*g];
            let size = if self.obj() || g.linkedit() { String::new() } else { format!("{:#x}", g.vmsize) };
            v.push(format!("segment {:?} at {:#x} size {size} prot {:#x} {:#x} flags {:#x}", String::from_utf8_lossy(&g.name), g.vmaddr, g.maxprot, g.initprot, g.flags));
            for &s in g.secs.iter().filter(|s| !self.secs[**s].del) {
                let x = &self.secs[s];
                let addr = if self.obj() { String::new() } else { format!("{:#x}", x.addr) };
                v.push(format!(
                    "section {} {:?} {:?} at {addr} size {:#x} align {} flags {:#x} stub {} data {}",
                    pos[s],
                    String::from_utf8_lossy(&x.name),
                    String::from_utf8_lossy(&x.seg),
                    x.size,
                    x.align,
                    x.flags,
                    x.stub,
                    x.data.as_ref().map_or("none".into(), |d| format!("{:#x} {:x?}", vcore::hash(d), &d[..d.len().min(40)]))
                ));
                for r in &x.rel {
                    let to = match &r.to {
                        Tgt::Sym(y) => self.sym(&self.syms[*y], &pos),
                        Tgt::Sec(s) => format!("section {}", pos[*s]),
                        Tgt::Raw(n) => format!("{n:#x}"),
                    };
                    v.push(format!("  relocation at {:#x} pcrel {} len {} type {} to {to}", r.addr, r.pcrel, r.len, r.ty));
                }
                for i in &x.ind {
                    v.push(match i {
                        Ind::Sym(y) => format!("  indirect {}", self.sym(&self.syms[*y], &pos)),
                        Ind::Flags(f) => format!("  indirect {f:#x}"),
                    });
                }
            }
        }
        for k in 0..4 {
            let mut l: Vec<String> = self.syms.iter().filter(|y| !y.del && y.group() == k).map(|y| self.sym(y, &pos)).collect();
            if k > 0 {
                l.sort();
            }
            v.extend(l.into_iter().map(|s| format!("symbol of group {k}: {s}")));
        }
        v
    }
}

pub fn diff(want: &[String], got: &[String]) -> Result<(), String> {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        if w != g {
            return Err(format!("line {i}: wanted {w:?}, got {g:?}"));
        }
    }
    Ok(())
}

/// Reads a file.
pub fn dump(b: &[u8]) -> R<M> {
    let f = sm::parse_with(b, false)?;
    let rd = Rd { b, be: f.be, is64: f.is64 };
    let mut m = M { is64: f.is64, be: f.be, cpu: f.cputype, sub: f.cpusubtype, ft: f.filetype, flags: f.flags, ..M::default() };
    let (nsec, nsym) = (f.secs.len(), f.syms.len());
    let index = |i: u32, n: usize| if (i as usize) < n { Ok(i as usize) } else { Err(format!("index {i} of {n}")) };
    let indirect: Vec<u32> = match &f.dysym {
        Some(d) => (0..d[13] as u64).map(|i| rd.u32(d[12] as u64 + 4 * i)).collect::<R<_>>()?,
        None => vec![],
    };
    if let Some(d) = &f.dysym {
        if d[6..12].iter().chain(&d[14..]).any(|x| *x != 0) {
            return Err("LC_DYSYMTAB".into());
        }
    }
    for x in &f.secs {
        let n16 = |n: &[u8]| {
            let mut v = [0; 16];
            v[..n.len()].copy_from_slice(n);
            v
        };
        let mut s = MSec { name: n16(&x.name), seg: n16(&x.seg), addr: x.addr, size: x.size, align: x.align, flags: x.flags, off: x.offset, ..MSec::default() };
        s.stub = if x.flags & 0xff == 8 { x.reserved[1] } else { 0 };
        if !zerofill(x.flags) {
            s.data = Some(if x.size == 0 { vec![] } else { rd.bytes(x.offset as u64, x.size)?.to_vec() });
        }
        for k in 0..x.nreloc as u64 {
            let r = sm::reloc(&rd, x.reloff as u64 + 8 * k)?;
            let to = if m.addend(r.ty) {
                Tgt::Raw(r.num)
            } else if r.ext {
                Tgt::Sym(index(r.num, nsym)?)
            } else {
                Tgt::Sec(index(r.num.wrapping_sub(1), nsec)?)
            };
            s.rel.push(MRel { addr: r.addr, pcrel: r.pcrel, len: r.len, ty: r.ty, to });
        }
        let e = entry(&m, s.flags, s.stub);
        if e > 0 {
            let (a, n) = (x.reserved[0] as usize, (s.size / e) as usize);
            if n > 0 {
                let v = indirect.get(a..a.saturating_add(n)).ok_or_else(|| format!("indirect symbols {a}+{n} of {}", indirect.len()))?;
                for i in v {
                    s.ind.push(if i >> 30 == 0 { Ind::Sym(index(*i, nsym)?) } else { Ind::Flags(*i) });
                }
            }
        } else if x.reserved[0] != 0 {
            return Err("reserved1".into());
        }
        m.secs.push(s);
    }
    for y in &f.syms {
        let mut s = MSym { name: y.name.clone(), ty: y.ty, n_sect: y.sect, desc: y.desc, value: y.value, ..MSym::default() };
        let stab = y.ty & 0xe0 != 0;
        if !stab && y.ty & 0xe == 0xe || stab && stab_section(y.ty) && (1..=nsec).contains(&(y.sect as usize)) {
            s.sec = Some(index((y.sect as u32).wrapping_sub(1), nsec)?);
            s.n_sect = 0;
        }
        m.syms.push(s);
    }
    let mut at = 0;
    for (cmd, c) in &f.cmds {
        let d = Rd { b: c, ..rd };
        let blob = |at: u64| -> R<Vec<u8>> {
            let (o, n) = (d.u32(at)?, d.u32(at + 4)?);
            if n == 0 { Ok(vec![]) } else { Ok(rd.bytes(o as u64, n as u64)?.to_vec()) }
        };
        let body = |n: usize| c.len() == n || c.len() > n && false;
        let exact = |n: usize| if body(n) { Ok(()) } else { Err(format!("command {cmd:#x} of {} bytes", c.len())) };
        m.cmds.push(match *cmd {
            1 | 0x19 => {
                let k = m.segs.len();
                let g = &f.segs[k];
                let mut name = [0; 16];
                name[..g.name.len()].copy_from_slice(&g.name);
                let n = g.nsects as usize;
                m.segs.push(MSeg { name, vmaddr: g.vmaddr, vmsize: g.vmsize, maxprot: g.maxprot, initprot: g.initprot, flags: g.flags, secs: (at..at + n).collect(), del: false, fileoff: g.fileoff, filesize: g.filesize });
                at += n;
                C::Seg(k)
            }
            2 => C::Symtab,
            11 => C::Dysymtab,
            x if LIBS.contains(&x) || x == 0xd => {
                let o = d.u32(8)? as usize;
                let s = c.get(o..).ok_or("name offset")?;
                let n = s.iter().position(|b| *b == 0).ok_or("name isn't terminated")?;
                if s[n..].iter().any(|b| *b != 0) || o != 24 {
                    return Err("dylib command".into());
                }
                C::Lib(Lib { cmd: x, name: s[..n].to_vec(), v: [d.u32(12)?, d.u32(16)?, d.u32(20)?] })
            }
            0x32 => {
                let n = d.u32(20)? as usize;
                exact(24 + 8 * n)?;
                C::Build([d.u32(8)?, d.u32(12)?, d.u32(16)?], (0..n as u64).map(|i| Ok((d.u32(24 + 8 * i)?, d.u32(28 + 8 * i)?))).collect::<R<_>>()?)
            }
            0x8000_0022 => {
                exact(48)?;
                C::Dyld([blob(8)?, blob(16)?, blob(24)?, blob(32)?, blob(40)?])
            }
            x if LINKS.contains(&x) => {
                exact(16)?;
                C::Link(x, blob(8)?)
            }
            x => C::Other(x, c[8..].to_vec()),
        });
    }
    Ok(m)
}

/// Rules for the places of things in a file; `was` is what it was made from, and `page` divided its file offsets.
pub fn rules(b: &[u8], was: &M, page: u64) -> R<u64> {
    let f = sm::parse_with(b, false)?;
    let m = dump(b)?;
    let rd = Rd { b, be: f.be, is64: f.is64 };
    let mut map = Map::default();
    let mut n = 0;
    let head = m.head();
    map.add(0, head, "commands");
    for s in m.secs.iter().filter(|s| s.data.is_some()) {
        map.add(s.off as u64, s.size, String::from_utf8_lossy(&s.name));
    }
    for s in &f.secs {
        map.add(s.reloff as u64, 8 * s.nreloc as u64, "relocations");
    }
    let mut link = vec![];
    let mut add = |o: u64, size: u64, align: u64, what: String| {
        if size > 0 {
            if o % align != 0 {
                return Err(format!("{what} is at {o:#x}"));
            }
            map.add(o, size, what.clone());
            link.push((o, size, what));
        }
        Ok(())
    };
    for (cmd, c) in &f.cmds {
        let d = Rd { b: c, ..rd };
        match *cmd {
            2 => {
                add(d.u32(8)? as u64, d.u32(12)? as u64 * if m.is64 { 16 } else { 12 }, m.ptr(), "symbols".into())?;
                add(d.u32(16)? as u64, d.u32(20)? as u64, 1, "strings".into())?;
            }
            11 => add(d.u32(56)? as u64, 4 * d.u32(60)? as u64, 4, "indirect symbols".into())?,
            0x8000_0022 => {
                for k in 0..5 {
                    add(d.u32(8 + 8 * k)? as u64, d.u32(12 + 8 * k)? as u64, m.ptr(), format!("dyld info {k}"))?;
                }
            }
            x if LINKS.contains(&x) => add(d.u32(8)? as u64, d.u32(12)? as u64, if x == 0x1d { 16 } else { m.ptr() }, format!("data of command {x:#x}"))?,
            _ => {}
        }
    }
    map.check(b)?;
    n += link.len() as u64;
    if let Some(d) = &f.dysym {
        let (nl, ne) = (d[1] as usize, d[3] as usize);
        if d[0] != 0 || d[2] as usize != nl || d[4] as usize != nl + ne || nl + ne + d[5] as usize != m.syms.len() {
            return Err(format!("LC_DYSYMTAB {d:?} for {} symbols", m.syms.len()));
        }
        for (i, y) in m.syms.iter().enumerate() {
            let g = y.group();
            let k = if i < nl { 0 } else if i < nl + ne { 1 } else { 2 };
            if g != k && !(g == 3 && k < 2) {
                return Err(format!("symbol {i} type {:#x} is in group {k} of LC_DYSYMTAB", y.ty));
            }
            if k > 0 && i > 0 && i != nl && i != nl + ne && m.syms[i - 1].name > y.name {
                return Err(format!("symbols {} and {i} aren't sorted", i - 1));
            }
        }
        n += 1;
    }
    if m.obj() {
        return Ok(n);
    }
    let mut file = vec![];
    let mut mem = vec![];
    for (k, g) in m.segs.iter().enumerate() {
        let at = |e: &str| Err(format!("segment {k} at {:#x}+{:#x}, file {:#x}+{:#x}: {e}", g.vmaddr, g.vmsize, g.fileoff, g.filesize));
        if g.filesize > g.vmsize {
            return at("the file range is larger");
        }
        if g.fileoff + g.filesize > b.len() as u64 {
            return at("it is past the end of the file");
        }
        if g.filesize > 0 {
            file.push((g.fileoff, g.filesize));
            let mapped = m.segs.iter().any(|g| g.filesize > 0 && !g.linkedit());
            if mapped && g.fileoff % page != g.vmaddr % page && !was.segs.iter().any(|g| g.vmaddr % page != 0) {
                return at("it isn't aligned");
            }
        }
        if g.vmsize > 0 {
            mem.push((g.vmaddr, g.vmsize));
        }
        for &s in &g.secs {
            let x = &m.secs[s];
            let at = |e: &str| Err(format!("section {s} at {:#x}+{:#x}, offset {:#x}, segment at {:#x}+{:#x} {:#x}+{:#x}: {e}", x.addr, x.size, x.off, g.vmaddr, g.vmsize, g.fileoff, g.filesize));
            if x.addr < g.vmaddr || x.addr + x.size > g.vmaddr + g.vmsize {
                return at("not in its segment");
            }
            if x.data.is_none() {
                if x.off != 0 {
                    return at("zerofill with an offset");
                }
            } else if x.size > 0 {
                let o = x.off as u64;
                if o < g.fileoff || o - g.fileoff != x.addr - g.vmaddr || o + x.size > g.fileoff + g.filesize {
                    return at("not where its segment is");
                }
            }
            n += 1;
        }
    }
    for (v, what) in [(&mut file, "file"), (&mut mem, "memory")] {
        v.sort();
        for w in v.windows(2) {
            if w[0].0 + w[0].1 > w[1].0 {
                return Err(format!("segments overlap in {what}: {w:x?}"));
            }
        }
    }
    if was.segs.iter().any(|g| !g.del && g.filesize > 0 && g.fileoff == 0) {
        let first = m.segs.iter().filter(|g| g.filesize > 0 && !g.linkedit()).min_by_key(|g| g.vmaddr);
        if let Some(g) = first {
            if g.fileoff != 0 || g.filesize < head {
                return Err(format!("the first segment {g:x?} doesn't have the commands of {head:#x} bytes"));
            }
        }
    }
    if let Some(g) = m.segs.iter().find(|g| g.linkedit()) {
        for (o, s, what) in &link {
            if *o < g.fileoff || o + s > g.fileoff + g.filesize {
                return Err(format!("{what} at {o:#x}+{s:#x} isn't in __LINKEDIT at {:#x}+{:#x}", g.fileoff, g.filesize));
            }
        }
        if g.fileoff + g.filesize != b.len() as u64 {
            return Err("__LINKEDIT doesn't end the file".into());
        }
    }
    Ok(n)
}

fn libname(r: &mut Rng) -> Vec<u8> {
    format!("/usr/lib/{}.dylib", r.ident(20)).into_bytes()
}
pub fn lib(r: &mut Rng) -> Lib {
    Lib { cmd: *r.pick(LIBS), name: libname(r), v: [r.edgy(32) as u32, r.edgy(32) as u32, r.edgy(32) as u32] }
}
pub fn command(r: &mut Rng, is64: bool) -> C {
    match r.below(8) {
        0 | 1 => C::Lib(lib(r)),
        2 => C::Build([r.below(12) as u32, r.edgy(32) as u32, r.edgy(32) as u32], (0..r.below(3)).map(|_| (r.below(5) as u32, r.edgy(32) as u32)).collect()),
        3 | 4 => {
            let n = if r.one_in(5) { 0 } else { r.idx(40) };
            C::Link(*r.pick(LINKS), r.bytes(n))
        }
        5 => C::Dyld(std::array::from_fn(|_| {
            let n = if r.one_in(3) { 0 } else { r.idx(30) };
            r.bytes(n)
        })),
        6 => C::Other(0x1b, r.bytes(16)),
        _ => match r.below(4) {
            0 => C::Other(0x2a, r.bytes(8)),
            1 => C::Other(0x8000_0028, r.bytes(16)),
            2 => C::Other(if is64 { 0x2c } else { 0x21 }, r.bytes(if is64 { 16 } else { 12 })),
            _ => {
                let mut d = vec![12, 0, 0, 0];
                d.extend_from_slice(b"/usr/lib/dyld\0\0\0");
                C::Other(0xe, d)
            }
        },
    }
}
pub fn symbol(r: &mut Rng, m: &M, secs: &[usize]) -> MSym {
    let mut y = MSym { name: format!("_{}", r.ident(16)).into_bytes(), ty: *r.pick(&[0, 1, 1, 0xe, 0xf, 0xf, 0xf, 0x1e, 0x1f, 2, 3, 0xb]), desc: r.edgy(16) as u16, ..MSym::default() };
    if r.one_in(12) {
        y.name.clear();
    }
    if r.one_in(8) {
        y.name = b"_same".to_vec();
    }
    if r.one_in(6) {
        y.ty = *r.pick(&[0x20, 0x24, 0x26, 0x28, 0x2e, 0x44, 0x4e, 0x64, 0x66, 0x84, 0xa4, 0xe2, 0xe8]);
        if stab_section(y.ty) && !r.one_in(4) && !secs.is_empty() {
            y.sec = Some(*r.pick(secs));
        } else if !stab_section(y.ty) && r.one_in(3) {
            y.n_sect = r.edgy(8) as u8;
        }
    } else if y.ty & 0xe == 0xe {
        if secs.is_empty() {
            y.ty = 1;
        } else {
            y.sec = Some(*r.pick(secs));
        }
    }
    y.value = match y.sec {
        Some(s) => m.secs[s].addr + r.below(m.secs[s].size + 1),
        None => r.edgy(if m.is64 { 64 } else { 32 }),
    };
    y
}
pub fn rel(r: &mut Rng, m: &M, size: u64, secs: &[usize], out: &mut Vec<MRel>) {
    let sym = |r: &mut Rng| if m.syms.is_empty() { None } else { Some(Tgt::Sym(r.idx(m.syms.len()))) };
    let any = |r: &mut Rng, pcrel: bool| {
        let t = if r.one_in(4) && !(pcrel && m.cpu == 0x0100_000c) { Some(Tgt::Sec(*r.pick(secs))) } else { sym(r) };
        t.or_else(|| Some(Tgt::Sec(*r.pick(secs)))).unwrap()
    };
    let addr = r.below(size.max(1)) as u32;
    let len = r.below(if m.is64 { 4 } else { 3 }) as u8;
    if r.one_in(5) && m.cpu >> 24 == 1 && m.cpu & 0xff != 0x12 && !m.syms.is_empty() {
        let ty = if m.cpu == 0x0100_0007 { 5 } else { 1 };
        out.push(MRel { addr, pcrel: false, len, ty, to: sym(r).unwrap() });
        let to = any(r, false);
        out.push(MRel { addr, pcrel: false, len, ty: 0, to });
        return;
    }
    let ty = match m.cpu {
        0x0100_0007 => *r.pick(&[0, 1, 2, 3, 4, 6, 7, 8, 9]),
        0x0100_000c => *r.pick(&[0, 2, 3, 4, 5, 6, 7, 8, 9, 11]),
        _ => 0,
    };
    let pcrel = r.bool();
    let to = any(r, pcrel);
    out.push(MRel { addr, pcrel, len, ty, to });
}

/// Makes a file, and says whether a builder may have to give sections other addresses.
pub fn image(r: &mut Rng) -> (M, Vec<u8>, bool) {
    image_with(r, false)
}
/// If `addends`, then an object for ARM64 that may have addends that are relocations.
pub fn image_with(r: &mut Rng, addends: bool) -> (M, Vec<u8>, bool) {
    let obj = r.bool() || addends;
    let cpu = if addends { 0x0100_000c } else { *r.pick(&[0x0100_0007, 0x0100_000c, 7, 12, 18, 0x0100_0012]) };
    let is64 = cpu >> 24 == 1;
    let mut m = M { is64, be: cpu & 0xff == 18, cpu, sub: r.edgy(8) as u32, ft: if obj { 1 } else { *r.pick(&[2, 6, 6, 8, 9]) }, flags: r.u32() & 0xff_ffff, ..M::default() };
    if r.one_in(10) {
        m.be = !m.be;
    }
    let page: u64 = if obj { 1 } else { *r.pick(&[0x40, 0x100, 0x400, 0x1000, 0x4000, 0x8000]) };
    let small = |r: &mut Rng| if r.one_in(6) { 0 } else { r.below(60) };
    // Segments and sections, without addresses.
    let mut plan: Vec<(&str, usize, bool)> = vec![];
    if obj {
        plan.push(("", r.idx(7), true));
    } else {
        if r.bool() {
            plan.push(("__PAGEZERO", 0, false));
        }
        for n in ["__TEXT", "__DATA_CONST", "__DATA", "__MORE"] {
            if n == "__TEXT" || r.bool() {
                plan.push((n, 1 + r.idx(4), true));
            }
        }
        if !r.one_in(8) {
            plan.push(("__LINKEDIT", 0, false));
        }
    }
    let mut types: Vec<u32> = vec![];
    for (name, n, _) in &plan {
        let mut g = MSeg { name: name16(name), maxprot: r.below(8) as u32, initprot: r.below(8) as u32, flags: if r.one_in(3) { r.edgy(32) as u32 } else { 0 }, ..MSeg::default() };
        for k in 0..*n {
            let seg = if obj || r.one_in(8) { ["__TEXT", "__DATA", "__DWARF"][r.idx(3)] } else { *name };
            let mut ty = *r.pick(&[0, 0, 0, 2, 3, 4, 6, 7, 8, 9, 0xb, 0x11, 0x13, 0x14, 1, 0x12]);
            // Zerofill sections come last in an image.
            if !obj && zerofill(ty) && (k + 1 != *n || k == 0) {
                ty = 0;
            }
            let full = r.one_in(6);
            let nm = if full { format!("__{:x<14}", r.ident(14)) } else { format!("__{}", r.ident(8)) };
            let mut s = MSec { name: name16(&nm[..nm.len().min(16)]), seg: name16(seg), align: r.below(5) as u32, flags: ty | (r.u32() & 0x7f) << 25, ..MSec::default() };
            if ty == 8 {
                s.stub = r.range(1, 16) as u32;
            }
            let e = entry(&m, ty, s.stub);
            s.size = if e > 0 { e * r.below(5) } else { small(r) };
            if !zerofill(ty) {
                s.data = Some(r.bytes(s.size as usize));
            }
            types.push(ty);
            g.secs.push(m.secs.len());
            m.secs.push(s);
        }
        m.cmds.push(C::Seg(m.segs.len()));
        m.segs.push(g);
    }
    // Other commands, before the layout.
    let tables = !r.one_in(10);
    let mut rest = vec![];
    if tables {
        rest.push(C::Symtab);
        if r.one_in(8) && m.secs.iter().all(|s| entry(&m, s.flags, s.stub) == 0) && !obj {
            // Without LC_DYSYMTAB
        } else {
            rest.push(C::Dysymtab);
        }
    }
    if !obj && m.ft == 6 {
        let mut l = lib(r);
        l.cmd = 0xd;
        rest.push(C::Lib(l));
    }
    let mut seen = vec![];
    for _ in 0..r.idx(7) {
        let c = command(r, is64);
        let kind = match &c {
            C::Link(k, _) => *k,
            C::Dyld(_) => 1,
            C::Other(k, _) => *k,
            C::Build(..) => 2,
            _ => 0,
        };
        if kind != 0 && seen.contains(&kind) && !r.one_in(10) {
            continue;
        }
        seen.push(kind);
        rest.push(c);
    }
    r.shuffle(&mut rest);
    for c in rest {
        if r.bool() || !tables {
            m.cmds.push(c);
        } else {
            let k = r.idx(m.cmds.len() + 1);
            m.cmds.insert(k, c);
        }
    }
    if !tables {
        for s in &mut m.secs {
            if entry(&M { is64, ..M::default() }, s.flags, s.stub) > 0 {
                s.flags &= !0xff;
                s.stub = 0;
            }
        }
    }
    // Commands that have an unaligned size are invalid.
    let p = m.ptr();
    for i in 0..m.cmds.len() {
        let n = m.cmd_size(&m.cmds[i]);
        if let C::Other(_, d) = &mut m.cmds[i] {
            let pad = n.next_multiple_of(p) - n;
            d.resize(d.len() + pad as usize, 0);
        }
    }
    // Addresses.
    let mut moves = false;
    if obj {
        let odd = r.one_in(4);
        let mut a = 0;
        let mut order: Vec<usize> = (0..m.secs.len()).filter(|s| m.secs[*s].data.is_some()).collect();
        let z: Vec<usize> = (0..m.secs.len()).filter(|s| m.secs[*s].data.is_none()).collect();
        if odd {
            r.shuffle(&mut order);
        }
        let data = order.len();
        order.extend(z);
        for (k, s) in order.into_iter().enumerate() {
            if odd && r.one_in(3) {
                a += r.below(20);
            }
            if k == data {
                m.segs[0].filesize = a;
            }
            a = a.next_multiple_of(1 << m.secs[s].align);
            m.secs[s].addr = a;
            a += m.secs[s].size;
            if k < data {
                m.segs[0].filesize = a;
            }
        }
        m.segs[0].vmsize = a;
        moves = odd;
    } else {
        let base = if is64 && r.bool() { 0x1_0000_0000 } else { 0x1_0000 };
        let mut a: u64 = 0;
        let mut first = true;
        for i in 0..m.segs.len() {
            let pz = m.segs[i].name[..5] == *b"__PAG";
            if pz {
                m.segs[i].vmsize = base;
                a = base;
                continue;
            }
            if r.one_in(6) {
                a += page * r.below(3);
            }
            m.segs[i].vmaddr = a;
            let mut at = a;
            if first {
                let gap = if r.one_in(3) { 8 } else { 300 };
                at += m.head() + r.below(gap);
            }
            let mut end = at;
            for s in m.segs[i].secs.clone() {
                if r.one_in(4) {
                    at += r.below(20);
                }
                at = at.next_multiple_of(1 << m.secs[s].align);
                m.secs[s].addr = at;
                at += m.secs[s].size;
                if m.secs[s].data.is_some() {
                    end = at;
                }
            }
            let g = &mut m.segs[i];
            g.filesize = (end - a).next_multiple_of(page);
            if end == a {
                g.filesize = 0;
            }
            g.vmsize = (at - a).next_multiple_of(page).max(g.filesize);
            if r.one_in(5) {
                g.vmsize += page;
            }
            // Not rounded up, where nothing follows.
            if r.one_in(6) && m.segs.len() == i + 1 {
                let g = &mut m.segs[i];
                g.filesize = end - a;
                g.vmsize = (at - a).max(g.filesize);
            }
            a += m.segs[i].vmsize;
            first = false;
        }
    }
    // Symbols, relocations and indirect symbols.
    let secs: Vec<usize> = (0..m.secs.len()).collect();
    if tables {
        let n = r.idx(16);
        for _ in 0..n {
            let y = symbol(r, &m, &secs);
            m.syms.push(y);
        }
        if !r.one_in(6) {
            m.syms.sort_by_key(|y| match y.group() {
                3 => 1,
                g => g,
            });
        }
    }
    for s in 0..m.secs.len() {
        if obj && r.bool() && m.secs[s].data.is_some() && m.secs[s].size > 0 {
            for _ in 0..r.idx(6) {
                let mut v = vec![];
                rel(r, &m, m.secs[s].size, &secs, &mut v);
                if addends && r.bool() && !m.syms.is_empty() {
                    let addr = r.below(m.secs[s].size.max(1)) as u32;
                    let n = if r.bool() { r.idx(4) as u32 } else { r.edgy(24) as u32 };
                    v.push(MRel { addr, pcrel: false, len: 2, ty: ARM64_ADDEND, to: Tgt::Raw(n) });
                    v.push(MRel { addr, pcrel: r.bool(), len: 2, ty: 3, to: Tgt::Sym(r.idx(m.syms.len())) });
                }
                m.secs[s].rel.append(&mut v);
            }
        }
        let e = entry(&m, m.secs[s].flags, m.secs[s].stub);
        if e > 0 {
            for _ in 0..m.secs[s].size / e {
                let i = if m.syms.is_empty() || r.one_in(4) { Ind::Flags(*r.pick(&[0x8000_0000, 0x4000_0000, 0xc000_0000])) } else { Ind::Sym(r.idx(m.syms.len())) };
                m.secs[s].ind.push(i);
            }
        }
    }
    let b = encode(&mut m, r, page);
    (m, b, moves)
}

fn encode(m: &mut M, r: &mut Rng, page: u64) -> Vec<u8> {
    let head = m.head();
    let obj = m.obj();
    let mut w = W::new(m.be, m.is64);
    // Places of segments.
    let mut end;
    if obj {
        let off = head + if r.one_in(3) { r.below(16) } else { 0 };
        m.segs[0].fileoff = off;
        end = off + m.segs[0].filesize;
    } else {
        end = 0;
        for g in m.segs.iter_mut().filter(|g| g.filesize > 0) {
            end = u64::next_multiple_of(end, page);
            if r.one_in(6) && end > 0 {
                end += page;
            }
            g.fileoff = end;
            end += g.filesize;
        }
        end = u64::next_multiple_of(end.max(head), page);
    }
    for g in &m.segs {
        for &s in &g.secs {
            if m.secs[s].data.is_some() {
                m.secs[s].off = (g.fileoff + m.secs[s].addr - g.vmaddr) as u32;
            }
        }
    }
    // The rest, in any order.
    let link_start = end;
    #[derive(Clone, PartialEq)]
    enum Blob {
        Syms,
        Strs,
        Ind,
        Cmd(usize, usize),
        Rel(usize),
    }
    let mut strs = vec![0u8];
    let strx: Vec<u32> = m
        .syms
        .iter()
        .map(|y| {
            if y.name.is_empty() {
                return 0;
            }
            let o = strs.len();
            strs.extend_from_slice(&y.name);
            strs.push(0);
            o as u32
        })
        .collect();
    let mut blobs: Vec<(Blob, Vec<u8>)> = vec![];
    let mut sy = W::new(m.be, m.is64);
    for (y, x) in m.syms.iter().zip(&strx) {
        sy.u32(*x).u8(y.ty).u8(y.sec.map_or(y.n_sect, |s| s as u8 + 1)).u16(y.desc).word(y.value);
    }
    let has = m.cmds.contains(&C::Symtab);
    if has {
        blobs.push((Blob::Syms, sy.b));
        blobs.push((Blob::Strs, strs));
    }
    let mut iw = W::new(m.be, m.is64);
    let mut order: Vec<usize> = (0..m.secs.len()).filter(|s| !m.secs[*s].ind.is_empty()).collect();
    r.shuffle(&mut order);
    let mut first = vec![0u32; m.secs.len()];
    for s in order {
        while r.one_in(5) {
            iw.u32(0x8000_0000);
        }
        first[s] = iw.len() as u32 / 4;
        for i in &m.secs[s].ind {
            iw.u32(match i {
                Ind::Sym(y) => *y as u32,
                Ind::Flags(f) => *f,
            });
        }
    }
    let nind = iw.len() as u32 / 4;
    blobs.push((Blob::Ind, iw.b));
    for (i, c) in m.cmds.iter().enumerate() {
        match c {
            C::Link(_, d) => blobs.push((Blob::Cmd(i, 0), d.clone())),
            C::Dyld(v) => v.iter().enumerate().for_each(|(k, d)| blobs.push((Blob::Cmd(i, k), d.clone()))),
            _ => {}
        }
    }
    for (i, s) in m.secs.iter().enumerate() {
        let mut rw = W::new(m.be, m.is64);
        for x in &s.rel {
            rw.u32(x.addr);
            let (num, ext) = match x.to {
                Tgt::Sym(y) => (y as u32, 1),
                Tgt::Sec(s) => (s as u32 + 1, 0),
                Tgt::Raw(n) => (n, 0),
            };
            let (p, l, t) = (x.pcrel as u32, x.len as u32, x.ty as u32);
            rw.u32(if m.be { num << 8 | p << 7 | l << 5 | ext << 4 | t } else { t << 28 | ext << 27 | l << 25 | p << 24 | num });
        }
        if !rw.b.is_empty() {
            blobs.push((Blob::Rel(i), rw.b));
        }
    }
    r.shuffle(&mut blobs);
    let mut offs = vec![];
    for (k, b) in &blobs {
        end = end.next_multiple_of(if matches!(k, Blob::Cmd(i, _) if matches!(m.cmds[*i], C::Link(0x1d, _))) { 16 } else { 8 });
        if r.one_in(4) {
            end += 8 * r.below(3);
            end = end.next_multiple_of(16);
        }
        offs.push(if b.is_empty() { 0 } else { end as u32 });
        end += b.len() as u64;
    }
    let off = |k: Blob| blobs.iter().position(|b| b.0 == k).map_or((0, 0), |i| (offs[i], blobs[i].1.len() as u32));
    for g in m.segs.iter_mut().filter(|g| g.linkedit()) {
        g.fileoff = link_start;
        g.filesize = end - link_start;
        g.vmsize = g.filesize.next_multiple_of(page);
    }
    // Write.
    w.u32(if m.is64 { 0xfeed_facf } else { 0xfeed_face }).u32(m.cpu).u32(m.sub).u32(m.ft);
    w.u32(m.cmds.len() as u32).u32((head - if m.is64 { 32 } else { 28 }) as u32).u32(m.flags);
    if m.is64 {
        w.u32(0);
    }
    for (i, c) in m.cmds.iter().enumerate() {
        let n = m.cmd_size(c) as u32;
        let start = w.len();
        match c {
            C::Seg(g) => {
                let g = &m.segs[*g];
                w.u32(if m.is64 { 0x19 } else { 1 }).u32(n).put(&g.name).word(g.vmaddr).word(g.vmsize).word(g.fileoff).word(g.filesize);
                w.u32(g.maxprot).u32(g.initprot).u32(g.secs.len() as u32).u32(g.flags);
                for &s in &g.secs {
                    let x = &m.secs[s];
                    let ro = off(Blob::Rel(s)).0;
                    w.put(&x.name).put(&x.seg).word(x.addr).word(x.size).u32(x.off).u32(x.align).u32(ro).u32(x.rel.len() as u32).u32(x.flags).u32(first[s]).u32(x.stub);
                    if m.is64 {
                        w.u32(0);
                    }
                }
            }
            C::Symtab => {
                let ((a, _), (t, tn)) = (off(Blob::Syms), off(Blob::Strs));
                w.u32(2).u32(n).u32(a).u32(m.syms.len() as u32).u32(t).u32(tn);
            }
            C::Dysymtab => {
                let cnt = |k: &[u8]| m.syms.iter().filter(|y| k.contains(&y.group())).count() as u32;
                let (l, e, u) = (cnt(&[0]), cnt(&[1, 3]), cnt(&[2]));
                w.u32(11).u32(n).u32(0).u32(l).u32(l).u32(e).u32(l + e).u32(u);
                for _ in 0..6 {
                    w.u32(0);
                }
                w.u32(off(Blob::Ind).0).u32(nind);
                for _ in 0..4 {
                    w.u32(0);
                }
            }
            C::Lib(l) => {
                w.u32(l.cmd).u32(n).u32(24).u32(l.v[0]).u32(l.v[1]).u32(l.v[2]).put(&l.name);
            }
            C::Build(v, t) => {
                w.u32(0x32).u32(n).u32(v[0]).u32(v[1]).u32(v[2]).u32(t.len() as u32);
                for (a, b) in t {
                    w.u32(*a).u32(*b);
                }
            }
            C::Link(k, _) => {
                let (a, s) = off(Blob::Cmd(i, 0));
                w.u32(*k).u32(n).u32(a).u32(s);
            }
            C::Dyld(_) => {
                w.u32(0x8000_0022).u32(n);
                for k in 0..5 {
                    let (a, s) = off(Blob::Cmd(i, k));
                    w.u32(a).u32(s);
                }
            }
            C::Other(k, d) => {
                w.u32(*k).u32(n).put(d);
            }
        }
        w.b.resize(start + n as usize, 0);
    }
    for s in &m.secs {
        if let Some(d) = s.data.as_ref().filter(|d| !d.is_empty()) {
            let o = s.off as usize;
            if w.b.len() < o + d.len() {
                w.b.resize(o + d.len(), 0);
            }
            w.b[o..o + d.len()].copy_from_slice(d);
        }
    }
    for ((_, d), o) in blobs.iter().zip(&offs) {
        if !d.is_empty() {
            w.b.resize((*o as usize + d.len()).max(w.b.len()), 0);
            w.b[*o as usize..*o as usize + d.len()].copy_from_slice(d);
        }
    }
    let size = m.segs.iter().map(|g| g.fileoff + g.filesize).max().unwrap_or(0).max(end) as usize;
    w.b.resize(size.max(w.b.len()), 0);
    w.b
}

/// The largest page size, up to 16K, that divides the file offsets of the segments.
pub fn page(m: &M) -> u64 {
    let bits = m.segs.iter().map(|g| g.fileoff.trailing_zeros()).min().unwrap_or(64);
    1 << bits.min(14)
}

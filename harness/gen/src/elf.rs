//! ELF assembler.
use crate::w::*;
use vcore::Rng;

pub use crate::elf_rel::{Cls, ELF_RELS, End};

#[derive(Clone, Debug, Default)]
pub struct Sec {
    pub name: Vec<u8>,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub data: Vec<u8>,
    /// Size field when it is not data.len() (SHT_NOBITS, index 0).
    pub size: Option<u64>,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
    /// Set by build.
    pub offset: u64,
    pub name_off: u32,
    /// Alignment used when placing the data in the file.
    pub place: usize,
}

#[derive(Clone, Debug)]
pub enum SegData {
    Blob(Vec<u8>),
    Sec(usize),
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub ty: u32,
    pub flags: u32,
    pub vaddr: u64,
    pub paddr: u64,
    pub memsz: u64,
    pub align: u64,
    pub data: SegData,
    /// Set by build.
    pub offset: u64,
    pub filesz: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Elf {
    pub is64: bool,
    pub be: bool,
    pub machine: u16,
    pub etype: u16,
    pub flags: u32,
    pub osabi: u8,
    pub abiver: u8,
    pub entry: u64,
    /// Index 0 is the null section when there are any.
    pub secs: Vec<Sec>,
    pub segs: Vec<Seg>,
    pub shstrndx: usize,
    pub ext_shnum: bool,
    pub ext_shstrndx: bool,
    pub ext_phnum: bool,
    // Set by build.
    pub shoff: u64,
    pub phoff: u64,
    pub e_shnum: u16,
    pub e_phnum: u16,
    pub e_shstrndx: u16,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sym {
    pub name: Vec<u8>,
    pub name_off: u32,
    pub value: u64,
    pub size: u64,
    pub bind: u8,
    pub ty: u8,
    pub other: u8,
    pub shndx: u16,
    pub xindex: u32,
}

pub fn sym_bytes(w: &mut W, s: &Sym) {
    let info = s.bind << 4 | s.ty;
    w.u32(s.name_off);
    if w.is64 {
        w.u8(info).u8(s.other).u16(s.shndx).u64(s.value).u64(s.size);
    } else {
        w.u32(s.value as u32).u32(s.size as u32).u8(info).u8(s.other).u16(s.shndx);
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Reloc {
    pub off: u64,
    pub sym: u32,
    pub ty: u32,
    pub addend: i64,
}

/// The plain r_info value.
pub fn r_info(is64: bool, sym: u32, ty: u32) -> u64 {
    if is64 { (sym as u64) << 32 | ty as u64 } else { (sym as u64) << 8 | (ty as u64 & 0xff) }
}

/// `mips`: 64-bit MIPS uses a field-wise layout: r_sym (32 bits, file order)
/// then ssym, type3, type2, type as single bytes.
pub fn rel_bytes(w: &mut W, x: &Reloc, rela: bool, mips: bool) {
    w.word(x.off);
    if mips && w.is64 {
        w.u32(x.sym);
        let t = x.ty;
        w.u8((t >> 24) as u8).u8((t >> 16) as u8).u8((t >> 8) as u8).u8(t as u8);
    } else {
        let i = r_info(w.is64, x.sym, x.ty);
        w.word(i);
    }
    if rela {
        w.word(x.addend as u64);
    }
}

/// Encodes relocations as SHT_CREL.  Values wrap modulo 2^64 as defined.
pub fn crel_bytes(rs: &[Reloc], addends: bool, shift: u32) -> Vec<u8> {
    let mut o = Vec::new();
    uleb(&mut o, (rs.len() as u64) << 3 | (addends as u64) << 2 | shift as u64);
    let (mut off, mut sym, mut ty, mut add) = (0u64, 0u32, 0u32, 0i64);
    let flags = if addends { 3 } else { 2 };
    for x in rs {
        let d = (x.off.wrapping_sub(off)) >> shift;
        let mut b = 0u64;
        if x.sym != sym {
            b |= 1;
        }
        if x.ty != ty {
            b |= 2;
        }
        if addends && x.addend != add {
            b |= 4;
        }
        // First byte: low delta bits plus flags, then the rest of the delta.
        let low = d & ((1 << (7 - flags)) - 1);
        let rest = d >> (7 - flags);
        let first = (low << flags | b) as u8;
        if rest == 0 {
            o.push(first);
        } else {
            o.push(first | 0x80);
            uleb(&mut o, rest);
        }
        if b & 1 != 0 {
            sleb(&mut o, x.sym.wrapping_sub(sym) as i32 as i64);
        }
        if b & 2 != 0 {
            sleb(&mut o, x.ty.wrapping_sub(ty) as i32 as i64);
        }
        if b & 4 != 0 {
            sleb(&mut o, x.addend.wrapping_sub(add));
        }
        off = x.off;
        sym = x.sym;
        ty = x.ty;
        add = x.addend;
    }
    o
}

/// Encodes sorted even addresses (multiples of the word size apart within a
/// run) as SHT_RELR; returns words.
pub fn relr_words(is64: bool, addrs: &[u64]) -> Vec<u64> {
    let ws = if is64 { 8u64 } else { 4 };
    let nbits = ws * 8 - 1;
    let mut out = Vec::new();
    let mut i = 0;
    while i < addrs.len() {
        out.push(addrs[i]);
        let mut base = addrs[i].wrapping_add(ws);
        i += 1;
        loop {
            let mut bm = 0u64;
            while i < addrs.len() {
                let d = addrs[i].wrapping_sub(base);
                if d >= nbits * ws || d % ws != 0 {
                    break;
                }
                bm |= 1 << (d / ws);
                i += 1;
            }
            if bm == 0 {
                break;
            }
            out.push(bm << 1 | 1);
            base = base.wrapping_add(nbits * ws);
        }
    }
    out
}

impl Elf {
    pub fn w(&self) -> W {
        W::new(self.be, self.is64)
    }
    pub fn mask(&self) -> u64 {
        if self.is64 { u64::MAX } else { 0xffff_ffff }
    }
    pub fn add(&mut self, s: Sec) -> usize {
        if self.secs.is_empty() {
            self.secs.push(Sec::default());
        }
        self.secs.push(s);
        self.secs.len() - 1
    }
    /// Adds the section name string table (must be the last step before build
    /// as it names every section).
    pub fn finish_names(&mut self, r: &mut Rng) {
        let idx = self.add(Sec { name: b".shstrtab".to_vec(), ty: 3, align: 1, ..Default::default() });
        let mut st = Strs::new();
        let many = self.secs.len() > 1000;
        for s in &mut self.secs {
            s.name_off = if s.name.is_empty() {
                0
            } else if many {
                let o = st.b.len();
                st.b.extend_from_slice(&s.name);
                st.b.push(0);
                o as u32
            } else {
                st.add(r, &s.name) as u32
            };
        }
        self.secs[idx].data = st.b;
        self.shstrndx = idx;
    }
    /// Moves the section at `a` to `b`'s place and vice versa is left to the
    /// caller; build only assigns offsets and writes.
    pub fn build(&mut self, r: &mut Rng, shuffle: bool) -> Vec<u8> {
        let (ehs, phs, shs) = if self.is64 { (64, 56, 64) } else { (52, 32, 40) };
        let ws = if self.is64 { 8 } else { 4 };
        let n = self.secs.len();
        let mut items: Vec<(usize, usize)> = Vec::new();
        for s in &self.secs {
            items.push((s.data.len(), s.place.max(1)));
        }
        for s in &self.segs {
            items.push((if let SegData::Blob(b) = &s.data { b.len() } else { 0 }, 1.max(if s.ty == 2 || s.ty == 4 { 8 } else { 1 })));
        }
        items.push((self.segs.len() * phs, ws));
        items.push((n * shs, ws));
        let (off, end) = layout(r, ehs, &items, shuffle);
        let k = items.len();
        self.phoff = if self.segs.is_empty() { if r.one_in(3) { 0 } else { off[k - 2] as u64 } } else { off[k - 2] as u64 };
        self.shoff = if n == 0 { 0 } else { off[k - 1] as u64 };
        let phnum = self.segs.len();
        self.ext_shnum |= n >= 0xff00;
        self.ext_shstrndx |= self.shstrndx >= 0xff00;
        self.ext_phnum |= phnum >= 0xffff;
        if n == 0 {
            self.ext_shnum = false;
            self.ext_shstrndx = false;
            self.ext_phnum = false;
        }
        self.e_shnum = if self.ext_shnum { 0 } else { n as u16 };
        self.e_phnum = if self.ext_phnum { 0xffff } else { phnum as u16 };
        self.e_shstrndx = if self.ext_shstrndx { 0xffff } else { self.shstrndx as u16 };
        let mut w = self.w();
        w.b.reserve(off[k - 1] + n * shs);
        w.put(&[0x7f, b'E', b'L', b'F', if self.is64 { 2 } else { 1 }, if self.be { 2 } else { 1 }, 1, self.osabi, self.abiver]);
        w.zeros(7);
        w.u16(self.etype).u16(self.machine).u32(1).word(self.entry).word(self.phoff).word(self.shoff).u32(self.flags);
        w.u16(ehs as u16).u16(phs as u16).u16(self.e_phnum).u16(shs as u16).u16(self.e_shnum).u16(self.e_shstrndx);
        debug_assert_eq!(w.len(), ehs);
        for i in 0..n {
            self.secs[i].offset = if i == 0 { 0 } else { off[i] as u64 };
            let d = std::mem::take(&mut self.secs[i].data);
            if !d.is_empty() {
                w.place(off[i], &d);
            }
            self.secs[i].data = d;
        }
        for i in 0..phnum {
            let (o, z) = match &self.segs[i].data {
                SegData::Blob(b) => {
                    w.place(off[n + i], b);
                    (off[n + i] as u64, b.len() as u64)
                }
                SegData::Sec(j) => {
                    let s = &self.secs[*j];
                    (s.offset, if s.ty == 8 { 0 } else { s.data.len() as u64 })
                }
            };
            self.segs[i].offset = o;
            self.segs[i].filesz = z;
        }
        if n > 0 {
            if self.ext_shnum {
                self.secs[0].size = Some(n as u64);
            }
            if self.ext_shstrndx {
                self.secs[0].link = self.shstrndx as u32;
            }
            if self.ext_phnum {
                self.secs[0].info = phnum as u32;
            }
        }
        let mut p = self.w();
        for s in &self.segs {
            if self.is64 {
                p.u32(s.ty).u32(s.flags).u64(s.offset).u64(s.vaddr).u64(s.paddr).u64(s.filesz).u64(s.memsz).u64(s.align);
            } else {
                p.u32(s.ty).word(s.offset).word(s.vaddr).word(s.paddr).word(s.filesz).word(s.memsz).u32(s.flags).word(s.align);
            }
        }
        w.place(off[k - 2], &p.b);
        let mut h = self.w();
        h.b.reserve(n * shs);
        for s in &self.secs {
            h.u32(s.name_off).u32(s.ty).word(s.flags).word(s.addr).word(s.offset);
            h.word(s.size.unwrap_or(s.data.len() as u64)).u32(s.link).u32(s.info).word(s.align).word(s.entsize);
        }
        w.place(off[k - 1], &h.b);
        w.place(end, &[]);
        w.b
    }
    pub fn sym_table(&self, syms: &[Sym]) -> Vec<u8> {
        let mut w = self.w();
        for s in syms {
            sym_bytes(&mut w, s);
        }
        w.b
    }
    pub fn rel_table(&self, rs: &[Reloc], rela: bool) -> Vec<u8> {
        let mut w = self.w();
        // Rel entries have no field-wise variant in the reader's model only
        // for little-endian; big-endian layouts coincide.
        let mips = self.is64 && self.machine == 8 && (rela || self.be);
        for x in rs {
            rel_bytes(&mut w, x, rela, mips);
        }
        w.b
    }
}

//! XCOFF assembler (always big-endian).
use crate::w::*;
use vcore::Rng;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct XReloc {
    pub addr: u64,
    pub sym: u32,
    pub size: u8,
    pub ty: u8,
}

#[derive(Clone, Debug, Default)]
pub struct XSec {
    pub name: Vec<u8>,
    pub paddr: u64,
    pub vaddr: u64,
    /// Size as stored; the data may be absent.
    pub size: u64,
    pub data: Vec<u8>,
    pub relocs: Vec<XReloc>,
    pub lines: (u64, u32),
    pub flags: u32,
    /// Use the overflow section even for few relocations (32-bit).
    pub ovfl: bool,
    /// For an overflow section: the index of the section it belongs to.
    pub ovfl_for: usize,
    // Set by build.
    pub data_at: u64,
    pub reloc_at: u64,
    pub nreloc: u32,
}

#[derive(Clone, Debug, Default)]
pub struct XSym {
    pub name: Vec<u8>,
    pub force_long: bool,
    pub value: u64,
    pub sect: i16,
    pub ty: u16,
    pub class: u8,
    pub aux: Vec<[u8; 18]>,
    /// Index in the table and offset of the name, set by build.
    pub index: usize,
    pub name_off: Option<u32>,
}

#[derive(Clone, Debug, Default)]
pub struct Xcoff {
    pub is64: bool,
    pub stamp: u32,
    pub flags: u16,
    /// The auxiliary header.
    pub opt: Vec<u8>,
    pub secs: Vec<XSec>,
    pub syms: Vec<XSym>,
    pub no_symtab: bool,
    /// Strings already added by auxiliary entries (with the length field).
    pub strtab: Vec<u8>,
    pub nsyms: usize,
    pub symtab_at: u64,
}

impl Xcoff {
    pub fn number(&mut self) {
        let mut n = 0;
        for s in &mut self.syms {
            s.index = n;
            n += 1 + s.aux.len();
        }
        self.nsyms = n;
    }
    pub fn build(&mut self, r: &mut Rng) -> Vec<u8> {
        self.number();
        if self.strtab.is_empty() {
            self.strtab = vec![0; 4];
        }
        let mut st = Strs { b: std::mem::take(&mut self.strtab) };
        for s in &mut self.syms {
            s.name_off = if s.name.is_empty() && !s.force_long { Some(0) } else if self.is64 || s.name.len() > 8 || s.force_long { Some(st.add4(r, &s.name) as u32) } else { None };
        }
        let n = st.b.len() as u32;
        st.b[..4].copy_from_slice(&n.to_be_bytes());
        self.strtab = st.b;
        let (hs, ss, rs) = if self.is64 { (24, 72, 14) } else { (20, 40, 10) };
        let k = self.secs.len();
        let head = hs + self.opt.len() + k * ss;
        let mut items: Vec<(usize, usize)> = vec![];
        for s in &self.secs {
            items.push((s.data.len(), 1));
        }
        for s in &mut self.secs {
            s.ovfl |= !self.is64 && s.relocs.len() >= 0xffff;
            items.push((s.relocs.len() * rs, 1));
        }
        items.push((if self.no_symtab { 0 } else { self.nsyms * 18 + self.strtab.len() }, 1));
        let (off, end) = layout(r, head, &items, true);
        self.symtab_at = if self.no_symtab { 0 } else { off[2 * k] as u64 };
        let mut w = W::new(true, self.is64);
        let ns = if self.no_symtab { 0 } else { self.nsyms as u32 };
        w.u16(if self.is64 { 0x1f7 } else { 0x1df }).u16(k as u16).u32(self.stamp);
        if self.is64 {
            w.u64(self.symtab_at).u16(self.opt.len() as u16).u16(self.flags).u32(ns);
        } else {
            w.u32(self.symtab_at as u32).u32(ns).u16(self.opt.len() as u16).u16(self.flags);
        }
        w.put(&self.opt);
        let counts: Vec<usize> = self.secs.iter().map(|s| s.relocs.len()).collect();
        for (i, s) in self.secs.iter_mut().enumerate() {
            s.data_at = if s.data.is_empty() { 0 } else { off[i] as u64 };
            s.reloc_at = if s.relocs.is_empty() { 0 } else { off[k + i] as u64 };
            s.nreloc = if s.ovfl { 0xffff } else { s.relocs.len() as u32 };
            if s.ovfl_for != 0 {
                s.paddr = counts[s.ovfl_for - 1] as u64;
                s.nreloc = s.ovfl_for as u32;
            }
            w.fixed(&s.name, 8);
            w.word(s.paddr).word(s.vaddr).word(s.size).word(s.data_at).word(s.reloc_at).word(s.lines.0);
            if self.is64 {
                w.u32(s.nreloc).u32(s.lines.1).u32(s.flags).u32(0);
            } else {
                w.u16(s.nreloc as u16).u16(s.lines.1 as u16).u32(s.flags);
            }
        }
        for (i, s) in self.secs.iter().enumerate() {
            if !s.data.is_empty() {
                w.place(off[i], &s.data);
            }
            let mut b = W::new(true, self.is64);
            for x in &s.relocs {
                b.word(x.addr).u32(x.sym).u8(x.size).u8(x.ty);
            }
            if !b.b.is_empty() {
                w.place(off[k + i], &b.b);
            }
        }
        if !self.no_symtab {
            let mut b = W::new(true, self.is64);
            for s in &self.syms {
                if self.is64 {
                    b.u64(s.value).u32(s.name_off.unwrap());
                } else {
                    match s.name_off {
                        Some(o) => b.u32(0).u32(o),
                        None => b.fixed(&s.name, 8),
                    };
                    b.u32(s.value as u32);
                }
                b.u16(s.sect as u16).u16(s.ty).u8(s.class).u8(s.aux.len() as u8);
                for a in &s.aux {
                    b.put(a);
                }
            }
            b.put(&self.strtab);
            w.place(off[2 * k], &b.b);
        }
        if w.len() < end {
            w.b.resize(end, 0);
        }
        w.b
    }
}

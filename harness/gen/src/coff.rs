//! COFF and bigobj assembler (always little-endian).
use crate::w::*;
use vcore::Rng;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct CReloc {
    pub addr: u32,
    pub sym: u32,
    pub ty: u16,
}

#[derive(Clone, Debug, Default)]
pub struct CSec {
    pub name: Vec<u8>,
    /// The eight name bytes when set by hand, else chosen by build.
    pub raw_name: Option<[u8; 8]>,
    pub vsize: u32,
    pub vaddr: u32,
    pub data: Vec<u8>,
    /// Size of raw data for sections which store none.
    pub raw_size: Option<u32>,
    pub relocs: Vec<CReloc>,
    /// Use the overflow count even for few relocations.
    pub ovfl: bool,
    pub lines: (u32, u16),
    pub chars: u32,
    // Set by build.
    pub raw: [u8; 8],
    pub data_at: u32,
    pub reloc_at: u32,
    pub nreloc: u16,
}

#[derive(Clone, Debug, Default)]
pub struct CSym {
    pub name: Vec<u8>,
    pub force_long: bool,
    pub value: u32,
    pub sect: i32,
    pub ty: u16,
    pub class: u8,
    /// Auxiliary records, of 18 bytes each (padded to 20 in bigobj files), or
    /// of the record size.
    pub aux: Vec<Vec<u8>>,
    pub raw: [u8; 8],
    /// Index in the table, set by build.
    pub index: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Coff {
    pub big: bool,
    pub machine: u16,
    pub stamp: u32,
    pub chars: u16,
    /// Optional header (not for bigobj).
    pub opt: Vec<u8>,
    pub secs: Vec<CSec>,
    pub syms: Vec<CSym>,
    /// Without a symbol table and string table at all.
    pub no_symtab: bool,
    // Set by build.
    pub strtab: Vec<u8>,
    pub nsyms: usize,
    pub symtab_at: u32,
}

pub const BIGOBJ: [u8; 16] = [0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8];

pub fn b64_name(off: u32) -> [u8; 8] {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut n = *b"//AAAAAA";
    let mut v = off;
    for i in 0..6 {
        n[7 - i] = A[(v % 64) as usize];
        v /= 64;
    }
    n
}

impl Coff {
    pub fn symsize(&self) -> usize {
        if self.big { 20 } else { 18 }
    }
    /// Assigns symbol table indices.
    pub fn number(&mut self) {
        let mut n = 0;
        for s in &mut self.syms {
            s.index = n;
            n += 1 + s.aux.len();
        }
        self.nsyms = n;
    }
    pub fn build(&mut self, r: &mut Rng) -> Vec<u8> {
        self.number();
        // String table: offsets count from the length field.
        let mut st = Strs { b: vec![4, 0, 0, 0] };
        for s in &mut self.secs {
            if let Some(raw) = s.raw_name {
                s.raw = raw;
                continue;
            }
            let short = s.name.len() <= 8 && s.name.first() != Some(&b'/');
            if short && (self.no_symtab || !r.one_in(10)) {
                s.raw = [0; 8];
                s.raw[..s.name.len()].copy_from_slice(&s.name);
            } else {
                let off = st.add4(r, &s.name) as u32;
                s.raw = if r.one_in(4) { b64_name(off) } else { dec_name(off) };
            }
        }
        for s in &mut self.syms {
            if s.name.len() <= 8 && !s.force_long {
                s.raw = [0; 8];
                s.raw[..s.name.len()].copy_from_slice(&s.name);
            } else {
                let off = st.add4(r, &s.name) as u32;
                s.raw = [0; 8];
                s.raw[4..].copy_from_slice(&off.to_le_bytes());
            }
        }
        let n = st.b.len() as u32;
        st.b[..4].copy_from_slice(&n.to_le_bytes());
        self.strtab = st.b;
        let head = if self.big { 56 } else { 20 + self.opt.len() } + self.secs.len() * 40;
        let ss = self.symsize();
        let mut items: Vec<(usize, usize)> = vec![];
        for s in &self.secs {
            items.push((s.data.len(), 1));
        }
        for s in &mut self.secs {
            s.ovfl |= s.relocs.len() >= 0xffff;
            let n = s.relocs.len() + s.ovfl as usize;
            items.push((n * 10, 1));
        }
        items.push((if self.no_symtab { 0 } else { self.nsyms * ss + self.strtab.len() }, 1));
        let (off, end) = layout(r, head, &items, true);
        let k = self.secs.len();
        self.symtab_at = if self.no_symtab { 0 } else { off[2 * k] as u32 };
        let mut w = W::new(false, false);
        if self.big {
            w.u16(0).u16(0xffff).u16(2).u16(self.machine).u32(self.stamp).put(&BIGOBJ);
            w.u32(0).u32(0).u32(0).u32(0);
            w.u32(k as u32).u32(self.symtab_at).u32(self.nsyms as u32);
        } else {
            w.u16(self.machine).u16(k as u16).u32(self.stamp).u32(self.symtab_at).u32(if self.no_symtab { 0 } else { self.nsyms as u32 });
            w.u16(self.opt.len() as u16).u16(self.chars).put(&self.opt);
        }
        for (i, s) in self.secs.iter_mut().enumerate() {
            let stored = !s.data.is_empty();
            s.data_at = if stored || s.raw_size.is_none() && r.bool() { off[i] as u32 } else { 0 };
            let has = !s.relocs.is_empty() || s.ovfl;
            s.reloc_at = if has { off[k + i] as u32 } else { 0 };
            s.nreloc = if s.ovfl { 0xffff } else { s.relocs.len() as u16 };
            if s.ovfl {
                s.chars |= 0x0100_0000;
            }
            w.put(&s.raw).u32(s.vsize).u32(s.vaddr).u32(s.raw_size.unwrap_or(s.data.len() as u32)).u32(s.data_at);
            w.u32(s.reloc_at).u32(s.lines.0).u16(s.nreloc).u16(s.lines.1).u32(s.chars);
        }
        for (i, s) in self.secs.iter().enumerate() {
            if !s.data.is_empty() {
                w.place(off[i], &s.data);
            }
            let mut b = W::new(false, false);
            if s.ovfl {
                b.u32(s.relocs.len() as u32 + 1).u32(0).u16(0);
            }
            for x in &s.relocs {
                b.u32(x.addr).u32(x.sym).u16(x.ty);
            }
            if !b.b.is_empty() {
                w.place(off[k + i], &b.b);
            }
        }
        if !self.no_symtab {
            let mut b = W::new(false, false);
            for s in &self.syms {
                b.put(&s.raw).u32(s.value);
                if self.big {
                    b.u32(s.sect as u32);
                } else {
                    b.u16(s.sect as u16);
                }
                b.u16(s.ty).u8(s.class).u8(s.aux.len() as u8);
                for a in &s.aux {
                    b.fixed(a, ss);
                }
            }
            b.put(&self.strtab);
            w.place(off[2 * k], &b.b);
        }
        if w.len() < end {
            w.b.resize(end, 0);
        }
        w.b
    }
}
fn dec_name(off: u32) -> [u8; 8] {
    let mut n = [0; 8];
    let s = format!("/{off}");
    n[..s.len()].copy_from_slice(s.as_bytes());
    n
}

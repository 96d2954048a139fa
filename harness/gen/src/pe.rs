//! PE image assembler.
use crate::coff::CSym;
use crate::w::*;
use vcore::Rng;

#[derive(Clone, Debug, Default)]
pub struct PSec {
    pub name: Vec<u8>,
    pub va: u32,
    pub vsize: u32,
    /// Stored bytes, all of size_of_raw_data.
    pub raw: Vec<u8>,
    pub chars: u32,
    pub lines: (u32, u16),
    // Set by build.
    pub rawname: [u8; 8],
    pub at: u32,
}
impl PSec {
    /// Bytes both stored and mapped.
    pub fn mapped(&self) -> &[u8] {
        &self.raw[..self.raw.len().min(self.vsize as usize)]
    }
}

/// Optional header fields in order after the magic, without the directories;
/// base_of_data only for PE32.
#[derive(Clone, Debug, Default)]
pub struct Opt {
    pub linker: (u8, u8),
    pub sizes: [u32; 3],
    pub entry: u32,
    pub code: u32,
    pub data: u32,
    pub base: u64,
    pub salign: u32,
    pub falign: u32,
    pub vers: [u16; 6],
    pub win32: u32,
    pub image: u32,
    pub headers: u32,
    pub sum: u32,
    pub subsys: u16,
    pub dll: u16,
    pub mem: [u64; 4],
    pub loader: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Pe {
    pub is64: bool,
    pub dos: Vec<u16>,
    pub stub: Vec<u8>,
    /// Key and entries.
    pub rich: Option<(u32, Vec<(u32, u32)>)>,
    pub machine: u16,
    pub stamp: u32,
    pub chars: u16,
    pub opt: Opt,
    pub dirs: Vec<(u32, u32)>,
    /// Bytes in the optional header after the directories.
    pub opt_extra: Vec<u8>,
    pub secs: Vec<PSec>,
    pub syms: Vec<CSym>,
    pub symtab: bool,
    pub overlay: Vec<u8>,
    // Set by build.
    pub nt_at: usize,
    pub rich_at: usize,
    pub nsyms: usize,
    pub symtab_at: u32,
}

impl Pe {
    /// Where sections can be placed and the bytes of the directories can be
    /// patched later: file offsets are chosen here.
    pub fn build(&mut self, r: &mut Rng) -> Vec<u8> {
        let mut w = W::new(false, self.is64);
        for (i, v) in self.dos.iter().enumerate() {
            w.u16(if i == 0 { 0x5a4d } else { *v });
        }
        w.zeros(64 - w.len());
        w.put(&self.stub).align(4);
        if let Some((key, entries)) = &self.rich {
            if r.bool() {
                w.align(16);
            }
            self.rich_at = w.len();
            w.u32(0x536e_6144 ^ key).u32(*key).u32(*key).u32(*key);
            for e in entries {
                w.u32(e.0 ^ key).u32(e.1 ^ key);
            }
            w.put(b"Rich").u32(*key);
        }
        w.zeros(4 * r.idx(4)).align(8);
        self.nt_at = w.len();
        w.set(60, self.nt_at as u64, 4);
        // Symbols and strings.
        let mut n = 0;
        for s in &mut self.syms {
            s.index = n;
            n += 1 + s.aux.len();
        }
        self.nsyms = n;
        let mut st = Strs { b: vec![4, 0, 0, 0] };
        for s in &mut self.secs {
            s.rawname = [0; 8];
            if s.name.len() <= 8 {
                s.rawname[..s.name.len()].copy_from_slice(&s.name);
            } else {
                let t = format!("/{}", st.add4(r, &s.name));
                s.rawname[..t.len()].copy_from_slice(t.as_bytes());
            }
        }
        for s in &mut self.syms {
            s.raw = [0; 8];
            if s.name.len() <= 8 && !s.force_long {
                s.raw[..s.name.len()].copy_from_slice(&s.name);
            } else {
                s.raw[4..].copy_from_slice(&(st.add4(r, &s.name) as u32).to_le_bytes());
            }
        }
        let sl = st.b.len() as u32;
        st.b[..4].copy_from_slice(&sl.to_le_bytes());
        let optlen = if self.is64 { 112 } else { 96 } + self.dirs.len() * 8 + self.opt_extra.len();
        let head = self.nt_at + 24 + optlen + self.secs.len() * 40;
        let fa = [1usize, 4, 16, 64, 0x200][r.idx(5)];
        let mut items: Vec<(usize, usize)> = self.secs.iter().map(|s| (s.raw.len(), fa)).collect();
        items.push((if self.symtab { n * 18 + st.b.len() } else { 0 }, 4));
        let (off, end) = layout(r, head, &items, r.clone().bool());
        self.symtab_at = if self.symtab { off[self.secs.len()] as u32 } else { 0 };
        w.put(b"PE\0\0").u16(self.machine).u16(self.secs.len() as u16).u32(self.stamp).u32(self.symtab_at);
        w.u32(if self.symtab { n as u32 } else { 0 }).u16(optlen as u16).u16(self.chars);
        let o = &self.opt;
        w.u16(if self.is64 { 0x20b } else { 0x10b }).u8(o.linker.0).u8(o.linker.1);
        for v in o.sizes {
            w.u32(v);
        }
        w.u32(o.entry).u32(o.code);
        if !self.is64 {
            w.u32(o.data);
        }
        w.word(o.base).u32(o.salign).u32(o.falign);
        for v in o.vers {
            w.u16(v);
        }
        w.u32(o.win32).u32(o.image).u32(o.headers).u32(o.sum).u16(o.subsys).u16(o.dll);
        for v in o.mem {
            w.word(v);
        }
        w.u32(o.loader).u32(self.dirs.len() as u32);
        for d in &self.dirs {
            w.u32(d.0).u32(d.1);
        }
        w.put(&self.opt_extra);
        for (i, s) in self.secs.iter_mut().enumerate() {
            s.at = if s.raw.is_empty() { 0 } else { off[i] as u32 };
            w.put(&s.rawname).u32(s.vsize).u32(s.va).u32(s.raw.len() as u32).u32(s.at);
            w.u32(0).u32(s.lines.0).u16(0).u16(s.lines.1).u32(s.chars);
        }
        for (i, s) in self.secs.iter().enumerate() {
            if !s.raw.is_empty() {
                w.place(off[i], &s.raw);
            }
        }
        if self.symtab {
            let mut b = W::new(false, false);
            for s in &self.syms {
                b.put(&s.raw).u32(s.value).u16(s.sect as u16).u16(s.ty).u8(s.class).u8(s.aux.len() as u8);
                for a in &s.aux {
                    b.fixed(a, 18);
                }
            }
            b.put(&st.b);
            w.place(off[self.secs.len()], &b.b);
        }
        if w.len() < end {
            w.b.resize(end, 0);
        }
        w.put(&self.overlay);
        w.b
    }
}

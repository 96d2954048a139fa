//! Mach-O writer: load commands with patches to placed blobs.
use crate::w::{W, layout};
use vcore::Rng;

#[derive(Clone, Debug)]
pub struct Patch {
    /// Offset in the command.
    pub at: usize,
    pub blob: usize,
    pub add: u64,
    pub n: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub b: Vec<u8>,
    pub patches: Vec<Patch>,
}
#[derive(Clone, Debug, Default)]
pub struct Macho {
    pub is64: bool,
    pub be: bool,
    pub cputype: u32,
    pub cpusubtype: u32,
    pub filetype: u32,
    pub flags: u32,
    pub cmds: Vec<Cmd>,
    pub blobs: Vec<(Vec<u8>, usize)>,
    pub offs: Vec<usize>,
    /// Extra bytes after the commands in sizeofcmds.
    pub slack: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Sect {
    pub sectname: Vec<u8>,
    pub segname: Vec<u8>,
    pub addr: u64,
    pub size: u64,
    /// Offset within the segment's blob; None writes 0.
    pub at: Option<u64>,
    pub align: u32,
    pub reloc: Option<usize>,
    pub nreloc: u32,
    pub flags: u32,
    pub r: [u32; 3],
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Segm {
    pub name: Vec<u8>,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub flags: u32,
    pub blob: usize,
    pub filesize: u64,
    pub sects: Vec<Sect>,
}

#[derive(Clone, Debug, Default)]
pub struct Nlist {
    pub strx: u32,
    pub name: Vec<u8>,
    pub ty: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}

impl Macho {
    pub fn w(&self) -> W {
        W::new(self.be, self.is64)
    }
    pub fn blob(&mut self, b: Vec<u8>, align: usize) -> usize {
        self.blobs.push((b, align));
        self.blobs.len() - 1
    }
    /// A command from its body after cmd and cmdsize.
    pub fn cmd(&self, cmd: u32, body: &[u8], patches: Vec<Patch>) -> Cmd {
        let mut w = self.w();
        let n = 8 + body.len();
        let a = if self.is64 { 8 } else { 4 };
        let n = n.div_ceil(a) * a;
        w.u32(cmd).u32(n as u32).put(body);
        w.b.resize(n, 0);
        Cmd { b: w.b, patches }
    }
    pub fn linkedit(&mut self, cmd: u32, data: Vec<u8>) -> Cmd {
        let n = data.len();
        let b = self.blob(data, 8);
        let mut w = self.w();
        w.u32(0).u32(n as u32);
        let p = if n == 0 { vec![] } else { vec![Patch { at: 8, blob: b, add: 0, n: 4 }] };
        self.cmd(cmd, &w.b, p)
    }
    pub fn segment(&self, s: &Segm) -> Cmd {
        let mut w = self.w();
        let mut p = vec![];
        let ws = if self.is64 { 8 } else { 4 };
        w.fixed(&s.name, 16).word(s.vmaddr).word(s.vmsize);
        p.push(Patch { at: 8 + w.len(), blob: s.blob, add: 0, n: ws });
        w.word(0).word(s.filesize);
        w.u32(s.maxprot).u32(s.initprot).u32(s.sects.len() as u32).u32(s.flags);
        for c in &s.sects {
            w.fixed(&c.sectname, 16).fixed(&c.segname, 16).word(c.addr).word(c.size);
            if let Some(at) = c.at {
                p.push(Patch { at: 8 + w.len(), blob: s.blob, add: at, n: 4 });
            }
            w.u32(0).u32(c.align);
            if let Some(b) = c.reloc {
                p.push(Patch { at: 8 + w.len(), blob: b, add: 0, n: 4 });
            }
            w.u32(0).u32(c.nreloc).u32(c.flags).u32(c.r[0]).u32(c.r[1]);
            if self.is64 {
                w.u32(c.r[2]);
            }
        }
        self.cmd(if self.is64 { 0x19 } else { 1 }, &w.b, p)
    }
    pub fn nlists(&self, v: &[Nlist]) -> Vec<u8> {
        let mut w = self.w();
        for s in v {
            w.u32(s.strx).u8(s.ty).u8(s.sect).u16(s.desc).word(s.value);
        }
        w.b
    }
    /// LC_SYMTAB.
    pub fn symtab(&mut self, syms: &[Nlist], strs: Vec<u8>) -> Cmd {
        let n = strs.len();
        let sb = self.nlists(syms);
        let s = self.blob(sb, 8);
        let t = self.blob(strs, 1);
        let mut w = self.w();
        w.u32(0).u32(syms.len() as u32).u32(0).u32(n as u32);
        self.cmd(2, &w.b, vec![Patch { at: 8, blob: s, add: 0, n: 4 }, Patch { at: 16, blob: t, add: 0, n: 4 }])
    }
    pub fn build(&mut self, r: &mut Rng) -> Vec<u8> {
        let mut w = self.w();
        let m = if self.is64 { 0xfeed_facf } else { 0xfeed_face };
        let total: usize = self.cmds.iter().map(|c| c.b.len()).sum::<usize>() + self.slack;
        w.u32(m).u32(self.cputype).u32(self.cpusubtype).u32(self.filetype);
        w.u32(self.cmds.len() as u32).u32(total as u32).u32(self.flags);
        if self.is64 {
            w.u32(0);
        }
        let head = w.len();
        let items: Vec<(usize, usize)> = self.blobs.iter().map(|b| (b.0.len(), b.1)).collect();
        let (offs, end) = layout(r, head + total, &items, true);
        self.offs = offs;
        for c in &self.cmds {
            let mut cw = self.w();
            cw.put(&c.b);
            for p in &c.patches {
                cw.set(p.at, self.offs[p.blob] as u64 + p.add, p.n);
            }
            w.put(&cw.b);
        }
        w.zeros(self.slack);
        for (i, b) in self.blobs.iter().enumerate() {
            w.place(self.offs[i], &b.0);
        }
        if w.len() < end {
            w.b.resize(end, 0);
        }
        w.b
    }
    pub fn header_size(&self) -> usize {
        if self.is64 { 32 } else { 28 }
    }
    /// A plain relocation entry.
    #[allow(clippy::too_many_arguments)]
    pub fn reloc(&self, w: &mut W, addr: u32, num: u32, pcrel: bool, len: u8, ext: bool, ty: u8) {
        w.u32(addr);
        let (num, p, l, e, t) = (num & 0xff_ffff, pcrel as u32, len as u32 & 3, ext as u32, ty as u32 & 15);
        if self.be {
            w.u32(num << 8 | p << 7 | l << 5 | e << 4 | t);
        } else {
            w.u32(t << 28 | e << 27 | l << 25 | p << 24 | num);
        }
    }
    pub fn scattered(&self, w: &mut W, addr: u32, pcrel: bool, len: u8, ty: u8, value: u32) {
        w.u32(1 << 31 | (pcrel as u32) << 30 | (len as u32 & 3) << 28 | (ty as u32 & 15) << 24 | addr & 0xff_ffff);
        w.u32(value);
    }
}

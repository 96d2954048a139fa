//! C07: PE images decode to exactly what they encode.
use genf::coff::CSym;
use genf::pe::*;
use genf::w::{W, name};
use object::read::pe::{
    DelayLoadImportTable, ExportAddressIndex, ExportOrdinal, ExportTarget as PeTarget, ImageNtHeaders, ImageOptionalHeader, ImageThunkData, Import as PeImport, PeFile, PeFile32, PeFile64,
    ResourceDirectory, ResourceDirectoryEntryData, ResourceDirectoryTable, ResourceNameOrId,
};
use object::read::*;
use object::{FileFlags, LittleEndian as LE, SectionFlags, SegmentFlags};
use std::result::Result;
use vcore::*;

fn dbg<T: std::fmt::Debug>(t: T) -> String {
    format!("{t:?}")
}
const MACHINES: &[(u16, &str)] = &[(0x14c, "I386"), (0x8664, "X86_64"), (0x1c4, "Arm"), (0xaa64, "Aarch64"), (0xa641, "Aarch64"), (0x5032, "Unknown")];

#[derive(Clone, Debug, PartialEq)]
enum Imp {
    Ord(u16),
    Name(u16, Vec<u8>),
}
#[derive(Clone, Debug)]
struct Lib {
    name: Vec<u8>,
    imps: Vec<Imp>,
    /// The descriptor's words.
    desc: Vec<u32>,
}
#[derive(Clone, Debug)]
enum Exp {
    Addr(u32),
    Fwd(Vec<u8>),
}
#[derive(Clone, Debug)]
struct Exports {
    va: u32,
    base: u16,
    funcs: Vec<Exp>,
    /// RVA of each entry.
    addrs: Vec<u32>,
    names: Vec<(Vec<u8>, u16, u32)>,
    head: (u32, u32, u16, u16, u32),
}
#[derive(Clone, Debug)]
enum Res {
    Dir(u32, u16, u16, Vec<(Result<Vec<u16>, u16>, Res)>),
    Data(u32, u32, u32, u32),
}
#[derive(Default)]
struct M {
    pe: Pe,
    libs: Vec<Lib>,
    delay: Vec<Lib>,
    has: [bool; 16],
    exp: Option<Exports>,
    relocs: Vec<(u32, Vec<u16>)>,
    res: Option<Res>,
    debug: Vec<(Vec<u32>, Option<(u32, [u8; 16], u32, Vec<u8>)>)>,
}

/// A section's contents while they are assembled.
struct Blob {
    va: u32,
    w: W,
}
impl Blob {
    fn rva(&self) -> u32 {
        self.va + self.w.len() as u32
    }
    fn gap(&mut self, r: &mut Rng) {
        let n = if r.one_in(3) { r.idx(20) } else { 0 };
        self.w.put(&r.bytes(n));
        if !r.one_in(4) {
            self.w.align(8);
        }
    }
    fn cstr(&mut self, s: &[u8]) -> u32 {
        let a = self.rva();
        self.w.put(s).u8(0);
        a
    }
}

fn fname(r: &mut Rng) -> Vec<u8> {
    let mut n = name(r);
    for b in &mut n {
        if *b == b'.' || *b == b'#' {
            *b = b'_';
        }
    }
    n
}

/// Writes thunk arrays and hint/name entries. `names` may be the same blob.
fn thunks(r: &mut Rng, is64: bool, bl: &mut [Blob], ti: usize, ni: usize, imps: &[Imp]) -> u32 {
    let mut vals = vec![];
    for i in imps {
        match i {
            Imp::Ord(o) => vals.push(if is64 { 1 << 63 } else { 1 << 31 } | u64::from(*o)),
            Imp::Name(h, n) => {
                if !r.one_in(5) {
                    bl[ni].w.align(2);
                }
                let a = bl[ni].rva();
                bl[ni].w.u16(*h).put(n).u8(0);
                vals.push(u64::from(a));
            }
        }
    }
    bl[ti].gap(r);
    let at = bl[ti].rva();
    for v in vals {
        bl[ti].w.word(v);
    }
    bl[ti].w.word(0);
    at
}
fn gen_imps(r: &mut Rng) -> Vec<Imp> {
    let n = if r.one_in(6) { 0 } else { r.idx(7) };
    (0..n).map(|_| if r.one_in(3) { Imp::Ord(r.edgy(16) as u16) } else { Imp::Name(r.edgy(16) as u16, name(r)) }).collect()
}
fn gen_res(r: &mut Rng, depth: usize) -> Res {
    if depth == 3 || depth > 0 && r.one_in(4) {
        return Res::Data(r.u32(), r.u32(), r.u32(), r.u32());
    }
    let n = if depth == 0 { 1 + r.idx(4) } else { r.idx(4) };
    let mut v = vec![];
    for _ in 0..n {
        let id = if r.one_in(3) {
            let n = r.idx(8);
            Ok((0..n).map(|_| if r.one_in(6) { r.u16() } else { 65 + r.below(50) as u16 }).collect())
        } else {
            Err(r.edgy(16) as u16)
        };
        v.push((id, gen_res(r, depth + 1)));
    }
    v.sort_by_key(|x| x.0.is_err());
    Res::Dir(r.u32(), r.u16(), r.u16(), v)
}
/// Writes a resource tree at the end of `w`, offsets from the start of it.
fn put_res(r: &mut Rng, w: &mut W, res: &Res) -> u32 {
    let at = w.len() as u32;
    match res {
        Res::Data(a, b, c, d) => {
            w.u32(*a).u32(*b).u32(*c).u32(*d);
            at
        }
        Res::Dir(ch, maj, min, v) => {
            let named = v.iter().filter(|x| x.0.is_ok()).count();
            w.u32(*ch).u32(0x1234_5678).u16(*maj).u16(*min).u16(named as u16).u16((v.len() - named) as u16);
            let e = w.len();
            w.zeros(v.len() * 8);
            for (i, (id, sub)) in v.iter().enumerate() {
                let k = match id {
                    Ok(s) => {
                        let at = w.len() as u32;
                        w.u16(s.len() as u16);
                        for c in s {
                            w.u16(*c);
                        }
                        if r.bool() {
                            w.align(4);
                        }
                        at | 0x8000_0000
                    }
                    Err(n) => u32::from(*n),
                };
                let at = put_res(r, w, sub);
                let at = if matches!(sub, Res::Dir(..)) { at | 0x8000_0000 } else { at };
                w.set(e + i * 8, u64::from(k), 4);
                w.set(e + i * 8 + 4, u64::from(at), 4);
            }
            at
        }
    }
}

fn model(r: &mut Rng) -> (M, Vec<u8>) {
    let is64 = r.bool();
    let mut m = M::default();
    m.pe.is64 = is64;
    let x = &mut m.pe;
    x.machine = r.pick(MACHINES).0;
    x.stamp = r.u32();
    x.chars = r.u16();
    x.dos = (0..30).map(|_| r.u16()).collect();
    let n = if r.bool() { r.idx(80) } else { 0 };
    x.stub = (0..n).map(|_| r.below(60) as u8).collect();
    if r.bool() {
        let n = r.idx(6);
        x.rich = Some((r.u32(), (0..n).map(|_| (r.u32(), r.edgy(32) as u32)).collect()));
    }
    let word = |r: &mut Rng| if is64 { r.edgy(64) } else { r.edgy(32) };
    x.opt = Opt {
        linker: (r.u8(), r.u8()),
        sizes: [r.u32(), r.u32(), r.u32()],
        entry: r.u32(),
        code: r.u32(),
        data: r.u32(),
        base: if r.bool() { 0x40_0000 } else { word(r) },
        salign: 1 << r.below(17),
        falign: 1 << r.below(14),
        vers: [r.u16(), r.u16(), r.u16(), r.u16(), r.u16(), r.u16()],
        win32: r.u32(),
        image: r.u32(),
        headers: r.u32(),
        sum: r.u32(),
        subsys: r.u16(),
        dll: r.u16(),
        mem: [word(r), word(r), word(r), word(r)],
        loader: r.u32(),
    };
    let nd = *r.pick(&[16usize, 16, 16, 16, 14, 6, 2, 1, 0, 20]);
    x.dirs = vec![(0, 0); nd];
    for d in &mut x.dirs {
        // A directory of size but no address is absent.
        if r.one_in(8) {
            d.1 = r.u32();
        }
    }
    if r.one_in(5) {
        let n = r.idx(20);
        x.opt_extra = r.bytes(n);
    }
    let nsec = if r.one_in(20) { 0 } else { 1 + r.idx(6) };
    let mut va = 0x1000u32;
    let mut bl: Vec<Blob> = vec![];
    for _ in 0..nsec {
        if r.one_in(6) {
            va = va.wrapping_add(0x1_0000 << r.below(10));
        }
        bl.push(Blob { va, w: W::new(false, is64) });
        va += 0x4_0000;
    }
    // The space above can wrap only if many large gaps add up.
    let want = |r: &mut Rng, id: usize| id < nd && nsec > 0 && r.bool();
    let n = bl.len();
    for b in &mut bl {
        let k = r.idx(40);
        let v = r.bytes(k);
        b.w.put(&v);
    }
    // Exports.
    if want(r, 0) {
        let i = r.idx(n);
        bl[i].gap(r);
        let va = bl[i].rva();
        let start = bl[i].w.len();
        let base = if r.one_in(3) { r.edgy(16) as u16 } else { r.below(5) as u16 };
        let max = (0x1_0000 - usize::from(base)).min(10);
        let nf = r.idx(max);
        let head = (r.u32(), r.u32(), r.u16(), r.u16(), r.u32());
        let b = &mut bl[i].w;
        b.zeros(40);
        let mut funcs = vec![];
        let mut addrs = vec![];
        for _ in 0..nf {
            match r.below(5) {
                0 => {
                    let mut s = fname(r);
                    if r.one_in(3) {
                        s.push(b'.');
                        s.extend(fname(r));
                    }
                    s.push(b'.');
                    if r.bool() {
                        s.extend(fname(r));
                    } else {
                        s.extend(format!("#{}", r.edgy(16)).as_bytes());
                    }
                    addrs.push(va + (b.len() - start) as u32);
                    b.put(&s).u8(0);
                    funcs.push(Exp::Fwd(s));
                }
                1 => {
                    addrs.push(0);
                    funcs.push(Exp::Addr(0));
                }
                _ => {
                    // Not inside the directory: settled below.
                    addrs.push(0);
                    funcs.push(Exp::Addr(r.edgy(32) as u32 | 1));
                }
            }
        }
        let mut names = vec![];
        if nf > 0 {
            for _ in 0..r.idx(nf + 2) {
                let nm = name(r);
                let at = va + (b.len() - start) as u32;
                b.put(&nm).u8(0);
                names.push((nm, r.idx(nf) as u16, at));
            }
        }
        if !r.one_in(4) {
            b.align(4);
        }
        let f_at = b.len();
        b.zeros(nf * 4);
        let n_at = b.len();
        for x in &names {
            b.u32(x.2);
        }
        let o_at = b.len();
        for x in &names {
            b.u16(x.1);
        }
        if r.bool() {
            b.zeros(r.idx(9));
        }
        let len = (b.len() - start) as u32;
        for (k, f) in funcs.iter_mut().enumerate() {
            if let Exp::Addr(a) = f {
                if a.wrapping_sub(va) < len {
                    *a = va + len;
                }
                // The bytes next to the directory are addresses like others.
                if *a != 0 && r.one_in(8) {
                    *a = if r.bool() { va - 1 } else { va + len };
                }
                addrs[k] = *a;
            }
            b.set(f_at + k * 4, u64::from(addrs[k]), 4);
        }
        let rel = |p: usize| u64::from(va) + (p - start) as u64;
        let hv: [(u64, usize); 11] = [
            (u64::from(head.0), 4),
            (u64::from(head.1), 4),
            (u64::from(head.2), 2),
            (u64::from(head.3), 2),
            (u64::from(head.4), 4),
            (u64::from(base), 4),
            (nf as u64, 4),
            (names.len() as u64, 4),
            (if nf == 0 && r.bool() { 0 } else { rel(f_at) }, 4),
            (if names.is_empty() && r.bool() { 0 } else { rel(n_at) }, 4),
            (rel(o_at), 4),
        ];
        let mut p = start;
        for (v, k) in hv {
            b.set(p, v, k);
            p += k;
        }
        m.pe.dirs[0] = (va, len);
        m.exp = Some(Exports { va, base, funcs, addrs, names, head });
        m.has[0] = true;
    }
    // Imports.
    if want(r, 1) {
        let (i, ni) = (r.idx(n), r.idx(n));
        let k = r.idx(5);
        // Names always in one section; thunks with the descriptors.
        let mut libs = vec![];
        for _ in 0..k {
            let imps = gen_imps(r);
            let nm = name(r);
            bl[ni].gap(r);
            let name_at = bl[ni].cstr(&nm);
            let t = thunks(r, is64, &mut bl, i, ni, &imps);
            let (oft, ft) = if r.one_in(4) {
                (0, t)
            } else {
                // An address table, perhaps bound, anywhere.
                let z = r.idx(n);
                bl[z].gap(r);
                let a = bl[z].rva();
                for _ in &imps {
                    let v = word(r);
                    bl[z].w.word(v);
                }
                bl[z].w.word(0);
                (t, a)
            };
            let bound = if r.bool() { (0, 0) } else { (r.u32(), r.u32()) };
            libs.push(Lib { name: nm, imps, desc: vec![oft, bound.0, bound.1, name_at, ft] });
        }
        bl[i].gap(r);
        let at = bl[i].rva();
        for l in &libs {
            for v in &l.desc {
                bl[i].w.u32(*v);
            }
        }
        bl[i].w.zeros(20);
        m.pe.dirs[1] = (at, ((k + 1) * 20) as u32);
        m.has[1] = true;
        m.libs = libs;
    }
    if want(r, 13) {
        let i = r.idx(n);
        let k = r.idx(4);
        let mut libs = vec![];
        for _ in 0..k {
            let imps = gen_imps(r);
            let nm = name(r);
            let name_at = bl[i].cstr(&nm);
            let t = thunks(r, is64, &mut bl, i, i, &imps);
            libs.push(Lib { name: nm, imps, desc: vec![1 | if r.one_in(4) { r.u32() } else { 0 }, name_at, r.u32(), r.u32(), t, r.u32(), r.u32(), r.u32()] });
        }
        bl[i].gap(r);
        let at = bl[i].rva();
        for l in &libs {
            for v in &l.desc {
                bl[i].w.u32(*v);
            }
        }
        bl[i].w.zeros(32);
        m.pe.dirs[13] = (at, ((k + 1) * 32) as u32);
        m.has[13] = true;
        m.delay = libs;
    }
    // Base relocations.
    if want(r, 5) {
        let i = r.idx(n);
        bl[i].gap(r);
        let (at, start) = (bl[i].rva(), bl[i].w.len());
        for _ in 0..r.idx(5) {
            let k = 2 * (1 + r.idx(5));
            // Type 4 takes two entries and is not used by any tool.
            let v: Vec<u16> = (0..k).map(|_| if r.one_in(6) { 0 } else { (*r.pick(&[0u16, 1, 2, 3, 3, 3, 5, 7, 8, 9, 10, 10, 15])) << 12 | r.below(0x1000) as u16 }).collect();
            let page = if r.one_in(6) { r.u32() } else { r.u32() & !0xfff };
            let w = &mut bl[i].w;
            w.u32(page).u32(8 + 2 * k as u32);
            for x in &v {
                w.u16(*x);
            }
            m.relocs.push((page, v));
        }
        let len = bl[i].w.len() - start;
        if len == 0 {
            bl[i].w.u8(0);
        }
        m.pe.dirs[5] = (at, len as u32);
        m.has[5] = true;
    }
    if want(r, 2) {
        let i = r.idx(n);
        bl[i].gap(r);
        let at = bl[i].rva();
        let res = gen_res(r, 0);
        let mut w = W::new(false, is64);
        put_res(r, &mut w, &res);
        bl[i].w.put(&w.b);
        m.pe.dirs[2] = (at, w.len() as u32);
        m.has[2] = true;
        m.res = Some(res);
    }
    // The debug directory is patched with file offsets after the layout.
    let mut dbg_at = None;
    if want(r, 6) {
        let i = r.idx(n);
        let k = r.idx(4);
        for _ in 0..k {
            let mut d: Vec<u32> = (0..7).map(|_| r.u32()).collect();
            let cv = if r.bool() {
                d[3] = 2;
                let mut g = [0; 16];
                g.copy_from_slice(&r.bytes(16));
                let age = r.edgy(32) as u32;
                let path = if r.one_in(5) { vec![] } else { name(r) };
                bl[i].gap(r);
                let a = bl[i].rva();
                let nb = r.one_in(4);
                let w = &mut bl[i].w;
                let s = w.len();
                w.put(if nb { b"NB10" } else { b"RSDS" }).put(&g).u32(age).put(&path).u8(0);
                if r.bool() {
                    w.zeros(3);
                }
                d[4] = (w.len() - s) as u32;
                d[5] = a;
                Some((if nb { 0 } else { 1 }, g, age, path))
            } else {
                while d[3] == 2 {
                    d[3] = r.u32();
                }
                None
            };
            m.debug.push((d, cv));
        }
        bl[i].gap(r);
        let at = bl[i].rva();
        dbg_at = Some((i, bl[i].w.len()));
        bl[i].w.zeros(28 * k);
        let extra = (k == 0) as usize;
        bl[i].w.zeros(extra);
        m.pe.dirs[6] = (at, (28 * k) as u32);
        m.has[6] = true;
    }
    // Sections.
    for b in bl {
        let content = b.w.b.len();
        let mut s = PSec { va: b.va, raw: b.w.b, ..PSec::default() };
        s.name = match r.below(8) {
            0 => b".debug_info".to_vec(),
            1 => b".text".to_vec(),
            2 => b"exactly8".to_vec(),
            _ => {
                let mut n = name(r);
                if n[0] == b'/' {
                    n[0] = b'.';
                }
                n
            }
        };
        s.chars = match r.below(6) {
            0 => 0x6000_0020,
            1 => 0x4000_0040,
            2 => 0xc000_0040,
            3 => 0x4200_0040,
            4 => 0xc000_0080,
            _ => r.u32(),
        };
        // More stored than mapped, or more mapped than stored.
        match r.below(4) {
            0 => s.vsize = content as u32,
            1 => s.vsize = (content + r.idx(0x3000)) as u32,
            2 => {
                s.vsize = content as u32;
                let k = r.idx(600);
                let pad = r.bytes(k);
                s.raw.extend(pad);
            }
            _ => {
                let k = r.idx(600);
                let pad = r.bytes(k);
                s.raw.extend(pad);
                s.vsize = (content + r.idx(2000)) as u32;
            }
        }
        s.lines = if r.one_in(6) { (r.u32(), r.u16()) } else { (0, 0) };
        m.pe.secs.push(s);
    }
    // A section of nothing but zeros.
    if r.one_in(3) && va < 0xf000_0000 {
        m.pe.secs.push(PSec { name: b".bss".to_vec(), va, vsize: r.below(0x10000) as u32, chars: 0xc000_0080, ..PSec::default() });
    }
    m.pe.symtab = r.one_in(3);
    let long = m.pe.secs.iter().any(|s| s.name.len() > 8);
    if long && !m.pe.symtab {
        m.pe.symtab = r.bool();
        if !m.pe.symtab {
            for s in &mut m.pe.secs {
                s.name.truncate(8);
            }
        }
    }
    if m.pe.symtab {
        for _ in 0..r.idx(8) {
            let ns = m.pe.secs.len();
            m.pe.syms.push(CSym { name: name(r), force_long: r.one_in(5), value: r.u32(), sect: if ns > 0 && r.bool() { 1 + r.idx(ns) as i32 } else { 0 }, ty: *r.pick(&[0, 0x20]), class: *r.pick(&[2, 3, 6]), ..CSym::default() });
        }
    }
    if r.one_in(4) {
        let k = r.idx(50);
        m.pe.overlay = r.bytes(k);
    }
    // Other directories name data somewhere in a section.
    for id in [3usize, 4, 7, 8, 9, 10, 11, 12, 14, 15] {
        if id < nd && r.one_in(4) && id != 13 {
            let s: Vec<&PSec> = m.pe.secs.iter().filter(|s| !s.mapped().is_empty()).collect();
            if !s.is_empty() {
                let s = r.pick(&s);
                let l = s.mapped().len();
                let a = r.idx(l);
                m.pe.dirs[id] = (s.va + a as u32, r.idx(l - a + 1) as u32);
                m.has[id] = true;
            }
        }
    }
    let mut data = m.pe.build(r);
    if let Some((i, off)) = dbg_at {
        let s = &m.pe.secs[i];
        let base = s.at as usize + off;
        for (k, (d, cv)) in m.debug.iter_mut().enumerate() {
            let mut w = W::new(false, false);
            d[6] = if cv.is_some() { d[5] - s.va + s.at } else { d[6] };
            for v in d.iter() {
                w.u32(*v);
            }
            data[base + k * 28..][..28].copy_from_slice(&w.b);
        }
        let raw = data[s.at as usize..][..s.raw.len()].to_vec();
        m.pe.secs[i].raw = raw;
    }
    (m, data)
}

fn imports<P: ImageNtHeaders>(m: &M, f: &PeFile<'_, P>, o: &mut Obs) -> Res2 {
    if let Some(t) = okay!(f.import_table()) {
        let mut it = okay!(t.descriptors());
        for (k, l) in m.libs.iter().enumerate() {
            let d = some!(okay!(it.next()), "import descriptor {k}");
            same!(
                vec![d.original_first_thunk.get(LE), d.time_date_stamp.get(LE), d.forwarder_chain.get(LE), d.name.get(LE), d.first_thunk.get(LE)],
                l.desc,
                "import descriptor {k}"
            );
            same!(okay!(t.name(d.name.get(LE))), &l.name[..], "library {k}");
            let at = if l.desc[0] != 0 { l.desc[0] } else { l.desc[4] };
            let mut th = okay!(t.thunks(at));
            for (j, i) in l.imps.iter().enumerate() {
                let g = okay!(th.get::<P>(j));
                same!((g.is_ordinal(), g.raw()), (matches!(i, Imp::Ord(_)), okay!(okay!(t.thunks(at)).get::<P>(j)).raw()), "thunk");
                let x = some!(okay!(th.clone().nth::<P>(j)), "library {k} thunk {j} of {:?}", l.imps);
                same!(imp(okay!(t.import::<P>(x))), *i, "library {k} import {j}");
                o.hit(if matches!(i, Imp::Ord(_)) { "imports by ordinal" } else { "imports by name" });
            }
            ensure!(okay!(th.nth::<P>(l.imps.len())).is_none(), "library {k}: more thunks than encoded");
            if l.desc[1] != 0 {
                o.hit("bound imports");
            }
        }
        ensure!(okay!(it.next()).is_none(), "more import descriptors");
        ensure!(okay!(it.next()).is_none(), "more import descriptors after the end");
    } else {
        ensure!(!m.has[1], "no import table");
    }
    if let Some(t) = okay!(f.delay_load_import_table()) {
        let t: DelayLoadImportTable<'_> = t;
        let mut it = okay!(t.descriptors());
        for (k, l) in m.delay.iter().enumerate() {
            let d = some!(okay!(it.next()), "delay descriptor {k}");
            same!(
                vec![
                    d.attributes.get(LE),
                    d.dll_name_rva.get(LE),
                    d.module_handle_rva.get(LE),
                    d.import_address_table_rva.get(LE),
                    d.import_name_table_rva.get(LE),
                    d.bound_import_address_table_rva.get(LE),
                    d.unload_information_table_rva.get(LE),
                    d.time_date_stamp.get(LE)
                ],
                l.desc,
                "delay descriptor {k}"
            );
            same!(okay!(t.name(l.desc[1])), &l.name[..], "delay library {k}");
            let mut th = okay!(t.thunks(l.desc[4]));
            for (j, i) in l.imps.iter().enumerate() {
                let x = some!(okay!(th.next::<P>()), "delay library {k} thunk {j} of {:?}", l.imps);
                same!(imp(okay!(t.import::<P>(x))), *i, "delay library {k} import {j}");
                o.hit("delay-loaded imports");
            }
            ensure!(okay!(th.next::<P>()).is_none(), "delay library {k}: more thunks");
        }
        ensure!(okay!(it.next()).is_none(), "more delay descriptors");
    } else {
        ensure!(!m.has[13], "no delay import table");
    }
    // The unified view.
    let mut want = vec![];
    for (d, l) in m.libs.iter().map(|l| (false, l)).chain(m.delay.iter().map(|l| (true, l))) {
        for i in &l.imps {
            let n = match i {
                Imp::Ord(n) => Err(*n),
                Imp::Name(_, n) => Ok(n.clone()),
            };
            want.push((l.name.clone(), n, d));
        }
    }
    let mut got = vec![];
    for i in okay!(f.imports()) {
        let i = okay!(i, "imports");
        let n = match i.name() {
            NameOrOrdinal::Name(n) => Ok(n.to_vec()),
            NameOrOrdinal::Ordinal(n) => Err(n),
        };
        let ImportFlags::Pe { delay } = i.flags() else { return Err(format!("flags {:?}", i.flags())) };
        ensure!(!i.is_weak(), "weak import");
        got.push((i.library().to_vec(), n, delay));
    }
    same!(got, want, "imports");
    let want: Vec<_> = m.libs.iter().map(|l| (false, l)).chain(m.delay.iter().map(|l| (true, l))).map(|(d, l)| (l.name.clone(), d)).collect();
    let mut got = vec![];
    for l in okay!(f.import_libraries()) {
        let l = okay!(l);
        let ImportLibraryFlags::Pe { delay } = l.flags() else { return Err(format!("flags {:?}", l.flags())) };
        got.push((l.name().to_vec(), delay));
    }
    same!(got, want, "import libraries");
    Ok(())
}
type Res2 = vcore::Res;
trait Nth {
    fn nth<P: ImageNtHeaders>(&mut self, n: usize) -> object::read::Result<Option<P::ImageThunkData>>;
}
impl Nth for object::read::pe::ImportThunkList<'_> {
    /// By iteration.
    fn nth<P: ImageNtHeaders>(&mut self, n: usize) -> object::read::Result<Option<P::ImageThunkData>> {
        for _ in 0..n {
            if self.next::<P>()?.is_none() {
                return Ok(None);
            }
        }
        self.next::<P>()
    }
}
fn imp(i: PeImport<'_>) -> Imp {
    match i {
        PeImport::Ordinal(n) => Imp::Ord(n),
        PeImport::Name(h, n) => Imp::Name(h, n.to_vec()),
    }
}

/// Library and name or ordinal of a forwarder string.
fn split(s: &[u8]) -> (Vec<u8>, Result<Vec<u8>, u16>) {
    let p = s.iter().rposition(|&b| b == b'.').unwrap();
    let n = &s[p + 1..];
    let t = if n[0] == b'#' { Err(std::str::from_utf8(&n[1..]).unwrap().parse().unwrap()) } else { Ok(n.to_vec()) };
    (s[..p].to_vec(), t)
}

fn exports<P: ImageNtHeaders>(m: &M, f: &PeFile<'_, P>, o: &mut Obs) -> Res2 {
    let t = okay!(f.export_table(), "export table");
    let Some(e) = &m.exp else {
        ensure!(t.is_none(), "an export table");
        same!(okay!(f.exports()).count(), 0, "exports");
        return Ok(());
    };
    let t = some!(t, "export table");
    let d = t.directory();
    same!((d.characteristics.get(LE), d.time_date_stamp.get(LE), d.major_version.get(LE), d.minor_version.get(LE), d.name.get(LE)), e.head, "export directory");
    same!((t.ordinal_base(), t.addresses().len(), t.name_pointers().len(), t.name_ordinals().len()), (e.base, e.funcs.len(), e.names.len(), e.names.len()), "export table sizes");
    let mut by = vec![None; e.funcs.len()];
    for n in &e.names {
        by[n.1 as usize] = Some(n.0.clone());
    }
    let list = okay!(t.exports(), "table exports");
    same!(list.len(), e.funcs.len(), "table exports");
    let tgt = |x: PeTarget<'_>| match x {
        PeTarget::Address(a) => (true, vec![], Err(0), a),
        PeTarget::ForwardByOrdinal(l, n) => (false, l.to_vec(), Err(n.0), 0),
        PeTarget::ForwardByName(l, n) => (false, l.to_vec(), Ok(n.to_vec()), 0),
    };
    for (k, (i, ord, a)) in t.address_iter().enumerate() {
        let want_ord = e.base + k as u16;
        same!((i.0, ord.0, a), (k as u16, want_ord, e.addrs[k]), "export address {k}");
        same!(okay!(t.ordinal_from_index(i)).0, want_ord, "ordinal_from_index");
        same!(okay!(t.index_from_ordinal(ord)).0, k as u16, "index_from_ordinal");
        same!((okay!(t.address_by_index(i)), okay!(t.address_by_ordinal(ord))), (e.addrs[k], e.addrs[k]), "address_by");
        let want = match &e.funcs[k] {
            Exp::Addr(a) => (true, vec![], Err(0), *a),
            Exp::Fwd(s) => {
                let (l, n) = split(s);
                o.hit(if n.is_ok() { "exports forwarded by name" } else { "exports forwarded by ordinal" });
                (false, l, n, 0)
            }
        };
        same!(tgt(okay!(t.target_by_index(i))), want, "export {k} target");
        same!(tgt(okay!(t.target_by_ordinal(ord))), want, "export {k} target by ordinal");
        same!(t.is_forward(a), !want.0, "is_forward");
        same!(okay!(t.forward_string(a)), match &e.funcs[k] { Exp::Fwd(s) => Some(&s[..]), _ => None }, "forward_string");
        same!((list[k].ordinal.0, list[k].name.map(|n| n.to_vec()), tgt(list[k].target)), (want_ord, by[k].clone(), want), "export list {k}");
        o.hit("exports");
    }
    if usize::from(e.base) + e.funcs.len() <= 0xffff {
        ensure!(t.address_by_ordinal(ExportOrdinal(e.base + e.funcs.len() as u16)).is_err(), "ordinal past the end");
    }
    if e.base > 0 {
        ensure!(t.address_by_ordinal(ExportOrdinal(e.base - 1)).is_err(), "ordinal before the base");
    }
    ensure!(t.address_by_index(ExportAddressIndex(e.funcs.len() as u16)).is_err(), "index past the end");
    for (k, (p, i)) in t.name_iter().enumerate() {
        same!((okay!(t.name_from_pointer(p)), i.0), (&e.names[k].0[..], e.names[k].1), "export name {k}");
    }
    // The unified view: names in table order, then what has none.
    let mut want = vec![];
    let base = m.pe.opt.base;
    let mut one = |name: Result<Vec<u8>, u16>, k: usize| {
        let t = match &e.funcs[k] {
            Exp::Addr(a) => format!("{:?}", Ok::<u64, ()>(base.wrapping_add(u64::from(*a)))),
            Exp::Fwd(s) => format!("{:?}", Err::<(), _>(split(s))),
        };
        want.push((name, t, e.base + k as u16));
    };
    for n in &e.names {
        one(Ok(n.0.clone()), n.1 as usize);
    }
    for k in 0..e.funcs.len() {
        if by[k].is_none() && e.addrs[k] != 0 {
            one(Err(e.base + k as u16), k);
        }
    }
    let mut got = vec![];
    for x in okay!(f.exports()) {
        let x = okay!(x, "exports");
        let n = match x.name() {
            NameOrOrdinal::Name(n) => Ok(n.to_vec()),
            NameOrOrdinal::Ordinal(n) => Err(n),
        };
        let t = match x.target() {
            ExportTarget::Address { address } => format!("{:?}", Ok::<u64, ()>(address)),
            ExportTarget::Reexport { library, name } => {
                let n = match name {
                    NameOrOrdinal::Name(n) => Ok(n.to_vec()),
                    NameOrOrdinal::Ordinal(n) => Err(n),
                };
                format!("{:?}", Err::<(), _>((library.to_vec(), n)))
            }
            t => format!("{t:?}"),
        };
        let ExportFlags::Pe { ordinal } = x.flags() else { return Err(format!("export flags {:?}", x.flags())) };
        ensure!(!x.is_weak(), "weak export");
        got.push((n, t, ordinal.0));
    }
    same!(got, want, "exports");
    let _ = e.va;
    Ok(())
}

fn resources(res: &Res, t: &ResourceDirectoryTable<'_>, d: ResourceDirectory<'_>, o: &mut Obs) -> Res2 {
    let Res::Dir(ch, maj, min, v) = res else { return Err("not a directory".into()) };
    let h = t.header;
    let named = v.iter().filter(|x| x.0.is_ok()).count();
    same!(
        (h.characteristics.get(LE), h.major_version.get(LE), h.minor_version.get(LE), h.number_of_named_entries.get(LE) as usize, h.number_of_id_entries.get(LE) as usize),
        (*ch, *maj, *min, named, v.len() - named),
        "resource directory"
    );
    same!(t.entries.len(), v.len(), "resource entries");
    for (g, (id, sub)) in t.entries.iter().zip(v) {
        same!((g.name_or_id().name().is_some(), g.name_or_id().id()), (id.is_ok(), id.as_ref().err().copied()), "resource name or id");
        same!((okay!(g.data(d)).table().is_some(), okay!(g.data(d)).data().is_some()), (matches!(sub, Res::Dir(..)), matches!(sub, Res::Data(..))), "resource entry data or table");
        match (g.name_or_id(), id) {
            (ResourceNameOrId::Id(a), Err(b)) => same!(a, *b, "resource id"),
            (ResourceNameOrId::Name(n), Ok(s)) => {
                let u: Vec<u16> = okay!(n.data(d)).iter().map(|c| c.get(LE)).collect();
                same!(u, *s, "resource name");
                same!(okay!(n.to_string_lossy(d)), String::from_utf16_lossy(s), "resource name");
                same!(okay!(n.raw_data(d)), s.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<_>>(), "resource name bytes");
                o.hit("resource names");
            }
            (a, _) => return Err(format!("resource {a:?} for {id:?}")),
        }
        same!((g.has_name(), g.is_table()), (id.is_ok(), matches!(sub, Res::Dir(..))), "resource entry kind");
        match (okay!(g.data(d), "resource data"), sub) {
            (ResourceDirectoryEntryData::Data(x), Res::Data(a, b, c, e)) => {
                same!((x.offset_to_data.get(LE), x.size.get(LE), x.code_page.get(LE), x.reserved.get(LE)), (*a, *b, *c, *e), "resource data");
                o.hit("resource data");
            }
            (ResourceDirectoryEntryData::Table(x), _) => resources(sub, &x, d, o)?,
            _ => return Err("resource data kind".into()),
        }
    }
    Ok(())
}

fn check<P: ImageNtHeaders>(m: &M, f: &PeFile<'_, P>, data: &[u8], r: &mut Rng, o: &mut Obs) -> Res2 {
    let p = &m.pe;
    let x = &p.opt;
    let h = f.nt_headers();
    let d = f.dos_header();
    same!((d.e_magic.get(LE), d.e_cblp.get(LE), d.e_lfarlc.get(LE), d.e_ovno.get(LE), d.e_lfanew.get(LE)), (0x5a4d, p.dos[1], p.dos[12], p.dos[13], p.nt_at as u32), "DOS header");
    same!(d.nt_headers_offset(), p.nt_at as u32, "nt_headers_offset");
    same!((h.signature(), h.is_type_64(), h.is_valid_optional_magic()), (0x4550, p.is64, true), "NT headers");
    let fh = h.file_header();
    same!(
        (fh.machine.get(LE).0, fh.number_of_sections.get(LE) as usize, fh.time_date_stamp.get(LE), fh.pointer_to_symbol_table.get(LE), fh.characteristics.get(LE).0),
        (p.machine, p.secs.len(), p.stamp, p.symtab_at, p.chars),
        "file header"
    );
    let h = h.optional_header();
    same!((h.magic(), h.major_linker_version(), h.minor_linker_version()), (if p.is64 { 0x20b } else { 0x10b }, x.linker.0, x.linker.1), "optional header");
    same!([h.size_of_code(), h.size_of_initialized_data(), h.size_of_uninitialized_data()], x.sizes, "sizes");
    same!((h.address_of_entry_point(), h.base_of_code(), h.base_of_data()), (x.entry, x.code, (!p.is64).then_some(x.data)), "bases");
    same!((h.image_base(), h.section_alignment(), h.file_alignment()), (x.base, x.salign, x.falign), "image base and alignments");
    same!(
        [
            h.major_operating_system_version(),
            h.minor_operating_system_version(),
            h.major_image_version(),
            h.minor_image_version(),
            h.major_subsystem_version(),
            h.minor_subsystem_version()
        ],
        x.vers,
        "versions"
    );
    same!(
        (h.win32_version_value(), h.size_of_image(), h.size_of_headers(), h.check_sum(), h.subsystem().0, h.dll_characteristics().0),
        (x.win32, x.image, x.headers, x.sum, x.subsys, x.dll),
        "optional header"
    );
    same!([h.size_of_stack_reserve(), h.size_of_stack_commit(), h.size_of_heap_reserve(), h.size_of_heap_commit()], x.mem, "stack and heap");
    same!((h.loader_flags(), h.number_of_rva_and_sizes() as usize), (x.loader, p.dirs.len()), "optional header");
    // Unified.
    same!(dbg(f.architecture()), MACHINES.iter().find(|z| z.0 == p.machine).unwrap().1, "architecture");
    same!(dbg(f.sub_architecture()), if p.machine == 0xa641 { "Some(Arm64EC)" } else { "None" }, "sub_architecture");
    ensure!(f.is_little_endian() && f.is_64() == p.is64, "endianness or width");
    same!(f.kind(), if p.chars & 0x2000 != 0 { ObjectKind::Dynamic } else if p.chars & 0x1000 != 0 { ObjectKind::Unknown } else { ObjectKind::Executable }, "kind");
    same!((f.relative_address_base(), f.entry()), (x.base, x.base.wrapping_add(u64::from(x.entry))), "base and entry");
    match f.flags() {
        FileFlags::Coff { characteristics } => same!(characteristics.0, p.chars, "flags"),
        z => return Err(format!("flags {z:?}")),
    }
    same!(f.has_debug_symbols(), p.secs.iter().any(|s| s.name == b".debug_info"), "has_debug_symbols");
    same!(f.comdats().count() + f.dynamic_symbols().count(), 0, "comdats and dynamic symbols");
    // Rich header.
    match (f.rich_header_info(), &p.rich) {
        (None, None) => {}
        (Some(g), Some((key, e))) => {
            same!((g.offset, g.length, g.xor_key), (p.rich_at, 24 + e.len() * 8, *key), "rich header");
            same!(g.unmasked_entries().map(|z| (z.comp_id, z.count)).collect::<Vec<_>>(), *e, "rich entries");
            o.hit("rich headers");
        }
        (g, w) => return Err(format!("rich header {g:?} for {w:?}")),
    }
    // Sections.
    let t = f.section_table();
    same!((t.len(), f.sections().count(), f.segments().count()), (p.secs.len(), p.secs.len(), p.secs.len()), "sections");
    same!(t.max_section_file_offset(), p.secs.iter().map(|s| u64::from(s.at) + s.raw.len() as u64).max().unwrap_or(0), "max_section_file_offset");
    for (i, ((g, sg), s)) in f.sections().zip(f.segments()).zip(&p.secs).enumerate() {
        let at = format!("section {i}");
        let a = x.base.wrapping_add(u64::from(s.va));
        same!(g.index().0, i + 1, "{at} index");
        same!(okay!(okay!(f.section_by_index(SectionIndex(i + 1))).name_bytes()), &s.name[..], "{at} by index");
        same!(okay!(g.name_bytes(), "{at}"), &s.name[..], "{at} name");
        same!(g.name().ok(), std::str::from_utf8(&s.name).ok(), "{at} name");
        same!((g.address(), g.size(), g.align()), (a, u64::from(s.vsize), u64::from(x.salign)), "{at} address, size, align");
        let n = s.mapped().len();
        same!(g.file_range(), (n > 0).then_some((u64::from(s.at), n as u64)), "{at} file range");
        same!(okay!(g.data()), s.mapped(), "{at} data");
        match g.flags() {
            SectionFlags::Coff { characteristics } => same!(characteristics.0, s.chars, "{at} flags"),
            z => return Err(format!("flags {z:?}")),
        }
        same!(dbg(g.kind()), kind(s.chars), "{at} kind");
        same!(g.relocations().count(), 0, "{at} relocations");
        same!((sg.address(), sg.size(), sg.align()), (a, u64::from(s.vsize), u64::from(x.salign)), "{at} segment");
        same!(sg.file_range(), (u64::from(s.at), n as u64), "{at} segment range");
        same!(okay!(sg.data()), s.mapped(), "{at} segment data");
        same!(okay!(sg.name_bytes()), Some(&s.name[..]), "{at} segment name");
        match sg.flags() {
            SegmentFlags::Coff { characteristics } => same!(characteristics.0, s.chars, "{at} segment flags"),
            z => return Err(format!("flags {z:?}")),
        }
        let pm = sg.permissions();
        same!((pm.readable(), pm.writable(), pm.executable()), (s.chars >> 30 & 1 == 1, s.chars >> 31 == 1, s.chars >> 29 & 1 == 1), "{at} permissions");
        let raw = g.pe_section();
        same!(
            (raw.virtual_size.get(LE), raw.virtual_address.get(LE), raw.size_of_raw_data.get(LE) as usize, raw.pointer_to_raw_data.get(LE)),
            (s.vsize, s.va, s.raw.len(), s.at),
            "{at} header"
        );
        same!((raw.pointer_to_linenumbers.get(LE), raw.number_of_linenumbers.get(LE)), s.lines, "{at} line numbers");
        same!(raw.pe_address_range(), (s.va, s.vsize), "{at} address range");
        if n > 0 && a.checked_add(n as u64).is_some() {
            let b = r.idx(n);
            let l = r.idx(n - b + 1);
            same!(okay!(g.data_range(a + b as u64, l as u64)), Some(&s.mapped()[b..b + l]), "{at} data_range");
            same!(okay!(sg.data_range(a + b as u64, l as u64)), Some(&s.mapped()[b..b + l]), "{at} segment data_range");
            same!(okay!(g.data_range(a + b as u64, (n - b + 1) as u64)), None, "{at} data_range past the end");
        }
        if (s.vsize as usize) > s.raw.len() {
            o.hit("sections mapped past what is stored");
        } else if (s.vsize as usize) < s.raw.len() {
            o.hit("sections stored past what is mapped");
        }
        o.hit("sections");
    }
    if let Some(s) = p.secs.last() {
        let first = p.secs.iter().position(|z| z.name == s.name).unwrap();
        same!(f.section_by_name_bytes(&s.name).map(|z| z.index().0), Some(first + 1), "section_by_name");
    }
    // Addresses: at the edges of every section, and anywhere.
    let mut vas = vec![0, u32::MAX, r.u32()];
    for s in &p.secs {
        let n = s.mapped().len() as u32;
        for z in [s.va.wrapping_sub(1), s.va, s.va.wrapping_add(1), s.va + n.saturating_sub(1), s.va + n, s.va + s.vsize.saturating_sub(1), s.va + s.vsize] {
            vas.push(z);
        }
        if n > 0 {
            vas.push(s.va + r.idx(n as usize) as u32);
        }
    }
    for va in vas {
        let hit = p.secs.iter().find(|s| va >= s.va && (va - s.va) < s.mapped().len() as u32);
        let k = hit.map(|s| (va - s.va) as usize);
        same!(t.pe_data_at(data, va), hit.map(|s| &s.mapped()[k.unwrap()..]), "pe_data_at {va:#x}");
        same!(t.pe_file_range_at(va), hit.map(|s| (s.at + va - s.va, s.mapped().len() as u32 - (va - s.va))), "pe_file_range_at {va:#x}");
        same!(t.pe_data_containing(data, va), hit.map(|s| (s.mapped(), s.va)), "pe_data_containing {va:#x}");
        let c = p.secs.iter().find(|s| va >= s.va && va - s.va < s.vsize);
        same!(t.section_containing(va).map(|s| s.virtual_address.get(LE)), c.map(|s| s.va), "section_containing {va:#x}");
        o.hit(if hit.is_some() { "addresses with data" } else if c.is_some() { "addresses in unstored space" } else { "addresses without data" });
    }
    // Data directories.
    let dd = f.data_directories();
    same!(dd.len(), p.dirs.len(), "data directories");
    for (i, (g, w)) in dd.iter().zip(&p.dirs).enumerate() {
        same!(g.address_range(), *w, "directory {i}");
        same!(f.data_directory(i).is_some(), w.0 != 0, "directory {i} presence");
        if i < 16 && m.has[i] && i != 1 && i != 13 {
            let s = some!(p.secs.iter().find(|s| w.0 >= s.va && w.0 - s.va < s.mapped().len() as u32));
            let b = (w.0 - s.va) as usize;
            same!(okay!(g.data(data, &t), "directory {i}"), &s.mapped()[b..b + w.1 as usize], "directory {i} data");
            same!(okay!(g.file_range(&t), "directory {i}"), (s.at + b as u32, w.1), "directory {i} file range");
            o.hit("data directories");
        }
    }
    ensure!(f.data_directory(p.dirs.len()).is_none(), "directory past the end");
    imports(m, f, o)?;
    exports(m, f, o)?;
    // Base relocations.
    match okay!(dd.relocation_blocks(data, &t)) {
        None => ensure!(!m.has[5], "no relocation blocks"),
        Some(mut it) => {
            for (k, (page, v)) in m.relocs.iter().enumerate() {
                let b = some!(okay!(it.next()), "relocation block {k}");
                same!((b.virtual_address(), b.size()), (*page, 8 + 2 * v.len() as u32), "block {k}");
                let want: Vec<_> = v.iter().filter(|z| **z != 0).map(|z| (page.wrapping_add(u32::from(z & 0xfff)), z >> 12)).collect();
                same!(b.map(|z| (z.virtual_address, z.typ.0)).collect::<Vec<_>>(), want, "block {k}");
                o.hit("base relocation blocks");
            }
            ensure!(okay!(it.next()).is_none(), "more relocation blocks");
        }
    }
    match (okay!(dd.resource_directory(data, &t)), &m.res) {
        (None, None) => {}
        (Some(d), Some(res)) => resources(res, &okay!(d.root()), d, o)?,
        (a, _) => return Err(format!("resource directory {}", a.is_some())),
    }
    let want = m.debug.iter().filter_map(|z| z.1.as_ref()).find(|z| z.0 == 1);
    match (okay!(f.pdb_info(), "pdb_info"), want) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            same!((g.guid(), g.age(), g.path()), (w.1, w.2, &w.3[..]), "pdb_info");
            o.hit("CodeView records");
        }
        (g, w) => return Err(format!("pdb_info {g:?} for {w:?}")),
    }
    // Symbols.
    same!(f.symbols().count(), p.syms.len(), "symbols");
    for (g, s) in f.symbols().zip(&p.syms) {
        let at = format!("symbol {}", s.index);
        same!((g.index().0, okay!(g.name_bytes(), "{at}")), (s.index, &s.name[..]), "{at}");
        let a = if s.sect > 0 { x.base.wrapping_add(u64::from(p.secs[s.sect as usize - 1].va)).wrapping_add(u64::from(s.value)) } else { 0 };
        same!(g.address(), a, "{at} address");
        o.hit("symbols");
    }
    Ok(())
}
fn kind(ch: u32) -> &'static str {
    if ch & 0x2000_0020 != 0 {
        "Text"
    } else if ch & 0x40 != 0 {
        if ch & 0x0200_0000 != 0 {
            "Other"
        } else if ch & 0x8000_0000 != 0 {
            "Data"
        } else {
            "ReadOnlyData"
        }
    } else if ch & 0x80 != 0 {
        "UninitializedData"
    } else if ch & 0x200 != 0 {
        "Linker"
    } else {
        "Unknown"
    }
}

fn files(_case: u64, r: &mut Rng, o: &mut Obs) -> Res2 {
    let (m, mut data) = model(r);
    // The generic reader peeks at a whole PE32 header.
    let min = m.pe.nt_at + 24 + 96;
    if data.len() < min {
        data.resize(min, 0);
    }
    o.input("pe", &data);
    o.hit("files");
    same!(okay!(FileKind::parse(&data[..]), "file kind"), if m.pe.is64 { FileKind::Pe64 } else { FileKind::Pe32 }, "file kind");
    same!(okay!(object::read::pe::optional_header_magic(&data[..])), if m.pe.is64 { 0x20b } else { 0x10b }, "magic");
    let g = okay!(object::File::parse(&data[..]), "generic file");
    same!((g.format(), g.sections().count()), (BinaryFormat::Pe, m.pe.secs.len()), "generic file");
    if m.pe.is64 {
        ensure!(PeFile32::parse(&data[..]).is_err(), "parsed as PE32");
        check(&m, &okay!(PeFile64::parse(&data[..]), "PE32+"), &data, r, o)?;
    } else {
        ensure!(PeFile64::parse(&data[..]).is_err(), "parsed as PE32+");
        check(&m, &okay!(PeFile32::parse(&data[..]), "PE32"), &data, r, o)?;
    }
    if m.has.iter().any(|h| *h) {
        o.nontrivial(hash(&data));
    }
    o.sample(|| format!("64 {} machine {:#x} {} sections directories {:?} {} bytes", m.pe.is64, m.pe.machine, m.pe.secs.len(), m.has, data.len()));
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C07",
    rule: "a PE image with at least one data directory, whose every reported field was compared with the generated model",
    parts: &[Part { name: "files", quick: 300_000, thorough: 4_000_000, run: files }],
    required: &[
        "files", "sections", "sections mapped past what is stored", "sections stored past what is mapped", "addresses with data", "addresses in unstored space", "addresses without data",
        "data directories", "imports by ordinal", "imports by name", "bound imports", "delay-loaded imports", "exports", "exports forwarded by name", "exports forwarded by ordinal",
        "base relocation blocks", "resource names", "resource data", "CodeView records", "rich headers", "symbols",
    ],
    tools: &[],
    assumptions: &[
        "import names share one section and thunks are in the section of the descriptors, as the reader documents",
        "no HIGHADJ base relocations and no empty relocation blocks",
        "sections do not overlap in memory",
    ],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

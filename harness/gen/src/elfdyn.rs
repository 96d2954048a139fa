//! ELF dynamic linking tables.
use crate::elf::*;
use crate::w::*;
use vcore::Rng;

/// The System V ABI hash, as printed in the specification.
pub fn sysv_hash(name: &[u8]) -> u32 {
    let mut h: u64 = 0;
    for c in name {
        h = ((h << 4) + *c as u64) & 0xffff_ffff;
        let g = h & 0xf000_0000;
        if g != 0 {
            h ^= g >> 24;
        }
        h &= !g;
    }
    h as u32
}
pub fn gnu_hash(name: &[u8]) -> u32 {
    let mut h: u64 = 5381;
    for c in name {
        h = (h * 33 + *c as u64) & 0xffff_ffff;
    }
    h as u32
}

/// SHT_HASH over every symbol but 0.
pub fn hash_table(w: &mut W, r: &mut Rng, names: &[Vec<u8>], nb: usize) {
    let n = names.len();
    let mut buckets = vec![0u32; nb];
    let mut chains = vec![0u32; n];
    let mut order: Vec<usize> = (1..n).collect();
    if r.bool() {
        r.shuffle(&mut order);
    }
    for i in order {
        if nb == 0 {
            break;
        }
        let b = sysv_hash(&names[i]) as usize % nb;
        chains[i] = buckets[b];
        buckets[b] = i as u32;
    }
    w.u32(nb as u32).u32(n as u32);
    for v in buckets.iter().chain(&chains) {
        w.u32(*v);
    }
}

/// SHT_GNU_HASH; names[base..] must already be sorted by bucket.
pub fn gnu_hash_table(w: &mut W, names: &[Vec<u8>], base: usize, nb: usize, bloom: usize, shift: u32) {
    let bits = if w.is64 { 64u64 } else { 32 };
    let mut filter = vec![0u64; bloom];
    let mut buckets = vec![0u32; nb];
    let mut vals = vec![];
    for i in base..names.len() {
        let h = gnu_hash(&names[i]);
        let k = (h as u64 / bits) as usize % bloom;
        filter[k] |= 1 << (h as u64 % bits);
        filter[k] |= 1 << ((h >> shift) as u64 % bits);
        let b = h as usize % nb;
        if buckets[b] == 0 {
            buckets[b] = i as u32;
        }
        let last = i + 1 == names.len() || gnu_hash(&names[i + 1]) as usize % nb != b;
        vals.push(h & !1 | last as u32);
    }
    w.u32(nb as u32).u32(base as u32).u32(bloom as u32).u32(shift);
    for f in filter {
        w.word(f);
    }
    for b in buckets {
        w.u32(b);
    }
    for v in vals {
        w.u32(v);
    }
}

#[derive(Clone, Debug)]
pub struct Verdef {
    pub flags: u16,
    pub ndx: u16,
    /// First is the version, the rest its parents: (name, string offset).
    pub names: Vec<(Vec<u8>, u32)>,
}
#[derive(Clone, Debug)]
pub struct Vernaux {
    pub name: Vec<u8>,
    pub off: u32,
    pub flags: u16,
    pub other: u16,
}
#[derive(Clone, Debug)]
pub struct Verneed {
    pub file: Vec<u8>,
    pub off: u32,
    pub aux: Vec<Vernaux>,
}

pub fn verdefs(w: &mut W, r: &mut Rng, v: &[Verdef]) {
    for (i, d) in v.iter().enumerate() {
        let gap = if r.one_in(4) { 4 * r.idx(3) } else { 0 };
        let agap = if r.one_in(4) { 4 * r.idx(3) } else { 0 };
        let size = 20 + gap + d.names.len() * (8 + agap);
        w.u16(1).u16(d.flags).u16(d.ndx).u16(d.names.len() as u16).u32(sysv_hash(&d.names[0].0));
        w.u32((20 + gap) as u32).u32(if i + 1 < v.len() { size as u32 } else { 0 });
        w.zeros(gap);
        for (j, n) in d.names.iter().enumerate() {
            w.u32(n.1).u32(if j + 1 < d.names.len() { (8 + agap) as u32 } else { 0 });
            w.zeros(agap);
        }
    }
}
pub fn verneeds(w: &mut W, r: &mut Rng, v: &[Verneed]) {
    for (i, d) in v.iter().enumerate() {
        let gap = if r.one_in(4) { 4 * r.idx(3) } else { 0 };
        let size = 16 + gap + d.aux.len() * 16;
        w.u16(1).u16(d.aux.len() as u16).u32(d.off).u32((16 + gap) as u32).u32(if i + 1 < v.len() { size as u32 } else { 0 });
        w.zeros(gap);
        for (j, n) in d.aux.iter().enumerate() {
            w.u32(sysv_hash(&n.name)).u16(n.flags).u16(n.other).u32(n.off).u32(if j + 1 < d.aux.len() { 16 } else { 0 });
        }
    }
}

pub fn note(w: &mut W, name: &[u8], ty: u32, desc: &[u8], align: usize) {
    let at = w.len();
    w.u32(name.len() as u32).u32(desc.len() as u32).u32(ty).put(name);
    while (w.len() - at) % align != 0 {
        w.u8(0);
    }
    w.put(desc);
    while (w.len() - at) % align != 0 {
        w.u8(0);
    }
}

/// Symbols with versions, ready to be placed in a file.
pub struct DynModel {
    pub syms: Vec<Sym>,
    pub names: Vec<Vec<u8>>,
    pub base: usize,
    pub nbuckets: usize,
    pub versym: Vec<u16>,
    pub defs: Vec<Verdef>,
    pub needs: Vec<Verneed>,
    pub strs: Strs,
}

pub fn dyn_model(r: &mut Rng, is64: bool) -> DynModel {
    let mut strs = Strs::new();
    let mut pool: Vec<Vec<u8>> = (0..1 + r.idx(8)).map(|_| r.ident(10).into_bytes()).collect();
    let mut ndx = 2u16;
    let mut defs = vec![];
    let mut needs = vec![];
    let add = |r: &mut Rng, strs: &mut Strs, n: &[u8]| strs.add(r, n) as u32;
    if r.bool() {
        if r.bool() {
            let n = b"libself.so".to_vec();
            let o = add(r, &mut strs, &n);
            defs.push(Verdef { flags: 1, ndx: 1, names: vec![(n, o)] });
        }
        for _ in 0..r.idx(5) {
            let mut names = vec![];
            for _ in 0..1 + r.idx(3) {
                let n = format!("V_{}", r.ident(5)).into_bytes();
                let o = add(r, &mut strs, &n);
                names.push((n, o));
            }
            defs.push(Verdef { flags: if r.one_in(4) { 2 } else { 0 }, ndx, names });
            ndx += 1 + r.one_in(5) as u16;
        }
    }
    for _ in 0..r.idx(4) {
        let file = format!("lib{}.so.{}", r.ident(6), r.below(9)).into_bytes();
        let off = add(r, &mut strs, &file);
        let mut aux = vec![];
        for _ in 0..r.idx(4) {
            let name = format!("N_{}", r.ident(4)).into_bytes();
            let o = add(r, &mut strs, &name);
            aux.push(Vernaux { name, off: o, flags: if r.one_in(3) { 2 } else { 0 }, other: ndx });
            ndx += 1;
        }
        needs.push(Verneed { file, off, aux });
    }
    let need_ids: Vec<u16> = needs.iter().flat_map(|n| n.aux.iter().map(|a| a.other)).collect();
    let def_ids: Vec<u16> = defs.iter().filter(|d| d.flags & 1 == 0).map(|d| d.ndx).collect();
    let n = r.idx(40);
    let mut undef = vec![];
    let mut defined = vec![];
    for _ in 0..n {
        let name = if r.one_in(3) { r.pick(&pool).clone() } else { r.ident(10).into_bytes() };
        if r.one_in(8) {
            pool.push(name.clone());
        }
        let u = r.one_in(3);
        let s = Sym {
            name_off: add(r, &mut strs, &name),
            name,
            value: r.edgy(if is64 { 64 } else { 32 }),
            size: r.edgy(16),
            bind: *r.pick(&[0u8, 1, 1, 1, 2, 2, 10]),
            ty: *r.pick(&[0u8, 1, 2, 2, 6, 10, 3, 4]),
            other: r.below(4) as u8,
            shndx: if u { 0 } else { *r.pick(&[1u16, 1, 1, 0xfff1, 0xfff2, 0xff05]) },
            xindex: 0,
        };
        let ids = if u { &need_ids } else { &def_ids };
        let v = if ids.is_empty() || r.one_in(3) { r.below(2) as u16 } else { *r.pick(ids) };
        let v = if r.one_in(4) && !u { v | 0x8000 } else { v };
        if u && !r.one_in(6) { undef.push((s, v)) } else { defined.push((s, v)) }
    }
    let nbuckets = 1 + r.idx(12);
    defined.sort_by_key(|x| gnu_hash(&x.0.name) as usize % nbuckets);
    let base = undef.len() + 1;
    let mut syms = vec![Sym::default()];
    let mut versym = vec![0u16];
    for (s, v) in undef.into_iter().chain(defined) {
        syms.push(s);
        versym.push(v);
    }
    let names = syms.iter().map(|s| s.name.clone()).collect();
    DynModel { syms, names, base, nbuckets, versym, defs, needs, strs }
}

impl DynModel {
    /// (name, hash, file) of a version index.
    pub fn version(&self, i: u16) -> Option<(Vec<u8>, Option<Vec<u8>>)> {
        let i = i & 0x7fff;
        if i < 2 {
            return None;
        }
        for d in &self.defs {
            if d.flags & 1 == 0 && d.ndx == i {
                return Some((d.names[0].0.clone(), None));
            }
        }
        for n in &self.needs {
            for a in &n.aux {
                if a.other == i {
                    return Some((a.name.clone(), Some(n.file.clone())));
                }
            }
        }
        None
    }
}

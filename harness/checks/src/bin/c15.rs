//! C15: address maps answer every lookup as a linear search would.
#![allow(dead_code)]
#[path = "c05.rs"]
#[allow(dead_code)]
mod c05;
#[path = "c09.rs"]
#[allow(dead_code)]
mod c09;

use genf::elf::{ELF_RELS, Elf, Reloc, Sec, Sym};
use genf::macho::{Macho, Nlist};
use genf::w::Strs;
use object::read::{File, Object, ObjectMap, ObjectSection, ObjectSymbol, ObjectSymbolTable, RelocationTarget, SymbolMap, SymbolMapBuilder, SymbolMapEntry, SymbolMapName};
use object::{RelocationEncoding, RelocationKind, SectionKind, SymbolKind, SymbolScope};
use vcore::*;

/// Entries of a map, as (address, size, payload).
type E = (u64, u64, u64);

#[derive(Clone, Debug)]
struct Plain(u64, u64);
impl SymbolMapEntry for Plain {
    fn address(&self) -> u64 {
        self.0
    }
}
#[derive(Clone, Debug)]
struct Sized3(E);
impl SymbolMapEntry for Sized3 {
    fn address(&self) -> u64 {
        self.0.0
    }
    fn size(&self) -> u64 {
        self.0.1
    }
}

/// What a linear search selects: the entries at the greatest address not
/// above `a`.
fn before(v: &[E], a: u64) -> Vec<E> {
    let mut best: Option<u64> = None;
    for e in v {
        if e.0 <= a && best.is_none_or(|b| e.0 >= b) {
            best = Some(e.0);
        }
    }
    v.iter().filter(|e| Some(e.0) == best).copied().collect()
}
fn holds(e: &E, a: u64) -> bool {
    // Size 0 reaches to the next entry, or to the end of the address space.
    e.1 == 0 || (a as u128) < e.0 as u128 + e.1 as u128
}
fn queries(r: &mut Rng, v: &[E]) -> Vec<u64> {
    let mut q = vec![0, 1, u64::MAX, u64::MAX - 1, r.u64(), r.edgy(64)];
    for e in v.iter().take(40) {
        for a in [e.0, e.0.wrapping_sub(1), e.0.wrapping_add(1), e.0.wrapping_add(e.1), e.0.wrapping_add(e.1).wrapping_sub(1), e.0.wrapping_add(e.1).wrapping_add(1), e.0.wrapping_add(e.1 / 2)] {
            q.push(a);
        }
    }
    if !v.is_empty() {
        for _ in 0..20 {
            let e = r.pick(v);
            q.push(e.0.wrapping_add(r.below(600)).wrapping_sub(300));
        }
    }
    q
}

/// Compares a map (through `key`, which gives back the entry) with linear search.
fn check_map<T: SymbolMapEntry>(m: &SymbolMap<T>, v: &[E], key: impl Fn(&T) -> E, r: &mut Rng, o: &mut Obs, what: &str) -> Res {
    let got: Vec<E> = m.symbols().iter().map(&key).collect();
    ensure!(got.windows(2).all(|w| w[0].0 <= w[1].0), "{what}: entries sorted: {got:x?}");
    let (mut a, mut b) = (got.clone(), v.to_vec());
    a.sort();
    b.sort();
    same!(a, b, "{what}: entries");
    let unique = a.windows(2).all(|w| w[0].0 != w[1].0);
    for q in queries(r, v) {
        let want = before(v, q);
        let got = m.before(q).map(&key);
        #[allow(deprecated)]
        let old = m.get(q).map(&key);
        let con = m.containing(q).map(&key);
        match got {
            None => ensure!(want.is_empty(), "{what}: nothing at or before {q:#x} but {want:x?}"),
            Some(e) => ensure!(want.contains(&e), "{what}: {e:x?} at or before {q:#x}, not {want:x?}"),
        }
        same!(old, got, "{what}: get({q:#x})");
        match con {
            None => ensure!(want.is_empty() || want.iter().any(|e| !holds(e, q)), "{what}: nothing contains {q:#x} but {want:x?}"),
            Some(e) => ensure!(want.contains(&e) && holds(&e, q), "{what}: {e:x?} contains {q:#x}, not {want:x?}"),
        }
        if unique {
            o.hit(if want.is_empty() {
                "queries before every entry"
            } else if holds(&want[0], q) {
                "queries inside an entry"
            } else {
                "queries in a gap"
            });
        } else {
            o.hit("queries of maps with equal addresses");
        }
    }
    Ok(())
}

fn addr(r: &mut Rng, base: u64) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - r.below(20),
        3 => r.edgy(64),
        4 => r.below(16),
        _ => base.wrapping_add(r.below(400)),
    }
}

fn map(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let n = *r.pick(&[0u64, 1, 2, 3, 5, 8, 13, 40, 200]) as usize;
    let base = if r.bool() { r.u64() } else { 0x1000 };
    let unique = r.bool();
    let mut v: Vec<E> = vec![];
    for i in 0..n {
        let a = addr(r, base);
        if unique && v.iter().any(|e| e.0 == a) {
            continue;
        }
        let z = match r.below(6) {
            0 => 0,
            1 => r.edgy(64),
            2 => (0 as u64).wrapping_sub(a),
            3 => u64::MAX,
            _ => r.below(50),
        };
        v.push((a, z, i as u64));
    }
    o.nontrivial(hash(format!("{v:?}").as_bytes()));
    o.sample(|| format!("{} entries: {:x?}", v.len(), &v[..v.len().min(4)]));
    let m = SymbolMap::new(v.iter().map(|e| Sized3(*e)).collect());
    check_map(&m, &v, |e| e.0, r, o, "sized")?;
    let p: Vec<E> = v.iter().map(|e| (e.0, 0, e.2)).collect();
    let m = SymbolMap::new(p.iter().map(|e| Plain(e.0, e.2)).collect());
    check_map(&m, &p, |e| (e.0, 0, e.1), r, o, "unsized")?;
    let names: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
    let m = SymbolMap::new(v.iter().map(|e| SymbolMapName::new(e.0, e.1, &names[e.2 as usize])).collect());
    check_map(&m, &v, |e| (e.address(), e.size(), e.name()[1..].parse().unwrap()), r, o, "names")?;
    Ok(())
}

/// Linear-search model of the map of a whole file, from its symbols.
fn check_file<'d, O: Object<'d>>(f: &O, r: &mut Rng, o: &mut Obs) -> Result<usize, String> {
    struct C {
        addr: u64,
        size: u64,
        name: String,
        // Smaller is better.
        rank: (bool, bool, bool, u8, std::cmp::Reverse<usize>),
    }
    let mut c: Vec<C> = vec![];
    let mut ends: Vec<u64> = vec![];
    if let Some(t) = f.symbol_table().or_else(|| f.dynamic_symbol_table()) {
        for s in t.symbols() {
            let name = match s.name() {
                Ok(n) if !n.is_empty() => n,
                _ => continue,
            };
            if !s.is_definition() || !matches!(s.kind(), SymbolKind::Text | SymbolKind::Data | SymbolKind::Unknown) {
                continue;
            }
            let scope = match s.scope() {
                SymbolScope::Dynamic => 0,
                SymbolScope::Linkage => 1,
                SymbolScope::Compilation => 2,
                SymbolScope::Unknown => 3,
            };
            let mut csect = false;
            if let object::SymbolFlags::Xcoff { x_smtyp, .. } = s.flags() {
                csect = x_smtyp.typ() != object::xcoff::XTY_LD;
                if s.size() != 0 {
                    ends.push(s.address().saturating_add(s.size()));
                }
            }
            c.push(C { addr: s.address(), size: s.size(), name: name.to_string(), rank: (s.kind() == SymbolKind::Unknown, csect, s.size() == 0, scope, std::cmp::Reverse(s.index().0)) });
        }
        for s in f.sections() {
            ends.push(s.address().saturating_add(s.size()));
        }
    }
    // One entry per address: the best symbol there.
    let mut v: Vec<E> = vec![];
    for i in 0..c.len() {
        if c.iter().all(|x| x.addr != c[i].addr || x.rank >= c[i].rank) {
            v.push((c[i].addr, c[i].size, i as u64));
        }
    }
    if c.len() > v.len() {
        o.hit("files with several symbols at an address");
    }
    // Unknown sizes reach to the next symbol or end of a section.
    let stops: Vec<u64> = c.iter().map(|x| x.addr).chain(ends).collect();
    for e in &mut v {
        if e.1 == 0 {
            if let Some(s) = stops.iter().filter(|s| **s > e.0).min() {
                e.1 = s - e.0;
                o.hit("guessed sizes");
            }
        }
    }
    o.add("map entries", v.len() as u64);
    let key = |e: &SymbolMapName| {
        let i = c.iter().position(|x| x.addr == e.address() && x.name == e.name() && v.iter().any(|y| y.0 == x.addr && c[y.2 as usize].name == x.name));
        let i = i.and_then(|i| v.iter().find(|y| y.0 == c[i].addr)).map(|y| y.2).unwrap_or(u64::MAX);
        (e.address(), e.size(), i)
    };
    check_map(&SymbolMapBuilder::new().build(f), &v, key, r, o, "builder")?;
    let m = f.symbol_map();
    let a: Vec<_> = m.symbols().iter().map(|s| (s.address(), s.size(), s.name().to_string())).collect();
    let b: Vec<_> = SymbolMapBuilder::new().build(f).symbols().iter().map(|s| (s.address(), s.size(), s.name().to_string())).collect();
    same!(a, b, "symbol_map");
    Ok(v.len())
}

fn files(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let data = match r.below(6) {
        0 => some!(capture(c09::SPEC.parts[0].run, case, r)).1,
        1 => some!(capture(c05::SPEC.parts[0].run, case, r)).1,
        _ => dense(r),
    };
    o.input("file", &data);
    let f = okay!(File::parse(&data[..]), "parse");
    if check_file(&f, r, o)? > 0 {
        o.nontrivial(hash(&data));
        o.hit("files with a map");
    }
    Ok(())
}

/// An ELF file whose symbols crowd few addresses.
fn dense(r: &mut Rng) -> Vec<u8> {
    let is64 = r.one_in(3) || r.bool();
    let mut e = Elf { is64, be: r.bool(), machine: *r.pick(&[62, 3, 183, 40, 8]), etype: *r.pick(&[1, 2, 3]), ..Default::default() };
    let m = e.mask();
    let nsec = r.range(1, 4) as usize;
    let base = (if r.bool() { 0x1000 } else { r.u64() }) & m;
    for i in 0..nsec {
        let addr = if r.one_in(6) { addr(r, base) & m } else { base.wrapping_add(r.below(300)) & m };
        let size = if r.one_in(8) { r.edgy(64) & m } else { r.below(200) };
        e.add(Sec { name: format!(".s{i}").into_bytes(), ty: 8, flags: *r.pick(&[2, 6, 3]), addr, size: Some(size), align: 1, ..Default::default() });
    }
    let mut st = Strs::new();
    let table = |r: &mut Rng, e: &Elf, st: &mut Strs| {
        let mut syms = vec![Sym::default()];
        for i in 0..r.below(24) {
            let name = match r.below(12) {
                0 => vec![],
                1 => vec![b'x', 0xff, 0xfe],
                _ => format!("{}{i}", r.ident(5)).into_bytes(),
            };
            syms.push(Sym {
                name_off: st.add(r, &name) as u32,
                name,
                value: if r.one_in(6) { addr(r, base) & m } else { base.wrapping_add(r.below(40) * 8) & m },
                size: if r.bool() { 0 } else { r.below(40) },
                bind: *r.pick(&[0, 1, 1, 2, 10]),
                ty: *r.pick(&[0, 1, 1, 2, 2, 2, 3, 4, 6, 10]),
                other: *r.pick(&[0, 0, 1, 2, 3]),
                shndx: *r.pick(&[0u16, 1, 1, 1, nsec as u16, nsec as u16, 0xfff1, 0xfff2]),
                xindex: 0,
            });
        }
        e.sym_table(&syms)
    };
    let ent = if is64 { 24 } else { 16 };
    let which = r.below(4);
    let strsec = (e.secs.len() + if which == 0 || which == 1 { 1 } else { 2 }) as u32;
    if which != 1 {
        let d = table(r, &e, &mut st);
        e.add(Sec { name: b".symtab".to_vec(), ty: 2, data: d, link: strsec, info: 1, align: 8, entsize: ent, place: 8, ..Default::default() });
    }
    if which != 0 {
        let d = table(r, &e, &mut st);
        e.add(Sec { name: b".dynsym".to_vec(), ty: 11, data: d, link: strsec, info: 1, align: 8, entsize: ent, place: 8, ..Default::default() });
    }
    e.add(Sec { name: b".strtab".to_vec(), ty: 3, data: st.b, align: 1, ..Default::default() });
    e.finish_names(r);
    e.build(r, true)
}

/// STAB entries of a linked Mach-O file.
fn objmap(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let is64 = r.bool();
    let (cpu, be) = *r.pick(&[(0x0100_0007u32, false), (0x0100_000c, false), (0x0100_0012, true)]);
    let (cpu, be) = if is64 { (cpu, be) } else { *r.pick(&[(7, false), (18, true)]) };
    let m = if is64 { u64::MAX } else { 0xffff_ffff };
    let mut st = Strs::new();
    let mut v: Vec<Nlist> = vec![];
    let mut files: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
    let mut want: Vec<(u64, u64, Vec<u8>, usize)> = vec![];
    let base = if r.bool() { 0x1000 } else { r.u64() & m };
    let unique = r.one_in(3) || r.bool();
    let mut put = |r: &mut Rng, ty: u8, name: &[u8], sect: u8, value: u64| {
        let strx = if name.is_empty() && r.bool() { 0 } else { st.add(r, name) as u32 };
        v.push(Nlist { strx, name: name.to_vec(), ty, sect, desc: r.u16() & 1, value });
    };
    for k in 0..r.below(5) {
        // A module: path, object, functions and statics, end.
        let split = r.bool();
        if split {
            put(r, 0x64, b"/dir/", 0, 0);
        }
        put(r, 0x64, format!("f{k}.c").as_bytes(), 0, 0);
        let mut inside = true;
        match r.below(8) {
            0 => {
                put(r, 0x66, b"", 0, 0);
                inside = false;
            }
            1 => inside = false,
            2 => {
                let p = format!("/lib{k}.a");
                let mem = *r.pick(&["a.o", "x(y).o", "", "b c.o"]);
                put(r, 0x66, format!("{p}({mem})").as_bytes(), 0, 0x5000_0000);
                files.push((p.into_bytes(), Some(mem.as_bytes().to_vec())));
            }
            3 => {
                let p = *r.pick(&["odd).o", "odd(.o", "x)", ")"]);
                put(r, 0x66, p.as_bytes(), 0, 7);
                let file = match p {
                    _ if p.ends_with(')') && p.contains('(') => unreachable!(),
                    _ => (p.as_bytes().to_vec(), None),
                };
                files.push(file);
            }
            _ => {
                let p = format!("/obj/{}.o", r.ident(6));
                put(r, 0x66, p.as_bytes(), 0, 1);
                files.push((p.into_bytes(), None));
            }
        }
        let me = files.len().wrapping_sub(1);
        for _ in 0..r.below(7) {
            let name = r.ident(8).into_bytes();
            let a = if r.one_in(8) { addr(r, base) & m } else { base.wrapping_add(r.below(3000)) & m };
            if unique && want.iter().any(|w| w.0 == a) {
                continue;
            }
            match r.below(5) {
                0 => {
                    put(r, 0x26, &name, 1, a);
                    if inside {
                        want.push((a, 0, name, me));
                    }
                }
                1 => put(r, 0x20, &name, 1, a),
                _ => {
                    let z = match r.below(6) {
                        0 => 0,
                        1 => (r.u64() >> r.below(64)) & m,
                        2 => (m - a).wrapping_add(r.below(2)) & m,
                        _ => r.below(300),
                    };
                    let be = r.bool();
                    if be {
                        put(r, 0x2e, b"", 1, a);
                    }
                    put(r, 0x24, &name, 1, a);
                    if r.one_in(4) {
                        put(r, 0x44, b"line", 0, a);
                    }
                    put(r, 0x24, b"", 0, z);
                    if be {
                        put(r, 0x4e, b"", 1, a);
                    }
                    if inside {
                        want.push((a, z, name, me));
                    }
                }
            }
        }
        if r.one_in(5) {
            continue;
        }
        put(r, 0x64, b"", 1, 0);
        if r.one_in(4) {
            // Outside of every module.
            put(r, 0x24, b"stray", 1, 0x4000);
            put(r, 0x24, b"", 0, 16);
            put(r, 0x26, b"stray2", 1, 0x4800);
            o.hit("stray functions");
        }
    }
    let mut f = Macho { is64, be, cputype: cpu, filetype: 2, ..Default::default() };
    let c = f.symtab(&v, st.b);
    f.cmds.push(c);
    let data = f.build(r);
    o.input("file", &data);
    let file = okay!(File::parse(&data[..]), "parse");
    let om: ObjectMap = file.object_map();
    let got: Vec<_> = om.objects().iter().map(|x| (x.path().to_vec(), x.member().map(|m| m.to_vec()))).collect();
    same!(got, files, "objects");
    let es: Vec<E> = want.iter().enumerate().map(|(i, w)| (w.0, w.1, i as u64)).collect();
    let mut got: Vec<_> = om.symbols().iter().map(|s| (s.address(), s.size(), s.name().to_vec(), s.object_index())).collect();
    ensure!(got.windows(2).all(|w| w[0].0 <= w[1].0), "sorted");
    let mut w2 = want.clone();
    got.sort();
    w2.sort();
    same!(got, w2, "entries");
    for s in om.symbols() {
        let f = s.object(&om);
        same!((f.path().to_vec(), f.member().map(|m| m.to_vec())), files[s.object_index()], "object of an entry");
    }
    for q in queries(r, &es) {
        let cand = before(&es, q);
        let fit = |e: &E| {
            let w = &want[e.2 as usize];
            (w.0, w.1, w.2.clone(), w.3)
        };
        match om.get(q) {
            None => {
                ensure!(cand.is_empty() || cand.iter().any(|e| !holds(e, q)), "nothing contains {q:#x}, but {cand:x?}");
                o.hit("object map misses");
            }
            Some(s) => {
                let g = (s.address(), s.size(), s.name().to_vec(), s.object_index());
                ensure!(cand.iter().any(|e| holds(e, q) && fit(e) == g), "{g:x?} contains {q:#x}, not {cand:x?}");
                o.hit("object map hits");
            }
        }
    }
    if !want.is_empty() {
        o.nontrivial(hash(&data));
    }
    Ok(())
}

/// Relocation maps of relocatable ELF files, against the encoded entries.
fn relocs(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    // machine, 64-bit, absolute relocation types, another kind, uses RELA.
    const M: &[(u16, bool, &[u32], &[u32], bool)] = &[
        (62, true, &[1, 10], &[2, 4, 11], true),
        (3, false, &[1, 20, 22], &[2, 4], false),
        (183, true, &[257, 258], &[261, 283], true),
        (40, false, &[2], &[3, 28], false),
        (243, true, &[1, 2], &[57], true),
        (21, true, &[38], &[10], true),
        (22, true, &[22], &[5], true),
        (20, false, &[1], &[10], true),
    ];
    let &(machine, is64, abs, other, rela0) = r.pick(M);
    let rela = if r.one_in(4) { !rela0 } else { rela0 };
    let mut e = Elf { is64, be: r.bool(), machine, etype: 1, ..Default::default() };
    let m = e.mask();
    let nsec = r.range(1, 3) as usize;
    for i in 0..nsec {
        let name = if i == 0 { b".debug_info".to_vec() } else { format!(".{}{i}", if i == 1 { "text" } else { "data" }).into_bytes() };
        let d = r.bytes(64);
        e.add(Sec { name, ty: 1, flags: if i == 0 { 0 } else { 2 }, addr: if r.bool() { 0 } else { r.u64() & m }, data: d, align: 1, ..Default::default() });
    }
    let mut st = Strs::new();
    let mut syms = vec![Sym::default()];
    for i in 0..r.range(1, 8) {
        let n = format!("s{i}").into_bytes();
        syms.push(Sym { name_off: st.add(r, &n) as u32, name: n, value: if r.bool() { r.below(5000) } else { r.u64() & m }, size: 0, bind: *r.pick(&[0, 1]), ty: *r.pick(&[0, 1, 2, 3]), other: 0, shndx: *r.pick(&[0u16, 1, nsec as u16, 0xfff1]), xindex: 0 });
    }
    let n = r.below(10);
    let clean = !r.one_in(4);
    let mut rs: Vec<Reloc> = vec![];
    for _ in 0..n {
        let off = if r.one_in(6) { r.edgy(64) & m } else { r.below(16) * 4 };
        if clean && rs.iter().any(|x| x.off == off) {
            continue;
        }
        let bad = !clean && r.one_in(4);
        rs.push(Reloc {
            off,
            sym: if !clean && r.one_in(10) { syms.len() as u32 + r.below(3) as u32 } else { r.range(1, syms.len() as u64 - 1) as u32 },
            ty: if bad { *r.pick(other) } else if r.one_in(10) { 0 } else { *r.pick(abs) },
            addend: if rela { if is64 { r.edgy(64) as i64 } else { r.u32() as i32 as i64 } } else { 0 },
        });
    }
    let table = e.rel_table(&rs, rela);
    let k = e.secs.len() as u32;
    let d = e.sym_table(&syms);
    e.add(Sec { name: b".rel".to_vec(), ty: if rela { 4 } else { 9 }, data: table, link: k + 1, info: 1, align: 8, entsize: (if is64 { 16 } else { 8 }) + if rela { if is64 { 8 } else { 4 } } else { 0 }, place: 8, ..Default::default() });
    e.add(Sec { name: b".symtab".to_vec(), ty: 2, data: d, link: k + 2, info: 1, align: 8, entsize: if is64 { 24 } else { 16 }, place: 8, ..Default::default() });
    e.add(Sec { name: b".strtab".to_vec(), ty: 3, data: st.b, align: 1, ..Default::default() });
    e.finish_names(r);
    let data = e.build(r, true);
    o.input("file", &data);
    let f = okay!(File::parse(&data[..]), "parse");
    let s = okay!(f.section_by_index(object::SectionIndex(1)), "section");
    let got = s.relocation_map();
    // The map cannot be made if an entry is not a plain absolute one, has no
    // valid symbol, or shares its offset.
    let mut seen = std::collections::HashMap::new();
    let mut bad = false;
    for x in &rs {
        if x.ty == 0 {
            continue;
        }
        // Not RELR types; the kinds are those of the mapping tables of C05.
        bad |= !abs.contains(&x.ty) || x.sym as usize >= syms.len();
        bad |= seen.insert(x.off, x).is_some();
    }
    let _ = ELF_RELS;
    if bad {
        ensure!(got.is_err(), "a map which cannot be right was made");
        o.hit("refused relocation maps");
        return Ok(());
    }
    let map = okay!(got, "relocation map");
    let mut q: Vec<u64> = rs.iter().flat_map(|x| [x.off, x.off.wrapping_add(1), x.off.wrapping_sub(1), x.off.wrapping_add(4)]).collect();
    q.extend([0, u64::MAX, r.below(64)]);
    for off in q {
        let value = r.edgy(64);
        let want = match seen.get(&off) {
            None => {
                o.hit("offsets without relocation");
                value
            }
            Some(x) => {
                o.hit("offsets with relocation");
                let s = syms[x.sym as usize].value;
                if rela { s.wrapping_add(x.addend as u64) } else { s.wrapping_add(value) }
            }
        };
        same!(map.relocate(off, value), want, "value {value:#x} at {off:#x}, rela {rela}");
    }
    if !rs.is_empty() {
        o.nontrivial(hash(&data));
    }
    Ok(())
}

/// Relocation maps of any file, against its relocations one by one.
fn anyreloc(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let p = r.below(3);
    let data = if p == 0 { some!(capture(c05::SPEC.parts[0].run, case, r)).1 } else { some!(capture(c09::SPEC.parts[0].run, case, r)).1 };
    o.input("file", &data);
    let f = okay!(File::parse(&data[..]), "parse");
    for s in f.sections() {
        let rs: Vec<_> = s.relocations().collect();
        let mut map = object::read::RelocationMap::default();
        let mut ok = true;
        let mut model = std::collections::HashMap::new();
        for (off, x) in &rs {
            let imp = x.has_implicit_addend();
            let e = if x.kind() == RelocationKind::None {
                Some(None)
            } else if x.kind() != RelocationKind::Absolute || x.encoding() != RelocationEncoding::Generic {
                None
            } else {
                match x.target() {
                    RelocationTarget::Symbol(i) => f.symbol_by_index(i).ok().map(|y| Some(y.address())),
                    RelocationTarget::Section(i) => f.section_by_index(i).ok().map(|y| Some(if y.kind() == SectionKind::Debug { 0 } else { y.address() })),
                    _ => None,
                }
            };
            let added = map.add(&f, *off, relocation_copy(&s, *off, x, &rs)).is_ok();
            match e {
                None => {
                    ensure!(!added, "{off:#x}: {x:?} was added");
                    ok = false;
                    o.hit("relocations not for maps");
                }
                Some(None) => ensure!(added, "{off:#x}: no relocation"),
                Some(Some(base)) => {
                    let v = (imp, base.wrapping_add(x.addend() as u64));
                    if model.insert(*off, v).is_some() {
                        ensure!(!added, "{off:#x}: a second relocation was added");
                        ok = false;
                        // Which of them applies is not specified.
                        model.insert(*off, (false, 0));
                    } else {
                        ensure!(added, "{off:#x}: {x:?} was not added");
                        let z = r.edgy(64);
                        let want = if imp { v.1.wrapping_add(z) } else { v.1 };
                        same!(map.relocate(*off, z), want, "{off:#x}: {x:?}");
                        o.hit("relocations applied one by one");
                    }
                }
            }
        }
        same!(s.relocation_map().is_ok(), ok, "relocation_map of {:?}", s.name());
        if !rs.is_empty() {
            o.nontrivial(hash(&data));
        }
    }
    Ok(())
}
/// The relocation again (it cannot be cloned).
fn relocation_copy<'d>(s: &impl ObjectSection<'d>, off: u64, x: &object::read::Relocation, rs: &[(u64, object::read::Relocation)]) -> object::read::Relocation {
    let i = rs.iter().position(|y| std::ptr::eq(&y.1, x) && y.0 == off).unwrap();
    s.relocations().nth(i).unwrap().1
}

pub static SPEC: Spec = Spec {
    id: "C15",
    rule: "a set of map entries, symbols or relocations whose lookups at and around every boundary were compared with a linear search over the same set",
    parts: &[
        Part { name: "map", quick: 40_000, thorough: 2_000_000, run: map },
        Part { name: "files", quick: 40_000, thorough: 1_500_000, run: files },
        Part { name: "objmap", quick: 40_000, thorough: 1_500_000, run: objmap },
        Part { name: "relocs", quick: 30_000, thorough: 1_000_000, run: relocs },
        Part { name: "anyreloc", quick: 10_000, thorough: 300_000, run: anyreloc },
    ],
    required: &[
        "queries before every entry", "queries inside an entry", "queries in a gap", "queries of maps with equal addresses", "files with a map", "files with several symbols at an address", "guessed sizes",
        "object map hits", "object map misses", "stray functions", "offsets with relocation", "offsets without relocation", "refused relocation maps", "relocations applied one by one", "relocations not for maps",
    ],
    tools: &[],
    assumptions: &["maps built from entries with equal addresses may answer with any of them", "which symbols a file's map holds follows the documented rules of SymbolMapBuilder: defined, named, text, data or unknown kind, the most informative one per address"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

//! C13: WebAssembly modules decode to exactly what they encode.
use genf::w::{sleb, uleb, uleb_pad};
use object::read::*;
use object::{FileFlags, RelocationFlags, SectionFlags, SymbolFlags};
use vcore::*;

fn dbg<T: std::fmt::Debug>(t: T) -> String {
    format!("{t:?}")
}

#[derive(Clone, Debug)]
struct Sec {
    id: u8,
    name: String,
    /// Start and end of the reported content (after the name of a custom section).
    start: usize,
    end: usize,
}
#[derive(Clone, Debug, PartialEq)]
struct Sym {
    name: String,
    address: u64,
    size: u64,
    kind: &'static str,
    section: String,
    scope: SymbolScope,
    weak: bool,
}
#[derive(Clone, Debug)]
struct Rel {
    ty: u8,
    offset: u32,
    index: u32,
    addend: i64,
}

fn s(out: &mut Vec<u8>, t: &str) {
    uleb(out, t.len() as u64);
    out.extend_from_slice(t.as_bytes());
}
fn ident(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => "日本 λ".into(),
        2 => format!("{}{}", r.ident(20), r.ident(20)),
        _ => r.ident(10),
    }
}
fn limits(r: &mut Rng, out: &mut Vec<u8>, mem64: bool) {
    let max = r.bool();
    out.push(max as u8 | (mem64 as u8) << 2);
    let a = r.below(100);
    uleb(out, a);
    if max {
        uleb(out, a + r.below(100));
    }
}
fn valtype(r: &mut Rng) -> u8 {
    *r.pick(&[0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f])
}

struct M {
    out: Vec<u8>,
    secs: Vec<Sec>,
}
impl M {
    fn sec(&mut self, r: &mut Rng, id: u8, body: &[u8]) {
        self.out.push(id);
        if r.one_in(4) {
            uleb_pad(&mut self.out, body.len() as u64, r.range(0, 2) as usize);
        } else {
            uleb(&mut self.out, body.len() as u64);
        }
        let start = self.out.len();
        self.out.extend_from_slice(body);
        self.secs.push(Sec { id, name: String::new(), start, end: self.out.len() });
    }
    fn custom(&mut self, r: &mut Rng, name: &str, body: &[u8]) {
        let mut b = vec![];
        s(&mut b, name);
        let n = b.len();
        b.extend_from_slice(body);
        self.sec(r, 0, &b);
        let l = self.secs.last_mut().unwrap();
        l.start += n;
        l.name = name.into();
    }
    fn random_custom(&mut self, r: &mut Rng, debug: &mut bool) {
        while r.one_in(3) {
            let n = match r.below(5) {
                0 => ".debug_info".to_string(),
                1 => format!(".debug_{}", r.ident(6)),
                2 => "producers".into(),
                3 => ".debug".into(),
                _ => ident(r),
            };
            if n == "name" || n == "linking" || n.starts_with("reloc.") || n == "dylink.0" {
                continue;
            }
            *debug |= n.starts_with(".debug_");
            let k = r.idx(30);
            let b = r.bytes(k);
            self.custom(r, &n, &b);
        }
    }
}

fn name_of(id: u8) -> &'static str {
    ["", "<type>", "<import>", "<function>", "<table>", "<memory>", "<global>", "<export>", "<start>", "<element>", "<code>", "<data>", "<data_count>", "<tag>"][id as usize]
}
fn kind_of(x: &Sec) -> &'static str {
    match x.id {
        0 if x.name == "linking" || x.name.starts_with("reloc.") => "Linker",
        0 => "Other",
        1 | 3 => "Metadata",
        2 | 7 | 8 => "Linker",
        4 | 5 | 12 => "UninitializedData",
        10 => "Text",
        _ => "Data",
    }
}

fn modules(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let mut m = M { out: b"\0asm\x01\0\0\0".to_vec(), secs: vec![] };
    let relocatable = case % 2 == 1;
    let mut debug = false;
    let mut mem64 = false;
    // Types.
    m.random_custom(r, &mut debug);
    let ntypes = r.range(1, 4);
    let mut b = vec![];
    uleb(&mut b, ntypes);
    for i in 0..ntypes {
        b.push(0x60);
        // The first one suits tags and the start function.
        for _ in 0..2 {
            let n = if i == 0 { 0 } else { r.below(3) };
            uleb(&mut b, n);
            for _ in 0..n {
                b.push(valtype(r));
            }
        }
    }
    m.sec(r, 1, &b);
    m.random_custom(r, &mut debug);
    // Imports.
    let mut imports: Vec<(String, String, u8)> = vec![];
    if r.bool() {
        let n = r.idx(8);
        let mut b = vec![];
        uleb(&mut b, n as u64);
        let mods = [ident(r), ident(r), "env".into()];
        let mut module = mods[0].clone();
        for _ in 0..n {
            if r.one_in(3) {
                module = r.pick(&mods).clone();
            }
            let name = ident(r);
            let k = *r.pick(&[0u8, 0, 0, 1, 2, 3, 3, 4]);
            s(&mut b, &module);
            s(&mut b, &name);
            b.push(k);
            match k {
                0 => uleb(&mut b, r.below(ntypes)),
                1 => {
                    b.push(0x70);
                    limits(r, &mut b, false);
                }
                2 => {
                    let w = r.one_in(4);
                    mem64 |= w;
                    limits(r, &mut b, w);
                }
                3 => {
                    b.push(valtype(r));
                    b.push(r.bool() as u8);
                }
                _ => b.extend([0, 0]),
            }
            imports.push((module.clone(), name, k));
        }
        m.sec(r, 2, &b);
        m.random_custom(r, &mut debug);
    }
    let nimp = |k: u8| imports.iter().filter(|i| i.2 == k).count();
    // Functions.
    let nfunc = if r.one_in(6) { 0 } else { r.idx(7) };
    if nfunc > 0 {
        let mut b = vec![];
        uleb(&mut b, nfunc as u64);
        for _ in 0..nfunc {
            uleb(&mut b, r.below(ntypes));
        }
        m.sec(r, 3, &b);
        m.random_custom(r, &mut debug);
    }
    let mut ntable = 0;
    if r.bool() {
        ntable = r.range(1, 2) as usize;
        let mut b = vec![];
        uleb(&mut b, ntable as u64);
        for _ in 0..ntable {
            b.push(0x70);
            limits(r, &mut b, false);
        }
        m.sec(r, 4, &b);
    }
    let mut nmem = 0;
    if r.bool() {
        nmem = r.range(1, 2) as usize;
        let mut b = vec![];
        uleb(&mut b, nmem as u64);
        for _ in 0..nmem {
            let w = r.one_in(4);
            mem64 |= w;
            limits(r, &mut b, w);
        }
        m.sec(r, 5, &b);
        m.random_custom(r, &mut debug);
    }
    if r.one_in(5) {
        let mut b = vec![1];
        b.extend([0, 0]);
        m.sec(r, 13, &b);
    }
    let ntag = m.secs.last().is_some_and(|s| s.id == 13) as usize;
    // Globals: address of each one, where it has one.
    let mut globals: Vec<Option<u64>> = vec![];
    if r.bool() {
        let n = r.range(1, 5) as usize;
        let mut b = vec![];
        uleb(&mut b, n as u64);
        for _ in 0..n {
            let mutable = r.one_in(3);
            let v = r.edgy(64);
            let addr = match r.below(4) {
                0 => {
                    b.extend([0x7e, mutable as u8, 0x42]);
                    sleb(&mut b, v as i64);
                    Some(v)
                }
                1 => {
                    b.extend([0x7d, mutable as u8, 0x43, 1, 2, 3, 4]);
                    None
                }
                2 if nimp(3) > 0 => {
                    b.extend([0x7f, mutable as u8, 0x23]);
                    uleb(&mut b, r.below(nimp(3) as u64));
                    None
                }
                _ => {
                    b.extend([0x7f, mutable as u8, 0x41]);
                    sleb(&mut b, i64::from(v as u32 as i32));
                    Some(u64::from(v as u32))
                }
            };
            b.push(0x0b);
            globals.push(addr.filter(|_| !mutable));
        }
        m.sec(r, 6, &b);
        m.random_custom(r, &mut debug);
    }
    // Exports.
    let (fi, ti, mi, gi, ei) = (nimp(0), nimp(1), nimp(2), nimp(3), nimp(4));
    let mut exports: Option<Vec<(String, u8, usize)>> = None;
    if r.bool() {
        let mut v = vec![];
        let mut b = vec![];
        for _ in 0..r.idx(6) {
            let k = *r.pick(&[0u8, 0, 0, 3, 3, 1, 2, 4]);
            let n = [fi + nfunc, ti + ntable, mi + nmem, gi + globals.len(), ei + ntag][k as usize];
            if n > 0 {
                v.push((ident(r), k, r.idx(n)));
            }
        }
        uleb(&mut b, v.len() as u64);
        for (n, k, i) in &v {
            s(&mut b, n);
            b.push(*k);
            uleb(&mut b, *i as u64);
        }
        m.sec(r, 7, &b);
        m.random_custom(r, &mut debug);
        exports = Some(v);
    }
    let mut start = None;
    if fi + nfunc > 0 && r.bool() {
        let f = r.idx(fi + nfunc);
        let mut b = vec![];
        uleb(&mut b, f as u64);
        m.sec(r, 8, &b);
        start = Some(f);
    }
    if r.one_in(3) {
        let mut b = vec![1, 0, 0x41, 0, 0x0b];
        uleb(&mut b, 0);
        m.sec(r, 9, &b);
    }
    let ndata = r.idx(4);
    if r.one_in(3) && ndata > 0 {
        m.sec(r, 12, &[ndata as u8]);
    }
    // Code.
    let mut code: Vec<(u64, u64)> = vec![];
    if nfunc > 0 {
        let mut b = vec![];
        uleb(&mut b, nfunc as u64);
        for _ in 0..nfunc {
            let mut f = vec![0];
            for _ in 0..r.idx(40) {
                f.push(1);
            }
            f.push(0x0b);
            if r.one_in(4) {
                uleb_pad(&mut b, f.len() as u64, r.range(0, 2) as usize);
            } else {
                uleb(&mut b, f.len() as u64);
            }
            code.push((b.len() as u64, f.len() as u64));
            b.extend(f);
        }
        m.sec(r, 10, &b);
        m.random_custom(r, &mut debug);
    }
    if ndata > 0 {
        let mut b = vec![];
        uleb(&mut b, ndata as u64);
        for _ in 0..ndata {
            let n = r.idx(20);
            b.push(1);
            uleb(&mut b, n as u64);
            b.extend(r.bytes(n));
        }
        m.sec(r, 11, &b);
        m.random_custom(r, &mut debug);
    }
    // Linking symbols.
    let mut linking: Option<Vec<Sym>> = None;
    let range = |i: usize| i.checked_sub(fi).and_then(|i| code.get(i).copied()).unwrap_or((0, 0));
    let imported = |k: u8, i: usize| imports.iter().filter(|x| x.2 == k).nth(i).map(|x| x.1.clone());
    if relocatable {
        let mut v = vec![];
        let mut t = vec![];
        let n = r.idx(12);
        uleb(&mut t, n as u64);
        for _ in 0..n {
            let mut k = r.below(6) as u8;
            let mut flags = 0u64;
            for f in [1u64, 2, 4, 0x20, 0x80, 0x100, 0x200] {
                if r.one_in(6) {
                    flags |= f;
                }
            }
            let count = |k: u8| match k {
                0 => (fi, nfunc),
                2 => (gi, globals.len()),
                4 => (ei, ntag),
                5 => (ti, ntable),
                _ => (0, 0),
            };
            if matches!(k, 0 | 2 | 4 | 5) && count(k).0 + count(k).1 == 0 {
                k = 1;
            }
            let mut name = ident(r);
            let (mut address, mut size) = (0, 0);
            t.push(k);
            match k {
                0 | 2 | 4 | 5 => {
                    let (a, b) = count(k);
                    let i = r.idx(a + b);
                    if i < a {
                        flags |= 0x10;
                    }
                    let explicit = r.bool();
                    if explicit {
                        flags |= 0x40;
                    }
                    uleb(&mut t, flags);
                    uleb(&mut t, i as u64);
                    if i >= a || explicit {
                        s(&mut t, &name);
                    } else {
                        name = imported([0, 0, 3, 0, 4, 1][k as usize], i).unwrap();
                        o.hit("linking names of imports");
                    }
                    if k == 0 {
                        (address, size) = range(i);
                    }
                }
                1 => {
                    if r.bool() {
                        flags |= 0x10;
                    }
                    uleb(&mut t, flags);
                    s(&mut t, &name);
                    if flags & 0x10 == 0 {
                        let (seg, off, len) = (r.below(ndata.max(1) as u64), r.edgy(32), r.edgy(32));
                        uleb(&mut t, seg);
                        uleb(&mut t, off);
                        uleb(&mut t, len);
                        (address, size) = (off, len);
                    }
                }
                _ => {
                    flags |= 2;
                    uleb(&mut t, flags);
                    uleb(&mut t, r.below(m.secs.len() as u64));
                    name.clear();
                }
            }
            let kind = if flags & 0x100 != 0 { "Tls" } else { ["Text", "Data", "Data", "Section", "Unknown", "Data"][k as usize] };
            let section = if flags & 0x10 != 0 {
                "Undefined".into()
            } else if flags & 0x200 != 0 {
                "Absolute".into()
            } else if k == 0 {
                "Section(SectionIndex(10))".into()
            } else {
                "Unknown".to_string()
            };
            let scope = if flags & 2 != 0 {
                SymbolScope::Compilation
            } else if flags & 4 != 0 {
                SymbolScope::Linkage
            } else {
                SymbolScope::Dynamic
            };
            v.push(Sym { name, address, size, kind, section, scope, weak: flags & 1 != 0 });
        }
        let mut b = vec![];
        uleb(&mut b, 2);
        let mut subs: Vec<(u8, Vec<u8>)> = vec![];
        if r.bool() {
            let mut d = vec![1];
            s(&mut d, "seg");
            d.extend([2, 0]);
            subs.push((5, d));
        }
        if r.bool() {
            subs.push((6, vec![1, 7, 0]));
        }
        let with = !r.one_in(8);
        if with {
            subs.push((8, t));
        }
        r.shuffle(&mut subs);
        for (k, d) in subs {
            b.push(k);
            uleb(&mut b, d.len() as u64);
            b.extend(d);
        }
        m.custom(r, "linking", &b);
        if with {
            linking = Some(v);
        }
    }
    // Relocation sections.
    let mut relocs: Vec<(u32, Vec<Rel>)> = vec![];
    if relocatable && r.bool() {
        for _ in 0..r.range(1, 3) {
            let target = if r.one_in(10) { r.u32() } else { r.below(m.secs.len() as u64) as u32 };
            let mut v = vec![];
            let mut b = vec![];
            uleb(&mut b, target.into());
            let n = r.idx(8);
            uleb(&mut b, n as u64);
            for _ in 0..n {
                let ty = r.below(27) as u8;
                let (offset, index) = (r.edgy(32) as u32, r.edgy(32) as u32);
                b.push(ty);
                uleb(&mut b, offset.into());
                uleb(&mut b, index.into());
                let addend = match ty {
                    3 | 4 | 5 | 8 | 9 | 11 | 21 | 23 => i64::from(r.edgy(32) as i32),
                    14 | 15 | 16 | 17 | 22 | 25 => r.edgy(64) as i64,
                    _ => 0,
                };
                if matches!(ty, 3 | 4 | 5 | 8 | 9 | 11 | 21 | 23 | 14..=17 | 22 | 25) {
                    sleb(&mut b, addend);
                }
                v.push(Rel { ty, offset, index, addend });
            }
            let n = *r.pick(&["reloc.CODE", "reloc.DATA", "reloc..debug_info", "reloc.", "reloc.x"]);
            m.custom(r, n, &b);
            relocs.push((target, v));
        }
    }
    // Names.
    let mut names: Option<Vec<(usize, String)>> = None;
    if r.bool() {
        let mut v = vec![];
        for i in 0..fi + nfunc + 2 {
            if r.bool() {
                v.push((i, ident(r)));
            }
        }
        let mut b = vec![];
        if r.bool() {
            let mut d = vec![];
            s(&mut d, "module");
            b.push(0);
            uleb(&mut b, d.len() as u64);
            b.extend(d);
        }
        let with = !r.one_in(6);
        if with {
            let mut d = vec![];
            uleb(&mut d, v.len() as u64);
            for (i, n) in &v {
                uleb(&mut d, *i as u64);
                s(&mut d, n);
            }
            b.push(1);
            uleb(&mut b, d.len() as u64);
            b.extend(d);
        } else {
            v.clear();
        }
        if r.bool() {
            let mut d = vec![1, 0];
            s(&mut d, "global");
            b.push(7);
            uleb(&mut b, d.len() as u64);
            b.extend(d);
        }
        m.custom(r, "name", &b);
        names = Some(v);
    }
    m.random_custom(r, &mut debug);

    // The expected symbols.
    let file = |name: &str, scope| Sym { name: name.into(), address: 0, size: 0, kind: "File", section: "None".into(), scope, weak: false };
    let mut want: Vec<Sym> = vec![];
    if let Some(v) = &linking {
        want = v.clone();
        o.add("linking symbols", v.len() as u64);
    } else {
        let mut last: Option<&str> = None;
        for (module, name, k) in &imports {
            if last != Some(module) {
                want.push(file(module, SymbolScope::Dynamic));
                last = Some(module);
            }
            let kind = ["Text", "Data", "Data", "Data", "Unknown"][*k as usize];
            want.push(Sym { name: name.clone(), address: 0, size: 0, kind, section: "Undefined".into(), scope: SymbolScope::Dynamic, weak: false });
            o.hit("imports");
        }
        if exports.is_some() || names.is_some() {
            want.push(file("", SymbolScope::Compilation));
        }
        for (name, k, i) in exports.iter().flatten() {
            let (address, size) = match k {
                0 => range(*i),
                3 => (i.checked_sub(gi).and_then(|i| globals[i]).unwrap_or(0), 0),
                4 => continue,
                _ => (0, 0),
            };
            let (kind, sec) = if *k == 0 { ("Text", 10) } else { ("Data", 11) };
            want.push(Sym { name: name.clone(), address, size, kind, section: format!("Section(SectionIndex({sec}))"), scope: SymbolScope::Dynamic, weak: false });
            o.hit("exports");
            if *k == 3 && address != 0 {
                o.hit("exports of global addresses");
            }
        }
        for (i, name) in names.iter().flatten() {
            let exported = exports.iter().flatten().any(|e| e.1 == 0 && e.2 == *i);
            if *i < fi || *i >= fi + nfunc || exported {
                continue;
            }
            let (address, size) = range(*i);
            want.push(Sym { name: name.clone(), address, size, kind: "Text", section: "Section(SectionIndex(10))".into(), scope: SymbolScope::Compilation, weak: false });
            o.hit("named functions");
        }
    }

    let data = m.out;
    o.input("wasm", &data);
    o.hit("files");
    same!(okay!(FileKind::parse(&data[..])), FileKind::Wasm, "file kind");
    let f = okay!(wasm::WasmFile::<&[u8]>::parse(&data[..]), "module");
    same!(okay!(object::File::parse(&data[..])).format(), BinaryFormat::Wasm, "format");
    same!((dbg(f.architecture()), f.is_64(), f.is_little_endian()), (if mem64 { "Wasm64" } else { "Wasm32" }.to_string(), mem64, true), "architecture");
    same!((dbg(f.kind()), f.relative_address_base(), f.flags()), ("Unknown".into(), 0, FileFlags::None), "kind, base, flags");
    same!(f.has_debug_symbols(), debug, "has_debug_symbols");
    let entry = start.map_or(0, |i| range(i).0);
    same!(f.entry(), entry, "entry (start function {start:?} of {fi} imported and {nfunc} defined)");
    same!((f.segments().count(), f.comdats().count(), f.dynamic_symbols().count(), f.dynamic_symbol_table().is_some()), (0, 0, 0, false), "absent things");
    if entry != 0 {
        o.hit("start functions");
        if fi > 0 {
            o.hit("start functions after imports");
        }
    }
    // Sections.
    let got: Vec<_> = f.sections().collect();
    same!(got.len(), m.secs.len(), "sections");
    for (n, (g, w)) in got.iter().zip(&m.secs).enumerate() {
        let at = format!("section {n} of id {}", w.id);
        same!(g.index().0, w.id as usize, "{at} index");
        let name = if w.id == 0 { &w.name[..] } else { name_of(w.id) };
        same!((okay!(g.name()), okay!(g.name_bytes())), (name, name.as_bytes()), "{at} name");
        same!(dbg(g.kind()), kind_of(w), "{at} kind");
        same!((g.address(), g.size(), g.align()), (0, (w.end - w.start) as u64, 1), "{at} address, size, align");
        same!(g.file_range(), Some((w.start as u64, (w.end - w.start) as u64)), "{at} file_range");
        same!(okay!(g.data()), &data[w.start..w.end], "{at} data");
        same!(&*okay!(g.uncompressed_data()), &data[w.start..w.end], "{at} uncompressed_data");
        let c = okay!(g.compressed_file_range());
        same!((c.offset, c.compressed_size, c.uncompressed_size), (w.start as u64, g.size(), g.size()), "{at} compressed_file_range");
        let len = w.end - w.start;
        let a = r.idx(len + 1);
        let z = r.idx(len - a + 1);
        same!(okay!(g.data_range(a as u64, z as u64)), Some(&data[w.start + a..w.start + a + z]), "{at} data_range");
        same!(okay!(g.data_range(a as u64, (len - a) as u64 + 1)), None, "{at} data_range past the end");
        same!((g.flags(), okay!(g.segment_name())), (SectionFlags::None, None), "{at} flags");
        // Relocations.
        let want: Vec<&Rel> = relocs.iter().filter(|x| x.0 as usize == n).flat_map(|x| &x.1).collect();
        let have: Vec<_> = g.relocations().collect();
        same!(have.len(), want.len(), "{at} relocations");
        for ((off, g), w) in have.iter().zip(want) {
            let at = format!("{at} relocation {w:?}");
            same!(*off, u64::from(w.offset), "{at} offset");
            let size = match w.ty {
                14 | 15 | 17 | 18 | 24 | 25 => 80,
                2 | 5 | 8 | 9 | 13 | 23 | 26 => 32,
                16 | 19 | 22 => 64,
                _ => 40,
            };
            same!((g.size(), dbg(g.kind()), g.has_implicit_addend()), (size, "Unknown".into(), false), "{at} size");
            same!(g.flags(), RelocationFlags::Wasm { r_type: w.ty }, "{at} flags");
            if w.ty == 6 {
                same!((g.target(), g.addend()), (RelocationTarget::Section(SectionIndex(1)), i64::from(w.index)), "{at} type index");
            } else {
                same!((g.target(), g.addend()), (RelocationTarget::Symbol(SymbolIndex(w.index as usize)), w.addend), "{at} target");
            }
            o.hit("relocations");
        }
        o.hit("sections");
    }
    for id in 0..16usize {
        // Of custom sections, by index means the last one.
        let last = m.secs.iter().rev().find(|s| s.id as usize == id);
        let g = f.section_by_index(SectionIndex(id));
        same!(g.as_ref().ok().map(|g| (g.file_range().unwrap().0 as usize, g.index().0)), last.map(|s| (s.start, id)), "section_by_index {id}");
    }
    for w in &m.secs {
        let name = if w.id == 0 { &w.name[..] } else { name_of(w.id) };
        let first = m.secs.iter().find(|s| name == if s.id == 0 { &s.name[..] } else { name_of(s.id) }).unwrap();
        same!(f.section_by_name(name).map(|g| g.file_range().unwrap().0 as usize), Some(first.start), "section_by_name {name:?}");
    }
    ensure!(f.section_by_name("no such section").is_none(), "section_by_name of nothing");
    // Symbols.
    let have: Vec<_> = f.symbols().collect();
    for (i, g) in have.iter().enumerate() {
        let h = Sym { name: okay!(g.name()).into(), address: g.address(), size: g.size(), kind: "", section: dbg(g.section()), scope: g.scope(), weak: g.is_weak() };
        let w = some!(want.get(i), "symbol {i} is one too many: {h:?}");
        same!(dbg(g.kind()), w.kind, "symbol {i} {w:?} kind");
        same!(h, Sym { kind: "", ..w.clone() }, "symbol {i}");
        same!(g.index().0, i, "symbol {i} index");
        same!(okay!(g.name_bytes()), w.name.as_bytes(), "symbol {i} name");
        let und = w.section == "Undefined";
        same!((g.is_undefined(), g.is_common(), g.is_definition()), (und, false, matches!(w.kind, "Text" | "Data") && !und), "symbol {i} {w:?} undefined, common, definition");
        let local = w.scope == SymbolScope::Compilation;
        same!((g.is_global(), g.is_local()), (!local, local), "symbol {i} global, local");
        same!(g.flags(), SymbolFlags::None, "symbol {i} flags");
        let by = okay!(f.symbol_by_index(SymbolIndex(i)));
        same!((by.name(), by.address()), (g.name(), g.address()), "symbol_by_index {i}");
        o.hit("symbols");
    }
    same!(have.len(), want.len(), "symbols");
    same!(some!(f.symbol_table()).symbols().count(), want.len(), "symbol_table");
    ensure!(f.symbol_by_index(SymbolIndex(want.len())).is_err(), "symbol past the end");
    if mem64 {
        o.hit("64-bit memories");
    }
    if want.len() > 1 {
        o.nontrivial(hash(&data));
    }
    o.sample(|| format!("{} sections {} imports {} symbols {} bytes", m.secs.len(), imports.len(), want.len(), data.len()));
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C13",
    rule: "a module whose every section, symbol and relocation was compared with the generated model, with at least two symbols",
    parts: &[Part { name: "modules", quick: 200_000, thorough: 3_000_000, run: modules }],
    required: &[
        "files", "sections", "symbols", "imports", "exports", "exports of global addresses", "named functions", "linking symbols", "linking names of imports", "relocations", "start functions",
        "start functions after imports", "64-bit memories",
    ],
    tools: &[],
    assumptions: &[
        "core modules (the crate refuses components)",
        "the section and kind of each symbol class are judged by the crate's documented unified model",
    ],
    level: "exploration",
};
#[allow(dead_code)]
fn main() {
    vcore::main(&SPEC)
}

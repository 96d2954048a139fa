//! C10: Mach-O linking, signing and shared-cache data decode to what they encode.
use genf::macho::{Macho, Nlist, Patch, Sect, Segm, Cmd};
use genf::w::{W, sleb, uleb, uleb_pad};
use object::macho;
use object::read::macho::*;
use object::read::{ExportTarget, ImportFlags, ImportLibraryFlags, NameOrOrdinal, Object as _, ObjectSection as _, ObjectSegment as _, ObjectSymbol as _};
use object::{BigEndian, Endian, Endianness, LittleEndian};
use vcore::*;

fn word(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![b'_'];
    v.extend(r.ident(10).into_bytes());
    v
}
fn ul(r: &mut Rng, out: &mut Vec<u8>, v: u64) {
    if r.one_in(6) && v < 1 << 40 {
        uleb_pad(out, v, r.range(1, 2) as usize)
    } else {
        uleb(out, v)
    }
}

// ------------------------------------------------------------------ opcodes

#[derive(Clone, Debug, PartialEq)]
struct RebaseM(u8, u64, u8);
#[derive(Clone, Debug, PartialEq)]
struct BindM {
    seg: u8,
    off: u64,
    kind: u8,
    dylib: i32,
    sym: Vec<u8>,
    flags: u8,
    addend: i64,
}

/// Returns the stream, the operations and the rebases, by dyld's definition.
fn gen_rebase(r: &mut Rng, ptr: u64) -> (Vec<u8>, Vec<(u8, String)>, Vec<RebaseM>) {
    let (mut b, mut ops, mut out) = (vec![], vec![], vec![]);
    let (mut ty, mut seg, mut off): (u8, u8, u64) = (0, 0, 0);
    let mut done = false;
    let emit = |out: &mut Vec<RebaseM>, done: bool, n: u64, step: u64, seg: u8, off: &mut u64, ty: u8| {
        for _ in 0..n {
            if !done {
                out.push(RebaseM(seg, *off, ty));
            }
            *off = off.wrapping_add(step);
        }
    };
    let n = r.range(3, 20);
    for i in 0..n {
        let k = match i {
            0 => 1,
            1 => 2,
            _ => {
                let lo = if r.one_in(40) { 0 } else { 1 };
                r.range(lo, 8)
            }
        };
        let imm = r.below(16) as u8;
        let count = if r.one_in(5) { 0 } else { r.range(1, 30) };
        let delta = if r.one_in(5) { r.edgy(64) } else { r.below(0x4000) };
        b.push((k as u8) << 4 | imm);
        let s = match k {
            0 => {
                done = true;
                "Done".into()
            }
            1 => {
                ty = imm;
                format!("SetType {imm}")
            }
            2 => {
                seg = imm;
                off = delta;
                ul(r, &mut b, delta);
                format!("SetSegmentAndOffset {imm} {delta}")
            }
            3 => {
                off = off.wrapping_add(delta);
                ul(r, &mut b, delta);
                format!("AddAddr {delta}")
            }
            4 => {
                off = off.wrapping_add(imm as u64 * ptr);
                format!("AddAddrScaled {imm}")
            }
            5 => {
                emit(&mut out, done, imm as u64, ptr, seg, &mut off, ty);
                format!("Times {imm}")
            }
            6 => {
                ul(r, &mut b, count);
                emit(&mut out, done, count, ptr, seg, &mut off, ty);
                format!("Times {count}")
            }
            7 => {
                ul(r, &mut b, delta);
                emit(&mut out, done, 1, ptr.wrapping_add(delta), seg, &mut off, ty);
                format!("RebaseAdd {delta}")
            }
            _ => {
                ul(r, &mut b, count);
                ul(r, &mut b, delta);
                emit(&mut out, done, count, ptr.wrapping_add(delta), seg, &mut off, ty);
                format!("Skip {count} {delta}")
            }
        };
        ops.push(((k as u8) << 4, s));
    }
    (b, ops, out)
}

fn rebase_op(o: &RebaseOperation) -> String {
    match o {
        RebaseOperation::Done => "Done".into(),
        RebaseOperation::SetType { kind } => format!("SetType {}", kind.0),
        RebaseOperation::SetSegmentAndOffset { index, offset } => format!("SetSegmentAndOffset {index} {offset}"),
        RebaseOperation::AddAddr { offset } => format!("AddAddr {offset}"),
        RebaseOperation::AddAddrScaled { count } => format!("AddAddrScaled {count}"),
        RebaseOperation::DoRebaseTimes { count } => format!("Times {count}"),
        RebaseOperation::DoRebaseAddAddr { offset } => format!("RebaseAdd {offset}"),
        RebaseOperation::DoRebaseTimesSkipping { count, skip } => format!("Skip {count} {skip}"),
        #[allow(unreachable_patterns)]
        o => format!("{o:?}"),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum BK {
    Normal,
    Weak,
    Lazy,
}

struct BindStream {
    b: Vec<u8>,
    ops: Vec<(u8, String)>,
    binds: Vec<BindM>,
    /// First bind of each symbol: (dylib, flags, name).
    imports: Vec<(i32, u8, Vec<u8>)>,
}

fn gen_bind(r: &mut Rng, ptr: u64, kind: BK, libs: u32) -> BindStream {
    let mut o = BindStream { b: vec![], ops: vec![], binds: vec![], imports: vec![] };
    let new = || BindM { seg: 0, off: 0, kind: if kind == BK::Normal { 0 } else { 1 }, dylib: if kind == BK::Weak { -3 } else { 0 }, sym: vec![], flags: 0, addend: 0 };
    let mut s = new();
    let mut have = [false; 4]; // segment, type, dylib, symbol
    let reset = |h: &mut [bool; 4]| *h = [false, kind != BK::Normal, kind == BK::Weak, false];
    reset(&mut have);
    let mut fresh = false;
    let mut done = false;
    let n = r.range(2, 30);
    for _ in 0..n {
        // Pick an operation that keeps the stream well formed.
        let miss: Vec<u8> = [(0usize, 7u8), (1, 5), (2, 1), (3, 4)].iter().filter(|m| !have[m.0]).map(|m| m.1).collect();
        let mut k = if !miss.is_empty() && !r.one_in(4) {
            *r.pick(&miss)
        } else {
            r.range(1, 12) as u8
        };
        if k >= 9 && !miss.is_empty() {
            k = 6;
        }
        if r.one_in(if kind == BK::Lazy { 6 } else { 40 }) {
            k = 0;
        }
        if k == 1 {
            k = r.range(1, 3) as u8;
        }
        let mut imm = r.below(16) as u8;
        let delta = if r.one_in(5) { r.edgy(64) } else { r.below(0x4000) };
        let count = if r.one_in(5) { 0 } else { r.range(1, 20) };
        let mut go = |o: &mut BindStream, s: &mut BindM, n: u64, step: u64| {
            for _ in 0..n {
                if !done {
                    o.binds.push(s.clone());
                }
                s.off = s.off.wrapping_add(step);
            }
            if n > 0 && fresh && !done {
                fresh = false;
                o.imports.push((s.dylib, s.flags, s.sym.clone()));
            }
        };
        let at = o.b.len();
        o.b.push(0);
        let mut op = k << 4;
        let t = match k {
            0 => {
                if kind == BK::Lazy {
                    s = new();
                    reset(&mut have);
                } else {
                    done = true;
                }
                "Done".to_string()
            }
            1 => {
                imm = r.range(0, libs.min(15) as u64) as u8;
                s.dylib = imm as i32;
                have[2] = true;
                format!("Ordinal {imm}")
            }
            2 => {
                let v = r.range(0, libs as u64);
                ul(r, &mut o.b, v);
                s.dylib = v as i32;
                have[2] = true;
                format!("Ordinal {v}")
            }
            3 => {
                imm = *r.pick(&[0u8, 15, 14, 13]);
                s.dylib = if imm == 0 { 0 } else { imm as i32 - 16 };
                have[2] = true;
                format!("Special {}", s.dylib)
            }
            4 => {
                s.sym = word(r);
                s.flags = imm;
                o.b.extend(&s.sym);
                o.b.push(0);
                have[3] = true;
                fresh = true;
                format!("Symbol {} {:?}", imm, s.sym)
            }
            5 => {
                s.kind = imm;
                have[1] = true;
                format!("Type {imm}")
            }
            6 => {
                s.addend = if r.bool() { delta as i64 } else { (delta as i64).wrapping_neg() };
                sleb(&mut o.b, s.addend);
                format!("Addend {}", s.addend)
            }
            7 => {
                s.seg = imm;
                s.off = delta;
                ul(r, &mut o.b, delta);
                have[0] = true;
                format!("Seg {imm} {delta}")
            }
            8 => {
                s.off = s.off.wrapping_add(delta);
                ul(r, &mut o.b, delta);
                format!("AddAddr {delta}")
            }
            9 => {
                go(&mut o, &mut s, 1, ptr);
                "Bind".into()
            }
            10 => {
                ul(r, &mut o.b, delta);
                go(&mut o, &mut s, 1, ptr.wrapping_add(delta));
                format!("BindAdd {delta}")
            }
            11 => {
                go(&mut o, &mut s, 1, ptr * (imm as u64 + 1));
                format!("BindScaled {imm}")
            }
            _ => {
                ul(r, &mut o.b, count);
                ul(r, &mut o.b, delta);
                go(&mut o, &mut s, count, ptr.wrapping_add(delta));
                op = 0xc0;
                format!("Skip {count} {delta}")
            }
        };
        o.b[at] = op | imm;
        o.ops.push((op, t));
    }
    o
}

fn bind_op(o: &BindOperation) -> String {
    match o {
        BindOperation::Done => "Done".into(),
        BindOperation::SetDylibOrdinal { ordinal } => format!("Ordinal {ordinal}"),
        BindOperation::SetDylibSpecial { ordinal } => format!("Special {}", ordinal.0),
        BindOperation::SetSymbol { flags, name } => format!("Symbol {} {:?}", flags.0, name),
        BindOperation::SetType { kind } => format!("Type {}", kind.0),
        BindOperation::SetAddend { addend } => format!("Addend {addend}"),
        BindOperation::SetSegmentAndOffset { segment_index, offset } => format!("Seg {segment_index} {offset}"),
        BindOperation::AddAddr { offset } => format!("AddAddr {offset}"),
        BindOperation::DoBind => "Bind".into(),
        BindOperation::DoBindAddAddr { offset } => format!("BindAdd {offset}"),
        BindOperation::DoBindAddAddrScaled { count } => format!("BindScaled {count}"),
        BindOperation::DoBindTimesSkipping { count, skip } => format!("Skip {count} {skip}"),
        #[allow(unreachable_patterns)]
        o => format!("{o:?}"),
    }
}

struct InfoM {
    rebase: (Vec<u8>, Vec<(u8, String)>, Vec<RebaseM>),
    binds: Vec<BindStream>,
}

fn check_info<E: Endian>(e: E, data: &[u8], c: &macho::DyldInfoCommand<E>, m: &InfoM, ptr: u8, obs: &mut Obs) -> Res {
    let (b, ops, out) = &m.rebase;
    if !b.is_empty() {
        same!(okay!(c.rebase_data(e, data)), &b[..], "rebase data");
    }
    let got: Vec<_> = okay!(c.rebase_operations(e, data)).collect::<Vec<_>>();
    same!(got.len(), ops.len(), "rebase operations");
    for (g, w) in got.iter().zip(ops) {
        let g = okay!(g.clone());
        same!((g.0.0, rebase_op(&g.1)), w.clone(), "rebase operation");
        obs.hit("rebase operation");
    }
    let mut it = okay!(c.rebases(e, data, ptr));
    for w in out {
        let g = some!(okay!(it.next()), "missing rebase");
        same!(RebaseM(g.segment_index, g.segment_offset, g.kind.0), w.clone(), "rebase");
    }
    obs.add("rebase", out.len() as u64);
    ensure!(okay!(it.next()).is_none(), "extra rebase");
    for (i, s) in m.binds.iter().enumerate() {
        let ops = match i {
            0 => okay!(c.bind_operations(e, data)),
            1 => okay!(c.weak_bind_operations(e, data)),
            _ => okay!(c.lazy_bind_operations(e, data)),
        }
        .collect::<Vec<_>>();
        same!(ops.len(), s.ops.len(), "bind operations in stream {i}");
        for (g, w) in ops.iter().zip(&s.ops) {
            let g = okay!(g.clone());
            same!((g.0.0, bind_op(&g.1)), w.clone(), "bind operation in stream {i}");
            obs.hit("bind operation");
        }
        let mut it = match i {
            0 => okay!(c.binds(e, data, ptr)),
            1 => okay!(c.weak_binds(e, data, ptr)),
            _ => okay!(c.lazy_binds(e, data, ptr)),
        };
        for w in &s.binds {
            let g = some!(okay!(it.next()), "missing bind in stream {i}");
            let g = BindM { seg: g.segment_index, off: g.segment_offset, kind: g.kind.0, dylib: g.dylib.0, sym: g.symbol.to_vec(), flags: g.flags.0, addend: g.addend };
            same!(g, w.clone(), "bind in stream {i}");
        }
        obs.add(["bind", "weak bind", "lazy bind"][i], s.binds.len() as u64);
        ensure!(okay!(it.next()).is_none(), "extra bind in stream {i}");
    }
    Ok(())
}

fn lib_name(libs: &[Vec<u8>], d: i32) -> Vec<u8> {
    if d <= 0 { vec![] } else { libs[d as usize - 1].clone() }
}

// --------------------------------------------------------------------- trie

#[derive(Clone, Debug, PartialEq)]
enum ExM {
    Regular(u64),
    Re(u64, Vec<u8>),
    Stub(u64, u64),
}
#[derive(Default)]
struct Node {
    term: Option<(u64, ExM)>,
    kids: Vec<(Vec<u8>, usize)>,
}
fn insert(nodes: &mut Vec<Node>, at: usize, key: &[u8], v: (u64, ExM)) {
    if key.is_empty() {
        nodes[at].term = Some(v);
        return;
    }
    for k in 0..nodes[at].kids.len() {
        let (e, child) = nodes[at].kids[k].clone();
        let n = e.iter().zip(key).take_while(|(a, b)| a == b).count();
        if n == 0 {
            continue;
        }
        if n == e.len() {
            return insert(nodes, child, &key[n..], v);
        }
        nodes.push(Node { term: None, kids: vec![(e[n..].to_vec(), child)] });
        let mid = nodes.len() - 1;
        nodes[at].kids[k] = (e[..n].to_vec(), mid);
        return insert(nodes, mid, &key[n..], v);
    }
    nodes.push(Node { term: Some(v), kids: vec![] });
    let leaf = nodes.len() - 1;
    nodes[at].kids.push((key.to_vec(), leaf));
}
fn term_bytes(r: &mut Rng, t: &(u64, ExM)) -> Vec<u8> {
    let mut b = vec![];
    ul(r, &mut b, t.0);
    match &t.1 {
        ExM::Regular(a) => ul(r, &mut b, *a),
        ExM::Re(o, n) => {
            ul(r, &mut b, *o);
            b.extend(n);
            b.push(0);
        }
        ExM::Stub(a, c) => {
            ul(r, &mut b, *a);
            ul(r, &mut b, *c);
        }
    }
    b
}
/// Returns the trie and its exports in depth first order.
fn gen_trie(r: &mut Rng, libs: u32) -> (Vec<u8>, Vec<(Vec<u8>, u64, ExM)>) {
    let mut nodes = vec![Node::default()];
    let n = if r.one_in(12) { 0 } else { r.range(1, 14) };
    let stem = word(r);
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..n {
        let mut name = if r.bool() { stem.clone() } else { word(r) };
        if i > 0 && r.one_in(3) {
            name.extend(r.ident(4).into_bytes());
        }
        if r.one_in(30) {
            name.clear();
        }
        if !seen.insert(name.clone()) {
            continue;
        }
        let mut flags = *r.pick(&[0u64, 0, 0, 1, 2]);
        if r.one_in(4) {
            flags |= 4;
        }
        if r.one_in(12) {
            flags |= 0x20;
        }
        let addr = |r: &mut Rng| if r.one_in(5) { r.edgy(64) } else { r.below(1 << 24) };
        let v = match r.below(6) {
            0 if libs > 0 => {
                flags |= 8;
                let s = if r.bool() { vec![] } else { word(r) };
                ExM::Re(r.range(1, libs as u64), s)
            }
            1 => {
                flags = flags & !3 | 0x10;
                ExM::Stub(addr(r), addr(r))
            }
            _ => ExM::Regular(addr(r)),
        };
        insert(&mut nodes, 0, &name, (flags, v));
    }
    // Fixed-width offsets let the nodes be laid out in any order.
    let terms: Vec<Vec<u8>> = nodes.iter().map(|n| n.term.as_ref().map_or(vec![], |t| term_bytes(r, t))).collect();
    let width = 3usize;
    let pads: Vec<usize> = nodes.iter().map(|_| if r.one_in(4) { r.below(4) as usize } else { 0 }).collect();
    let size = |i: usize| -> usize {
        let mut l = vec![];
        uleb(&mut l, terms[i].len() as u64);
        l.len() + terms[i].len() + 1 + nodes[i].kids.iter().map(|k| k.0.len() + 1 + width).sum::<usize>()
    };
    let mut order: Vec<usize> = (1..nodes.len()).collect();
    r.shuffle(&mut order);
    order.insert(0, 0);
    let mut offs = vec![0; nodes.len()];
    let mut at = 0;
    for &i in &order {
        offs[i] = at;
        at += size(i) + pads[i];
    }
    let mut b = vec![];
    for &i in &order {
        uleb(&mut b, terms[i].len() as u64);
        b.extend(&terms[i]);
        b.push(nodes[i].kids.len() as u8);
        for (e, c) in &nodes[i].kids {
            b.extend(e);
            b.push(0);
            let o = offs[*c] as u32;
            b.extend([(o & 0x7f) as u8 | 0x80, (o >> 7 & 0x7f) as u8 | 0x80, (o >> 14 & 0x7f) as u8]);
        }
        b.extend(r.bytes(pads[i]));
    }
    fn dfs(nodes: &[Node], at: usize, pre: &[u8], out: &mut Vec<(Vec<u8>, u64, ExM)>) {
        if let Some(t) = &nodes[at].term {
            out.push((pre.to_vec(), t.0, t.1.clone()));
        }
        for (e, c) in &nodes[at].kids {
            let mut p = pre.to_vec();
            p.extend(e);
            dfs(nodes, *c, &p, out);
        }
    }
    let mut out = vec![];
    if n == 0 && r.bool() {
        return (vec![0, 0], out);
    }
    dfs(&nodes, 0, &[], &mut out);
    (b, out)
}

fn check_trie(it: ExportsTrieIterator<'_>, w: &[(Vec<u8>, u64, ExM)], obs: &mut Obs) -> Res {
    let got: Vec<_> = it.collect();
    same!(got.len(), w.len(), "trie exports {:?}", w);
    for (g, w) in got.iter().zip(w) {
        let g = match g {
            Ok(g) => g,
            Err(e) => return Err(format!("trie export: {e}")),
        };
        let d = match g.data() {
            ExportData::Regular { address } => ExM::Regular(*address),
            ExportData::Reexport { dylib_ordinal, import_name } => ExM::Re(*dylib_ordinal, import_name.to_vec()),
            ExportData::StubAndResolver { stub_address, resolver_address } => ExM::Stub(*stub_address, *resolver_address),
            #[allow(unreachable_patterns)]
            _ => return Err("unknown export data".into()),
        };
        same!((g.name().to_vec(), g.flags().0 as u64, d), w.clone(), "trie export");
        obs.hit("trie export");
    }
    Ok(())
}

// ----------------------------------------------------------- chained fixups

struct ImpM {
    dylib: i32,
    weak: bool,
    addend: i64,
    name: Vec<u8>,
}

#[derive(Debug, PartialEq, Clone)]
enum FxM {
    Rebase(u64, Option<(u8, u16, bool)>),
    Bind(u32, i32, Option<(u8, u16, bool)>),
    Kernel(u64, u8, Option<(u8, u16, bool)>),
    Segmented(u8, u64, Option<(u8, u16, bool)>),
}
fn fx(f: &Fixup) -> FxM {
    let a = |a: &Option<FixupAuth>| a.as_ref().map(|a| (a.key as u8, a.diversity, a.addr_div));
    match f {
        Fixup::Rebase(f) => FxM::Rebase(f.target_offset, a(&f.auth)),
        Fixup::Bind(f) => FxM::Bind(f.ordinal, f.addend, a(&f.auth)),
        Fixup::KernelCacheRebase(f) => FxM::Kernel(f.target_offset, f.cache_level, a(&f.auth)),
        Fixup::SegmentedRebase(f) => FxM::Segmented(f.target_segment_index, f.target_segment_offset, a(&f.auth)),
        #[allow(unreachable_patterns)]
        _ => FxM::Rebase(0xdead, None),
    }
}

fn stride(format: u16) -> u64 {
    match format {
        1 | 9 | 12 | 13 => 8,
        11 => 1,
        _ => 4,
    }
}
fn ptr_size(format: u16) -> u64 {
    if matches!(format, 3 | 4 | 5) { 4 } else { 8 }
}
fn next_bits(format: u16) -> u32 {
    match format {
        1 | 7 | 9 | 10 | 12 | 13 => 11,
        2 | 6 | 8 | 11 | 14 => 12,
        3 => 5,
        4 => 2,
        _ => 6,
    }
}
/// Encodes a random pointer (without its `next` field) and returns what it means.
fn gen_ptr(r: &mut Rng, format: u16, vmaddr: u64) -> (u64, u32, FxM) {
    let key = r.below(4) as u8;
    let div = r.edgy(16) as u16;
    let ad = r.bool();
    let auth = Some((key, div, ad));
    let authbits = (div as u64) | (ad as u64) << 16 | (key as u64) << 17;
    match format {
        1 | 7 | 9 | 10 | 12 => {
            let vm = matches!(format, 1 | 10);
            match r.below(4) {
                0 => {
                    let high = r.below(256);
                    let off = r.edgy(42);
                    let target = if vm { off.wrapping_add(vmaddr) & ((1 << 43) - 1) } else { off };
                    let off = if vm { target.wrapping_sub(vmaddr) } else { target };
                    (target | high << 43, 51, FxM::Rebase(off | high << 56, None))
                }
                1 => {
                    let t = r.edgy(32);
                    (t | authbits << 32 | 1 << 63, 51, FxM::Rebase(t, auth))
                }
                2 => {
                    let bits = if format == 12 { 24 } else { 16 };
                    let ord = r.edgy(bits) as u32;
                    let add = (r.edgy(19) as i32) << 13 >> 13;
                    (ord as u64 | (add as u64 & 0x7ffff) << 32 | 1 << 62, 51, FxM::Bind(ord, add, None))
                }
                _ => {
                    let bits = if format == 12 { 24 } else { 16 };
                    let ord = r.edgy(bits) as u32;
                    (ord as u64 | authbits << 32 | 1 << 63 | 1 << 62, 51, FxM::Bind(ord, 0, auth))
                }
            }
        }
        2 | 6 => {
            if r.bool() {
                let ord = r.edgy(24) as u32;
                let add = r.below(256);
                (ord as u64 | add << 24 | 1 << 63, 51, FxM::Bind(ord, add as i32, None))
            } else {
                let high = r.below(256);
                let off = r.edgy(35);
                let target = if format == 2 { off.wrapping_add(vmaddr) & ((1 << 36) - 1) } else { off };
                let off = if format == 2 { target.wrapping_sub(vmaddr) } else { target };
                (target | high << 36, 51, FxM::Rebase(off | high << 56, None))
            }
        }
        8 | 11 => {
            let t = r.edgy(30);
            let lvl = r.below(4) as u8;
            let a = r.bool();
            let mut v = t | (lvl as u64) << 30;
            if a {
                v |= authbits << 32 | 1 << 63;
            }
            (v, 51, FxM::Kernel(t, lvl, if a { auth } else { None }))
        }
        3 => {
            if r.bool() {
                let ord = r.edgy(20) as u32;
                let add = r.below(64);
                (ord as u64 | add << 20 | 1 << 31, 26, FxM::Bind(ord, add as i32, None))
            } else {
                let target = r.edgy(26);
                (target, 26, FxM::Rebase(target.wrapping_sub(vmaddr), None))
            }
        }
        4 => {
            let t = r.edgy(30);
            (t, 30, FxM::Rebase(t, None))
        }
        5 => {
            let t = r.edgy(26);
            (t, 26, FxM::Rebase(t, None))
        }
        13 => {
            if r.bool() {
                let t = r.edgy(34);
                let data = r.bool();
                let a = Some((if data { 2 } else { 0 }, div, ad));
                (t | (div as u64) << 34 | (ad as u64) << 50 | (data as u64) << 51 | 1 << 63, 52, FxM::Rebase(t, a))
            } else {
                let t = r.edgy(34);
                let high = r.below(256);
                (t | high << 34, 52, FxM::Rebase(t | high << 56, None))
            }
        }
        _ => {
            let off = r.edgy(28);
            let idx = r.below(16) as u8;
            let a = r.bool();
            let mut v = off | (idx as u64) << 28;
            if a {
                v |= authbits << 32 | 1 << 63;
            }
            (v, 51, FxM::Segmented(idx, off, if a { auth } else { None }))
        }
    }
}

struct SegM {
    index: u32,
    format: u16,
    page_size: u16,
    max: u32,
    data: Vec<u8>,
    fixups: Vec<(u64, FxM)>,
    starts: Vec<u16>,
    pages: u16,
    segment_offset: u64,
}
fn gen_seg(r: &mut Rng, be: bool, index: u32, is64: bool, vmaddr: u64) -> SegM {
    let mut format = *r.pick(&[1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]);
    if r.one_in(3) {
        format = if is64 { *r.pick(&[2, 6, 1, 9, 12]) } else { 3 };
    }
    let page_size = *r.pick(&[0x100u16, 0x1000, 0x4000, 0x40]);
    let pages = r.range(0, 5) as u16;
    let ps = ptr_size(format);
    let st = stride(format);
    let max_next = (1u64 << next_bits(format)) - 1;
    let mut data = r.bytes(page_size as usize * pages as usize);
    let mut w = W::new(be, is64);
    let mut fixups = vec![];
    let mut starts = vec![];
    let mut extra = vec![];
    // A chain from `from`, up to `end`; fills data and returns its length.
    let chain = |r: &mut Rng, w: &mut W, base: u64, from: u64, end: u64, fixups: &mut Vec<(u64, FxM)>| {
        let mut at = from;
        loop {
            // Room for the next pointer, in strides.
            let lo = ps.div_ceil(st);
            let hi = end.saturating_sub(at + ps) / st;
            let next = if hi < lo || r.one_in(6) {
                0
            } else {
                let hi = hi.min(max_next);
                if lo > hi { 0 } else if r.bool() { r.range(lo, hi.min(lo + 8)) } else { r.range(lo, hi) }
            };
            let (v, shift, m) = gen_ptr(r, format, vmaddr);
            let v = v | next << shift;
            w.set((base + at) as usize, v, ps as usize);
            fixups.push((base + at, m));
            if next == 0 {
                break;
            }
            at += next * st;
        }
    };
    w.b = std::mem::take(&mut data);
    for p in 0..pages {
        let base = p as u64 * page_size as u64;
        let size = page_size as u64;
        match r.below(4) {
            0 => starts.push(0xffff),
            1 if size >= 0x100 => {
                // Several chains, each in its own part of the page.
                let n = r.range(1, 3);
                starts.push(0x8000 | (pages as usize + extra.len()) as u16);
                let part = size / n / 8 * 8;
                for i in 0..n {
                    let lo = part * i;
                    let from = lo + r.below(3) * st.max(4);
                    chain(r, &mut w, base, from, part * (i + 1), &mut fixups);
                    extra.push(from as u16 | if i + 1 == n { 0x8000 } else { 0 });
                }
            }
            _ => {
                let from = r.below((size - ps) / 8) * st.max(4);
                let from = from.min(size - ps);
                starts.push(from as u16);
                chain(r, &mut w, base, from, size, &mut fixups);
            }
        }
    }
    starts.extend(extra);
    SegM { index, format, page_size, max: r.u32(), data: w.b, fixups, starts, pages, segment_offset: r.edgy(40) }
}

struct ChainM {
    b: Vec<u8>,
    format: u32,
    imports: Vec<ImpM>,
    segs: Vec<SegM>,
    seg_count: u32,
}
fn gen_chained(r: &mut Rng, be: bool, is64: bool, libs: u32, nsegs: u32, vmaddr: u64) -> ChainM {
    let format = r.range(1, 3) as u32;
    let mut names = vec![0u8];
    let mut table = W::new(be, is64);
    let mut imports = vec![];
    for _ in 0..r.below(8) {
        let name = word(r);
        let off = names.len() as u32;
        names.extend(&name);
        names.push(0);
        let dylib = if r.one_in(3) { -(r.below(4) as i32) } else { r.range(0, libs as u64) as i32 };
        let weak = r.bool();
        let addend = match format {
            1 => 0,
            2 => r.edgy(32) as i32 as i64,
            _ => r.edgy(64) as i64,
        };
        match format {
            1 | 2 => {
                table.u32((dylib as u32 & 0xff) | (weak as u32) << 8 | off << 9);
                if format == 2 {
                    table.u32(addend as u32);
                }
            }
            _ => {
                table.u64((dylib as u64 & 0xffff) | (weak as u64) << 16 | (off as u64) << 32);
                table.u64(addend as u64);
            }
        }
        imports.push(ImpM { dylib, weak, addend, name });
    }
    let seg_count = nsegs;
    let mut segs = vec![];
    let mut starts = W::new(be, is64);
    starts.u32(seg_count).zeros(seg_count as usize * 4);
    for i in 0..seg_count {
        if r.one_in(3) {
            continue;
        }
        let s = gen_seg(r, be, i, is64, vmaddr);
        starts.align(8);
        let at = starts.len();
        starts.set(4 + i as usize * 4, at as u64, 4);
        let size = 22 + s.starts.len() * 2;
        starts.u32(size as u32).u16(s.page_size).u16(s.format).u64(s.segment_offset).u32(s.max).u16(s.pages);
        for v in &s.starts {
            starts.u16(*v);
        }
        segs.push(s);
    }
    let mut w = W::new(be, is64);
    let pad = r.below(3) as usize * 8;
    let so = 32 + pad;
    let io = (so + starts.len()).next_multiple_of(8);
    let no = io + table.len() + r.below(2) as usize * 4;
    w.u32(0).u32(so as u32).u32(io as u32).u32(no as u32).u32(imports.len() as u32).u32(format).u32(0);
    w.b.resize(so, 0xaa);
    w.put(&starts.b);
    w.b.resize(io, 0xaa);
    w.put(&table.b);
    w.b.resize(no, 0xaa);
    w.put(&names);
    ChainM { b: w.b, format, imports, segs, seg_count }
}
fn check_chained<'data, E: Endian>(e: E, f: &DyldChainedFixups<'data, E>, m: &'data ChainM, vmaddr: u64, obs: &mut Obs) -> Res {
    same!(f.header().imports_count.get(e) as usize, m.imports.len(), "imports count");
    same!(f.header().imports_format.get(e).0, m.format, "imports format");
    let got: Vec<_> = okay!(f.imports(e)).collect();
    same!(got.len(), m.imports.len(), "chained imports");
    for (g, w) in got.iter().zip(&m.imports) {
        let g = match g {
            Ok(g) => g,
            Err(e) => return Err(format!("import: {e}")),
        };
        same!((g.dylib.0, g.weak_import, g.addend, g.name), (w.dylib, w.weak, w.addend, &w.name[..]), "chained import, format {}", m.format);
        obs.hit(["", "chained import format 1", "chained import format 2", "chained import format 3"][m.format as usize]);
    }
    let got: Vec<_> = okay!(f.segments(e)).collect();
    same!(got.len(), m.segs.len(), "chained segments of {}", m.seg_count);
    for (g, w) in got.iter().zip(&m.segs) {
        let g = match g {
            Ok(g) => g,
            Err(e) => return Err(format!("segment starts: {e}")),
        };
        same!(g.index(), w.index, "chained segment index");
        let h = g.header();
        same!(
            (h.page_size.get(e), h.pointer_format.get(e).0, h.segment_offset.get(e), h.max_valid_pointer.get(e), h.page_count.get(e)),
            (w.page_size, w.format, w.segment_offset, w.max, w.pages),
            "chained segment header"
        );
        let mut it = g.fixups(e, vmaddr, &w.data);
        for (i, x) in w.fixups.iter().enumerate() {
            let g = some!(okay!(it.next()), "missing fixup {i} of {} format {}", w.fixups.len(), w.format);
            same!((g.0, fx(&g.1)), x.clone(), "fixup {i} format {}", w.format);
            obs.hit(["fixup format 0", "fixup format 1", "fixup format 2", "fixup format 3", "fixup format 4", "fixup format 5", "fixup format 6", "fixup format 7", "fixup format 8", "fixup format 9", "fixup format 10", "fixup format 11", "fixup format 12", "fixup format 13", "fixup format 14"][w.format as usize]);
        }
        ensure!(okay!(it.next()).is_none(), "extra fixup");
        ensure!(okay!(it.next()).is_none(), "fixup after the end");
    }
    Ok(())
}

// ----------------------------------------------------------- code signature

struct CdM {
    version: u32,
    flags: u32,
    code_limit: u64,
    limit64: Option<u64>,
    scatter: Option<u32>,
    ident: Vec<u8>,
    team: Option<Vec<u8>>,
    exec: Option<(u64, u64, u64)>,
    special: Vec<Vec<u8>>,
    code: Vec<Vec<u8>>,
}
struct SigM {
    b: Vec<u8>,
    blobs: Vec<(u32, u32, Vec<u8>, Option<CdM>, u32)>,
}
fn gen_sig(r: &mut Rng) -> SigM {
    let n = r.below(5) as usize;
    let mut parts = vec![];
    for _ in 0..n {
        let slot = *r.pick(&[0u32, 1, 2, 3, 5, 0x1000, 0x10000, 7]);
        if r.bool() {
            let version = *r.pick(&[0x20001u32, 0x20100, 0x20200, 0x20300, 0x20400, 0x20500]);
            let hs = *r.pick(&[20usize, 32, 48]);
            let mut w = W::new(true, true);
            let head = match version {
                0x20001 => 44,
                0x20100 => 48,
                0x20200 => 52,
                0x20300 => 64,
                _ => 88,
            } + if r.one_in(4) { 8 } else { 0 };
            let ident = word(r);
            let team = if version >= 0x20200 && r.bool() { Some(word(r)) } else { None };
            let special: Vec<Vec<u8>> = (0..r.below(4)).map(|_| r.bytes(hs)).collect();
            let code: Vec<Vec<u8>> = (0..r.below(5)).map(|_| r.bytes(hs)).collect();
            let limit = r.edgy(32) as u32;
            let limit64 = if version >= 0x20300 { Some(if r.bool() { 0 } else { r.edgy(64) }) } else { None };
            let exec = if version >= 0x20400 { Some((r.edgy(64), r.edgy(64), r.edgy(64))) } else { None };
            let scatter = if version >= 0x20100 { Some(if r.bool() { 0 } else { r.u32() }) } else { None };
            let flags = r.u32();
            let io = head;
            let to = io + ident.len() + 1;
            let sp = to + team.as_ref().map_or(0, |t| t.len() + 1);
            let ho = sp + special.len() * hs;
            let len = ho + code.len() * hs + r.below(5) as usize;
            w.u32(0xfade_0c02).u32(len as u32).u32(version).u32(flags).u32(ho as u32).u32(io as u32);
            w.u32(special.len() as u32).u32(code.len() as u32).u32(limit);
            w.u8(hs as u8).u8(r.below(5) as u8).u8(0).u8(12).u32(0);
            if let Some(s) = scatter {
                w.u32(s);
            }
            if version >= 0x20200 {
                w.u32(if team.is_some() { to as u32 } else { 0 });
            }
            if let Some(l) = limit64 {
                w.u32(0).u64(l);
            }
            if let Some(e) = exec {
                w.u64(e.0).u64(e.1).u64(e.2);
            }
            w.b.resize(head, 0x5a);
            w.put(&ident).u8(0);
            if let Some(t) = &team {
                w.put(t).u8(0);
            }
            for s in special.iter().rev() {
                w.put(s);
            }
            for s in &code {
                w.put(s);
            }
            w.b.resize(len, 0x5b);
            let code_limit = limit64.filter(|l| *l != 0).unwrap_or(limit as u64);
            let limit64 = limit64.filter(|_| true);
            parts.push((slot, 0xfade_0c02, w.b, Some(CdM { version, flags, code_limit, limit64, scatter, ident, team, exec, special, code })));
        } else {
            let magic = *r.pick(&[0xfade_7171u32, 0xfade_0b01, 0xfade_0c01, 0xfade_7172]);
            let body = { let n = r.below(20) as usize; r.bytes(n) };
            let mut w = W::new(true, true);
            w.u32(magic).u32(8 + body.len() as u32).put(&body);
            parts.push((slot, magic, w.b, None));
        }
    }
    let items: Vec<(usize, usize)> = parts.iter().map(|p| (p.2.len(), 1)).collect();
    let (offs, end) = genf::w::layout(r, 12 + n * 8, &items, true);
    let mut w = W::new(true, true);
    w.u32(0xfade_0cc0).u32(end as u32).u32(n as u32);
    for (p, o) in parts.iter().zip(&offs) {
        w.u32(p.0).u32(*o as u32);
    }
    for (p, o) in parts.iter().zip(&offs) {
        w.place(*o, &p.2);
    }
    if w.len() < end {
        w.b.resize(end, 0);
    }
    // The command's size may be padded.
    let pad = r.below(16) as usize;
    w.zeros(pad);
    let blobs = parts.into_iter().zip(offs).map(|(p, o)| (p.0, p.1, p.2, p.3, o as u32)).collect();
    SigM { b: w.b, blobs }
}
fn check_sig(s: &CodeSignature<'_>, m: &SigM, obs: &mut Obs) -> Res {
    same!(s.index().len(), m.blobs.len(), "code signature index");
    let got: Vec<_> = s.blobs().collect();
    same!(got.len(), m.blobs.len(), "code signature blobs");
    for (g, w) in got.iter().zip(&m.blobs) {
        let g = match g {
            Ok(g) => g,
            Err(e) => return Err(format!("blob: {e}")),
        };
        same!((g.slot().0, g.offset(), g.magic()), (w.0, w.4, w.1), "code signature blob");
        same!(g.data(), &w.2[..], "blob data");
        same!(g.contents(), &w.2[8..], "blob contents");
        obs.hit("code signature blob");
        let cd = okay!(g.code_directory());
        same!(cd.is_some(), w.3.is_some(), "code directory presence");
        let (Some(cd), Some(w)) = (cd, &w.3) else { continue };
        obs.hit("code directory");
        let v4 = cd.exec_seg().map(|e| (e.exec_seg_base.get(BigEndian), e.exec_seg_limit.get(BigEndian), e.exec_seg_flags.get(BigEndian).0));
        same!((cd.version().0, cd.header().flags.get(BigEndian).0, cd.code_limit(), cd.scatter_offset(), v4), (w.version, w.flags, w.code_limit, w.scatter.filter(|s| *s != 0 || cd.scatter_offset().is_some()), w.exec), "code directory");
        if let Some(l) = cd.code_limit64() {
            same!(Some(l), w.limit64, "code limit 64");
        } else {
            ensure!(w.limit64.unwrap_or(0) == 0, "code limit 64 missing");
        }
        same!(okay!(cd.ident()), &w.ident[..], "identifier");
        same!(okay!(cd.team_id()), w.team.as_deref(), "team");
        for (i, h) in w.special.iter().enumerate() {
            same!(okay!(cd.special_hash(macho::CsSlot(i as u32 + 1))), &h[..], "special hash {i}");
        }
        ensure!(cd.special_hash(macho::CsSlot(w.special.len() as u32 + 1)).is_err(), "special hash beyond the count");
        ensure!(cd.special_hash(macho::CsSlot(0)).is_err(), "special hash 0");
        if w.scatter.unwrap_or(0) != 0 {
            ensure!(cd.code_hash(0).is_err(), "scattered code hash");
            continue;
        }
        for (i, h) in w.code.iter().enumerate() {
            same!(okay!(cd.code_hash(i as u32)), &h[..], "code hash {i}");
        }
        ensure!(cd.code_hash(w.code.len() as u32).is_err(), "code hash beyond the count");
    }
    Ok(())
}

// -------------------------------------------------------------------- files

struct F {
    m: Macho,
    libs: Vec<Vec<u8>>,
    lib_cmds: Vec<(u32, u32, u32, Option<u32>)>,
    info: Option<InfoM>,
    trie: Option<(Vec<u8>, Vec<(Vec<u8>, u64, ExM)>)>,
    info_trie: Option<(Vec<u8>, Vec<(Vec<u8>, u64, ExM)>)>,
    chained: Option<ChainM>,
    sig: Option<SigM>,
    starts: Option<(Vec<u8>, Vec<u64>)>,
    syms: Vec<Nlist>,
    strs: Vec<u8>,
    text: Option<u64>,
    linkedit: bool,
    sect_flags: Vec<u32>,
    vmaddr: u64,
}

fn gen_file(r: &mut Rng) -> F {
    let is64 = r.bool();
    let be = r.one_in(3);
    let (cpu, sub) = match (is64, be) {
        (true, false) => *r.pick(&[(0x0100_0007u32, 3u32), (0x0100_000c, 0), (0x0100_000c, 2)]),
        (true, true) => (0x0100_0012, 0),
        (false, false) => *r.pick(&[(7, 3), (12, 9)]),
        (false, true) => (18, 0),
    };
    let mut m = Macho { is64, be, cputype: cpu, cpusubtype: sub, filetype: *r.pick(&[2u32, 6, 8]), flags: if r.one_in(3) { 0 } else { 0x80 }, ..Default::default() };
    let mut cmds: Vec<(u8, Cmd)> = vec![];
    let text = if r.one_in(8) { None } else { Some(if is64 { r.below(1 << 20) << 12 } else { r.below(1 << 10) << 12 }) };
    let vmaddr = text.unwrap_or(0);
    // Segments.
    let mut sect_flags = vec![];
    let ns = r.range(1, 3) as usize;
    let mut segs = vec![];
    for i in 0..ns {
        let mut s = Segm { name: if i == 0 && text.is_some() { b"__TEXT".to_vec() } else { format!("__S{i}").into_bytes() }, vmaddr: if i == 0 { vmaddr } else { vmaddr + i as u64 * 0x10_0000 }, vmsize: 0x1000, ..Default::default() };
        let data = r.bytes(64);
        s.filesize = 64;
        s.blob = m.blob(data, 8);
        for k in 0..r.range(1, 3) {
            let flags = *r.pick(&[0u32, 0, 0x13, 0x8000_0400, 2]);
            sect_flags.push(flags);
            s.sects.push(Sect { sectname: format!("__s{k}").into_bytes(), segname: s.name.clone(), addr: s.vmaddr + k * 16, size: 16, at: Some(k * 16), flags, ..Default::default() });
        }
        segs.push(m.segment(&s));
    }
    let linkedit = true;
    let le = Segm { name: b"__LINKEDIT".to_vec(), vmaddr: vmaddr + 0x100_0000, vmsize: 0x1000, filesize: 0, blob: 0, ..Default::default() };
    segs.push(m.segment(&le));
    // Libraries, in order.
    let mut libs = vec![];
    let mut lib_cmds = vec![];
    let mut lib_out = vec![];
    for _ in 0..r.below(5) {
        let cmd = *r.pick(&[0xcu32, 0x8000_0018, 0x8000_001f, 0x20, 0x8000_0023]);
        let n = { let mut n = b"/usr/lib/".to_vec(); n.extend(word(r)); n };
        let mut w = m.w();
        let (cur, compat) = (r.edgy(32) as u32, r.edgy(32) as u32);
        let use_flags = if cmd != 0x20 && cmd != 0x8000_0018 && cmd == 0xc && r.one_in(3) { Some(r.below(16) as u32) } else { None };
        let off = if use_flags.is_some() { 28u32 } else { 24 };
        w.u32(off).u32(if use_flags.is_some() { 0x1a74_1800 } else { r.edgy(31) as u32 }).u32(cur).u32(compat);
        if let Some(f) = use_flags {
            w.u32(f);
        }
        w.put(&n).u8(0);
        lib_out.push(m.cmd(cmd, &w.b, vec![]));
        lib_cmds.push((cmd, cur, compat, use_flags));
        libs.push(n);
    }
    let nl = libs.len() as u32;
    let ptr = if is64 { 8 } else { 4 };
    let mut f = F { m: Macho::default(), libs, lib_cmds, info: None, trie: None, info_trie: None, chained: None, sig: None, starts: None, syms: vec![], strs: vec![0], text, linkedit, sect_flags, vmaddr };
    let which = r.below(4);
    if which == 0 || r.one_in(4) {
        let c = gen_chained(r, be, is64, nl, ns as u32 + 1, vmaddr);
        cmds.push((1, m.linkedit(0x8000_0034, c.b.clone())));
        f.chained = Some(c);
    }
    if which == 1 || r.one_in(3) {
        let rb = gen_rebase(r, ptr);
        let binds = vec![gen_bind(r, ptr, BK::Normal, nl), gen_bind(r, ptr, BK::Weak, nl), gen_bind(r, ptr, BK::Lazy, nl)];
        let t = gen_trie(r, nl);
        let mut w = m.w();
        let mut p = vec![];
        let mut at = 8;
        let trie_on = r.bool();
        let empty = vec![];
        for b in [&rb.0, &binds[0].b, &binds[1].b, &binds[2].b, if trie_on { &t.0 } else { &empty }] {
            w.u32(0).u32(b.len() as u32);
            if !b.is_empty() {
                let id = m.blob(b.clone(), 8);
                p.push(Patch { at, blob: id, add: 0, n: 4 });
            }
            at += 8;
        }
        cmds.push((1, m.cmd(if r.bool() { 0x8000_0022 } else { 0x22 }, &w.b, p)));
        f.info = Some(InfoM { rebase: rb, binds });
        f.info_trie = Some(if trie_on { t } else { (vec![], vec![]) });
    }
    if r.one_in(3) {
        let t = gen_trie(r, nl);
        cmds.push((1, m.linkedit(0x8000_0033, t.0.clone())));
        f.trie = Some(t);
    }
    if r.bool() {
        let s = gen_sig(r);
        cmds.push((1, m.linkedit(0x1d, s.b.clone())));
        f.sig = Some(s);
    }
    if r.bool() {
        let (mut b, mut v, mut a) = (vec![], vec![], vmaddr);
        for _ in 0..r.below(8) {
            let d = r.range(1, 0x5000);
            a += d;
            ul(r, &mut b, d);
            v.push(a);
        }
        if !r.one_in(3) || b.is_empty() {
            b.push(0);
            b.resize(b.len() + r.below(8) as usize, 0x11);
        }
        cmds.push((1, m.linkedit(0x26, b.clone())));
        f.starts = Some((b, v));
    }
    // Symbols.
    if r.one_in(6) {
        // No symbol table.
    } else {
        for _ in 0..r.below(10) {
            let name = word(r);
            let strx = f.strs.len() as u32;
            f.strs.extend(&name);
            f.strs.push(0);
            let mut s = Nlist { strx, name, ..Default::default() };
            let ext = !r.one_in(4);
            s.value = r.below(1 << 20);
            match r.below(5) {
                0 => {
                    s.value = 0;
                    let ord = if r.bool() { r.below(nl as u64 + 1) } else { *r.pick(&[0xfe, 0xff, 0]) };
                    s.desc = (ord << 8) as u16 | if r.one_in(3) { 0x40 } else { 0 };
                }
                1 => s.ty = 2,
                2 => {
                    s.ty = 0xa;
                    let t = word(r);
                    s.value = f.strs.len() as u64;
                    f.strs.extend(t);
                    f.strs.push(0);
                }
                _ => {
                    s.ty = 0xe;
                    s.sect = r.range(1, f.sect_flags.len() as u64) as u8;
                    if r.one_in(5) {
                        s.desc |= 0x100;
                    }
                }
            }
            if s.ty != 0 && r.one_in(4) {
                s.desc |= 0x80;
            }
            if s.ty == 0 || ext {
                s.ty |= 1;
            }
            if s.ty & 0xe != 0 && r.one_in(6) {
                s.ty |= 0x10;
            }
            if r.one_in(12) {
                s.ty = *r.pick(&[0x24u8, 0x20, 0x64, 0x66]);
            }
            f.syms.push(s);
        }
        let strs = f.strs.clone();
        cmds.push((1, m.symtab(&f.syms.clone(), strs)));
    }
    // Any order between commands, but libraries and segments keep theirs.
    let mut all: Vec<(u64, usize, Cmd)> = vec![];
    let mut ks: Vec<u64> = segs.iter().map(|_| r.below(100)).collect();
    ks.sort();
    all.extend(ks.into_iter().zip(segs).enumerate().map(|(i, (k, c))| (k, i, c)));
    let mut ks: Vec<u64> = lib_out.iter().map(|_| r.below(100)).collect();
    ks.sort();
    all.extend(ks.into_iter().zip(lib_out).enumerate().map(|(i, (k, c))| (k, i, c)));
    all.extend(cmds.into_iter().map(|(_, c)| (r.below(100), 0, c)));
    all.sort_by_key(|c| (c.0, c.1));
    m.cmds = all.into_iter().map(|c| c.2).collect();
    f.m = m;
    f
}

fn str_at(b: &[u8], at: u64) -> Option<&[u8]> {
    let s = b.get(at as usize..)?;
    Some(&s[..s.iter().position(|c| *c == 0)?])
}

fn check_file<Mach: MachHeader<Endian = Endianness>>(f: &F, data: &[u8], obs: &mut Obs) -> Res {
    let file = okay!(MachOFile::<Mach>::parse(data));
    let e = if f.m.be { Endianness::Big } else { Endianness::Little };
    let ptr = if f.m.is64 { 8u8 } else { 4 };
    let h = file.macho_header();
    let mut seen = [0usize; 6];
    let mut cmds = okay!(file.macho_load_commands());
    while let Some(c) = okay!(cmds.next()) {
        if let Some(d) = okay!(c.dyld_info()) {
            seen[0] += 1;
            check_info(e, data, d, f.info.as_ref().unwrap(), ptr, obs)?;
            let t = f.info_trie.as_ref().unwrap();
            check_trie(okay!(d.exports_trie(e, data)), &t.1, obs)?;
            same!(okay!(d.export_data(e, data)), &t.0[..], "export data");
        }
        if let Some(d) = okay!(c.dyld_exports_trie()) {
            seen[1] += 1;
            check_trie(okay!(d.exports_trie(e, data)), &f.trie.as_ref().unwrap().1, obs)?;
            ensure!(d.chained_fixups(e, data).is_err(), "wrong command accepted as chained fixups");
        }
        if let Some(d) = okay!(c.dyld_chained_fixups()) {
            seen[2] += 1;
            let x = okay!(d.chained_fixups(e, data));
            check_chained(e, &x, f.chained.as_ref().unwrap(), f.vmaddr, obs)?;
            ensure!(d.exports_trie(e, data).is_err(), "wrong command accepted as exports trie");
            ensure!(d.code_signature(e, data).is_err(), "wrong command accepted as code signature");
        }
        match c.cmd().0 {
            0x1d => {
                seen[3] += 1;
                let d: &macho::LinkeditDataCommand<Endianness> = okay!(c.data());
                let s = okay!(d.code_signature(e, data));
                check_sig(&s, f.sig.as_ref().unwrap(), obs)?;
                ensure!(d.function_starts(e, data, 0).is_err(), "wrong command accepted as function starts");
            }
            0x26 => {
                seen[4] += 1;
                let d: &macho::LinkeditDataCommand<Endianness> = okay!(c.data());
                let v: Vec<_> = okay!(d.function_starts(e, data, f.vmaddr)).collect();
                let mut got = vec![];
                for x in v {
                    got.push(okay!(x));
                }
                same!(got, f.starts.as_ref().unwrap().1, "function starts");
                obs.add("function start", got.len() as u64);
            }
            _ => {}
        }
    }
    same!(seen[..5].to_vec(), vec![f.info.is_some() as usize, f.trie.is_some() as usize, f.chained.is_some() as usize, f.sig.is_some() as usize, f.starts.is_some() as usize], "commands seen");

    // Exports.
    let mut want: Vec<(Vec<u8>, String, bool)> = vec![];
    if let Some((_, t)) = f.trie.as_ref().or(f.info_trie.as_ref()) {
        let base = f.text.unwrap_or(0);
        for (name, flags, d) in t {
            let s = match d {
                ExM::Regular(a) => match flags & 3 {
                    0 => format!("address {}", base.wrapping_add(*a)),
                    1 => format!("tlv {}", base.wrapping_add(*a)),
                    _ => format!("absolute {a}"),
                },
                ExM::Stub(a, b) => format!("resolver {} {:?}", base.wrapping_add(*b), Some(base.wrapping_add(*a))),
                ExM::Re(o, n) => format!("reexport {:?} {:?}", f.libs[*o as usize - 1], if n.is_empty() { name } else { n }),
            };
            want.push((name.clone(), s, flags & 4 != 0));
        }
    } else {
        for s in &f.syms {
            if s.ty & 0xe0 != 0 || s.ty & 1 == 0 || s.ty & 0x10 != 0 {
                continue;
            }
            let t = match s.ty & 0xe {
                2 => format!("absolute {}", s.value),
                0xa => format!("reexport {:?} {:?}", Vec::<u8>::new(), str_at(&f.strs, s.value).unwrap()),
                0xe if s.desc & 0x100 != 0 => format!("resolver {} None", s.value),
                0xe if f.sect_flags[s.sect as usize - 1] & 0xff == 0x13 => format!("tlv {}", s.value),
                0xe => format!("address {}", s.value),
                _ => continue,
            };
            want.push((s.name.clone(), t, s.desc & 0x80 != 0));
        }
    }
    let got: Vec<_> = okay!(file.exports()).collect();
    same!(got.len(), want.len(), "exports");
    for (g, w) in got.iter().zip(&want) {
        let g = match g {
            Ok(g) => g,
            Err(e) => return Err(format!("export: {e}")),
        };
        let name = match g.name() {
            NameOrOrdinal::Name(n) => n.to_vec(),
            _ => return Err("export by ordinal".into()),
        };
        let t = match g.target() {
            ExportTarget::Address { address } => format!("address {address}"),
            ExportTarget::Absolute { value } => format!("absolute {value}"),
            ExportTarget::TlvDescriptor { address } => format!("tlv {address}"),
            ExportTarget::Resolver { resolver, stub } => format!("resolver {resolver} {stub:?}"),
            ExportTarget::Reexport { library, name: NameOrOrdinal::Name(n) } => format!("reexport {library:?} {n:?}"),
            t => format!("{t:?}"),
        };
        same!((name, t, g.is_weak()), w.clone(), "export");
        obs.hit(match w.1.split(' ').next().unwrap() {
            "address" => "address exports",
            "absolute" => "absolute exports",
            "tlv" => "tlv exports",
            "resolver" => "resolver exports",
            _ => "reexports",
        });
    }

    // Import libraries and imports.
    let got: Vec<_> = okay!(file.import_libraries()).collect();
    same!(got.len(), f.libs.len(), "import libraries");
    for (i, g) in got.iter().enumerate() {
        let g = match g {
            Ok(g) => g,
            Err(e) => return Err(format!("library: {e}")),
        };
        same!(g.name(), &f.libs[i][..], "library name");
        let w = f.lib_cmds[i];
        match g.flags() {
            ImportLibraryFlags::MachO { ordinal, cmd, current_version, compatibility_version, use_flags } => {
                same!((ordinal, cmd.0, current_version.0, compatibility_version.0, use_flags.map(|u| u.0)), (i as u32 + 1, w.0, w.1, w.2, w.3), "library flags");
            }
            x => return Err(format!("library flags {x:?}")),
        }
        obs.hit("import library");
    }
    let mut want: Vec<(Vec<u8>, Vec<u8>, bool, String)> = vec![];
    if let Some(c) = &f.chained {
        for i in &c.imports {
            if i.dylib != 0 {
                want.push((lib_name(&f.libs, i.dylib), i.name.clone(), i.weak, format!("{} {}", i.dylib, i.weak as u8)));
            }
        }
    } else if let Some(c) = &f.info {
        for s in &c.binds {
            for (d, fl, n) in &s.imports {
                if *d != 0 {
                    want.push((lib_name(&f.libs, *d), n.clone(), fl & 1 != 0, format!("{d} {fl}")));
                }
            }
        }
    } else {
        for s in &f.syms {
            if s.ty == 1 {
                let o = s.desc >> 8;
                let l = if f.m.flags & 0x80 == 0 || o == 0 || o >= 0xfe { vec![] } else { f.libs[o as usize - 1].clone() };
                want.push((l, s.name.clone(), s.desc & 0x40 != 0, format!("n {} {}", s.ty, s.desc)));
            }
        }
    }
    let got: Vec<_> = okay!(file.imports()).collect();
    same!(got.len(), want.len(), "imports");
    for (g, w) in got.iter().zip(&want) {
        let g = match g {
            Ok(g) => g,
            Err(e) => return Err(format!("import: {e}")),
        };
        let NameOrOrdinal::Name(n) = g.name() else { return Err("import by ordinal".into()) };
        let fl = match g.flags() {
            ImportFlags::MachO { n_type, n_desc } => format!("n {} {}", n_type.0, n_desc.0),
            ImportFlags::MachOBind { dylib, flags } => format!("{} {}", dylib.0, flags.0),
            x => format!("{x:?}"),
        };
        same!((g.library().to_vec(), n.to_vec(), g.is_weak(), fl), w.clone(), "import");
        obs.hit("import");
    }
    let _ = (h, f.linkedit);
    Ok(())
}

fn files(_: u64, r: &mut Rng, obs: &mut Obs) -> Res {
    let mut f = gen_file(r);
    let mut m = std::mem::take(&mut f.m);
    let data = m.build(r);
    f.m = m;
    obs.input("file", &data);
    if f.info.is_some() || f.trie.is_some() || f.chained.is_some() || f.sig.is_some() {
        obs.nontrivial(hash(&data));
    }
    if f.m.is64 {
        check_file::<macho::MachHeader64<Endianness>>(&f, &data, obs)
    } else {
        check_file::<macho::MachHeader32<Endianness>>(&f, &data, obs)
    }
}

// -------------------------------------------------------------------- cache

struct RelM {
    off: u64,
    value: u64,
    auth: Option<(u8, u16, bool)>,
}

/// Slide info blob and patched mapping data.
fn gen_slide(r: &mut Rng, be: bool, version: u32, data: &mut Vec<u8>) -> (Vec<u8>, Vec<RelM>) {
    let page = 0x1000u64;
    let npages = data.len() as u64 / page;
    let mut d = W::new(be, true);
    d.b = std::mem::take(data);
    let mut s = W::new(be, true);
    let mut rels = vec![];
    match version {
        2 => {
            // Top bits hold the delta; 64-bit pointers.
            let lo = *r.pick(&[40u32, 48, 36]);
            let nbits = 14u32.min(56 - lo);
            let mask: u64 = ((1u64 << nbits) - 1) << lo;
            let vmask = !mask;
            let add = if r.bool() { r.below(1 << 33) } else { 0 };
            let mut starts = vec![];
            let mut extras: Vec<u16> = vec![];
            let max_delta = ((1u64 << nbits) - 1) * 4;
            let chain = |r: &mut Rng, d: &mut W, base: u64, from: u64, end: u64, rels: &mut Vec<RelM>| {
                let mut at = from;
                loop {
                    let room = end.saturating_sub(at + 8);
                    let next = if room < 8 || r.one_in(6) { 0 } else { (r.range(8, room.min(max_delta).max(8)) / 4 * 4).min(room / 4 * 4) };
                    let v = if r.one_in(6) { 0 } else { r.edgy(lo - 1) };
                    d.set((base + at) as usize, v | (next / 4) << lo, 8);
                    if v != 0 {
                        rels.push(RelM { off: base + at, value: v.wrapping_add(add), auth: None });
                    }
                    if next == 0 {
                        break;
                    }
                    at += next;
                }
            };
            for p in 0..npages {
                let base = p * page;
                match r.below(4) {
                    0 => starts.push(0x4000u16),
                    1 => {
                        let n = r.range(1, 3);
                        starts.push(0x8000 | extras.len() as u16);
                        for i in 0..n {
                            let lo = page / n * i;
                            let from = (lo + r.below(16) * 4).next_multiple_of(4);
                            chain(r, &mut d, base, from, page / n * (i + 1), &mut rels);
                            extras.push((from / 4) as u16 | if i + 1 == n { 0x8000 } else { 0 });
                        }
                    }
                    _ => {
                        let from = r.below((page - 8) / 4) * 4;
                        starts.push((from / 4) as u16);
                        chain(r, &mut d, base, from, page, &mut rels);
                    }
                }
            }
            let so = 40 + r.below(3) as usize * 8;
            let eo = so + starts.len() * 2 + r.below(2) as usize * 4;
            s.u32(2).u32(page as u32).u32(so as u32).u32(starts.len() as u32).u32(eo as u32).u32(extras.len() as u32).u64(mask).u64(add);
            let _ = vmask;
            s.b.resize(so, 0);
            for v in starts {
                s.u16(v);
            }
            s.b.resize(eo, 0);
            for v in extras {
                s.u16(v);
            }
        }
        _ => {
            let v5 = version == 5;
            let add = r.below(1 << 36);
            let mut starts = vec![];
            for p in 0..npages {
                let base = p * page;
                if r.one_in(4) {
                    starts.push(0xffffu16);
                    continue;
                }
                let mut at = r.below((page - 8) / 8) * 8;
                starts.push(at as u16);
                loop {
                    let room = page.saturating_sub(at + 8) / 8;
                    let next = if room == 0 || r.one_in(6) { 0 } else { r.range(1, room) };
                    let (key, div, ad) = (r.below(4) as u8, r.edgy(16) as u16, r.bool());
                    let auth = r.bool();
                    let (v, m) = if v5 {
                        let t = r.edgy(34);
                        if auth {
                            let isd = r.bool();
                            (
                                t | (div as u64) << 34 | (ad as u64) << 50 | (isd as u64) << 51 | 1 << 63 | next << 52,
                                RelM { off: base + at, value: t.wrapping_add(add), auth: Some((if isd { 2 } else { 0 }, div, ad)) },
                            )
                        } else {
                            let high = r.below(256);
                            (t | high << 34 | next << 52, RelM { off: base + at, value: t.wrapping_add(add) | high << 56, auth: None })
                        }
                    } else if auth {
                        let t = r.edgy(32);
                        (
                            t | (div as u64) << 32 | (ad as u64) << 48 | (key as u64) << 49 | next << 51 | 1 << 63,
                            RelM { off: base + at, value: t.wrapping_add(add), auth: Some((key, div, ad)) },
                        )
                    } else {
                        let t = r.edgy(43);
                        let high = r.below(256);
                        (t | high << 43 | next << 51, RelM { off: base + at, value: t | high << 56, auth: None })
                    };
                    d.set((base + at) as usize, v, 8);
                    rels.push(m);
                    if next == 0 {
                        break;
                    }
                    at += next * 8;
                }
            }
            s.u32(version).u32(page as u32).u32(starts.len() as u32).u32(0).u64(add);
            for v in starts {
                s.u16(v);
            }
        }
    }
    *data = d.b;
    (s.b, rels)
}

struct MapM {
    addr: u64,
    size: u64,
    off: u64,
    prot: (u32, u32),
    slide: Option<(u32, Vec<RelM>)>,
    data: Vec<u8>,
}
struct CFile {
    maps: Vec<MapM>,
    uuid: [u8; 16],
    bytes: Vec<u8>,
    slide: bool,
}
const MAGICS: &[(&[u8; 16], &str, bool)] = &[
    (b"dyld_v1    i386\0", "I386", false),
    (b"dyld_v1  x86_64\0", "X86_64", false),
    (b"dyld_v1 x86_64h\0", "X86_64", false),
    (b"dyld_v1     ppc\0", "PowerPc", true),
    (b"dyld_v1   armv6\0", "Arm", false),
    (b"dyld_v1   armv7\0", "Arm", false),
    (b"dyld_v1  armv7f\0", "Arm", false),
    (b"dyld_v1  armv7s\0", "Arm", false),
    (b"dyld_v1  armv7k\0", "Arm", false),
    (b"dyld_v1   arm64\0", "Aarch64", false),
    (b"dyld_v1  arm64e\0", "Aarch64", false),
];

fn cache(_: u64, r: &mut Rng, obs: &mut Obs) -> Res {
    let (magic, arch, be) = *r.pick(MAGICS);
    // Header sizes for the known generations.
    let hdr = *r.pick(&[0x78u32, 0x140, 0x1c8, 0x1d0, 0x1d8, 0x200]);
    let slide = hdr >= 0x140;
    let can_sub = hdr >= 0x1c8;
    let nsub = if can_sub && r.bool() { r.range(1, 3) as usize } else { 0 };
    let symbols = can_sub && r.one_in(3);
    let nfiles = 1 + nsub + symbols as usize;
    // An image split between files.
    let is64 = !matches!(arch, "I386" | "PowerPc" | "Arm");
    let base_addr = if is64 { 0x1_8000_0000u64 } else { 0x1a00_0000 };
    let mut addr = base_addr;
    let mut cfiles: Vec<CFile> = vec![];
    for fi in 0..nfiles {
        let mut maps = vec![];
        let n = if fi == 0 { r.range(1, 3) } else { r.range(1, 2) };
        for _ in 0..n {
            let pages = r.range(2, 4);
            let data = r.bytes((pages * 0x1000) as usize);
            addr += r.below(4) * 0x4000;
            maps.push(MapM { addr, size: data.len() as u64, off: 0, prot: (r.edgy(8) as u32, r.edgy(8) as u32), slide: None, data });
            addr += pages * 0x1000;
        }
        let mut uuid = [0; 16];
        uuid.copy_from_slice(&r.bytes(16));
        uuid[0] |= 1;
        cfiles.push(CFile { maps, uuid, bytes: vec![], slide });
    }
    if symbols {
        cfiles[nfiles - 1].maps.clear();
    }
    // Slide info goes in each file's tail. The image goes in pages without slide info.
    // File offsets: header area 0x1000, then mappings in shuffled order.
    let mut offs_end = vec![];
    for c in &mut cfiles {
        let items: Vec<(usize, usize)> = c.maps.iter().map(|m| (m.data.len(), 0x1000)).collect();
        let (o, end) = genf::w::layout(r, 0x3000, &items, true);
        for (m, o) in c.maps.iter_mut().zip(o) {
            m.off = o as u64;
        }
        offs_end.push(end);
    }
    // Images: Mach-O file with header in one mapping, __DATA in another and __LINKEDIT in another.
    let cputype = match arch {
        "I386" => 7u32,
        "X86_64" => 0x0100_0007,
        "PowerPc" => 18,
        "Arm" => 12,
        _ => 0x0100_000c,
    };
    let all: Vec<(usize, usize)> = cfiles.iter().enumerate().flat_map(|(f, c)| (0..c.maps.len()).map(move |m| (f, m))).collect();
    let mut used: std::collections::BTreeSet<(usize, usize)> = Default::default();
    struct ImgM {
        addr: u64,
        at: (usize, usize),
        path: Vec<u8>,
        sects: Vec<(u64, Vec<u8>)>,
        syms: Vec<Nlist>,
        segs: Vec<(Vec<u8>, u64, Vec<u8>)>,
        mtime: u64,
    }
    let mut images = vec![];
    for _ in 0..r.below(3) {
        let free: Vec<(usize, usize)> = all.iter().copied().filter(|m| !used.contains(m)).collect();
        if free.len() < 2 {
            break;
        }
        // Header in mapping a, data in b, linkedit in c (may equal b).
        let a = *r.pick(&free);
        let b = *r.pick(&free);
        let c = *r.pick(&free);
        used.extend([a, b, c]);
        let inb = 0x400u64;
        let mut w = W::new(be, is64);
        let mut sects = vec![];
        let mut segs = vec![];
        let m = |i: (usize, usize)| &cfiles[i.0].maps[i.1];
        // commands
        let mut cmds = W::new(be, is64);
        let mut ncmds = 0;
        for (name, i, at, nsect) in [(&b"__TEXT"[..], a, 0u64, 0), (b"__DATA", b, inb, 2u64), (b"__LINKEDIT", c, 0x800, 0)] {
            let size = 0x200u64;
            let (va, fo) = (m(i).addr + at, m(i).off + at);
            let len = if is64 { 72 + 80 * nsect } else { 56 + 68 * nsect };
            cmds.u32(if is64 { 0x19 } else { 1 }).u32(len as u32).fixed(name, 16).word(va).word(size).word(fo).word(size).u32(7).u32(7).u32(nsect as u32).u32(0);
            for k in 0..nsect {
                let (sa, so, sz) = (va + k * 0x40, fo + k * 0x40, 0x30u64);
                cmds.fixed(format!("__d{k}").as_bytes(), 16).fixed(name, 16).word(sa).word(sz).u32(so as u32).u32(3).u32(0).u32(0).u32(0).u32(0).u32(0);
                if is64 {
                    cmds.u32(0);
                }
                sects.push((sa, (i, at + k * 0x40, sz)));
            }
            segs.push((name.to_vec(), va, (i, at, size)));
            ncmds += 1;
        }
        let mut strs = vec![0u8];
        let mut syms = vec![];
        for _ in 0..r.below(4) {
            let name = word(r);
            syms.push(Nlist { strx: strs.len() as u32, name: name.clone(), ty: 0xf, sect: 1, desc: 0, value: r.below(if is64 { 1 << 40 } else { 1 << 32 }) });
            strs.extend(name);
            strs.push(0);
        }
        let mm = Macho { is64, be, ..Default::default() };
        let symb = mm.nlists(&syms);
        let (so, to) = (0x800u64, 0x800 + symb.len() as u64);
        cmds.u32(2).u32(24).u32((m(c).off + so) as u32).u32(syms.len() as u32).u32((m(c).off + to) as u32).u32(strs.len() as u32);
        ncmds += 1;
        w.u32(if is64 { 0xfeed_facf } else { 0xfeed_face }).u32(cputype).u32(0).u32(6).u32(ncmds).u32(cmds.len() as u32).u32(0x8000_0000);
        if is64 {
            w.u32(0);
        }
        w.put(&cmds.b);
        let iaddr = m(a).addr;
        cfiles[a.0].maps[a.1].data[..w.len()].copy_from_slice(&w.b);
        cfiles[c.0].maps[c.1].data[so as usize..so as usize + symb.len()].copy_from_slice(&symb);
        cfiles[c.0].maps[c.1].data[to as usize..to as usize + strs.len()].copy_from_slice(&strs);
        let mut path = b"/usr/lib/".to_vec();
        path.extend(word(r));
        images.push((ImgM { addr: iaddr, at: a, path, sects: vec![], syms, segs: vec![], mtime: r.u64() }, sects, segs));
    }
    // Later images may overwrite; take the final bytes.
    let slice = |cf: &[CFile], (i, at, n): ((usize, usize), u64, u64)| cf[i.0].maps[i.1].data[at as usize..(at + n) as usize].to_vec();
    let images: Vec<ImgM> = images
        .into_iter()
        .map(|(mut im, s, g)| {
            im.sects = s.into_iter().map(|(a, x)| (a, slice(&cfiles, x))).collect();
            im.segs = g.into_iter().map(|(n, a, x)| (n, a, slice(&cfiles, x))).collect();
            im
        })
        .collect();
    // Slide infos for unused mappings.
    let mut slides: Vec<Vec<(usize, Vec<u8>)>> = vec![vec![]; nfiles];
    if slide {
        for (f, c) in cfiles.iter_mut().enumerate() {
            for (mi, m) in c.maps.iter_mut().enumerate() {
                if used.contains(&(f, mi)) || r.one_in(3) {
                    continue;
                }
                let version = *r.pick(&[2u32, 3, 5]);
                let (s, rels) = gen_slide(r, be, version, &mut m.data);
                m.slide = Some((version, rels));
                slides[f].push((mi, s));
            }
        }
    }
    // Write the files.
    let sub_v1 = hdr < 0x1d0;
    let uuids: Vec<[u8; 16]> = cfiles.iter().map(|c| c.uuid).collect();
    let suffixes: Vec<String> = (0..nsub).map(|i| if sub_v1 { format!(".{}", i + 1) } else { r.pick(&[".01", ".25.data", ".31.dylddata"]).to_string() }).collect();
    let path_at = 0x1800usize;
    for (f, c) in cfiles.iter_mut().enumerate() {
        let mut w = W::new(be, true);
        w.b.resize(offs_end[f].max(0x3000), 0);
        // The mapping offset also tells the header size.
        let map_off = hdr as usize;
        w.place(0, &magic[..]);
        w.set(0x10, map_off as u64, 4);
        w.set(0x14, c.maps.len() as u64, 4);
        let img_off = 0x1000usize;
        let n = if f == 0 { images.len() } else { 0 };
        if hdr >= 0x1c8 {
            w.set(0x1c0, img_off as u64, 4);
            w.set(0x1c4, n as u64, 4);
        } else {
            w.set(0x18, img_off as u64, 4);
            w.set(0x1c, n as u64, 4);
        }
        w.place(0x58, &c.uuid);
        for (i, m) in c.maps.iter().enumerate() {
            let at = map_off + i * 32;
            w.set(at, m.addr, 8);
            w.set(at + 8, m.size, 8);
            w.set(at + 16, m.off, 8);
            w.set(at + 24, m.prot.0 as u64, 4);
            w.set(at + 28, m.prot.1 as u64, 4);
        }
        if slide {
            let so = 0x600usize;
            w.set(0x138, so as u64, 4);
            w.set(0x13c, c.maps.len() as u64, 4);
            for (i, m) in c.maps.iter().enumerate() {
                let at = so + i * 56;
                let (mut sf, mut ss) = (0u64, 0u64);
                if let Some(s) = slides[f].iter().find(|s| s.0 == i) {
                    let end = w.len().next_multiple_of(8);
                    w.place(end, &s.1);
                    sf = end as u64;
                    ss = s.1.len() as u64;
                }
                for (k, v) in [m.addr, m.size, m.off, sf, ss, r.below(8)].into_iter().enumerate() {
                    w.set(at + k * 8, v, 8);
                }
                w.set(at + 48, m.prot.0 as u64, 4);
                w.set(at + 52, m.prot.1 as u64, 4);
            }
        }
        if f == 0 && can_sub {
            let so = 0xa00usize;
            w.set(0x188, so as u64, 4);
            w.set(0x18c, nsub as u64, 4);
            for i in 0..nsub {
                if sub_v1 {
                    w.place(so + i * 24, &uuids[i + 1]);
                } else {
                    w.place(so + i * 56, &uuids[i + 1]);
                    w.place(so + i * 56 + 24, suffixes[i].as_bytes());
                }
            }
            if symbols {
                w.place(0x190, &uuids[nfiles - 1]);
            }
        }
        if f == 0 {
            for (i, im) in images.iter().enumerate() {
                let at = img_off + i * 32;
                w.set(at, im.addr, 8);
                w.set(at + 8, im.mtime, 8);
                let p = path_at + i * 0x100;
                w.set(at + 24, p as u64, 4);
                w.place(p, &im.path);
            }
        }
        for m in &c.maps {
            w.place(m.off as usize, &m.data);
        }
        c.bytes = w.b;
    }
    for (i, c) in cfiles.iter().enumerate() {
        obs.input(["cache", "sub1", "sub2", "sub3", "sub4"][i], &c.bytes);
    }
    if nfiles > 1 || !images.is_empty() {
        obs.nontrivial(hash(&cfiles[0].bytes));
    }
    let main = &cfiles[0].bytes[..];
    let subs: Vec<&[u8]> = cfiles[1..].iter().map(|c| &c.bytes[..]).collect();
    let mut want: Vec<String> = suffixes.clone();
    if symbols {
        want.push(".symbols".into());
    }
    same!(okay!(DyldCache::<Endianness>::subcache_suffixes(main)), want, "subcache suffixes");
    same!(object::FileKind::parse(main), Ok(object::FileKind::DyldCache), "kind of a cache");
    let c = okay!(DyldCache::<Endianness>::parse(main, &subs));
    same!((format!("{:?}", c.architecture()), c.is_little_endian()), (arch.to_string(), !be), "architecture");
    if nfiles > 1 {
        ensure!(DyldCache::<Endianness>::parse(main, &subs[1..]).is_err(), "missing subcache accepted");
        let mut bad = cfiles[nfiles - 1].bytes.clone();
        bad[0x58 + r.below(16) as usize] ^= 1 << r.below(8);
        let mut subs = subs.clone();
        *subs.last_mut().unwrap() = &bad;
        ensure!(DyldCache::<Endianness>::parse(main, &subs).is_err(), "wrong subcache uuid accepted");
        obs.hit("rejected subcache");
    }
    let got: Vec<_> = c.mappings().collect();
    let wm: Vec<(usize, &MapM)> = cfiles.iter().enumerate().flat_map(|(f, c)| c.maps.iter().map(move |m| (f, m))).collect();
    same!(got.len(), wm.len(), "mappings");
    for (g, (f, m)) in got.iter().zip(&wm) {
        same!((g.address(), g.size(), g.file_offset(), g.max_prot().0, g.init_prot().0), (m.addr, m.size, m.off, m.prot.0, m.prot.1), "mapping");
        same!(okay!(g.data()), &m.data[..], "mapping data");
        obs.hit("mapping");
        let rels: Vec<_> = okay!(g.relocations()).collect();
        let none = vec![];
        let (version, wr) = m.slide.as_ref().map_or((0, &none), |s| (s.0, &s.1));
        same!(rels.len(), wr.len(), "relocations for slide info {version}");
        for (g, w) in rels.iter().zip(wr) {
            let g = match g {
                Ok(g) => g,
                Err(e) => return Err(format!("relocation: {e}")),
            };
            same!((g.offset, g.value, g.auth.as_ref().map(|a| (a.key as u8, a.diversity, a.addr_div))), (w.off, w.value, w.auth), "relocation for slide info {version}");
            obs.hit(match version {
                2 => "slide relocation v2",
                3 => "slide relocation v3",
                _ => "slide relocation v5",
            });
        }
        for a in [m.addr, m.addr + m.size - 1, m.addr + r.below(m.size)] {
            let (d, o) = some!(c.data_and_offset_for_address(a), "address {a:#x} in a mapping");
            same!(o, m.off + (a - m.addr), "offset of address");
            ensure!(d.as_ptr() == cfiles[*f].bytes.as_ptr(), "address {a:#x} in the wrong file");
        }
    }
    for a in [base_addr - 1, addr, addr + 0x1000, 0] {
        ensure!(c.data_and_offset_for_address(a).is_none(), "address {a:#x} outside of mappings");
    }
    let got: Vec<_> = c.images().collect();
    same!(got.len(), images.len(), "images");
    for (g, im) in got.iter().zip(&images) {
        same!(okay!(g.path()).as_bytes(), &im.path[..], "image path");
        let e = if be { Endianness::Big } else { Endianness::Little };
        same!((g.info().address.get(e), g.info().mod_time.get(e)), (im.addr, im.mtime), "image info");
        let (_, o) = okay!(g.image_data_and_offset());
        same!(o, cfiles[im.at.0].maps[im.at.1].off, "image offset");
        // Overlapping images would have destroyed each other's commands.
        if images.iter().filter(|x| x.at == im.at).count() > 1 {
            continue;
        }
        let f = match g.parse_object() {
            Ok(f) => f,
            Err(e) => return Err(format!("image: {e}")),
        };
        same!((f.is_64(), f.is_little_endian(), format!("{:?}", f.architecture())), (is64, !be, arch.to_string()), "image header");
        obs.hit(if is64 { "image 64" } else { "image 32" });
        let s: Vec<_> = f.sections().collect();
        same!(s.len(), im.sects.len(), "image sections");
        for (s, w) in s.iter().zip(&im.sects) {
            same!(s.address(), w.0, "image section address");
            same!(okay!(s.data()), &w.1[..], "image section data");
            same!(okay!(okay!(s.compressed_data()).decompress()).as_ref(), &w.1[..], "image section compressed_data");
            same!(okay!(s.data_range(w.0 + 4, 8)), Some(&w.1[4..12]), "image section range");
            obs.hit("image section");
        }
        let s: Vec<_> = f.segments().collect();
        same!(s.len(), im.segs.len(), "image segments");
        for (s, w) in s.iter().zip(&im.segs) {
            same!((okay!(s.name_bytes()), s.address()), (Some(&w.0[..]), w.1), "image segment");
            same!(okay!(s.data()), &w.2[..], "image segment data");
        }
        let s: Vec<_> = f.symbols().collect();
        same!(s.len(), im.syms.len(), "image symbols");
        for (s, w) in s.iter().zip(&im.syms) {
            same!((okay!(s.name_bytes()), s.address()), (&w.name[..], w.value), "image symbol");
            obs.hit("image symbol");
        }
    }
    let _ = (cfiles[0].slide, LittleEndian);
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C10",
    rule: "a file with dyld info, an exports trie, chained fixups or a code signature, or a dyld cache with images or subcaches, whose every decoded item was compared with the model it was encoded from",
    parts: &[
        Part { name: "files", quick: 120_000, thorough: 4_000_000, run: files },
        Part { name: "cache", quick: 25_000, thorough: 800_000, run: cache },
    ],
    required: &[
        "rebase operation", "rebase", "bind operation", "bind", "weak bind", "lazy bind", "trie export", "chained import format 1", "chained import format 2", "chained import format 3",
        "fixup format 1", "fixup format 2", "fixup format 3", "fixup format 4", "fixup format 5", "fixup format 6", "fixup format 7", "fixup format 8", "fixup format 9", "fixup format 10",
        "fixup format 11", "fixup format 12", "fixup format 13", "fixup format 14", "code signature blob", "code directory", "function start", "address exports", "absolute exports", "tlv exports", "resolver exports", "reexports",
        "import library", "import", "mapping", "slide relocation v2", "slide relocation v3", "slide relocation v5", "image section", "image symbol", "image 32", "image 64", "rejected subcache",
    ],
    tools: &[],
    assumptions: &["well-formed inputs built by this check's own encoder", "chains never use the non-pointer values above max_valid_pointer"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

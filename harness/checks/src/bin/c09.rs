//! C09: Mach-O files and fat containers decode to exactly what they encode.
use genf::macho::*;
use genf::w::{Strs, W, name};
use object::Endianness;
use object::macho;
use object::read::macho::{FatArch, LoadCommandVariant, MachHeader, MachOFatFile32, MachOFatFile64, MachOFile, Nlist as _, Section as _};
use object::read::*;
use object::{FileFlags, SectionFlags, SegmentFlags, SymbolFlags};
use vcore::*;

const CPUS: &[(u32, bool, &str)] = &[
    (7, false, "I386"),
    (0x0100_0007, true, "X86_64"),
    (12, false, "Arm"),
    (0x0100_000c, true, "Aarch64"),
    (0x0200_000c, false, "Aarch64_Ilp32"),
    (8, false, "Mips"),
    (18, false, "PowerPc"),
    (0x0100_0012, true, "PowerPc64"),
    (0x7777, true, "Unknown"),
    (14, false, "Unknown"),
];

struct Rel {
    addr: u32,
    num: u32,
    pcrel: bool,
    len: u8,
    ext: bool,
    ty: u8,
    scattered: Option<u32>,
}
struct MSect {
    s: Sect,
    seg: usize,
    rels: Vec<Rel>,
    kind: &'static str,
}
struct MCmd {
    cmd: u32,
    at: usize,
    /// Payload strings, by offset in the command.
    s: Option<(usize, Vec<u8>)>,
    f: Vec<u64>,
}
struct M {
    m: Macho,
    segs: Vec<Segm>,
    sects: Vec<MSect>,
    syms: Vec<Nlist>,
    order: Vec<MCmd>,
    kind: &'static str,
    uuid: Option<Vec<u8>>,
    entry: u64,
    build: Option<(u32, u32, u32, Vec<(u32, u32)>)>,
    strs: Vec<u8>,
    indirect: Vec<u32>,
    dysym: bool,
    osos: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    omap: Vec<(u64, u64, Vec<u8>, usize)>,
}

fn zero(ty: u32) -> bool {
    matches!(ty, 1 | 0xc | 0x12)
}
fn kind(filetype: u32, seg: &Segm, s: &Sect) -> &'static str {
    let trim = |v: &[u8]| v.iter().position(|&c| c == 0).map_or(v.to_vec(), |n| v[..n].to_vec());
    if trim(&s.segname) == b"__DWARF" {
        return "Debug";
    }
    if s.flags & 0x0200_0000 != 0 {
        return "Unknown";
    }
    match s.flags & 0xff {
        1 | 0xc => "UninitializedData",
        2 => "ReadOnlyString",
        3 | 4 | 0xe | 5 => "ReadOnlyData",
        8 => "Text",
        0x11 => "Tls",
        0x12 => "UninitializedTls",
        0x13 => "TlsVariables",
        0 | 0xb | 6 | 7 | 9 | 0xa | 0xd | 0x10 | 0x14 | 0x15 | 0x16 => {
            if s.flags & 0x8000_0400 != 0 {
                "Text"
            } else {
                let ro = if filetype == 1 { trim(&s.segname) == b"__TEXT" } else { seg.initprot & 2 == 0 || seg.flags & 0x10 != 0 };
                if ro { "ReadOnlyData" } else { "Data" }
            }
        }
        _ => "Unknown",
    }
}

fn lcstr(m: &Macho, cmd: u32, head: &[u32], r: &mut Rng) -> (Cmd, usize, Vec<u8>) {
    // head: the fields after cmd and cmdsize, the first being the string offset.
    let mut w = m.w();
    let off = 8 + head.len() * 4 + 4 + if r.one_in(4) { 4 * r.idx(4) } else { 0 };
    let s = name(r);
    w.u32(off as u32);
    for &h in head {
        w.u32(h);
    }
    w.zeros(off - 8 - w.len());
    w.put(&s).u8(0);
    (m.cmd(cmd, &w.b, vec![]), off, s)
}

fn model(r: &mut Rng) -> M {
    let &(cputype, is64d, _) = r.pick(CPUS);
    let is64 = if r.one_in(6) { !is64d } else { is64d };
    let be = if matches!(cputype, 18 | 0x0100_0012) { !r.one_in(4) } else { r.one_in(4) };
    let filetype = match r.below(8) {
        0..=2 => 1,
        3 => 2,
        4 => 6,
        5 => 4,
        6 => 8,
        _ => r.range(3, 13) as u32,
    };
    let mut m = Macho {
        is64,
        be,
        cputype,
        cpusubtype: if r.one_in(3) { 2 } else { r.pick(&[0u32, 3, 0x8000_0002, 0x8000_0003, 1, 9]).to_owned() },
        filetype,
        flags: r.u32(),
        ..Macho::default()
    };
    // Strings and symbols.
    let mut segs = vec![];
    let mut sects: Vec<MSect> = vec![];
    let nseg = if filetype == 1 { (!r.one_in(12)) as usize } else { r.idx(5) };
    let mut nsect = 0usize;
    let mut addr = if filetype == 1 { 0 } else { r.below(if is64 { 1 << 30 } else { 1 << 19 }) << 12 };
    for si in 0..nseg {
        let obj = filetype == 1;
        let sname: Vec<u8> = if obj { vec![] } else { r.pick(&[&b"__TEXT"[..], b"__DATA", b"__DATA_CONST", b"__LINKEDIT", b"__DWARF", b"__PAGEZERO", b"abcdefghijklmnop"]).to_vec() };
        let k = r.idx(7);
        let mut blob = vec![];
        let mut v = vec![];
        let maxprot = r.below(8) as u32 | if r.one_in(4) { 0x10 } else { 0 };
        let mut seg = Segm {
            name: sname.clone(),
            maxprot,
            initprot: r.below(8) as u32,
            flags: if r.one_in(3) { 0x10 } else { r.u32() & !0x10 },
            vmaddr: addr,
            ..Segm::default()
        };
        for _ in 0..k {
            let ty = match r.below(10) {
                0..=3 => 0,
                4 => *r.pick(&[1u32, 0xc, 0x12]),
                5 => r.below(0x20) as u32,
                _ => r.below(0x17) as u32,
            };
            let mut flags = ty;
            if r.one_in(3) {
                flags |= *r.pick(&[0x8000_0000u32, 0x400, 0x8000_0400, 0x0200_0000]);
            }
            if r.one_in(4) {
                flags |= r.u32() & 0x7d00_0b00;
            }
            let size = if zero(ty) { r.edgy(20) } else { r.below(48) };
            let sn: Vec<u8> = match r.below(6) {
                0 => r.ident(16).into_bytes(),
                1 => b"abcdefghijklmnop".to_vec(),
                2 => r.pick(&[&b"__debug_info"[..], b"__debug_str_offs", b"__zdebug_line", b"__zdebug_str_off", b"__debug_line"]).to_vec(),
                _ => r.pick(&[&b"__text"[..], b"__data", b"__const", b"__bss", b"__cstring", b"__stubs", b"__got"]).to_vec(),
            };
            let gn: Vec<u8> = if obj || r.one_in(8) { r.pick(&[&b"__TEXT"[..], b"__DATA", b"__DWARF", b"__LD", b"abcdefghijklmnop", b"__DATA_CONST"]).to_vec() } else { sname.clone() };
            let align = if r.one_in(8) { r.below(32) as u32 } else { r.below(5) as u32 };
            let mut s = Sect {
                sectname: sn,
                segname: gn,
                addr,
                size,
                at: None,
                align,
                flags,
                data: if zero(ty) { vec![] } else { r.bytes(size as usize) },
                ..Sect::default()
            };
            s.r = [0, if ty == 8 { *r.pick(&[4u32, 6, 12, 16]) } else { r.below(4) as u32 }, r.u32()];
            addr += size + r.below(16);
            if !zero(ty) {
                if r.one_in(4) {
                    blob.resize(blob.len() + r.idx(8), 0xcc);
                }
                s.at = Some(blob.len() as u64);
                blob.extend_from_slice(&s.data);
            }
            nsect += 1;
            v.push(s);
        }
        if r.one_in(3) {
            blob.extend(r.bytes(8));
        }
        seg.vmsize = addr - seg.vmaddr + r.below(100);
        seg.filesize = blob.len() as u64;
        seg.blob = m.blob(blob, *r.pick(&[1usize, 4, 16]));
        addr = (addr + 0x1fff) & !0xfff;
        // Relocations.
        for (j, s) in v.iter_mut().enumerate() {
            let mut rels = vec![];
            if r.one_in(3) {
                let n = r.idx(7);
                for _ in 0..n {
                    let ext = r.bool();
                    let scattered = if cputype != 0x0100_0007 && r.one_in(6) { Some(r.u32()) } else { None };
                    rels.push(Rel {
                        addr: if scattered.is_some() { r.below(1 << 24) as u32 } else if r.one_in(6) && cputype == 0x0100_0007 { r.u32() } else { r.below(1 << 31) as u32 >> r.below(31) },
                        num: if r.one_in(5) { 0 } else { r.edgy(24) as u32 },
                        pcrel: r.bool(),
                        len: r.below(4) as u8,
                        ext,
                        ty: match r.below(4) {
                            0 => r.below(16) as u8,
                            1 => r.below(11) as u8,
                            _ => r.below(6) as u8,
                        },
                        scattered,
                    });
                }
                let mut w = m.w();
                for x in &rels {
                    match x.scattered {
                        Some(v) => m.scattered(&mut w, x.addr, x.pcrel, x.len, x.ty, v),
                        None => m.reloc(&mut w, x.addr, x.num, x.pcrel, x.len, x.ext, x.ty),
                    }
                }
                s.nreloc = n as u32;
                if n > 0 {
                    s.reloc = Some(m.blob(w.b, 4));
                }
            }
            sects.push(MSect { s: s.clone(), seg: si, rels, kind: kind(filetype, &seg, s) });
            let _ = j;
        }
        seg.sects = v;
        segs.push(seg);
    }
    // Symbols.
    let mut st = Strs::new();
    let mut syms = vec![];
    let mut osos = vec![];
    let mut omap = vec![];
    let stabs = r.one_in(2);
    let push = |r: &mut Rng, st: &mut Strs, syms: &mut Vec<Nlist>, nm: Vec<u8>, ty: u8, sect: u8, desc: u16, value: u64| {
        let strx = if nm.is_empty() { 0 } else { st.add(r, &nm) as u32 };
        let value = if is64 { value } else { value & 0xffff_ffff };
        syms.push(Nlist { strx, name: nm, ty, sect, desc, value });
    };
    let plain = |r: &mut Rng, st: &mut Strs, syms: &mut Vec<Nlist>| {
        let mut nm = name(r);
        if r.one_in(8) {
            nm = vec![];
        }
        let mut ty = *r.pick(&[0u8, 0xe, 0xe, 0xe, 2, 0xa, 0xc, 4]);
        if r.bool() {
            ty |= 1;
        }
        if r.one_in(4) {
            ty |= 0x10;
        }
        let sect = if ty & 0xe == 0xe && nsect > 0 && !r.one_in(20) { 1 + r.idx(nsect.min(254)) as u8 } else if ty & 0xe == 0xe { 0 } else { 0 };
        let mut value = if r.one_in(3) { 0 } else { r.edgy(if is64 { 64 } else { 32 }) };
        if sect != 0 && r.bool() {
            value = sects[sect as usize - 1].s.addr;
            if r.bool() {
                nm = match r.below(4) {
                    0 => b"ltmp".to_vec(),
                    1 => b"ltmp0x".to_vec(),
                    _ => format!("ltmp{}", r.below(200)).into_bytes(),
                };
            }
        }
        let desc = match r.below(4) {
            0 => *r.pick(&[0x40u16, 0x80, 0xc0, 0x20]),
            1 => r.u16(),
            _ => 0,
        };
        push(r, st, syms, nm, ty, sect, desc, value);
    };
    for _ in 0..r.idx(14) {
        plain(r, &mut st, &mut syms);
    }
    if stabs {
        for _ in 0..1 + r.idx(3) {
            let n_so = 1 + r.idx(2);
            for _ in 0..n_so {
                let nm = name(r);
                push(r, &mut st, &mut syms, nm, 0x64, 1, 0, 0);
            }
            let mut path = b"/".to_vec();
            path.extend(name(r).into_iter().filter(|&c| c != b'(' && c != b')'));
            let member = if r.bool() {
                let m: Vec<u8> = name(r).into_iter().filter(|&c| c != b'(' && c != b')').collect();
                Some(m)
            } else {
                None
            };
            let mut full = path.clone();
            if let Some(m) = &member {
                full.push(b'(');
                full.extend_from_slice(m);
                full.push(b')');
            }
            let tm = r.u32() as u64;
            let has_oso = !r.one_in(8);
            if has_oso {
                push(r, &mut st, &mut syms, full, 0x66, 3, 1, tm);
                osos.push((path, member));
            }
            for _ in 0..r.idx(6) {
                let v = r.edgy(if is64 { 48 } else { 32 });
                let nm = name(r);
                match r.below(4) {
                    0 | 1 => {
                        let size = r.edgy(16);
                        push(r, &mut st, &mut syms, vec![], 0x2e, 1, 0, v);
                        push(r, &mut st, &mut syms, nm.clone(), 0x24, 1, 0, v);
                        if r.one_in(6) {
                            plain(r, &mut st, &mut syms);
                        }
                        push(r, &mut st, &mut syms, vec![], 0x24, 0, 0, size);
                        push(r, &mut st, &mut syms, vec![], 0x4e, 1, 0, size);
                        if has_oso {
                            omap.push((v, size, nm, osos.len() - 1));
                        }
                    }
                    2 => {
                        push(r, &mut st, &mut syms, nm.clone(), 0x26, 1, 0, v);
                        if has_oso {
                            omap.push((v, 0, nm, osos.len() - 1));
                        }
                    }
                    _ => push(r, &mut st, &mut syms, nm, 0x20, 0, 0, 0), // N_GSYM
                }
            }
            push(r, &mut st, &mut syms, vec![], 0x64, 1, 0, 0);
        }
        for _ in 0..r.idx(6) {
            plain(r, &mut st, &mut syms);
        }
    }
    // Indirect symbols.
    let mut indirect = vec![];
    let dysym = r.bool();
    if dysym {
        for _ in 0..r.idx(6) {
            indirect.push(r.u32());
        }
        for s in sects.iter_mut() {
            let es = match s.s.flags & 0xff {
                6 | 7 | 0x10 | 0x14 => if is64 { 8 } else { 4 },
                8 => s.s.r[1] as usize,
                _ => continue,
            };
            s.s.r[0] = indirect.len() as u32;
            for _ in 0..s.s.size as usize / es {
                indirect.push(r.u32());
            }
        }
        // The copies inside the segments carry the same index.
        let mut i = 0;
        for g in segs.iter_mut() {
            for s in g.sects.iter_mut() {
                s.r[0] = sects[i].s.r[0];
                i += 1;
            }
        }
    }
    // Commands in random order.
    let mut cmds: Vec<(Cmd, MCmd)> = vec![];
    for g in &segs {
        let c = m.segment(g);
        cmds.push((c, MCmd { cmd: if is64 { 0x19 } else { 1 }, at: 0, s: None, f: vec![] }));
    }
    let strs = st.b.clone();
    let mut extra: Vec<(Cmd, MCmd)> = vec![];
    if !syms.is_empty() || r.bool() {
        let c = m.symtab(&syms, st.b);
        extra.push((c, MCmd { cmd: 2, at: 0, s: None, f: vec![] }));
    } else {
        assert!(syms.is_empty());
    }
    if dysym {
        let mut w = m.w();
        for &i in &indirect {
            w.u32(i);
        }
        let b = m.blob(w.b, 4);
        let mut f: Vec<u64> = (0..18).map(|_| r.u32() as u64).collect();
        f[13] = indirect.len() as u64;
        let mut w = m.w();
        for &x in &f {
            w.u32(x as u32);
        }
        extra.push((m.cmd(0xb, &w.b, vec![Patch { at: 8 + 48, blob: b, add: 0, n: 4 }]), MCmd { cmd: 0xb, at: 0, s: None, f }));
    }
    let mut uuid = None;
    let mut build = None;
    let mut used_entry: Option<(u32, u64)> = None;
    for _ in 0..r.idx(8) {
        let mut f = vec![];
        match r.below(16) {
            0 if uuid.is_none() => {
                let b = r.bytes(16);
                extra.push((m.cmd(0x1b, &b, vec![]), MCmd { cmd: 0x1b, at: 0, s: None, f }));
                uuid = Some(b);
            }
            1 if build.is_none() => {
                let n = r.idx(4);
                let tools: Vec<(u32, u32)> = (0..n).map(|_| (r.u32(), r.u32())).collect();
                let b = (r.u32(), r.u32(), r.u32(), tools);
                let mut w = m.w();
                w.u32(b.0).u32(b.1).u32(b.2).u32(n as u32);
                for t in &b.3 {
                    w.u32(t.0).u32(t.1);
                }
                extra.push((m.cmd(0x32, &w.b, vec![]), MCmd { cmd: 0x32, at: 0, s: None, f }));
                build = Some(b);
            }
            2 if used_entry.is_none() => {
                let e = r.edgy(64);
                let mut w = m.w();
                let st = r.u64();
                w.u64(e).u64(st);
                f.extend([e, st]);
                extra.push((m.cmd(0x8000_0028, &w.b, vec![]), MCmd { cmd: 0x8000_0028, at: 0, s: None, f }));
                used_entry = Some((0x28, e));
            }
            3 if used_entry.is_none() => {
                // LC_UNIXTHREAD with the state of this cpu.
                let (flavor, words, pc, n) = match cputype {
                    0x0100_0007 => (4u32, 42, 32, 8),
                    0x0100_000c => (6, 68, 64, 8),
                    7 => (1, 16, 10, 4),
                    12 => (1, 17, 15, 4),
                    _ => (1, 8, 0, 0),
                };
                let mut w = m.w();
                w.u32(flavor).u32(words as u32);
                let regs: Vec<u32> = (0..words).map(|_| r.u32()).collect();
                for &x in &regs {
                    w.u32(x);
                }
                let at = 8 + pc * 4;
                let e = match n {
                    8 => {
                        let e = r.u64();
                        w.set(at, e, 8);
                        e
                    }
                    4 => regs[pc] as u64,
                    _ => 0,
                };
                extra.push((m.cmd(5, &w.b, vec![]), MCmd { cmd: 5, at: 0, s: None, f }));
                used_entry = Some((5, e));
            }
            4..=7 => {
                let cmd = *r.pick(&[0xcu32, 0x8000_0018, 0x8000_001f, 0x20, 0x8000_0023, 0xd]);
                let h: Vec<u32> = (0..3).map(|_| r.u32()).collect();
                let (c, off, s) = lcstr(&m, cmd, &h, r);
                f.extend(h.iter().map(|&x| x as u64));
                extra.push((c, MCmd { cmd, at: 0, s: Some((off, s)), f }));
            }
            8 => {
                // dylib_use_command
                let cmd = *r.pick(&[0xcu32, 0x8000_0018]);
                let h = [if r.one_in(4) { 2 } else { 0x1a74_1800 }, r.u32(), r.u32(), r.u32()];
                let mut w = m.w();
                let off = if r.one_in(4) { 32 } else { 28 };
                let s = name(r);
                w.u32(off);
                for x in h {
                    w.u32(x);
                }
                w.zeros(off as usize - 28);
                w.put(&s).u8(0);
                f.extend(h.iter().map(|&x| x as u64));
                extra.push((m.cmd(cmd, &w.b, vec![]), MCmd { cmd, at: 0, s: Some((off as usize, s)), f }));
            }
            9 => {
                let cmd = *r.pick(&[0xeu32, 0xf, 0x27, 0x8000_001c, 0x12, 0x13, 0x14, 0x15]);
                let (c, off, s) = lcstr(&m, cmd, &[], r);
                extra.push((c, MCmd { cmd, at: 0, s: Some((off, s)), f }));
            }
            10 => {
                let cmd = *r.pick(&[0x24u32, 0x25, 0x2f, 0x30]);
                let mut w = m.w();
                f.extend([r.u32() as u64, r.u32() as u64]);
                w.u32(f[0] as u32).u32(f[1] as u32);
                extra.push((m.cmd(cmd, &w.b, vec![]), MCmd { cmd, at: 0, s: None, f }));
            }
            11 => {
                let cmd = *r.pick(&[0x1du32, 0x1e, 0x26, 0x29, 0x2b, 0x2e]);
                let mut w = m.w();
                f.extend([r.u32() as u64, r.u32() as u64]);
                w.u32(f[0] as u32).u32(f[1] as u32);
                extra.push((m.cmd(cmd, &w.b, vec![]), MCmd { cmd, at: 0, s: None, f }));
            }
            12 => {
                let mut w = m.w();
                f.push(r.u64());
                w.u64(f[0]);
                extra.push((m.cmd(0x2a, &w.b, vec![]), MCmd { cmd: 0x2a, at: 0, s: None, f }));
            }
            13 => {
                let cmd = *r.pick(&[0x21u32, 0x2c]);
                let mut w = m.w();
                for _ in 0..3 {
                    f.push(r.u32() as u64);
                }
                for &x in &f {
                    w.u32(x as u32);
                }
                w.u32(0);
                extra.push((m.cmd(cmd, &w.b, vec![]), MCmd { cmd, at: 0, s: None, f }));
            }
            14 => {
                let mut w = m.w();
                f.extend([r.u64(), r.u64()]);
                let o = r.ident(16);
                w.fixed(o.as_bytes(), 16).u64(f[0]).u64(f[1]);
                extra.push((m.cmd(0x31, &w.b, vec![]), MCmd { cmd: 0x31, at: 0, s: None, f }));
            }
            _ => {
                let n = r.idx(12);
                let b = r.bytes(n);
                let cmd = 0x7000 + r.below(100) as u32;
                extra.push((m.cmd(cmd, &b, vec![]), MCmd { cmd, at: 0, s: None, f }));
            }
        }
    }
    // Interleave, keeping the order of the segments.
    let mut a = cmds.into_iter().peekable();
    r.shuffle(&mut extra);
    let mut b = extra.into_iter().peekable();
    let mut order = vec![];
    let mut pos = 0;
    while a.peek().is_some() || b.peek().is_some() {
        let take_a = a.peek().is_some() && (b.peek().is_none() || r.bool());
        let (c, mut mc) = if take_a { a.next().unwrap() } else { b.next().unwrap() };
        mc.at = pos;
        pos += c.b.len();
        m.cmds.push(c);
        order.push(mc);
    }
    if r.one_in(4) {
        m.slack = 8 * r.idx(5);
    }
    let kind = match filetype {
        1 => "Relocatable",
        2 => "Executable",
        4 => "Core",
        6 => "Dynamic",
        _ => "Unknown",
    };
    M { m, segs, sects, syms, order, kind, uuid, entry: used_entry.map_or(0, |e| e.1), build, strs, indirect, dysym, osos, omap }
}

fn trim(v: &[u8]) -> Vec<u8> {
    let v = &v[..v.len().min(16)];
    v.iter().position(|&c| c == 0).map_or(v.to_vec(), |n| v[..n].to_vec())
}
fn dbg<T: std::fmt::Debug>(t: T) -> String {
    format!("{t:?}")
}

/// What a relocation must decode to; None for entries that produce none.
#[derive(Debug, PartialEq)]
struct WantRel {
    off: u64,
    kind: String,
    enc: String,
    size: u8,
    target: String,
    sub: Option<usize>,
    addend: i64,
    implicit: bool,
}
fn want_rels(cpu: u32, rels: &[Rel]) -> Vec<WantRel> {
    let mut out = vec![];
    let (mut add, mut sub) = (0i64, None);
    for x in rels {
        if x.scattered.is_some() {
            continue;
        }
        let mut size = 8u8 << x.len;
        let (k, e) = match (cpu, x.ty, x.pcrel) {
            (12 | 7 | 18 | 0x0100_0012, 0, false) => ("Absolute", "Generic"),
            (0x0100_000c | 0x0200_000c, t, p) => match (t, p) {
                (0, false) => ("Absolute", "Generic"),
                (2, true) => {
                    size = 26;
                    ("PltRelative", "AArch64Call")
                }
                (7, true) => ("GotRelative", "Generic"),
                (10, _) => {
                    add = if x.num & 0x80_0000 != 0 { x.num as i64 - 0x100_0000 } else { x.num as i64 };
                    continue;
                }
                (1, _) => {
                    sub = Some(x.num as usize);
                    continue;
                }
                _ => ("Unknown", "Unknown"),
            },
            (0x0100_0007, t, p) => match (t, p) {
                (0, false) => ("Absolute", "Generic"),
                (1, true) => ("Relative", "X86RipRelative"),
                (2, true) => ("PltRelative", "X86Branch"),
                (4, true) => ("GotRelative", "Generic"),
                (3, true) => ("GotRelative", "X86RipRelativeMovq"),
                (5, _) => {
                    sub = Some(x.num as usize);
                    continue;
                }
                _ => ("Unknown", "Unknown"),
            },
            _ => ("Unknown", "Unknown"),
        };
        let implicit = add == 0;
        let mut a = add;
        if x.pcrel && matches!(cpu, 7 | 0x0100_0007) {
            a -= 1 << x.len;
        }
        out.push(WantRel {
            off: x.addr as u64,
            kind: k.into(),
            enc: e.into(),
            size,
            target: if x.ext {
                format!("Symbol(SymbolIndex({}))", x.num)
            } else if x.num == 0 {
                "Absolute".into()
            } else {
                format!("Section(SectionIndex({}))", x.num)
            },
            sub,
            addend: a,
            implicit,
        });
        add = 0;
        sub = None;
    }
    out
}

fn check<H: MachHeader<Endian = Endianness>>(m: &M, data: &[u8], o: &mut Obs) -> Res {
    let f = okay!(MachOFile::<H, &[u8]>::parse(data), "parse");
    let e = if m.m.be { Endianness::Big } else { Endianness::Little };
    same!(f.endian(), e, "endian");
    let h = f.macho_header();
    same!(h.cputype(e).0, m.m.cputype, "cputype");
    same!(h.cpusubtype(e).0, m.m.cpusubtype, "cpusubtype");
    same!(h.filetype(e).0, m.m.filetype, "filetype");
    same!(h.ncmds(e) as usize, m.m.cmds.len(), "ncmds");
    same!(h.flags(e).0, m.m.flags, "flags");
    same!(h.is_big_endian(), m.m.be, "be");
    same!(h.is_type_64(), m.m.is64, "is64");
    same!(f.is_64(), m.m.is64, "is_64");
    same!(f.is_little_endian(), !m.m.be, "is_little_endian");
    same!(dbg(f.kind()), m.kind, "kind");
    same!(f.flags(), FileFlags::MachO { flags: macho::FileFlags(m.m.flags) }, "file flags");
    let arch = CPUS.iter().find(|c| c.0 == m.m.cputype).unwrap().2;
    same!(dbg(f.architecture()), arch, "architecture");
    let e64 = m.m.cputype == 0x0100_000c && m.m.cpusubtype & 0xff_ffff == 2;
    same!(f.sub_architecture().map(dbg), e64.then(|| "Arm64E".to_string()), "sub_architecture");
    same!(okay!(f.mach_uuid(), "uuid").map(|u| u.to_vec()), m.uuid, "uuid");
    same!(f.entry(), m.entry, "entry");
    same!(f.relative_address_base(), 0, "base");
    let b = okay!(f.build_version(), "build_version");
    same!(b.map(|(b, t)| (b.platform.get(e).0, b.minos.get(e).0, b.sdk.get(e).0, t.iter().map(|t| (t.tool.get(e).0, t.version.get(e).0)).collect::<Vec<_>>())), m.build, "build version");
    // Load commands.
    let mut it = okay!(f.macho_load_commands(), "load commands");
    let mut i = 0;
    let hs = m.m.header_size();
    let mut dys = None;
    while let Some(c) = okay!(it.next(), "load command {i}") {
        let w = some!(m.order.get(i), "an extra load command {:?}", c.cmd());
        same!(c.cmd().0, w.cmd, "cmd {i}");
        same!(c.cmdsize() as usize, m.m.cmds[i].b.len(), "cmdsize {i}");
        same!(c.offset() as usize, hs + w.at, "offset of command {i}");
        let raw = &data[hs + w.at..hs + w.at + m.m.cmds[i].b.len()];
        same!(c.raw_data(), raw, "raw data {i}");
        let v = okay!(c.variant(), "variant {i} {:#x}", w.cmd);
        use LoadCommandVariant as V;
        let fs = |v: &[u32]| v.iter().map(|&x| x as u64).collect::<Vec<_>>();
        let mut s = None;
        let got: Vec<u64> = match (w.cmd, v) {
            (1, V::Segment32(..)) | (0x19, V::Segment64(..)) | (2, V::Symtab(_)) => vec![],
            (0x1b, V::Uuid(u)) => {
                same!(Some(u.uuid.to_vec()), m.uuid, "uuid command");
                vec![]
            }
            (0xb, V::Dysymtab(d)) => {
                dys = Some(d);
                let g = |x: &object::U32<Endianness>| x.get(e);
                let mut v = fs(&[
                    g(&d.ilocalsym), g(&d.nlocalsym), g(&d.iextdefsym), g(&d.nextdefsym), g(&d.iundefsym), g(&d.nundefsym), g(&d.tocoff), g(&d.ntoc), g(&d.modtaboff), g(&d.nmodtab),
                    g(&d.extrefsymoff), g(&d.nextrefsyms), g(&d.indirectsymoff), g(&d.nindirectsyms), g(&d.extreloff), g(&d.nextrel), g(&d.locreloff), g(&d.nlocrel),
                ]);
                v[12] = w.f[12];
                v
            }
            (0x32, V::BuildVersion(b, rest)) => {
                let t = okay!(b.tools(e, rest), "tools");
                same!(t.len(), m.build.as_ref().unwrap().3.len(), "tools");
                vec![]
            }
            (0x8000_0028, V::EntryPoint(x)) => vec![x.entryoff.get(e), x.stacksize.get(e)],
            (5, V::Thread(_, rest)) => {
                same!(rest, &raw[8..], "thread data");
                vec![]
            }
            (0xd, V::IdDylib(d)) | (0xc | 0x8000_0018 | 0x8000_001f | 0x20 | 0x8000_0023, V::Dylib(d)) => {
                s = Some(okay!(c.string(e, d.dylib.name), "dylib name"));
                let id = w.cmd == 0xd;
                same!(okay!(c.dylib(), "dylib").is_some(), !id, "dylib()");
                let mut v = fs(&[d.dylib.timestamp.get(e), d.dylib.current_version.get(e).0, d.dylib.compatibility_version.get(e).0]);
                if !id {
                    let off = w.s.as_ref().unwrap().0;
                    let u = okay!(c.dylib_use_flags(e, d), "use flags");
                    let want = off == 28 && v[0] == 0x1a74_1800;
                    same!(u.is_some(), want, "dylib use flags present");
                    if w.f.len() == 4 {
                        if let Some(u) = u {
                            o.hit("dylib use flags");
                            same!(u.0 as u64, w.f[3], "dylib use flags");
                        }
                        v.push(w.f[3]);
                    }
                }
                v
            }
            (0xe, V::LoadDylinker(d)) | (0xf, V::IdDylinker(d)) | (0x27, V::DyldEnvironment(d)) => {
                s = Some(okay!(c.string(e, d.name), "dylinker"));
                vec![]
            }
            (0x8000_001c, V::Rpath(d)) => {
                s = Some(okay!(c.string(e, d.path), "rpath"));
                vec![]
            }
            (0x12, V::SubFramework(d)) => {
                s = Some(okay!(c.string(e, d.umbrella), "sub framework"));
                vec![]
            }
            (0x13, V::SubUmbrella(d)) => {
                s = Some(okay!(c.string(e, d.sub_umbrella), "sub umbrella"));
                vec![]
            }
            (0x14, V::SubClient(d)) => {
                s = Some(okay!(c.string(e, d.client), "sub client"));
                vec![]
            }
            (0x15, V::SubLibrary(d)) => {
                s = Some(okay!(c.string(e, d.sub_library), "sub library"));
                vec![]
            }
            (0x24 | 0x25 | 0x2f | 0x30, V::VersionMin(d)) => fs(&[d.version.get(e).0, d.sdk.get(e).0]),
            (0x1d | 0x1e | 0x26 | 0x29 | 0x2b | 0x2e, V::LinkeditData(d)) => fs(&[d.dataoff.get(e), d.datasize.get(e)]),
            (0x2a, V::SourceVersion(d)) => vec![dbg(d.version.get(e)).chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse::<u64>().unwrap_or(0)],
            (0x21, V::EncryptionInfo32(d)) => fs(&[d.cryptoff.get(e), d.cryptsize.get(e), d.cryptid.get(e)]),
            (0x2c, V::EncryptionInfo64(d)) => fs(&[d.cryptoff.get(e), d.cryptsize.get(e), d.cryptid.get(e)]),
            (0x31, V::Note(d)) => vec![d.offset.get(e), d.size.get(e)],
            (c, V::Other) if c >= 0x7000 && c < 0x8000 => vec![],
            (c, v) => return Err(format!("command {c:#x} decoded as {v:?}")),
        };
        if w.cmd != 0x2a {
            same!(got, w.f, "fields of command {i} {:#x}", w.cmd);
        }
        if let Some((_, ws)) = &w.s {
            same!(s, Some(ws.as_slice()), "string of command {i} {:#x}", w.cmd);
        }
        o.hit("load commands");
        i += 1;
    }
    same!(i, m.order.len(), "number of load commands");
    same!(dys.is_some(), m.dysym, "dysymtab");
    let ind: &[object::U32<Endianness, macho::IndirectSymbol>] = match dys {
        Some(d) => okay!(d.indirect_symbols(e, data), "indirect symbols"),
        None => &[],
    };
    same!(ind.iter().map(|x| x.get(e).0).collect::<Vec<_>>(), m.indirect, "indirect symbols");
    // Segments.
    let got: Vec<_> = f.segments().collect();
    same!(got.len(), m.segs.len(), "segments");
    for (i, (g, w)) in got.iter().zip(&m.segs).enumerate() {
        same!(g.address(), w.vmaddr, "segment {i} address");
        same!(g.size(), w.vmsize, "segment {i} size");
        same!(g.file_range(), (m.m.offs[w.blob] as u64, w.filesize), "segment {i} range");
        same!(okay!(g.data(), "segment data"), m.m.blobs[w.blob].0.as_slice(), "segment {i} data");
        let nm = trim(&w.name);
        same!(okay!(g.name_bytes(), "segment name"), if nm.is_empty() { g.name_bytes().unwrap().map(|_| &[][..]) } else { Some(nm.as_slice()) }, "segment {i} name");
        same!(g.flags(), SegmentFlags::MachO { flags: macho::SegmentFlags(w.flags), maxprot: macho::VmProt(w.maxprot), initprot: macho::VmProt(w.initprot) }, "segment {i} flags");
        let p = g.permissions();
        same!((p.readable(), p.writable(), p.executable()), (w.maxprot & 1 != 0, w.maxprot & 2 != 0, w.maxprot & 4 != 0), "segment {i} permissions");
        if w.filesize > 0 && w.vmsize >= w.filesize {
            let at = hash(&[i as u8]) % w.filesize;
            let n = w.filesize - at;
            same!(okay!(g.data_range(w.vmaddr + at, n), "data_range"), Some(&m.m.blobs[w.blob].0[at as usize..]), "segment {i} data_range");
            same!(okay!(g.data_range(w.vmaddr + at, n + 1), "data_range"), None, "segment {i} data_range past the end");
        }
    }
    // Sections.
    let mut idx = 0;
    for (g, w) in f.sections().zip(&m.sects) {
        let s = &w.s;
        let seg = &m.segs[w.seg];
        idx += 1;
        same!(g.index().0, idx, "section index");
        same!(g.address(), s.addr, "section {idx} address");
        same!(g.size(), s.size, "section {idx} size");
        same!(g.align(), 1u64 << s.align, "section {idx} align");
        same!(okay!(g.name_bytes(), "section name"), trim(&s.sectname).as_slice(), "section {idx} name");
        same!(okay!(g.segment_name_bytes(), "segment name").map(|x| x.to_vec()), Some(trim(&s.segname)), "section {idx} segment name");
        same!(g.flags(), SectionFlags::MachO { flags: macho::SectionFlags(s.flags), reserved2: s.r[1] }, "section {idx} flags");
        same!(dbg(g.kind()), w.kind, "section {idx} kind, flags {:#x} segment {:?}", s.flags, String::from_utf8_lossy(&s.segname));
        let want = s.at.map(|a| (m.m.offs[seg.blob] as u64 + a, s.size));
        same!(g.file_range(), want, "section {idx} range");
        same!(okay!(g.data(), "section data"), s.data.as_slice(), "section {idx} data");
        if s.at.is_some() && s.size > 0 {
            let at = hash(&[idx as u8, 1]) % s.size;
            same!(okay!(g.data_range(s.addr + at, s.size - at), "data_range"), Some(&s.data[at as usize..]), "section {idx} data_range");
            same!(okay!(g.data_range(s.addr + at, s.size - at + 1), "data_range"), None, "section {idx} data_range past the end");
        }
        let raw = g.macho_section();
        same!((raw.reserved1(e), raw.reserved2(e), raw.reserved3(e)), (s.r[0], s.r[1], if m.m.is64 { s.r[2] } else { 0 }), "section {idx} reserved fields");
        let es = match s.flags & 0xff {
            6 | 7 | 0x10 | 0x14 => if m.m.is64 { 8 } else { 4 },
            8 => s.r[1] as usize,
            _ => 0,
        };
        if m.dysym {
            let got: Vec<u32> = okay!(raw.indirect_symbols(e, ind), "indirect").iter().map(|x| x.get(e).0).collect();
            let n = if es == 0 { 0 } else { s.size as usize / es };
            let want = if es == 0 { &[][..] } else { &m.indirect[s.r[0] as usize..s.r[0] as usize + n] };
            same!(got, want, "indirect symbols of section {idx}");
            o.add("indirect symbols", n as u64);
        }
        same!(raw.symbol_stub_size(e), if s.flags & 0xff == 8 { s.r[1] } else { 0 }, "stub size");
        // Relocations.
        let raws = okay!(g.macho_relocations(), "macho relocations");
        same!(raws.len(), w.rels.len(), "raw relocations of section {idx}");
        for (j, (g, x)) in raws.iter().zip(&w.rels).enumerate() {
            let sc = g.r_scattered(e, macho::CpuType(m.m.cputype));
            same!(sc, x.scattered.is_some(), "relocation {j} scattered");
            if let Some(v) = x.scattered {
                let q = g.scattered_info(e);
                same!((q.r_address, q.r_type.0, q.r_length, q.r_pcrel, q.r_value), (x.addr, x.ty, x.len, x.pcrel, v), "scattered relocation {j}");
                o.hit("scattered relocations");
            } else {
                let q = g.info(e);
                same!((q.r_address, q.r_symbolnum, q.r_pcrel, q.r_length, q.r_extern, q.r_type.0), (x.addr, x.num, x.pcrel, x.len, x.ext, x.ty), "relocation {j}");
            }
        }
        let got: Vec<_> = g.relocations().collect();
        let want = want_rels(m.m.cputype, &w.rels);
        for (j, (off, q)) in got.iter().enumerate() {
            let q = WantRel {
                off: *off,
                kind: dbg(q.kind()),
                enc: dbg(q.encoding()),
                size: q.size(),
                target: dbg(q.target()),
                sub: q.subtractor().map(|s| s.0),
                addend: q.addend(),
                implicit: q.has_implicit_addend(),
            };
            same!(Some(&q), want.get(j), "relocation {j} of section {idx}");
        }
        same!(got.len(), want.len(), "relocations of section {idx}");
        if want.iter().any(|x| x.sub.is_some()) {
            o.hit("paired subtractors");
        }
        if want.iter().any(|x| !x.implicit) {
            o.hit("paired addends");
        }
        o.add("relocations", want.len() as u64);
        // By index and by name.
        let b = okay!(f.section_by_index(SectionIndex(idx)), "section_by_index");
        same!((b.index().0, b.address()), (idx, s.addr), "section_by_index");
        o.hit("sections");
    }
    same!(idx, m.sects.len(), "number of sections");
    same!(f.sections().count(), m.sects.len(), "number of sections");
    ensure!(f.section_by_index(SectionIndex(0)).is_err(), "section 0");
    ensure!(f.section_by_index(SectionIndex(idx + 1)).is_err(), "section past the end");
    let find = |p: &dyn Fn(&[u8]) -> bool| m.sects.iter().position(|s| p(&trim(&s.s.sectname))).map(|i| i + 1);
    for s in &m.sects {
        let n = trim(&s.s.sectname);
        // A query by the stored name; no generated name begins with '.'.
        let g = f.section_by_name_bytes(&n).map(|s| s.index().0);
        same!(g, find(&|x| x == n.as_slice()), "section_by_name_bytes {:?}", String::from_utf8_lossy(&n));
        if n.starts_with(b"__") {
            let mut q = b".".to_vec();
            q.extend_from_slice(&n[2..]);
            let g = f.section_by_name_bytes(&q).map(|s| s.index().0);
            let z = q.strip_prefix(b".debug_").map(|t| [b"__zdebug_", &t[..t.len().min(7)]].concat());
            same!(g, find(&|x| x == n.as_slice() || Some(x) == z.as_deref()), "section_by_name_bytes {:?}", String::from_utf8_lossy(&q));
        }
    }
    let g = f.section_by_name(".debug_str_offsets").map(|s| s.index().0);
    same!(g, find(&|x| x == b"__debug_str_offs" || x == b"__zdebug_str_off"), "section_by_name .debug_str_offsets");
    if g.is_some() {
        o.hit("truncated section names");
    }
    same!(f.has_debug_symbols(), find(&|x| x == b"__debug_info" || x == b"__zdebug_info").is_some(), "has_debug_symbols");
    // Symbols.
    let t = f.macho_symbol_table();
    same!(t.len(), m.syms.len(), "symbol table length");
    for (i, (g, w)) in t.iter().zip(&m.syms).enumerate() {
        same!((g.n_strx(e), g.n_type().0, g.n_sect(), g.n_desc(e).0, g.n_value(e).into()), (w.strx, w.ty, w.sect, w.desc, w.value), "nlist {i}");
        same!(okay!(t.symbol_name(e, g), "name"), w.name.as_slice(), "nlist {i} name");
        same!(g.library_ordinal(e).0, (w.desc >> 8) as u8, "nlist {i} library ordinal");
    }
    let mut it = f.symbols();
    for (i, w) in m.syms.iter().enumerate() {
        let stab = w.ty & 0xe0 != 0;
        let by = f.symbol_by_index(SymbolIndex(i));
        if stab {
            ensure!(by.is_err(), "symbol_by_index of STAB {i}");
            o.hit("stabs");
            continue;
        }
        let g = some!(it.next(), "symbol {i}");
        same!(g.index().0, i, "symbol index");
        let ty = w.ty & 0xe;
        let common = ty == 0 && w.value != 0;
        let undef = ty == 0 && w.value == 0;
        same!(okay!(g.name_bytes(), "symbol name"), w.name.as_slice(), "symbol {i} name");
        same!(g.is_undefined(), undef, "symbol {i} undefined");
        same!(g.is_common(), common, "symbol {i} common");
        same!(g.is_definition(), ty == 0xe, "symbol {i} definition");
        same!((g.address(), g.size()), if common { (0, w.value) } else { (w.value, 0) }, "symbol {i} address, size");
        same!(g.is_weak(), w.desc & 0xc0 != 0, "symbol {i} weak");
        let sec = match ty {
            0 if undef => "Undefined".to_string(),
            0 => "Common".into(),
            2 => "Absolute".into(),
            0xe if w.sect != 0 => format!("Section(SectionIndex({}))", w.sect),
            _ => "Unknown".into(),
        };
        same!(dbg(g.section()), sec, "symbol {i} section");
        let scope = if undef {
            "Unknown"
        } else if w.ty & 1 == 0 {
            "Compilation"
        } else if w.ty & 0x10 != 0 {
            "Linkage"
        } else {
            "Dynamic"
        };
        same!(dbg(g.scope()), scope, "symbol {i} scope");
        same!(g.is_local(), scope == "Compilation", "symbol {i} local");
        same!(g.is_global(), scope != "Compilation", "symbol {i} global");
        let kind = if ty == 0xe && w.sect != 0 {
            let s = &m.sects[w.sect as usize - 1];
            let lt = w.name.strip_prefix(b"ltmp").is_some_and(|d| !d.is_empty() && d.iter().all(|c| c.is_ascii_digit()));
            if lt && scope == "Compilation" && w.value == s.s.addr {
                o.hit("section symbols");
                "Section"
            } else {
                match s.kind {
                    "Text" => "Text",
                    "Data" | "ReadOnlyData" | "ReadOnlyString" | "UninitializedData" => "Data",
                    "Tls" | "UninitializedTls" | "TlsVariables" => "Tls",
                    _ => "Unknown",
                }
            }
        } else if common {
            "Data"
        } else {
            "Unknown"
        };
        same!(dbg(g.kind()), kind, "symbol {i} kind");
        same!(g.flags(), SymbolFlags::MachO { n_type: macho::SymbolFlags(w.ty), n_desc: macho::SymbolDesc(w.desc) }, "symbol {i} flags");
        let by = okay!(by, "symbol_by_index");
        same!(by.name_bytes().ok(), g.name_bytes().ok(), "symbol_by_index name");
        o.hit("symbols");
    }
    ensure!(it.next().is_none(), "no extra symbols");
    ensure!(f.symbol_by_index(SymbolIndex(m.syms.len())).is_err(), "symbol past the end");
    ensure!(f.symbol_table().is_some(), "symbol table present");
    ensure!(f.dynamic_symbols().next().is_none(), "dynamic symbols");
    ensure!(f.comdats().next().is_none(), "comdats");
    ensure!(f.dynamic_relocations().is_none(), "dynamic relocations");
    // Object map: sorted by address; entries at equal addresses in some order.
    let om = f.object_map();
    let objs: Vec<_> = om.objects().iter().map(|x| (x.path().to_vec(), x.member().map(|m| m.to_vec()))).collect();
    same!(objs, m.osos, "object map files");
    let mut got: Vec<_> = om.symbols().iter().map(|s| (s.address(), s.size(), s.name().to_vec(), s.object_index())).collect();
    ensure!(got.windows(2).all(|w| w[0].0 <= w[1].0), "object map is sorted");
    let mut want = m.omap.clone();
    got.sort();
    want.sort();
    same!(got, want, "object map symbols");
    o.add("object map entries", want.len() as u64);
    let _ = &m.strs;
    Ok(())
}

fn files(_c: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let mut m = model(r);
    let data = m.m.build(r);
    o.input("macho", &data);
    let k = okay!(FileKind::parse(data.as_slice()), "FileKind");
    same!(k, if m.m.is64 { FileKind::MachO64 } else { FileKind::MachO32 }, "kind");
    if m.m.is64 {
        check::<macho::MachHeader64<Endianness>>(&m, &data, o)?;
    } else {
        check::<macho::MachHeader32<Endianness>>(&m, &data, o)?;
    }
    o.hit("files");
    if m.m.be {
        o.hit("big-endian files");
    }
    if !m.sects.is_empty() {
        o.nontrivial(hash(&data));
    }
    o.sample(|| format!("{} bytes cpu {:#x} type {} be {} segments {} sections {} symbols {} commands {}", data.len(), m.m.cputype, m.m.filetype, m.m.be, m.segs.len(), m.sects.len(), m.syms.len(), m.order.len()));
    Ok(())
}

fn fat(_c: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let is64 = r.bool();
    let n = if r.one_in(4) { r.idx(12) } else { 1 + r.idx(4) };
    let mut a = vec![];
    let mut w = W::new(true, true);
    w.u32(if is64 { 0xcafe_babf } else { 0xcafe_babe }).u32(n as u32);
    let mut end = 8 + n * if is64 { 32 } else { 20 };
    let mut body = vec![];
    for _ in 0..n {
        let align = r.below(8);
        end += r.idx(9);
        let al = 1usize << align;
        end = end.div_ceil(al) * al;
        let data = if r.bool() {
            let mut m = model(r);
            m.m.build(r)
        } else {
            let k = r.idx(40);
            r.bytes(k)
        };
        let &(cpu, _, name) = r.pick(CPUS);
        let sub = r.u32();
        w.u32(cpu).u32(sub);
        w.n(end as u64, if is64 { 8 } else { 4 }).n(data.len() as u64, if is64 { 8 } else { 4 });
        w.u32(align as u32);
        if is64 {
            w.u32(0);
        }
        a.push((cpu, sub, end, data.len(), align as u32, name));
        body.push((end, data));
        end += body.last().unwrap().1.len();
    }
    for (at, d) in &body {
        w.place(*at, d);
    }
    if w.len() < 16 {
        w.b.resize(16, 0);
    }
    let data = w.b;
    o.input("fat", &data);
    same!(okay!(FileKind::parse(data.as_slice()), "kind"), if is64 { FileKind::MachOFat64 } else { FileKind::MachOFat32 }, "kind");
    fn go<F: FatArch>(data: &[u8], arches: &[F], a: &[(u32, u32, usize, usize, u32, &str)], body: &[(usize, Vec<u8>)], o: &mut Obs) -> Res {
        same!(arches.len(), a.len(), "arches");
        for (i, (g, w)) in arches.iter().zip(a).enumerate() {
            same!((g.cputype().0, g.cpusubtype().0, g.offset().into() as usize, g.size().into() as usize, g.align()), (w.0, w.1, w.2, w.3, w.4), "arch {i}");
            same!(g.file_range(), (w.2 as u64, w.3 as u64), "arch {i} range");
            same!(okay!(g.data(data), "arch data"), body[i].1.as_slice(), "arch {i} data");
            // ARM64_32 has no generic name in fat headers here: only the others are compared.
            if w.0 != 0x0200_000c {
                same!(dbg(g.architecture()), w.5, "arch {i} architecture");
            }
            o.hit("fat slices");
        }
        Ok(())
    }
    if is64 {
        let f = okay!(MachOFatFile64::parse(data.as_slice()), "fat");
        same!(f.header().nfat_arch.get(object::BigEndian) as usize, n, "nfat_arch");
        go(&data, f.arches(), &a, &body, o)?;
        ensure!(MachOFatFile32::parse(data.as_slice()).is_err(), "the other class");
    } else {
        let f = okay!(MachOFatFile32::parse(data.as_slice()), "fat");
        same!(f.header().nfat_arch.get(object::BigEndian) as usize, n, "nfat_arch");
        go(&data, f.arches(), &a, &body, o)?;
        ensure!(MachOFatFile64::parse(data.as_slice()).is_err(), "the other class");
    }
    if n > 1 {
        o.nontrivial(hash(&data));
    }
    o.sample(|| format!("fat{} {n} slices {} bytes", if is64 { 64 } else { 32 }, data.len()));
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C09",
    rule: "a Mach-O file with at least one section, or a fat file with several slices, whose every reported field was compared with the generated model",
    parts: &[Part { name: "files", quick: 40_000, thorough: 1_500_000, run: files }, Part { name: "fat", quick: 6_000, thorough: 200_000, run: fat }],
    required: &[
        "files", "big-endian files", "load commands", "sections", "symbols", "stabs", "relocations", "scattered relocations", "paired subtractors", "paired addends", "object map entries",
        "section symbols", "indirect symbols", "fat slices", "truncated section names", "dylib use flags",
    ],
    tools: &[],
    assumptions: &["files of at most a few tens of kilobytes", "section kinds and relocation kinds are judged by the mapping the crate documents for its unified model", "LC_MAIN's entryoff is reported as encoded"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

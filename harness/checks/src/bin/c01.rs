//! C01: reading malformed input never panics, overflows or hangs.
use checks::inputs::{base, mutate, noise};
use checks::walk::{self, T};
use genf::elf::{Elf, Reloc, Sec, Sym};
use genf::macho::{Macho, Nlist, Patch, Segm};
use genf::pe::{PSec, Pe};
use genf::w::{W, uleb_pad};
use vcore::{Obs, Part, Res, Rng, Spec, ensure};

fn judge(name: &'static str, data: &[u8], r: &mut Rng, o: &mut Obs) -> Res {
    o.input("file", data);
    let mut t = T::slice(data);
    t.salt = r.u64();
    walk::all(data, &mut t);
    finish(name, data, t, o)?;
    if r.one_in(64) {
        let mut t = T::slice(data);
        let _ = walk::generic::debug(data, &mut t);
        finish(name, data, t, o)?;
    }
    Ok(())
}

fn finish(name: &'static str, data: &[u8], mut t: T, o: &mut Obs) -> Res {
    let peak = t.peak();
    if let Some(b) = &t.bad {
        ensure!(false, "{name}: {b}");
    }
    let allowed = (16 << 20) + 512 * data.len() as u64;
    ensure!(peak <= allowed, "{name}: reading {} bytes took {peak} bytes of memory", data.len());
    o.add("observations", t.n);
    o.add("values", t.good);
    o.add("errors", t.errors);
    for s in &t.seen {
        o.hit(s);
    }
    o.nontrivial(t.hash);
    Ok(())
}

fn plain(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (name, b) = base(r, 1 << 20);
    judge(name, &b, r, o)
}

fn mutated(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (name, mut b) = base(r, 24_000);
    let other = if r.one_in(6) { base(r, 24_000).1 } else { vec![] };
    mutate(r, &mut b, &other);
    judge(name, &b, r, o)
}

fn random(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let b = noise(r);
    judge("noise", &b, r, o)
}

/// Inputs made to provoke repeated work: large, cyclic or shared tables.  The
/// watchdog of the driver (20 s of CPU per case) is the judge of the work.
fn crafted(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (name, data) = craft(case % CRAFTS, r);
    o.hit(name);
    judge(name, &data, r, o)
}

const CRAFTS: u64 = 14;
fn craft(kind: u64, r: &mut Rng) -> (&'static str, Vec<u8>) {
    let be = r.bool();
    let is64 = r.bool();
    match kind {
        0 | 1 => {
            // An exports trie in which nodes share children, or a deep one.
            let mut m = Macho { is64, be, cputype: 0x0100_0007, filetype: 6, ..Default::default() };
            let mut b = vec![];
            let levels = r.range(20, 60);
            if kind == 0 {
                for k in 0..levels {
                    let next = (k as usize + 1) * 10;
                    b.extend([0, 2, b'a', 0]);
                    uleb_pad(&mut b, next as u64, if next < 128 { 1 } else { 0 });
                    b.extend([b'b', 0]);
                    uleb_pad(&mut b, next as u64, if next < 128 { 1 } else { 0 });
                }
                b.extend([if r.bool() { 0 } else { 2 }, 0, 0, 0]);
            } else {
                let n = r.range(2_000, 12_000);
                for k in 0..n {
                    let mut e = vec![0, 1, b'a', 0];
                    uleb_pad(&mut e, (k + 1) * 8, 3 - (((k + 1) * 8).max(1).ilog2() / 7) as usize);
                    b.extend(e);
                }
                b.extend([2, 0, 1, 0]);
            }
            let c = if r.bool() {
                m.linkedit(0x8000_0033, b)
            } else {
                let n = b.len();
                let at = m.blob(b, 8);
                let mut w = m.w();
                w.zeros(32).u32(0).u32(n as u32);
                m.cmd(0x8000_0022, &w.b, vec![Patch { at: 40, blob: at, add: 0, n: 4 }])
            };
            m.cmds.push(c);
            (if kind == 0 { "exports trie with shared nodes" } else { "deep exports trie" }, m.build(r))
        }
        2 => {
            // Many symbols, all in one hash chain, all at few addresses.
            let mut e = Elf { is64, be, machine: if is64 { 62 } else { 3 }, etype: 3, ..Default::default() };
            let n = r.range(50_000, 120_000) as usize;
            let mut st = vec![0];
            let mut syms = vec![Sym::default()];
            for k in 1..n {
                let at = st.len() as u32;
                st.extend(format!("s{k}\0").bytes());
                syms.push(Sym { name_off: at, value: r.below(1 << 20), size: r.below(64), bind: 1, ty: 2, shndx: 1, ..Default::default() });
            }
            e.add(Sec { name: b".text".to_vec(), ty: 1, flags: 6, data: vec![0; 64], ..Default::default() });
            let t = e.sym_table(&syms);
            let es = if is64 { 24 } else { 16 };
            e.add(Sec { name: b".dynsym".to_vec(), ty: 11, data: t.clone(), link: 3, info: 1, entsize: es, place: 8, ..Default::default() });
            e.add(Sec { name: b".dynstr".to_vec(), ty: 3, data: st, ..Default::default() });
            let mut w = e.w();
            // SysV hash: one bucket; the chain visits every symbol and then
            // itself again.
            w.u32(1).u32(n as u32).u32(1);
            for k in 0..n {
                w.u32(if k + 1 < n { k as u32 + 1 } else { 1 });
            }
            e.add(Sec { name: b".hash".to_vec(), ty: 5, data: w.b, link: 2, place: 4, ..Default::default() });
            let mut w = e.w();
            w.u32(1).u32(1).u32(1).u32(1);
            w.word(u64::MAX);
            w.u32(1);
            for _ in 1..n {
                w.u32(0x1234_5678);
            }
            e.add(Sec { name: b".gnu.hash".to_vec(), ty: 0x6fff_fff6, data: w.b, link: 2, place: 8, ..Default::default() });
            e.add(Sec { name: b".symtab".to_vec(), ty: 2, data: t, link: 3, info: 1, entsize: es, place: 8, ..Default::default() });
            e.finish_names(r);
            ("ELF with one hash chain", e.build(r, true))
        }
        3 => {
            let mut e = Elf { is64, be, machine: if is64 { 62 } else { 3 }, etype: 1, ..Default::default() };
            let n = r.range(5_000, 30_000) as usize;
            let es = if is64 { 24 } else { 16 };
            e.add(Sec { name: b".symtab".to_vec(), ty: 2, data: e.sym_table(&[Sym::default(), Sym { shndx: 3, ..Default::default() }]), link: 2, info: 1, entsize: es, place: 8, ..Default::default() });
            e.add(Sec { name: b".strtab".to_vec(), ty: 3, data: vec![0], ..Default::default() });
            for k in 0..n {
                // Relocation sections that all apply to one section, group
                // sections, and plain ones.
                let ty = *r.pick(&[1u32, 4, 9, 17, 1]);
                let data = match ty {
                    4 => e.rel_table(&[Reloc { off: k as u64, sym: 1, ty: 1, addend: 0 }], true),
                    9 => e.rel_table(&[Reloc { off: k as u64, sym: 1, ty: 1, addend: 0 }], false),
                    17 => {
                        let mut w = e.w();
                        w.u32(1).u32(3).u32(k as u32);
                        w.b
                    }
                    _ => vec![0; 8],
                };
                e.add(Sec { name: b".x".to_vec(), ty, flags: 2, addr: r.below(1 << 24), data, link: 1, info: if r.bool() { 3 } else { k as u32 }, entsize: match ty { 4 => es, 9 => es * 2 / 3, _ => 0 }, place: 8, ..Default::default() });
            }
            e.finish_names(r);
            ("ELF with many sections", e.build(r, false))
        }
        4 => {
            // Stabs.
            let mut m = Macho { is64, be, cputype: 0x0100_0007, filetype: 2, ..Default::default() };
            let n = r.range(40_000, 120_000);
            let mut strs = vec![0];
            for k in 0..1000 {
                strs.extend(format!("n{k}\0").bytes());
            }
            let mut v = vec![];
            for _ in 0..n {
                let ty = *r.pick(&[0x66u8, 0x24, 0x24, 0x24, 0x64, 0x0e, 0x0f, 0x20, 0x26, 0x2e, 0x4e]);
                let strx = if r.bool() { 0 } else { 1 + r.below(3000) as u32 };
                v.push(Nlist { strx, ty, sect: 1, value: if r.bool() { r.below(1 << 20) } else { 0x1000 }, ..Default::default() });
            }
            let c = m.symtab(&v, strs);
            m.cmds.push(c);
            ("Mach-O with many stabs", m.build(r))
        }
        5 => {
            let mut m = Macho { is64, be, cputype: 7, filetype: 2, ..Default::default() };
            let n = r.range(5_000, 30_000);
            for k in 0..n {
                let c = m.cmd(*r.pick(&[0x0cu32, 0x1b, 0x32, 0x8000_001c, 0x8000_0028, 5, 2, 0x0b, 0x2a]), &[k as u8; 24], vec![]);
                m.cmds.push(c);
            }
            ("Mach-O with many commands", m.build(r))
        }
        6 => {
            let n = r.range(5_000, 40_000);
            let mut b = b"!<arch>\n".to_vec();
            let style = r.below(3);
            for k in 0..n {
                let (nm, body) = match style {
                    0 => (format!("m{k}/"), 0),
                    1 => ("#1/4".to_string(), 4),
                    _ => ("a/".to_string(), r.below(4)),
                };
                b.extend(format!("{nm:<16}{:<12}{:<6}{:<6}{:<8}{body:<10}`\n", 0, 0, 0, 644).bytes());
                b.extend(vec![b'x'; (body + (body & 1)) as usize]);
            }
            ("archive with many members", b)
        }
        7 => {
            // PE: many exports, then import descriptors sharing one table.
            let mut pe = Pe { is64, machine: 0x8664, dos: vec![0; 32], ..Default::default() };
            let mut w = W::new(false, is64);
            let n = r.range(5_000, 40_000) as u32;
            let va = 0x1000u32;
            w.zeros(12).u32(va + 40).u32(1).u32(n).u32(n).u32(va + 64).u32(va + 64 + 4 * n).u32(va + 64 + 8 * n);
            w.put(b"x.dll\0");
            w.b.resize(64, 0);
            for k in 0..n {
                w.u32(if k % 3 == 0 { va + 40 } else { 0x10_0000 + k });
            }
            for _ in 0..n {
                w.u32(va + 40);
            }
            for k in 0..n {
                w.u16(k as u16);
            }
            let size = w.len() as u32;
            let imports = w.len() as u32;
            let d = 60u32;
            let th = imports + 20 * (d + 1);
            for _ in 0..d {
                w.u32(va + th).u32(0).u32(0).u32(va + 40).u32(va + th);
            }
            w.zeros(20);
            for k in 0..600 {
                w.word(1 << if is64 { 63 } else { 31 } | k);
            }
            w.word(0);
            pe.opt.salign = 0x1000;
            pe.opt.falign = 0x200;
            pe.dirs = vec![(va, size), (va + imports, 20 * (d + 1))];
            pe.dirs.resize(16, (0, 0));
            while w.len() % 512 != 0 {
                w.u8(0);
            }
            pe.secs.push(PSec { name: b".x".to_vec(), va, vsize: w.len() as u32, raw: w.b, chars: 0x4000_0040, ..Default::default() });
            ("PE with many exports", pe.build(r))
        }
        8 => {
            // PE resources: every entry is a directory at the same place.
            let mut pe = Pe { is64, machine: 0x14c, dos: vec![0; 32], ..Default::default() };
            let mut w = W::new(false, is64);
            let n = r.range(2, 300) as u16;
            w.zeros(12).u16(0).u16(n);
            for k in 0..n {
                w.u32(k as u32).u32(0x8000_0000 | if r.bool() { 0 } else { 8 * r.below(n as u64) as u32 });
            }
            while w.len() % 512 != 0 {
                w.u8(0);
            }
            pe.opt.salign = 0x1000;
            pe.opt.falign = 0x200;
            pe.dirs.resize(16, (0, 0));
            pe.dirs[2] = (0x1000, w.len() as u32);
            pe.secs.push(PSec { name: b".rsrc".to_vec(), va: 0x1000, vsize: w.len() as u32, raw: w.b, chars: 0x4000_0040, ..Default::default() });
            ("PE with cyclic resources", pe.build(r))
        }
        9 => {
            // Versions: records that link to themselves, backwards or by one.
            let mut e = Elf { is64, be, machine: 62, etype: 3, ..Default::default() };
            let es = if is64 { 24 } else { 16 };
            e.add(Sec { name: b".dynsym".to_vec(), ty: 11, data: e.sym_table(&[Sym::default()]), link: 2, info: 1, entsize: es, place: 8, ..Default::default() });
            e.add(Sec { name: b".dynstr".to_vec(), ty: 3, data: b"\0v\0".to_vec(), ..Default::default() });
            e.add(Sec { name: b".gnu.version".to_vec(), ty: 0x6fff_ffff, data: vec![0, 0], link: 1, entsize: 2, place: 8, ..Default::default() });
            let step = *r.pick(&[0u32, 1, 4, 16, 20, u32::MAX, 0x8000_0000]);
            let n = r.range(100, 1500);
            let mut w = e.w();
            for _ in 0..n {
                w.u16(1).u16(0).u16(r.below(5) as u16).u16(0xffff).u32(0).u32(*r.clone().pick(&[0u32, 8, 16, 20])).u32(step);
            }
            e.add(Sec { name: b".gnu.version_d".to_vec(), ty: 0x6fff_fffd, data: w.b, link: 2, info: if r.bool() { u32::MAX } else { n as u32 }, place: 4, ..Default::default() });
            let mut w = e.w();
            for _ in 0..n {
                w.u16(1).u16(0xffff).u32(1).u32(16).u32(step);
            }
            e.add(Sec { name: b".gnu.version_r".to_vec(), ty: 0x6fff_fffe, data: w.b, link: 2, info: if r.bool() { u32::MAX } else { n as u32 }, place: 4, ..Default::default() });
            e.finish_names(r);
            ("ELF with linked versions", e.build(r, true))
        }
        10 => {
            // Bind and rebase opcodes that repeat.
            let mut m = Macho { is64, be, cputype: 0x0100_0007, filetype: 2, ..Default::default() };
            let mut p = vec![0x11, 0x20, 0];
            let mut q = vec![0x11, 0x40, b'a', 0, 0x51, 0x70, 0];
            for _ in 0..r.range(1, 40) {
                let big = *r.pick(&[u64::MAX, u32::MAX as u64, 1 << 40, 1000]);
                p.push(*r.pick(&[0x60u8, 0x50, 0x80, 0x70, 0x8f]));
                uleb_pad(&mut p, big, 0);
                uleb_pad(&mut p, *r.pick(&[0, 8, u64::MAX - 7]), 0);
                q.push(*r.pick(&[0xc0u8, 0xa0, 0x90, 0x80]));
                uleb_pad(&mut q, big, 0);
                uleb_pad(&mut q, *r.pick(&[0, 8, u64::MAX - 7]), 0);
            }
            let mut w = m.w();
            let (np, nq) = (p.len() as u32, q.len() as u32);
            let (bp, bq) = (m.blob(p, 8), m.blob(q, 8));
            w.u32(0).u32(np).u32(0).u32(nq).u32(0).u32(nq).u32(0).u32(nq).u32(0).u32(0);
            let c = m.cmd(0x22, &w.b, vec![
                Patch { at: 8, blob: bp, add: 0, n: 4 },
                Patch { at: 16, blob: bq, add: 0, n: 4 },
                Patch { at: 24, blob: bq, add: 0, n: 4 },
                Patch { at: 32, blob: bq, add: 0, n: 4 },
            ]);
            let b = m.blob(vec![0; 256], 8);
            let g = m.segment(&Segm { name: b"__DATA".to_vec(), vmaddr: 0x1000, vmsize: 0x1000, blob: b, filesize: 256, ..Default::default() });
            m.cmds.push(m.segment(&Segm { name: b"__TEXT".to_vec(), blob: b, ..Default::default() }));
            m.cmds.push(g);
            m.cmds.push(c);
            ("Mach-O with repeating opcodes", m.build(r))
        }
        11 => {
            // Wasm: many functions and names.
            let n = r.range(5_000, 60_000);
            let mut b = b"\0asm\x01\0\0\0".to_vec();
            let sec = |b: &mut Vec<u8>, id: u8, body: &[u8]| {
                b.push(id);
                uleb_pad(b, body.len() as u64, 0);
                b.extend(body);
            };
            sec(&mut b, 1, &[1, 0x60, 0, 0]);
            let mut f = vec![];
            uleb_pad(&mut f, n, 0);
            f.extend(vec![0; n as usize]);
            sec(&mut b, 3, &f);
            let mut c = vec![];
            uleb_pad(&mut c, n, 0);
            for _ in 0..n {
                c.extend([2, 0, 0x0b]);
            }
            sec(&mut b, 10, &c);
            let mut nm = vec![4];
            nm.extend(b"name");
            let mut x = vec![];
            uleb_pad(&mut x, n, 0);
            for k in 0..n {
                uleb_pad(&mut x, k, 0);
                let t = format!("f{k}");
                uleb_pad(&mut x, t.len() as u64, 0);
                x.extend(t.bytes());
            }
            nm.push(1);
            uleb_pad(&mut nm, x.len() as u64, 0);
            nm.extend(x);
            sec(&mut b, 0, &nm);
            ("Wasm with many functions", b)
        }
        12 => {
            // COFF: many symbols with long auxiliary runs; weak externals that
            // name each other; selection of COMDAT sections that never end.
            let n = r.range(5_000, 60_000) as u32;
            let mut w = W::new(false, false);
            let ns = r.range(1, 3000) as u16;
            w.u16(0x8664).u16(ns).u32(0).u32(20 + 40 * ns as u32).u32(n).u16(0).u16(0);
            for _ in 0..ns {
                w.put(b".x\0\0\0\0\0\0").zeros(24).u16(0xffff).u16(0).u32(0x0100_1020);
            }
            for _ in 0..n {
                w.put(b"s\0\0\0\0\0\0\0").u32(r.below(64) as u32).u16(r.below(ns as u64 + 2) as u16).u16(0x20).u8(*r.pick(&[2, 3, 105, 103])).u8(*r.pick(&[0u8, 0, 0, 1, 255]));
            }
            w.u32(4);
            ("COFF with many symbols", w.b)
        }
        _ => {
            // A fat file whose members all lie at the same place.
            let n = r.range(1_000, 20_000) as u32;
            let mut w = W::new(true, false);
            let wide = r.bool();
            w.u32(if wide { 0xcafe_babf } else { 0xcafe_babe }).u32(n);
            let inner = base(r, 4000).1;
            let at = 8 + n as u64 * if wide { 32 } else { 20 };
            for k in 0..n {
                w.u32(7).u32(k);
                if wide {
                    w.u64(at).u64(inner.len() as u64).u32(3).u32(0);
                } else {
                    w.u32(at as u32).u32(inner.len() as u32).u32(3);
                }
            }
            w.put(&inner);
            ("fat file with many members", w.b)
        }
    }
}

pub static SPEC: Spec = Spec {
    id: "C01",
    rule: "reading never panics, overflows, hangs, or uses disproportionate memory",
    parts: &[
        Part { name: "plain", quick: 6_000, thorough: 300_000, run: plain },
        Part { name: "mutated", quick: 180_000, thorough: 6_000_000, run: mutated },
        Part { name: "random", quick: 60_000, thorough: 3_000_000, run: random },
        Part { name: "crafted", quick: 56, thorough: 3_000, run: crafted },
    ],
    required: &[
        "archive",
        "archive.members",
        "archive.symbol",
        "cache",
        "cache.image",
        "cache.mapping",
        "cache.relocations",
        "coff",
        "coff.aux_section",
        "comdat.sections",
        "decompress",
        "detect",
        "dynamic",
        "dynamic_relocations",
        "elf",
        "elf.attributes",
        "elf.crel",
        "elf.dynamic",
        "elf.gnu_hash",
        "elf.gnu_properties",
        "elf.group",
        "elf.hash",
        "elf.header",
        "elf.notes",
        "elf.relr",
        "elf.verdef",
        "elf.verneed",
        "export",
        "fat",
        "file",
        "import",
        "import_file",
        "macho",
        "macho.bind_ops",
        "macho.chained",
        "macho.codesign",
        "macho.dyld_info",
        "macho.exports_trie",
        "macho.fixups",
        "macho.function_starts",
        "macho.load_commands",
        "macho.rebase_ops",
        "object",
        "pe",
        "pe.delay",
        "pe.exports",
        "pe.imports",
        "pe.relocs",
        "pe.resources",
        "pe.rich",
        "pe.thunks",
        "relocations",
        "sections",
        "segments",
        "symbols",
        "symtab",
        "wasm",
        "xcoff",
        "xcoff.symbol",
        "debug",
    ],
    tools: &[],
    assumptions: &[
        "iterators that expand opcodes or compact tables (rebases, binds, fixups, cache relocations) may describe many more items than the input has bytes; they are stepped 3000 times",
        "overlapping tables may make work quadratic; a case is a hang when it takes more than 20 s of CPU",
        "outside decompression, memory of one walk may peak at 16 MiB plus 512 times the input; decompression may add twice the declared size (up to 4 MiB) and 200 MiB for the codec's window",
    ],
    level: "exploration",
};

fn main() {
    vcore::main(&SPEC);
}

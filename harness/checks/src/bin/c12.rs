//! C12: archives list exactly their members and symbol index.
use genf::w::W;
use object::read::archive::*;
use object::read::{FileKind, ReadCache};
use vcore::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Plain,
    Gnu,
    Gnu64,
    Bsd,
    Bsd64,
    Coff,
    Aix,
    Zos,
}

struct Mem {
    name: Vec<u8>,
    date: Option<u64>,
    uid: Option<u64>,
    gid: Option<u64>,
    mode: Option<u64>,
    data: Vec<u8>,
    /// Size recorded in the header of a thin member.
    thin_size: u64,
    header: usize,
    data_off: usize,
    raw: Vec<u8>,
}

fn ebc(b: &[u8]) -> Vec<u8> {
    b.iter()
        .map(|&c| match c {
            b'0'..=b'9' => 0xf0 + (c - b'0'),
            b' ' => 0x40,
            b'#' => 0x7b,
            b'/' => 0x61,
            b'`' => 0x79,
            b'\n' => 0x15,
            b'a'..=b'i' => 0x81 + (c - b'a'),
            b'j'..=b'r' => 0x91 + (c - b'j'),
            b's'..=b'z' => 0xa2 + (c - b's'),
            b'A'..=b'I' => 0xc1 + (c - b'A'),
            b'J'..=b'R' => 0xd1 + (c - b'J'),
            b'S'..=b'Z' => 0xe2 + (c - b'S'),
            b'_' => 0x6d,
            b'.' => 0x4b,
            b'$' => 0x5b,
            _ => c,
        })
        .collect()
}

fn fld(out: &mut Vec<u8>, s: &[u8], n: usize) {
    assert!(s.len() <= n, "{} > {n}", String::from_utf8_lossy(s));
    out.extend_from_slice(s);
    out.resize(out.len() + n - s.len(), b' ');
}
fn num(v: Option<u64>, oct: bool) -> Vec<u8> {
    match v {
        None => vec![],
        Some(v) if oct => format!("{v:o}").into_bytes(),
        Some(v) => v.to_string().into_bytes(),
    }
}
fn hdr(name: &[u8], m: Option<&Mem>, size: u64, zos: bool) -> Vec<u8> {
    let mut h = vec![];
    fld(&mut h, name, 16);
    let z = (None, None, None, None);
    let (d, u, g, o) = m.map_or(z, |m| (m.date, m.uid, m.gid, m.mode));
    fld(&mut h, &num(d, false), 12);
    fld(&mut h, &num(u, false), 6);
    fld(&mut h, &num(g, false), 6);
    fld(&mut h, &num(o, true), 8);
    fld(&mut h, &num(Some(size), false), 10);
    h.extend_from_slice(b"`\n");
    if zos { ebc(&h) } else { h }
}
fn opt(r: &mut Rng, max: u64, none_ok: bool) -> Option<u64> {
    if none_ok && r.one_in(8) {
        return None;
    }
    Some(match r.below(4) {
        0 => 0,
        1 => max,
        2 => r.below(10),
        _ => r.range(0, max),
    })
}

fn member_name(r: &mut Rng, v: V, thin: bool) -> Vec<u8> {
    let max = match r.below(6) {
        0 => 3,
        1 => 15,
        2 => 16,
        3 => 17,
        _ => 40,
    };
    let mut n = r.ident(max).into_bytes();
    if r.bool() {
        // Push the length to a boundary.
        while n.len() < max {
            n.push(b'x');
        }
    }
    if v == V::Zos {
        n.truncate(30);
    } else if r.one_in(5) && n.len() > 2 {
        let k = 1 + r.idx(n.len() - 2);
        n[k] = b' ';
    }
    if matches!(v, V::Gnu | V::Gnu64) && thin && r.bool() && n.len() > 4 {
        n[2] = b'/';
        n[1] = b'/';
    }
    if r.one_in(20) && v != V::Zos {
        let k = n.len() - 1;
        n[k] = 0x80 | r.u8();
    }
    n
}

fn p_files(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let v = *r.pick(&[V::Plain, V::Gnu, V::Gnu, V::Gnu64, V::Bsd, V::Bsd, V::Bsd64, V::Coff, V::Coff, V::Aix, V::Zos]);
    let thin = matches!(v, V::Gnu | V::Gnu64) && r.one_in(3);
    let nm = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 30 + r.idx(60),
        _ => r.idx(10),
    };
    let mut mems: Vec<Mem> = vec![];
    for _ in 0..nm {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 1 + r.idx(300),
            _ => r.idx(24),
        };
        let big = v == V::Aix;
        let data = if thin { vec![] } else { r.bytes(n) };
        mems.push(Mem {
            name: member_name(r, v, thin),
            date: opt(r, 999_999_999_999, !big),
            uid: opt(r, if big { 999_999_999_999 } else { 999_999 }, !big),
            gid: opt(r, if big { 999_999_999_999 } else { 999_999 }, !big),
            mode: opt(r, if big { 0o777777777777 } else { 0o77777777 }, !big),
            thin_size: if r.bool() { r.below(100) } else { r.below(9_999_999_999) },
            data,
            header: 0,
            data_off: 0,
            raw: vec![],
        });
    }
    // Symbols: (name, member index).
    let mut syms: Vec<(Vec<u8>, usize)> = vec![];
    if nm > 0 {
        for _ in 0..(if r.one_in(6) { 0 } else { r.idx(20) }) {
            let n = if r.one_in(10) { vec![] } else { genf::w::name(r) };
            syms.push((n, r.idx(nm)));
        }
    }
    let special_sorted = r.bool();
    let bsd_ext_symtab = r.bool();
    let with_sym = match v {
        V::Plain => false,
        V::Gnu => r.bool(),
        V::Coff => true,
        V::Gnu64 | V::Bsd | V::Bsd64 => true,
        V::Aix | V::Zos => r.bool(),
    };
    if v == V::Coff {
        syms.sort();
    }
    let ec = v == V::Coff && r.one_in(3);
    let first_junk = r.u32();
    let mut names = vec![];
    let mut pad_nl = r.bool();
    // Two passes: offsets do not depend on symbol values.
    let mut file = vec![];
    let mut long_ext = false;
    let seed = r.u64();
    for pass in 0..2 {
        let r = &mut Rng::new(seed);
        let _ = pass;
        let off = |i: usize, mems: &Vec<Mem>| mems[i].header as u64;
        match v {
            V::Aix => {
                let mut f = vec![];
                let mut p = 128;
                // fixed header is filled afterwards
                f.resize(128, 0u8);
                let put = |f: &mut Vec<u8>, name: &[u8], m: Option<&Mem>, data: &[u8], nx: usize, pv: usize| {
                    let h = f.len();
                    let mut b = vec![];
                    fld(&mut b, data.len().to_string().as_bytes(), 20);
                    fld(&mut b, nx.to_string().as_bytes(), 20);
                    fld(&mut b, pv.to_string().as_bytes(), 20);
                    let z = (Some(0), Some(0), Some(0), Some(0));
                    let (d, u, g, o) = m.map_or(z, |m| (m.date, m.uid, m.gid, m.mode));
                    fld(&mut b, &num(d, false), 12);
                    fld(&mut b, &num(u, false), 12);
                    fld(&mut b, &num(g, false), 12);
                    fld(&mut b, &num(o, true), 12);
                    fld(&mut b, name.len().to_string().as_bytes(), 4);
                    let raw = b.clone();
                    f.extend_from_slice(&b);
                    f.extend_from_slice(name);
                    if f.len() % 2 == 1 {
                        f.push(0);
                    }
                    f.extend_from_slice(b"`\n");
                    let d = f.len();
                    f.extend_from_slice(data);
                    if f.len() % 2 == 1 {
                        f.push(0);
                    }
                    (h, d, raw)
                };
                // Physical order differs from index order.
                let mut order: Vec<usize> = (0..nm).collect();
                if r.bool() {
                    r.shuffle(&mut order);
                }
                for &i in &order {
                    if r.one_in(5) {
                        let hole = 2 * r.idx(20);
                        f.resize(f.len() + hole, b'`');
                    }
                    let (h, d, raw) = put(&mut f, &mems[i].name, Some(&mems[i]), &mems[i].data, if i + 1 < nm { mems[i + 1].header } else { 0 }, if i > 0 { mems[i - 1].header } else { 0 });
                    (mems[i].header, mems[i].data_off, mems[i].raw) = (h, d, raw);
                    p = f.len();
                }
                let _ = p;
                let mut tab = vec![];
                fld(&mut tab, nm.to_string().as_bytes(), 20);
                for m in &mems {
                    fld(&mut tab, m.header.to_string().as_bytes(), 20);
                }
                for m in &mems {
                    tab.extend_from_slice(&m.name);
                    tab.push(0);
                }
                let mut memoff = 0;
                if nm > 0 || r.bool() {
                    memoff = put(&mut f, b"", None, &tab, 0, 0).0;
                }
                let (mut g32, mut g64) = (0, 0);
                if with_sym {
                    let mut w = W::new(true, true);
                    w.u64(syms.len() as u64);
                    for s in &syms {
                        w.u64(off(s.1, &mems));
                    }
                    for s in &syms {
                        w.put(&s.0).u8(0);
                    }
                    let at = put(&mut f, b"", None, &w.b, 0, 0).0;
                    if r.bool() { g32 = at } else { g64 = at }
                }
                let mut h = b"<bigaf>\n".to_vec();
                for x in [memoff, g32, g64, mems.first().map_or(0, |m| m.header), mems.last().map_or(0, |m| m.header), 0] {
                    fld(&mut h, x.to_string().as_bytes(), 20);
                }
                f[..128].copy_from_slice(&h);
                file = f;
            }
            _ => {
                let zos = v == V::Zos;
                let mut f: Vec<u8> = if zos {
                    b"\x5A\x4C\x81\x99\x83\x88\x6E\x15".to_vec()
                } else if thin {
                    b"!<thin>\n".to_vec()
                } else {
                    b"!<arch>\n".to_vec()
                };
                let pad = if zos { 0x15 } else if pad_nl { b'\n' } else { 0 };
                let padf = |f: &mut Vec<u8>| {
                    if f.len() % 2 == 1 {
                        f.push(pad);
                    }
                };
                // Extended names.
                names.clear();
                let mut fieldname: Vec<Vec<u8>> = vec![];
                let mut prefix: Vec<Option<Vec<u8>>> = vec![];
                for m in &mems {
                    let spaced = m.name.contains(&b' ') || m.name.contains(&b'/');
                    match v {
                        V::Gnu | V::Gnu64 | V::Coff => {
                            let short = m.name.len() < 16 && !m.name.contains(&b'/');
                            if short && !(thin && r.bool()) && !r.one_in(6) {
                                let mut n = m.name.clone();
                                n.push(b'/');
                                fieldname.push(n);
                            } else {
                                fieldname.push(format!("/{}", names.len()).into_bytes());
                                names.extend_from_slice(&m.name);
                                if v == V::Coff {
                                    names.push(0);
                                } else {
                                    names.extend_from_slice(b"/\n");
                                }
                            }
                            prefix.push(None);
                        }
                        _ => {
                            if m.name.len() <= 16 && !spaced && !r.one_in(4) {
                                fieldname.push(m.name.clone());
                                prefix.push(None);
                            } else {
                                // Name precedes the data, NUL padded.
                                let mut p = if zos { ebc(&m.name) } else { m.name.clone() };
                                for _ in 0..r.idx(8) {
                                    p.push(0);
                                }
                                fieldname.push(format!("#1/{}", p.len()).into_bytes());
                                prefix.push(Some(p));
                            }
                        }
                    }
                }
                let special = |f: &mut Vec<u8>, name: &[u8], d: &[u8]| {
                    f.extend(hdr(name, None, d.len() as u64, zos));
                    f.extend_from_slice(d);
                    padf(f);
                };
                if with_sym {
                    match v {
                        V::Gnu | V::Gnu64 => {
                            let mut w = W::new(true, v == V::Gnu64);
                            w.word(syms.len() as u64);
                            for s in &syms {
                                let x = off(s.1, &mems);
                                w.word(x);
                            }
                            for s in &syms {
                                w.put(&s.0).u8(0);
                            }
                            special(&mut f, if v == V::Gnu { b"/" } else { b"/SYM64/" }, &w.b);
                        }
                        V::Bsd | V::Bsd64 => {
                            let mut w = W::new(false, v == V::Bsd64);
                            let mut st = genf::w::Strs { b: vec![] };
                            let offs: Vec<usize> = syms.iter().map(|s| st.add(r, &s.0)).collect();
                            let es = if v == V::Bsd64 { 16 } else { 8 };
                            w.word((syms.len() * es) as u64);
                            for (s, so) in syms.iter().zip(&offs) {
                                let x = off(s.1, &mems);
                                w.word(*so as u64).word(x);
                            }
                            w.word(st.b.len() as u64).put(&st.b);
                            let n: &[u8] = match (v, special_sorted) {
                                (V::Bsd, false) => b"__.SYMDEF",
                                (V::Bsd, true) => b"__.SYMDEF SORTED",
                                (_, false) => b"__.SYMDEF_64",
                                _ => b"__.SYMDEF_64 SORTED",
                            };
                            if bsd_ext_symtab || n.contains(&b' ') || n.len() > 16 {
                                let mut d = n.to_vec();
                                while d.len() % 4 != 0 || r.one_in(4) {
                                    d.push(0);
                                }
                                let h = format!("#1/{}", d.len());
                                d.extend_from_slice(&w.b);
                                special(&mut f, h.as_bytes(), &d);
                            } else {
                                special(&mut f, n, &w.b);
                            }
                        }
                        V::Coff => {
                            special(&mut f, b"/", &first_junk.to_be_bytes());
                            let mut w = W::new(false, false);
                            w.u32(nm as u32);
                            for m in &mems {
                                w.u32(m.header as u32);
                            }
                            w.u32(syms.len() as u32);
                            for s in &syms {
                                w.u16(s.1 as u16 + 1);
                            }
                            for s in &syms {
                                w.put(&s.0).u8(0);
                            }
                            special(&mut f, b"/", &w.b);
                        }
                        V::Zos => special(&mut f, b"__.SYMDEF", b"\0\0\0\0\0\0\0\0"),
                        _ => {}
                    }
                }
                if matches!(v, V::Gnu | V::Gnu64 | V::Coff) && (!names.is_empty() || r.bool()) {
                    if v == V::Gnu && !with_sym && names.is_empty() {
                        // keeps the archive recognisable as GNU
                        names.extend_from_slice(b"unused/\n");
                    }
                    special(&mut f, b"//", &names.clone());
                    long_ext = true;
                }
                if ec {
                    special(&mut f, b"/<ECSYMBOLS>/", &[1, 0, 1]);
                }
                for (i, m) in mems.iter_mut().enumerate() {
                    m.header = f.len();
                    let pre = prefix[i].clone().unwrap_or_default();
                    let size = if thin { m.thin_size } else { (pre.len() + m.data.len()) as u64 };
                    m.raw = hdr(&fieldname[i], Some(m), size, zos);
                    f.extend_from_slice(&m.raw);
                    if !thin {
                        f.extend_from_slice(&pre);
                        m.data_off = f.len();
                        f.extend_from_slice(&m.data);
                        // The last member's padding may be missing.
                        if i + 1 < nm || r.bool() {
                            padf(&mut f);
                        }
                    }
                }
                file = f;
            }
        }
        if thin {
            pad_nl = true;
        }
    }
    o.input("file", &file);
    let kind = FileKind::parse(&file[..]);
    if !matches!(v, V::Zos | V::Aix) {
        same!(kind, Ok(FileKind::Archive), "file kind");
    }
    check(&file[..], &file, v, thin, with_sym, long_ext, &mems, &syms, o)?;
    let cache = ReadCache::new(std::io::Cursor::new(&file[..]));
    check(&cache, &file, v, thin, with_sym, long_ext, &mems, &syms, o)?;
    o.hit(match v {
        V::Plain => "unknown-kind",
        V::Gnu => "gnu",
        V::Gnu64 => "gnu64",
        V::Bsd => "bsd",
        V::Bsd64 => "bsd64",
        V::Coff => "coff",
        V::Aix => "aix",
        V::Zos => "zos",
    });
    if ec {
        o.hit("ec-symbols");
    }
    if thin {
        o.add("thin-members", nm as u64);
    }
    o.add("members", nm as u64);
    if nm > 0 {
        o.nontrivial(hash(&file));
    }
    o.sample(|| format!("{v:?} thin={thin} members={nm} symbols={} bytes={}", syms.len(), file.len()));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check<'d, R: object::ReadRef<'d>>(data: R, file: &[u8], v: V, thin: bool, with_sym: bool, long_ext: bool, mems: &[Mem], syms: &[(Vec<u8>, usize)], o: &mut Obs) -> Res {
    let a = okay!(ArchiveFile::parse(data), "parse");
    let k = match v {
        V::Plain => ArchiveKind::Unknown,
        V::Gnu if !with_sym && !long_ext => ArchiveKind::Unknown,
        V::Gnu => ArchiveKind::Gnu,
        V::Gnu64 => ArchiveKind::Gnu64,
        V::Bsd => ArchiveKind::Bsd,
        V::Bsd64 => ArchiveKind::Bsd64,
        V::Coff => ArchiveKind::Coff,
        V::Aix => ArchiveKind::AixBig,
        V::Zos => ArchiveKind::Zos,
    };
    same!(a.kind(), k, "kind");
    same!(a.is_thin(), thin, "thin");
    let one = |g: &ArchiveMember, m: &Mem, what: &str| -> Res {
        let wn = if v == V::Zos { ebc(&m.name) } else { m.name.clone() };
        same!(g.name(), &wn[..], "{what} name");
        same!(g.date(), m.date, "{what} date");
        same!(g.uid(), m.uid, "{what} uid");
        same!(g.gid(), m.gid, "{what} gid");
        same!(g.mode(), m.mode, "{what} mode");
        same!(g.is_thin(), thin, "{what} is_thin");
        let sz = if thin { m.thin_size } else { m.data.len() as u64 };
        same!(g.size(), sz, "{what} size");
        same!(g.file_range(), (m.data_off as u64, sz), "{what} file range");
        Ok(())
    };
    let mut n = 0;
    for g in a.members() {
        let g = okay!(g, "member {n}");
        ensure!(n < mems.len(), "more members than were stored");
        let m = &mems[n];
        one(&g, m, &format!("member {n}"))?;
        let d = okay!(g.data(data), "member data");
        same!(d, &m.data[..], "member {n} data");
        if v == V::Aix {
            ensure!(g.header().is_none(), "common header on AIX");
            let h = some!(g.aix_header(), "aix header");
            same!(&h.size[..], &m.raw[..20], "aix raw size");
            same!(&h.namlen[..], &m.raw[108..112], "aix raw namlen");
            same!(&h.nxtmem[..], &m.raw[20..40], "aix raw next");
        } else if v == V::Zos {
            ensure!(g.aix_header().is_none() && g.header().is_none(), "foreign header on z/OS");
        } else {
            ensure!(g.aix_header().is_none(), "aix header on common");
            let h = some!(g.header(), "header");
            same!(&h.name[..], &m.raw[..16], "raw name");
            same!(&h.size[..], &m.raw[48..58], "raw size");
        }
        // The same member by offset.
        let g2 = okay!(a.member(ArchiveOffset(m.header as u64)), "member at its offset");
        one(&g2, m, "member by offset")?;
        n += 1;
    }
    same!(n, mems.len(), "number of members");
    let has_table = with_sym;
    let s = okay!(a.symbols(), "symbols");
    same!(s.is_some(), has_table, "has symbol table");
    if let Some(s) = s {
        let listed = !matches!(v, V::Aix | V::Zos);
        let want: &[(Vec<u8>, usize)] = if listed { syms } else { &[] };
        let got: Vec<_> = s.collect::<Vec<_>>();
        same!(got.len(), want.len(), "symbol count");
        for (g, w) in got.iter().zip(want) {
            let g = okay!(g.as_ref().map_err(|e| *e), "symbol");
            same!(g.name(), &w.0[..], "symbol name");
            same!(g.offset().0, mems[w.1].header as u64, "symbol member offset");
            let m = okay!(a.member(g.offset()), "symbol's member");
            one(&m, &mems[w.1], "symbol's member")?;
            o.hit("symbols");
        }
    }
    // Offsets outside the member area are refused.
    if !matches!(v, V::Aix) {
        ensure!(a.member(ArchiveOffset(file.len() as u64)).is_err(), "member at end of file");
        ensure!(a.member(ArchiveOffset(0)).is_err(), "member at the magic");
    }
    Ok(())
}

/// The value of a numeric field: digits up to the end or the first space.
fn value(f: &[u8], radix: u32) -> Option<u64> {
    let end = f.iter().position(|c| *c == b' ').unwrap_or(f.len());
    if end == 0 {
        return None;
    }
    let mut v: u128 = 0;
    for c in &f[..end] {
        v = v * radix as u128 + (*c as char).to_digit(radix)? as u128;
        if v > u64::MAX as u128 {
            return None;
        }
    }
    Some(v as u64)
}

/// Any bytes in the numeric fields of headers.
fn p_numbers(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    // Mostly digits, sometimes as large as the field allows.
    fn junk(r: &mut Rng, n: usize, good: u64) -> Vec<u8> {
        let mut f = vec![b' '; n];
        match r.below(6) {
            0..=2 => {
                // The same number modulo 2^64, or one that is just too large.
                let v = match r.below(4) {
                    0 => good as u128,
                    1 => good as u128 + (1 << 64),
                    2 => (1 << 64) + r.below(9) as u128 - 4,
                    _ => good as u128 + r.below(3) as u128 * (1 << 32),
                };
                let t = v.to_string();
                let t = if t.len() > n { good.to_string() } else { t };
                f[..t.len()].copy_from_slice(t.as_bytes());
                if r.one_in(4) && t.len() + 1 < n {
                    // Anything can follow the space.
                    f[n - 1] = r.u8();
                }
            }
            3 => {
                let k = r.idx(n + 1);
                for c in &mut f[..k] {
                    *c = b'0' + r.below(10) as u8;
                }
            }
            4 => {
                let k = r.idx(n + 1);
                for c in &mut f[..k] {
                    *c = *r.pick(b"0123456789 789-+a./:\0");
                }
            }
            _ => {
                let t = good.to_string();
                f[..t.len()].copy_from_slice(t.as_bytes());
                let k = r.idx(n);
                f[k] = *r.pick(b"x-+/:\0;89");
            }
        }
        f
    }
    let data = b"contents";
    let plain = |n: usize, v: u64| {
        let mut f = v.to_string().into_bytes();
        f.resize(n, b' ');
        f
    };
    if r.bool() {
        let which = r.idx(5);
        let mut h = b"!<arch>\nname/           ".to_vec();
        let mut want = vec![];
        for (i, (n, good, radix)) in [(12usize, 7u64, 10u32), (6, 5, 10), (6, 4, 10), (8, 3, 8), (10, data.len() as u64, 10)].into_iter().enumerate() {
            let f = if i == which || r.one_in(3) && i < 4 { junk(r, n, good) } else { plain(n, good) };
            want.push(value(&f, radix));
            h.extend(f);
        }
        h.extend(b"`\n");
        let at = h.len();
        h.extend(data);
        o.input("file", &h);
        let a = ArchiveFile::parse(&h[..]);
        if a.is_err() && want[4].is_none_or(|n| n > 8) {
            o.hit("numbers refused");
            return Ok(());
        }
        let mut first = okay!(a, "parse").members();
        let g = some!(first.next(), "a member");
        match want[4] {
            Some(n) if n <= 8 => {
                let g = okay!(g, "member");
                same!((g.date(), g.uid(), g.gid(), g.mode()), (want[0], want[1], want[2], want[3]), "numbers");
                same!(g.size(), n, "size");
                same!(g.file_range(), (at as u64, n), "range");
                o.hit("numbers read");
            }
            Some(n) => {
                // Larger than the file.
                if let Ok(g) = g {
                    same!(g.size(), n, "size");
                    ensure!(g.data(&h[..]).is_err(), "{n} bytes of 8");
                }
                o.hit("numbers too large");
            }
            None => {
                ensure!(g.is_err(), "size {:?} accepted", String::from_utf8_lossy(&h[8 + 48..8 + 58]));
                ensure!(first.next().is_none(), "a member after an error");
                o.hit("numbers refused");
            }
        }
        o.nontrivial(hash(&h));
        return Ok(());
    }
    // 0: offset of the index, 1: entries, 2: offset of the member, 3: its size, 4: length of its name, 5: size of the index,
    // 6: offset of the symbol table, 7..: date, uid, gid, mode.
    let which = r.idx(11);
    let (member, index) = (128u64, 128 + 112 + 2 + 2 + 8);
    let mut want = [None; 11];
    let mut field = |i: usize, n: usize, good: u64, radix: u32, r: &mut Rng| {
        let f = if which == i { junk(r, n, good) } else { plain(n, good) };
        want[i] = value(&f, radix);
        f
    };
    let mut h = b"<bigaf>\n".to_vec();
    h.extend(field(0, 20, index, 10, r));
    h.extend(plain(20, 0));
    h.extend(field(6, 20, 0, 10, r));
    h.extend(plain(20, member));
    h.extend(plain(20, member));
    h.extend(plain(20, 0));
    h.extend(field(3, 20, 8, 10, r));
    h.extend(plain(20, index));
    h.extend(plain(20, 0));
    h.extend(field(7, 12, 7, 10, r));
    h.extend(field(8, 12, 5, 10, r));
    h.extend(field(9, 12, 4, 10, r));
    h.extend(field(10, 12, 3, 8, r));
    h.extend(field(4, 4, 2, 10, r));
    h.extend(b"nm`\n");
    h.extend(data);
    same!(h.len() as u64, index, "layout of the file");
    h.extend(field(5, 20, 20 + 20 + 3, 10, r));
    h.extend(plain(20, 0));
    h.extend(plain(20, member));
    for _ in 0..4 {
        h.extend(plain(12, 0));
    }
    h.extend(plain(4, 0));
    h.extend(b"`\n");
    h.extend(field(1, 20, 1, 10, r));
    h.extend(field(2, 20, member, 10, r));
    h.extend(b"nm\0");
    o.input("file", &h);
    let a = ArchiveFile::parse(&h[..]);
    if [0, 1, 5, 6].contains(&which) && want[which].is_none() {
        ensure!(a.is_err(), "field {which} accepted");
        o.hit("numbers refused");
        return Ok(());
    }
    let good = [index, 1, member, 8, 2, 43, 0];
    if which < 7 && want[which] != Some(good[which]) && !(which == 3 || which == 2) {
        // What the file means with another offset or size is not at issue.
        o.hit("numbers not judged");
        return Ok(());
    }
    let a = okay!(a, "parse");
    let mut it = a.members();
    let g = some!(it.next(), "a member");
    if [2, 3, 4].contains(&which) && want[which].is_none() {
        ensure!(g.is_err(), "field {which} accepted");
        o.hit("numbers refused");
        return Ok(());
    }
    if which == 2 && want[2] != Some(member) {
        if want[2].is_some_and(|x| x >= h.len() as u64) {
            ensure!(g.is_err(), "a member after the end");
        }
        o.hit("numbers not judged");
        return Ok(());
    }
    if which == 3 && want[3].is_some_and(|n| n > (h.len() as u64 - member - 116)) {
        if let Ok(g) = g {
            same!(Some(g.size()), want[3], "size");
            ensure!(g.data(&h[..]).is_err(), "more data than the file has");
        }
        o.hit("numbers too large");
        return Ok(());
    }
    let g = okay!(g, "member");
    same!(g.name(), &b"nm"[..], "name");
    same!((g.date(), g.uid(), g.gid(), g.mode()), (want[7], want[8], want[9], want[10]), "numbers");
    same!(Some(g.size()), want[3], "size");
    ensure!(it.next().is_none(), "a second member");
    o.hit("numbers read");
    o.nontrivial(hash(&h));
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C12",
    rule: "an independently assembled archive lists exactly the members and symbol index it was assembled from",
    parts: &[Part { name: "files", quick: 60000, thorough: 5000000, run: p_files }, Part { name: "numbers", quick: 60000, thorough: 5000000, run: p_numbers }],
    required: &["unknown-kind", "gnu", "gnu64", "bsd", "bsd64", "coff", "aix", "zos", "ec-symbols", "thin-members", "members", "symbols", "numbers read", "numbers refused", "numbers too large"],
    tools: &[],
    assumptions: &["AIX and z/OS symbol indexes are not decoded by the crate; only their presence is checked"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

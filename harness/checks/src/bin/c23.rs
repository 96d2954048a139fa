//! C23: the low-level PE and COFF writers emit what they are told.
use genf::strict::{Rd, coff as sc};
use genf::w::W;
use object::LittleEndian as LE;
use object::pe;
use object::read::coff::{CoffFile, CoffHeader, Symbol as _};
use object::read::pe::{ImageNtHeaders, ImageOptionalHeader, PeFile};
use object::read::{Object, ObjectSection};
use object::write::coff as wc;
use object::write::pe as wp;
use object::write::WritableBuffer;
use vcore::{Obs, Part, Res, Rng, Spec, ensure, hash, okay, same, some};

#[derive(Default)]
struct Rec {
    b: Vec<u8>,
    reserved: Vec<u64>,
}
impl WritableBuffer for Rec {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        self.reserved.push(size);
        Ok(())
    }
    fn write_bytes(&mut self, v: &[u8]) {
        self.b.extend_from_slice(v);
    }
}
/// The bytes written, and the sizes given to `reserve`.
fn equal(got: &[u8], want: &[u8], names: &[(u64, &str)]) -> Res {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let (p, what) = names.iter().rev().find(|(p, _)| *p <= at as u64).unwrap_or(&(0, "start"));
    let f = |b: &[u8]| format!("{:02x?}", &b[at.min(b.len())..(at + 8).min(b.len())]);
    Err(format!("{} bytes written and {} expected; at {at:#x} (byte {} of {what}): {} for {}", got.len(), want.len(), at as u64 - p, f(got), f(want)))
}

// ---------------------------------------------------------------- PE

const NAMED: [(&str, u32, Option<usize>); 9] = [
    (".text", 0x6000_0020, None),
    (".rdata", 0x4000_0040, None),
    (".bss", 0xc000_0080, None),
    (".idata", 0xc000_0040, Some(1)),
    (".edata", 0x4000_0040, Some(0)),
    (".pdata", 0x4000_0040, Some(3)),
    (".xdata", 0x4000_0040, None),
    (".rsrc", 0x4000_0040, Some(2)),
    (".data", 0xc000_0040, None),
];
#[derive(Clone, Debug)]
enum B {
    Sec { name: [u8; 8], ch: u32, named: Option<usize>, vsize: u32, data: Vec<u8>, how: u8 },
    Reloc,
    Address(u32),
    Extra(Vec<u8>, u32),
    Until(u32),
    Cert(Vec<u8>),
}
#[derive(Clone, Debug)]
enum Dos {
    Empty,
    Stub,
    Custom(Vec<u8>, Vec<u8>),
}
struct Image {
    is64: bool,
    sa: u32,
    fa: u32,
    dos: Dos,
    rich: Option<(Vec<u8>, u32)>,
    ndirs: usize,
    dirs: Vec<(usize, u32, u32, usize)>,
    blocks: Vec<B>,
    relocs: Vec<(u32, u16, usize)>,
    nt: [u64; 19],
}
fn up(v: u64, a: u64) -> u64 {
    v.div_ceil(a) * a
}
fn image(r: &mut Rng) -> Image {
    let is64 = r.bool();
    let sb = if r.bool() { 12 } else { r.range(3, 16) as u32 };
    let fb = if r.bool() { 9.min(sb) } else { r.below(sb.min(13) as u64 + 1) as u32 };
    let dos = match r.idx(3) {
        0 => Dos::Empty,
        1 => Dos::Stub,
        _ => {
            let n = r.idx(200);
            Dos::Custom([b"MZ".to_vec(), r.bytes(58)].concat(), r.bytes(n))
        }
    };
    let rich = if r.one_in(4) {
        let n = 1 + r.idx(90);
        Some((r.bytes(n), 1 << r.idx(5)))
    } else {
        None
    };
    let ndirs = if r.bool() { 16 } else { r.idx(20) };
    let mut used = vec![4, 5];
    let mut blocks = vec![];
    let n = if r.one_in(300) { 200 + r.idx(300) } else { r.idx(9) };
    for _ in 0..n {
        match r.idx(10) {
            0..=3 => {
                let i = r.idx(9);
                if let Some(d) = NAMED[i].2 {
                    if d >= ndirs || used.contains(&d) {
                        continue;
                    }
                    used.push(d);
                }
                let vsize = 1 + r.idx(1500) as u32;
                let len = if i == 2 { 0 } else if i == 8 { r.below(vsize as u64 + 1) as usize } else { vsize as usize };
                let mut name = [0; 8];
                name[..NAMED[i].0.len()].copy_from_slice(NAMED[i].0.as_bytes());
                blocks.push(B::Sec { name, ch: NAMED[i].1, named: Some(i), vsize, data: r.bytes(len), how: r.u8() });
            }
            4..=6 => {
                let mut name = [0; 8];
                let s = r.ident(8);
                name[..s.len()].copy_from_slice(s.as_bytes());
                let len = if r.one_in(4) { 0 } else { r.idx(3000) };
                let vsize = if r.one_in(8) { 1 + r.below(0x2_0000) as u32 } else { 1 + r.idx(3000) as u32 };
                let ch = (*r.pick(&[0x20u32, 0x40, 0x80, 0, 0x60, 0xc0, 0xe0, 0xa0]) | r.edgy(32) as u32 & !0xe0) as u32;
                blocks.push(B::Sec { name, ch, named: None, vsize, data: r.bytes(len), how: r.u8() });
            }
            7 => blocks.push(B::Address(r.below(0x8000) as u32)),
            8 => {
                let n = r.idx(300);
                blocks.push(B::Extra(r.bytes(n), if r.bool() { 1 << fb } else { 1 << r.idx(10) }));
            }
            _ => blocks.push(B::Until(r.below(700) as u32)),
        }
    }
    let mut relocs = vec![];
    if ndirs > 5 && r.bool() {
        let mut va = if r.bool() { 0 } else { r.edgy(32) as u32 & 0x3fff_ffff };
        let n = if r.one_in(100) { 5000 } else { 1 + r.idx(20) };
        for _ in 0..n {
            let typ = if r.bool() { *r.pick(&[3u16, 10]) } else { r.below(16) as u16 };
            relocs.push((va, typ, 0));
            va += match r.idx(6) {
                0 => 0,
                1 | 2 => r.below(16) as u32,
                3 => 0x1000,
                4 => r.below(0x1800) as u32,
                _ => 8,
            };
        }
        let at = r.idx(blocks.len() + 1);
        blocks.insert(at, B::Reloc);
        for x in &mut relocs {
            x.2 = r.idx(at + 1);
        }
        relocs.sort_by_key(|x| x.2);
        let mut v: Vec<u32> = relocs.iter().map(|x| x.0).collect();
        v.sort();
        for (x, v) in relocs.iter_mut().zip(v) {
            x.0 = v;
        }
    }
    if ndirs > 4 && r.one_in(4) {
        let n = r.idx(300);
        blocks.push(B::Cert(r.bytes(n)));
    }
    let mut dirs = vec![];
    for i in 0..ndirs {
        if !used.contains(&i) && r.bool() {
            for _ in 0..1 + r.idx(2) {
                dirs.push((i, r.edgy(32) as u32, r.edgy(32) as u32, r.idx(blocks.len() + 1)));
            }
        }
    }
    dirs.sort_by_key(|d| d.3);
    let mut nt = [0; 19];
    let bits = [16, 32, 16, 8, 8, 32, 64, 16, 16, 16, 16, 16, 16, 16, 16, 64, 64, 64, 64];
    for (v, b) in nt.iter_mut().zip(bits) {
        *v = r.edgy(if b == 64 && !is64 { 32 } else { b });
    }
    if r.bool() {
        nt[0] = if is64 { 0x8664 } else { 0x14c };
    }
    Image { is64, sa: 1 << sb, fa: 1 << fb, dos, rich, ndirs, dirs, blocks, relocs, nt }
}
/// What the format says the file must contain.
#[derive(Default)]
struct Model {
    b: Vec<u8>,
    nt_at: u64,
    /// Address, size, offset and size of each section.
    secs: Vec<[u32; 4]>,
    /// The name, flags and data.
    info: Vec<([u8; 8], u32, Vec<u8>)>,
    dirs: Vec<(u32, u32)>,
    /// Position after the block, and address.
    ends: Vec<(u64, u32)>,
    start: (u64, u32),
    names: Vec<(u64, &'static str)>,
    image: u32,
    headers: u32,
    code: u32,
    data: u32,
    bss: u32,
    code_at: u32,
    data_at: u32,
    reloc_block: Vec<u8>,
}
fn model(p: &Image) -> Model {
    let mut m = Model { dirs: vec![(0, 0); p.ndirs], ..Model::default() };
    let nsec = p.blocks.iter().filter(|b| matches!(b, B::Sec { .. } | B::Reloc)).count() as u32;
    let (sa, fa) = (p.sa as u64, p.fa as u64);
    let mut at = 64u64;
    if let Dos::Stub = p.dos {
        at += 64;
    }
    if let Dos::Custom(_, s) = &p.dos {
        at += s.len() as u64;
    }
    let mut rich_at = 0;
    if let Some((d, a)) = &p.rich {
        rich_at = up(at, *a as u64);
        at = rich_at + d.len() as u64;
    }
    m.nt_at = up(at, 8);
    let opt = if p.is64 { 112 } else { 96 } + 8 * p.ndirs as u64;
    let sec_at = m.nt_at + 24 + opt;
    at = up(sec_at + 40 * nsec as u64, fa);
    m.headers = at as u32;
    let mut va = up(at, sa);
    m.start = (at, va as u32);
    let mut body = W::new(false, false);
    body.zeros(at as usize);
    // The blocks of base relocations, of 4 KiB each, with an even number of entries.
    let mut pages: Vec<(u32, Vec<u16>)> = vec![];
    for (a, t, _) in &p.relocs {
        if pages.last().is_none_or(|x| x.0 != a & !0xfff) {
            pages.push((a & !0xfff, vec![]));
        }
        pages.last_mut().unwrap().1.push(t << 12 | (a & 0xfff) as u16);
    }
    let mut w = W::new(false, false);
    for (a, v) in &mut pages {
        if v.len() % 2 == 1 {
            v.push(0);
        }
        w.u32(*a).u32(8 + 2 * v.len() as u32);
        for x in v {
            w.u16(*x);
        }
    }
    m.reloc_block = w.b;
    let mut di = 0;
    let set = |m: &mut Model, di: &mut usize, upto: usize| {
        while *di < p.dirs.len() && p.dirs[*di].3 <= upto {
            let d = p.dirs[*di];
            m.dirs[d.0] = (d.1, d.2);
            *di += 1;
        }
    };
    for (bi, b) in p.blocks.iter().enumerate() {
        set(&mut m, &mut di, bi);
        let reloc;
        match b {
            B::Sec { .. } | B::Reloc => {
                let (name, ch, dir, vsize, data) = match b {
                    B::Sec { name, ch, named, vsize, data, .. } => (*name, *ch, named.and_then(|i| NAMED[i].2), *vsize, data),
                    _ => {
                        reloc = m.reloc_block.clone();
                        (*b".reloc\0\0", 0x4200_0040, Some(5), reloc.len() as u32, &reloc)
                    }
                };
                let fsize = up(data.len() as u64, fa);
                let mut off = 0;
                if fsize > 0 {
                    body.align(fa as usize);
                    off = body.len() as u32;
                    m.names.push((off as u64, "the data of a section"));
                    body.put(data).align(fa as usize);
                }
                m.secs.push([va as u32, vsize, off, fsize as u32]);
                m.info.push((name, ch, data.clone()));
                let part = up(vsize as u64, fa) as u32;
                if ch & 0x20 != 0 {
                    m.code += part;
                    if m.code_at == 0 {
                        m.code_at = va as u32;
                    }
                } else if ch & 0xc0 != 0 {
                    *(if ch & 0x40 != 0 { &mut m.data } else { &mut m.bss }) += part;
                    if m.data_at == 0 {
                        m.data_at = va as u32;
                    }
                }
                if let Some(d) = dir {
                    m.dirs[d] = (va as u32, vsize);
                }
                va = up(va + vsize as u64, sa);
            }
            B::Address(d) => va = up(va + *d as u64, sa),
            B::Extra(d, a) => {
                if !d.is_empty() {
                    body.align(*a as usize);
                    m.names.push((body.len() as u64, "extra data"));
                    body.put(d);
                }
            }
            B::Until(d) => {
                body.zeros(*d as usize);
            }
            B::Cert(d) => {
                let n = up(d.len() as u64, 8);
                if n > 0 {
                    body.align(8);
                }
                m.dirs[4] = (body.len() as u32, n as u32);
                m.names.push((body.len() as u64, "the certificates"));
                body.put(d).zeros(n as usize - d.len());
            }
        }
        m.ends.push((body.len() as u64, va as u32));
    }
    set(&mut m, &mut di, usize::MAX);
    m.image = va as u32;
    // The headers.
    let mut w = W::new(false, false);
    match &p.dos {
        Dos::Custom(h, s) => {
            w.put(h).u32(m.nt_at as u32).put(s);
        }
        Dos::Empty => {
            w.put(b"MZ").zeros(58).u32(m.nt_at as u32);
        }
        Dos::Stub => {
            // The program that says that the file needs Windows.
            for v in [0x5a4d, 0x90, 3, 0, 4, 0, 0xffff, 0, 0xb8, 0, 0, 0, 0x40, 0] {
                w.u16(v);
            }
            w.zeros(32).u32(m.nt_at as u32);
            w.put(b"\x0e\x1f\xba\x0e\0\xb4\x09\xcd\x21\xb8\x01\x4c\xcd\x21This program cannot be run in DOS mode.\r\r\n$").zeros(7);
        }
    }
    if let Some((d, _)) = &p.rich {
        w.zeros(rich_at as usize - w.len());
        w.put(d);
    }
    w.zeros(m.nt_at as usize - w.len());
    let n = &p.nt;
    w.put(b"PE\0\0").u16(n[0] as u16).u16(nsec as u16).u32(n[1] as u32).u32(0).u32(0).u16(opt as u16).u16(n[2] as u16);
    w.u16(if p.is64 { 0x20b } else { 0x10b }).u8(n[3] as u8).u8(n[4] as u8).u32(m.code).u32(m.data).u32(m.bss).u32(n[5] as u32).u32(m.code_at);
    if !p.is64 {
        w.u32(m.data_at);
    }
    let word = if p.is64 { 8 } else { 4 };
    w.n(n[6], word).u32(p.sa).u32(p.fa);
    for v in &n[7..13] {
        w.u16(*v as u16);
    }
    w.u32(0).u32(m.image).u32(m.headers).u32(0).u16(n[13] as u16).u16(n[14] as u16);
    for v in &n[15..19] {
        w.n(*v, word);
    }
    w.u32(0).u32(p.ndirs as u32);
    for d in &m.dirs {
        w.u32(d.0).u32(d.1);
    }
    for (s, i) in m.secs.iter().zip(&m.info) {
        w.put(&i.0).u32(s[1]).u32(s[0]).u32(s[3]).u32(s[2]).zeros(12).u32(i.1);
    }
    m.names.extend([(0, "the DOS header"), (m.nt_at, "the file header"), (m.nt_at + 24, "the optional header"), (sec_at - 8 * p.ndirs as u64, "the data directories"), (sec_at, "the section headers"), (sec_at + 40 * nsec as u64, "the padding of the headers")]);
    m.names.sort();
    m.b = body.b;
    m.b[..w.len()].copy_from_slice(&w.b);
    m
}
fn pe_run(p: &Image, m: &Model, buf: &mut dyn WritableBuffer, o: &mut Obs) -> Res {
    let mut w = wp::Writer::new(p.is64, p.sa, p.fa, buf);
    match &p.dos {
        Dos::Stub => w.reserve_dos_header_and_stub(),
        Dos::Empty => w.reserve_dos_header(),
        Dos::Custom(_, s) => {
            w.reserve_dos_header();
            same!(w.reserve(s.len() as u32, 1), 64, "offset of the stub");
        }
    }
    if let Some((d, a)) = &p.rich {
        let at = up(w.reserved_len(), *a as u64);
        same!(w.reserve(d.len() as u32, *a) as u64, at, "offset of a block between the headers");
    }
    w.reserve_nt_headers(p.ndirs);
    same!(w.nt_headers_offset() as u64, m.nt_at, "offset of the NT headers");
    w.reserve_section_headers(m.secs.len() as u16);
    same!((w.reserved_len(), w.virtual_len()), m.start, "file and address reserved after the headers");
    let (mut si, mut di, mut ri) = (0, 0, 0);
    let mut extra = vec![];
    let mut at = m.start;
    for (bi, b) in p.blocks.iter().enumerate() {
        while di < p.dirs.len() && p.dirs[di].3 <= bi {
            w.set_data_directory(p.dirs[di].0, p.dirs[di].1, p.dirs[di].2);
            di += 1;
        }
        while ri < p.relocs.len() && p.relocs[ri].2 <= bi {
            same!(w.has_relocs(), ri > 0, "has_relocs");
            w.add_reloc(p.relocs[ri].0, pe::BaseRelocationType(p.relocs[ri].1));
            ri += 1;
        }
        let range = match b {
            B::Sec { name, ch, named, vsize, data, .. } => {
                let n = data.len() as u32;
                Some(match named {
                    None => w.reserve_section(*name, pe::SectionFlags(*ch), *vsize, n),
                    Some(0) => w.reserve_text_section(n),
                    Some(1) => w.reserve_rdata_section(n),
                    Some(2) => w.reserve_bss_section(*vsize),
                    Some(3) => w.reserve_idata_section(n),
                    Some(4) => w.reserve_edata_section(n),
                    Some(5) => w.reserve_pdata_section(n),
                    Some(6) => w.reserve_xdata_section(n),
                    Some(7) => w.reserve_rsrc_section(n),
                    _ => w.reserve_data_section(*vsize, n),
                })
            }
            B::Reloc => {
                ensure!(w.has_relocs(), "has_relocs");
                Some(w.reserve_reloc_section())
            }
            B::Address(d) => {
                if d % 2 == 0 {
                    w.reserve_virtual_until(at.1 + d);
                } else {
                    same!(w.reserve_virtual(*d), at.1, "reserved address");
                }
                None
            }
            B::Extra(d, a) => {
                let got = if *a == p.fa && d.len() % 2 == 0 { w.reserve_file(d.len() as u32) } else { w.reserve(d.len() as u32, *a) };
                let want = if d.is_empty() { at.0 } else { up(at.0, *a as u64) };
                same!(got as u64, want, "offset of extra data");
                extra.push(got);
                None
            }
            B::Until(d) => {
                w.reserve_until(at.0 as u32 + d);
                None
            }
            B::Cert(d) => {
                w.reserve_certificate_table(d.len() as u32);
                None
            }
        };
        if let Some(g) = range {
            same!([g.virtual_address, g.virtual_size, g.file_offset, g.file_size], m.secs[si], "range of section {si}");
            si += 1;
        }
        at = m.ends[bi];
        same!((w.reserved_len(), w.virtual_len()), at, "file and address reserved after {b:?}");
    }
    for d in &p.dirs[di..] {
        w.set_data_directory(d.0, d.1, d.2);
    }
    match &p.dos {
        Dos::Stub => okay!(w.write_dos_header_and_stub(), "write"),
        Dos::Empty => okay!(w.write_empty_dos_header(), "write"),
        Dos::Custom(h, s) => {
            let mut h = h.clone();
            h.extend((w.nt_headers_offset()).to_le_bytes());
            let (h, _) = object::pod::from_bytes::<pe::ImageDosHeader>(&h).unwrap();
            okay!(w.write_custom_dos_header(h), "write");
            w.write(s);
        }
    }
    if let Some((d, a)) = &p.rich {
        w.write_align(*a);
        w.write(d);
    }
    let n = &p.nt;
    w.write_nt_headers(wp::NtHeaders {
        machine: pe::Machine(n[0] as u16),
        time_date_stamp: n[1] as u32,
        characteristics: pe::FileFlags(n[2] as u16),
        major_linker_version: n[3] as u8,
        minor_linker_version: n[4] as u8,
        address_of_entry_point: n[5] as u32,
        image_base: n[6],
        major_operating_system_version: n[7] as u16,
        minor_operating_system_version: n[8] as u16,
        major_image_version: n[9] as u16,
        minor_image_version: n[10] as u16,
        major_subsystem_version: n[11] as u16,
        minor_subsystem_version: n[12] as u16,
        subsystem: pe::Subsystem(n[13] as u16),
        dll_characteristics: pe::DllFlags(n[14] as u16),
        size_of_stack_reserve: n[15],
        size_of_stack_commit: n[16],
        size_of_heap_reserve: n[17],
        size_of_heap_commit: n[18],
    });
    w.write_section_headers();
    // Sections begin at the end of the padded headers.
    if p.nt[1] % 2 == 0 {
        w.pad_until(m.headers);
    } else {
        w.write_file_align();
    }
    same!(w.len(), m.start.0, "length of the headers");
    let (mut si, mut ei) = (0, 0);
    for (bi, b) in p.blocks.iter().enumerate() {
        match b {
            B::Sec { data, how, .. } => {
                let at = m.secs[si][2];
                if how % 3 == 0 && !data.is_empty() {
                    w.pad_until(at);
                    let k = *how as usize * data.len() / 256;
                    w.write(&data[..k]);
                    w.write(&data[k..]);
                    w.write_file_align();
                } else {
                    w.write_section(at, data);
                }
                si += 1;
            }
            B::Reloc => {
                w.write_reloc_section();
                si += 1;
            }
            B::Address(_) => {}
            B::Extra(d, _) => {
                w.pad_until(extra[ei]);
                w.write(d);
                ei += 1;
            }
            B::Until(_) => w.pad_until(m.ends[bi].0 as u32),
            B::Cert(d) => w.write_certificate_table(d),
        }
        same!(w.len(), m.ends[bi].0, "length after {}", vcore::short(&format!("{b:?}")));
    }
    same!(w.len(), w.reserved_len(), "lengths reserved and written");
    o.add("calls", p.blocks.len() as u64);
    Ok(())
}
fn pe_read<N: ImageNtHeaders>(p: &Image, m: &Model, b: &[u8], o: &mut Obs) -> Res {
    let f = okay!(PeFile::<N, &[u8]>::parse(b), "the reader refuses the image");
    let h = f.nt_headers().optional_header();
    same!((h.size_of_image(), h.size_of_headers(), h.size_of_code()), (m.image, m.headers, m.code), "sizes read");
    same!((h.size_of_initialized_data(), h.size_of_uninitialized_data(), h.base_of_code()), (m.data, m.bss, m.code_at), "sizes of data read");
    same!((h.image_base(), h.address_of_entry_point(), h.section_alignment(), h.file_alignment()), (p.nt[6], p.nt[5] as u32, p.sa, p.fa), "fields read");
    let dirs: Vec<(u32, u32)> = f.data_directories().iter().map(|d| (d.virtual_address.get(LE), d.size.get(LE))).collect();
    same!(dirs, m.dirs, "data directories read");
    for (i, s) in f.sections().enumerate() {
        same!((s.address(), s.size()), (p.nt[6].wrapping_add(m.secs[i][0] as u64), m.secs[i][1] as u64), "address and size of section {i} read");
        let d = okay!(s.data(), "data of section {i}");
        let mut want = m.info[i].2.clone();
        want.resize(m.secs[i][3] as usize, 0);
        want.truncate(m.secs[i][1] as usize);
        ensure!(d == want, "the data of section {i} reads differently");
        o.hit("sections read");
    }
    if !p.relocs.is_empty() {
        let mut it = some!(okay!(f.data_directories().relocation_blocks(b, &f.section_table()), "relocations"), "no relocations");
        let mut got = vec![];
        while let Some(k) = okay!(it.next(), "a block of relocations") {
            got.extend(k.map(|x| (x.virtual_address, x.typ.0)));
        }
        // Padding is of type 0.
        let mut want: Vec<_> = p.relocs.iter().map(|x| (x.0, x.1)).collect();
        want.retain(|x| x.1 != 0);
        got.retain(|x| x.1 != 0);
        same!(got, want, "relocations read");
        o.hit("relocations read");
    }
    Ok(())
}
fn pe_part(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let p = image(r);
    let m = model(&p);
    let mut rec = Rec::default();
    pe_run(&p, &m, &mut rec, o)?;
    o.input(&format!("{case}.exe"), &rec.b);
    equal(&rec.b, &m.b, &m.names)?;
    same!(rec.reserved, vec![m.b.len() as u64], "sizes given to WritableBuffer::reserve");
    if p.is64 { pe_read::<pe::ImageNtHeaders64>(&p, &m, &rec.b, o)? } else { pe_read::<pe::ImageNtHeaders32>(&p, &m, &rec.b, o)? }
    o.hit(if p.is64 { "PE32+" } else { "PE32" });
    o.hit(if p.sa >= 4096 { "pages" } else { "small alignments" });
    if p.blocks.iter().any(|b| matches!(b, B::Cert(_))) {
        o.hit("certificates");
    }
    o.nontrivial(hash(&rec.b));
    Ok(())
}
/// An image made of the sections of a real one.
fn copy_part(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let all: Vec<_> = checks::inputs::corpus().iter().filter(|f| f.0.ends_with(".exe") || f.0.ends_with(".dll")).filter(|f| f.1.starts_with(b"MZ")).collect();
    ensure!(!all.is_empty(), "no PE files in the corpus");
    let f = all[case as usize % all.len()];
    let rd = Rd { b: &f.1, be: false, is64: false };
    let nt = rd.n(60, 4).unwrap() as u64;
    let (nsec, opt) = (rd.n(nt + 6, 2).unwrap() as u64, rd.n(nt + 20, 2).unwrap() as u64);
    let is64 = rd.n(nt + 24, 2).unwrap() == 0x20b;
    let x = nt + 24;
    let word = |a: u64| if is64 { rd.n(a, 8).unwrap() } else { rd.n(a, 4).unwrap() };
    let d = x + if is64 { 112 } else { 96 };
    let ndirs = rd.n(d - 4, 4).unwrap() as usize;
    let st = x + if is64 { 80 } else { 76 } - 8;
    let ws = if is64 { 8 } else { 4 };
    let mut n = [rd.n(nt + 4, 2).unwrap(), rd.n(nt + 8, 4).unwrap(), rd.n(nt + 22, 2).unwrap(), rd.n(x + 2, 1).unwrap(), rd.n(x + 3, 1).unwrap(), rd.n(x + 16, 4).unwrap(), if is64 { rd.n(x + 24, 8).unwrap() } else { rd.n(x + 28, 4).unwrap() }, 0, 0, 0, 0, 0, 0, rd.n(x + 68, 2).unwrap(), rd.n(x + 70, 2).unwrap(), 0, 0, 0, 0];
    for i in 0..6 {
        n[7 + i] = rd.n(x + 40 + 2 * i as u64, 2).unwrap();
    }
    for i in 0..4 {
        n[15 + i] = word(st + i as u64 * ws);
    }
    let mut p = Image { is64, sa: rd.n(x + 32, 4).unwrap() as u32, fa: rd.n(x + 36, 4).unwrap() as u32, dos: Dos::Custom(f.1[..60].to_vec(), f.1[64..nt as usize].to_vec()), rich: None, ndirs, dirs: vec![], blocks: vec![], relocs: vec![], nt: n };
    let mut rdir = (0, 0);
    for i in 0..ndirs {
        let (a, s) = (rd.n(d + 8 * i as u64, 4).unwrap() as u32, rd.n(d + 8 * i as u64 + 4, 4).unwrap() as u32);
        if i == 5 {
            rdir = (a, s);
        } else {
            p.dirs.push((i, a, s, 0));
        }
    }
    let mut nrel = 0;
    for i in 0..nsec {
        let h = x + opt + 40 * i;
        let (vs, va, fs, fo) = (rd.n(h + 8, 4).unwrap(), rd.n(h + 12, 4).unwrap() as u32, rd.n(h + 16, 4).unwrap(), rd.n(h + 20, 4).unwrap());
        if rdir.0 != 0 && va == rdir.0 {
            // The blocks of relocations, anew.
            let end = fo + rdir.1 as u64;
            let mut k = fo;
            while k < end {
                let (page, size) = (rd.n(k, 4).unwrap() as u32, rd.n(k + 4, 4).unwrap());
                for j in (8..size).step_by(2) {
                    let v = rd.n(k + j, 2).unwrap() as u16;
                    if v != 0 {
                        p.relocs.push((page + (v & 0xfff) as u32, v >> 12, 0));
                        nrel += 1;
                    }
                }
                k += size;
            }
            p.blocks.push(B::Reloc);
            continue;
        }
        let mut name = [0; 8];
        name.copy_from_slice(rd.bytes(h, 8).unwrap());
        let mut data = rd.bytes(fo, if fo == 0 { 0 } else { fs }).unwrap().to_vec();
        // The contents may be any others of the same size.
        if r.one_in(3) {
            r.shuffle(&mut data);
        }
        p.blocks.push(B::Sec { name, ch: rd.n(h + 36, 4).unwrap() as u32, named: None, vsize: vs as u32, data, how: r.u8() });
    }
    let m = model(&p);
    let mut rec = Rec::default();
    pe_run(&p, &m, &mut rec, o)?;
    o.input(&f.0, &rec.b);
    equal(&rec.b, &m.b, &m.names)?;
    // The layout is that of the linker.
    let (a, b) = (&f.1[..(x + opt + 40 * nsec) as usize], &rec.b);
    for (at, len, what) in [(nt + 4, 2, "machine"), (x + 32, 8, "alignments"), (x + 56, 8, "sizes of image and headers"), (d, 8 * ndirs as u64, "data directories"), (x + opt, 40 * nsec, "section headers")] {
        let k = at as usize..(at + len) as usize;
        ensure!(a[k.clone()] == b[k.clone()], "the {what} of {} differ: {:02x?} for {:02x?}", f.0, &b[k.clone()], &a[k]);
    }
    if is64 { pe_read::<pe::ImageNtHeaders64>(&p, &m, b, o)? } else { pe_read::<pe::ImageNtHeaders32>(&p, &m, b, o)? }
    o.hit("images copied");
    o.add("relocations copied", nrel);
    o.nontrivial(hash(&rec.b));
    Ok(())
}

// ---------------------------------------------------------------- COFF

#[derive(Clone, Debug)]
enum Aux {
    File(Vec<u8>),
    Section([u64; 6]),
    Weak(u32, u32),
    Raw(Vec<u8>),
}
#[derive(Clone, Debug)]
struct Sy {
    name: Vec<u8>,
    v: [u64; 4],
    aux: Vec<Aux>,
}
#[derive(Clone, Debug)]
struct Se {
    name: Vec<u8>,
    data: Vec<u8>,
    zeros: bool,
    relocs: Vec<[u32; 3]>,
    ch: u32,
    lines: (u32, u16),
    /// Size written in the header when there is no data.
    bss: u32,
}
fn coff_name(r: &mut Rng) -> Vec<u8> {
    match r.idx(12) {
        0 => vec![],
        1 => b"/4".to_vec(),
        2 => b"/".to_vec(),
        3 => b"//AAAAAE".to_vec(),
        4 => format!("/{}", r.ident(20)).into_bytes(),
        5 => r.bytes(8).iter().map(|b| b | 1).collect(),
        6 => r.bytes(9).iter().map(|b| b | 1).collect(),
        _ => r.ident(20).into_bytes(),
    }
}
fn coff_part(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let big = r.one_in(if vcore::thorough() { 300 } else { 2000 });
    let forced = case % 20_000 == 7;
    let huge = forced | r.one_in(if vcore::thorough() { 3000 } else { 10_000 });
    let nsec = if r.one_in(500) { 300 + r.idx(500) } else { r.idx(6) + forced as usize };
    let mut secs = vec![];
    for _ in 0..nsec {
        let nrel = if big && r.bool() { 0xfffd + r.idx(5) } else if r.bool() { 0 } else { r.idx(6) };
        let n = if r.one_in(4) { 0 } else { r.idx(200) };
        let zeros = r.one_in(5);
        secs.push(Se {
            name: coff_name(r),
            data: if zeros { vec![0; n] } else { r.bytes(n) },
            zeros,
            relocs: (0..nrel).map(|_| [r.edgy(32) as u32, r.edgy(32) as u32, r.edgy(16) as u32]).collect(),
            ch: r.edgy(32) as u32 & !0x0100_0000 | if nrel > 0xffff { 0x0100_0000 } else { 0 },
            lines: if r.one_in(4) { (r.edgy(32) as u32, r.edgy(16) as u16) } else { (0, 0) },
            bss: r.edgy(32) as u32,
        });
    }
    let mut syms = vec![];
    let many = r.one_in(50);
    let n = r.idx(if many { 300 } else { 12 });
    for _ in 0..n {
        let mut aux = vec![];
        if r.one_in(3) {
            aux.push(match r.idx(4) {
                0 => {
                    let n = if r.one_in(8) { *r.pick(&[18, 19, 36, 4589, 4590]) } else { 1 + r.idx(50) };
                    Aux::File(r.bytes(n).iter().map(|b| b | 1).collect())
                }
                1 => Aux::Section([r.edgy(32), if r.bool() { r.below(8) } else { r.edgy(32) }, r.edgy(16), r.edgy(32), r.edgy(32), r.edgy(8)]),
                2 => Aux::Weak(r.edgy(32) as u32, r.edgy(32) as u32),
                _ => Aux::Raw(r.bytes(18)),
            });
        }
        syms.push(Sy { name: coff_name(r), v: [r.edgy(32), r.edgy(16), r.edgy(16), if matches!(aux.first(), Some(Aux::File(_))) { 103 } else { r.u8() as u64 }], aux });
    }
    let mut extra_strs: Vec<Vec<u8>> = vec![];
    if huge {
        // Offsets of more than seven digits.
        let n = *r.pick(&[900, 99_990, 999_990, 9_999_900, 10_000_000]);
        extra_strs.push(vec![*r.pick(b"zA"); if forced { 10_000_000 } else { n }]);
    }
    for _ in 0..r.idx(3) {
        extra_strs.push(r.ident(30).into_bytes());
    }
    if huge {
        for s in &mut secs {
            s.name = r.ident(9).into_bytes();
            s.name.resize(9, b'a');
        }
    }
    let fh = wc::FileHeader { machine: pe::Machine(r.edgy(16) as u16), time_date_stamp: r.edgy(32) as u32, characteristics: pe::FileFlags(r.edgy(16) as u16) };
    let extra = if r.one_in(4) {
        let n = r.idx(40);
        Some((r.bytes(n), 1u64 << r.idx(6), r.below(20)))
    } else {
        None
    };
    let relocs_last = r.bool();
    let order_strings = r.bool();
    let mut rec = Rec::default();
    let mut want = W::new(false, false);
    let mut expect_names: Vec<(u64, bool, Vec<u8>)> = vec![];
    let mut marks: Vec<(u64, &str)> = vec![];
    {
        let mut w = wc::Writer::new(&mut rec);
        // Reserve.
        let mut names = vec![];
        let mut snames = vec![];
        if order_strings {
            for s in &extra_strs {
                w.add_string(s);
            }
        }
        for s in &secs {
            names.push(w.add_name(&s.name));
        }
        w.reserve_file_header();
        w.reserve_section_headers(secs.len() as u16);
        same!(w.reserved_len(), 20 + 40 * secs.len() as u64, "reserved length of the headers");
        let mut at = w.reserved_len();
        let mut extra_at = 0;
        if let Some((d, a, gap)) = &extra {
            extra_at = w.reserve(d.len() as u64, *a) as u64;
            same!(extra_at, up(at, *a), "offset of extra data");
            at = extra_at + d.len() as u64 + gap;
            w.reserve_until(at);
        }
        let mut places = vec![];
        let rel = |w: &mut wc::Writer, at: &mut u64, s: &Se| -> Result<u32, String> {
            let n = s.relocs.len() as u64;
            let got = w.reserve_relocations(n as usize);
            let want = if n == 0 { 0 } else { *at as u32 };
            same!(got, want, "offset of relocations");
            *at += 10 * (n + (n > 0xffff) as u64);
            same!(w.reserved_len(), *at, "length reserved after relocations");
            Ok(got)
        };
        for s in &secs {
            let got = w.reserve_section(s.data.len());
            let mut d = 0;
            if !s.data.is_empty() {
                d = up(at, 4);
                at = d + s.data.len() as u64;
            }
            same!((got as u64, w.reserved_len()), (d, at), "offset of a section, and length reserved after it");
            let k = if relocs_last { 0 } else { rel(&mut w, &mut at, s)? };
            places.push((d as u32, k));
        }
        if relocs_last {
            for (s, x) in secs.iter().zip(&mut places) {
                x.1 = rel(&mut w, &mut at, s)?;
            }
        }
        let mut index = 0;
        let mut counts = vec![];
        for s in &syms {
            if r.one_in(10) && s.aux.is_empty() {
                w.reserve_symbol_indices(1);
            } else {
                same!(w.reserve_symbol_index(), index, "symbol index");
            }
            index += 1;
            snames.push(w.add_name(&s.name));
            let mut n = 0;
            for a in &s.aux {
                let (got, need) = match a {
                    Aux::File(d) => (w.reserve_aux_file_name(d), d.len().div_ceil(18)),
                    Aux::Section(_) => (w.reserve_aux_section(), 1),
                    Aux::Weak(..) => (w.reserve_aux_weak_external(), 1),
                    Aux::Raw(_) => {
                        w.reserve_symbol_indices(1);
                        (1, 1)
                    }
                };
                same!(got as usize, need, "auxiliary symbols for {a:?}");
                n += got;
            }
            index += n as u32;
            counts.push(n);
            same!(w.symbol_count(), index, "symbol count");
        }
        if !order_strings {
            for s in &extra_strs {
                w.add_string(s);
            }
        }
        let symtab = at;
        okay!(w.reserve_symtab_strtab(), "reserve_symtab_strtab");
        let total = w.reserved_len();
        let strtab = symtab + 18 * index as u64;
        ensure!(total >= strtab + 4, "no room for the string table");
        // Write.
        okay!(w.write_file_header(fh.clone()), "write_file_header");
        want.u16(fh.machine.0).u16(secs.len() as u16).u32(fh.time_date_stamp).u32(symtab as u32).u32(index).u16(0).u16(fh.characteristics.0);
        marks.push((20, "the section headers"));
        for ((s, n), p) in secs.iter().zip(&names).zip(&places) {
            let size = if s.data.is_empty() { s.bss } else { s.data.len() as u32 };
            w.write_section_header(wc::SectionHeader {
                name: *n,
                size_of_raw_data: size,
                pointer_to_raw_data: p.0,
                pointer_to_relocations: p.1,
                pointer_to_linenumbers: s.lines.0,
                number_of_relocations: s.relocs.len() as u32,
                number_of_linenumbers: s.lines.1,
                characteristics: pe::SectionFlags(s.ch),
            });
            expect_names.push((want.len() as u64, true, s.name.clone()));
            want.zeros(16).u32(size).u32(p.0).u32(p.1).u32(s.lines.0).u16(s.relocs.len().min(0xffff) as u16).u16(s.lines.1).u32(s.ch);
        }
        if let Some((d, a, gap)) = &extra {
            w.write_align(*a);
            w.write(d);
            w.pad_until(extra_at + d.len() as u64 + gap);
            marks.push((want.len() as u64, "extra data"));
            want.align(*a as usize).put(d).zeros(*gap as usize);
        }
        let put_rel = |w: &mut wc::Writer, want: &mut W, s: &Se| {
            let n = s.relocs.len();
            w.write_relocations_count(n);
            if n > 0xffff {
                want.u32(n as u32 + 1).zeros(6);
            }
            for v in &s.relocs {
                w.write_relocation(wc::Relocation { virtual_address: v[0], symbol: v[1], typ: pe::RelocationType(v[2] as u16) });
                want.u32(v[0]).u32(v[1]).u16(v[2] as u16);
            }
        };
        for s in &secs {
            marks.push((want.len() as u64, "a section"));
            if s.zeros {
                w.write_section_zeroes(s.data.len());
            } else if s.data.len() % 3 == 1 {
                w.write_section_align();
                w.write(&s.data);
            } else {
                w.write_section(&s.data);
            }
            if !s.data.is_empty() {
                want.align(4).put(&s.data);
            }
            if !relocs_last {
                put_rel(&mut w, &mut want, s);
            }
            same!(w.len(), want.len() as u64, "length after a section");
        }
        if relocs_last {
            for s in &secs {
                marks.push((want.len() as u64, "relocations"));
                put_rel(&mut w, &mut want, s);
            }
        }
        same!((w.len(), want.len() as u64), (symtab, symtab), "offset of the symbol table");
        for ((s, n), c) in syms.iter().zip(&snames).zip(&counts) {
            marks.push((want.len() as u64, "a symbol"));
            w.write_symbol(wc::Symbol { name: *n, value: s.v[0] as u32, section_number: pe::SymbolSection(if s.v[0] % 2 == 0 { s.v[1] as u16 as i16 as i32 } else { s.v[1] as i32 }), typ: pe::SymbolType(s.v[2] as u16), storage_class: pe::SymbolClass(s.v[3] as u8), number_of_aux_symbols: *c });
            expect_names.push((want.len() as u64, false, s.name.clone()));
            want.zeros(8).u32(s.v[0] as u32).u16(s.v[1] as u16).u16(s.v[2] as u16).u8(s.v[3] as u8).u8(*c);
            for a in &s.aux {
                marks.push((want.len() as u64, "an auxiliary symbol"));
                match a {
                    Aux::File(d) => {
                        w.write_aux_file_name(d, *c);
                        let end = want.len() + 18 * *c as usize;
                        want.put(d);
                        want.zeros(end - want.len());
                    }
                    Aux::Section(v) => {
                        w.write_aux_section(wc::AuxSymbolSection { length: v[0] as u32, number_of_relocations: v[1] as u32, number_of_linenumbers: v[2] as u16, check_sum: v[3] as u32, number: v[4] as u32, selection: pe::ComdatSelection(v[5] as u8) });
                        want.u32(v[0] as u32).u16(v[1].min(0xffff) as u16).u16(v[2] as u16).u32(v[3] as u32).u16(v[4] as u16).u8(v[5] as u8).u8(0).u16((v[4] >> 16) as u16);
                    }
                    Aux::Weak(i, t) => {
                        w.write_aux_weak_external(wc::AuxSymbolWeak { weak_default_sym_index: *i, weak_search_type: pe::WeakExternSearch(*t) });
                        want.u32(*i).u32(*t).zeros(10);
                    }
                    Aux::Raw(d) => {
                        w.write(d);
                        want.put(d);
                    }
                }
            }
            same!(w.len(), want.len() as u64, "length after a symbol");
        }
        same!(w.len(), strtab, "offset of the string table");
        w.write_strtab();
        same!(w.len(), total, "length written and reserved");
        // The string table may be in any order.
        want.u32((total - strtab) as u32);
        marks.push((strtab, "the size of the string table"));
    }
    let b = &rec.b;
    if b.len() < 1 << 20 {
        o.input(&format!("{case}.obj"), b);
    }
    same!(rec.reserved, vec![b.len() as u64], "sizes given to WritableBuffer::reserve");
    let strtab = want.len() - 4;
    let tab = &b[strtab..];
    let mut known: Vec<&[u8]> = extra_strs.iter().map(|x| &x[..]).collect();
    for (at, section, name) in &expect_names {
        let raw: &[u8; 8] = b[*at as usize..][..8].try_into().unwrap();
        let got = if *section {
            okay!(sc::section_name(raw, tab), "name of a section: {raw:02x?}")
        } else if raw[..4] == [0; 4] && raw[4..] != [0; 4] {
            okay!(genf::strict::cstr(tab, u32::from_le_bytes(raw[4..].try_into().unwrap()) as u64), "name of a symbol")
        } else {
            okay!(genf::strict::fixed(raw), "name of a symbol: {raw:02x?}")
        };
        ensure!(&got == name, "name read {:?} for {:?} ({raw:02x?})", vcore::short(&format!("{got:?}")), name);
        if name.len() > 8 || name.starts_with(b"/") {
            known.push(name);
        }
        want.b[*at as usize..][..8].copy_from_slice(raw);
        o.hit(if raw.starts_with(b"//") { "names in base 64" } else if raw[0] == b'/' || raw[..4] == [0; 4] { "long names" } else { "short names" });
    }
    equal(&b[..want.len()], &want.b, &marks)?;
    // Nothing but the strings is in the table.
    known.sort();
    if tab.len() > 4 {
        same!(tab.last(), Some(&0), "last byte of the string table");
        for s in tab[4..tab.len() - 1].split(|c| *c == 0) {
            ensure!(known.binary_search(&s).is_ok(), "string {:?} in the table is none of those added", vcore::short(&format!("{s:?}")));
        }
        o.hit("string tables");
    }
    for s in &extra_strs {
        let mut z = s.clone();
        z.push(0);
        ensure!(huge && s.len() > 500 || tab.windows(z.len()).any(|x| x == z), "string {s:?} isn't in the table");
    }
    // The reader.
    let mut offset = 0;
    let h = okay!(pe::ImageFileHeader::parse(&b[..], &mut offset), "header");
    let st = okay!(h.sections(&b[..], offset), "sections");
    let sy = okay!(h.symbols(&b[..]), "symbols");
    for (i, s) in secs.iter().enumerate() {
        let x = okay!(st.section(object::SectionIndex(i + 1)), "section {i}");
        same!(okay!(x.name(sy.strings()), "section name"), &s.name[..], "section name read");
        if s.relocs.len() != 0xffff || s.ch & 0x0100_0000 == 0 {
            let k = okay!(x.coff_relocations(&b[..]), "relocations");
            let got: Vec<[u32; 3]> = k.iter().map(|x| [x.virtual_address.get(LE), x.symbol_table_index.get(LE), x.typ.get(LE).0 as u32]).collect();
            ensure!(got == s.relocs, "the reader finds other relocations in section {i} ({} for {})", got.len(), s.relocs.len());
        }
        o.hit(if s.relocs.len() > 0xffff { "overflowing relocations" } else { "sections" });
    }
    for ((i, got), s) in sy.iter().zip(&syms) {
        // The name of a file is in the auxiliary symbols.
        if got.has_aux_file_name() {
            if let [Aux::File(d)] = &s.aux[..] {
                same!(okay!(sy.aux_file_name(i, got.number_of_aux_symbols()), "name of a file"), &d[..], "name of a file read");
                o.hit("file names");
            }
            continue;
        }
        same!(okay!(got.name(sy.strings()), "symbol {}", i.0), &s.name[..], "symbol name read");
        o.hit("symbols");
    }
    let _ = CoffFile::<&[u8]>::parse(&b[..]);
    o.nontrivial(hash(b));
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C23",
    rule: "the bytes of the file, built from the format's definition for the arguments of the calls, are the bytes that the writer emitted; every reserve call returns the position the model gives; and the file reads back to the arguments",
    parts: &[
        Part { name: "pe", quick: 400_000, thorough: 5_000_000, run: pe_part },
        Part { name: "copy", quick: 4_000, thorough: 40_000, run: copy_part },
        Part { name: "coff", quick: 400_000, thorough: 5_000_000, run: coff_part },
    ],
    required: &["PE32", "PE32+", "pages", "small alignments", "certificates", "sections read", "relocations read", "images copied", "long names", "short names", "names in base 64", "string tables", "overflowing relocations", "symbols", "file names"],
    tools: &[],
    assumptions: &["sequences of calls that the documentation of the writers allows"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

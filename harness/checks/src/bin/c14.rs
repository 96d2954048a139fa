//! C14: compressed sections decompress to exactly the original bytes.
use genf::elf::{Elf, Sec};
use genf::macho::{Macho, Sect, Segm};
use genf::w::W;
use object::read::*;
use std::borrow::Cow;
use std::io::{Read, Write};
use std::result::Result;
use vcore::*;

fn payload(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => r.below(4),
        2 => r.below(70_000),
        3 => *r.pick(&[32768, 65535, 65536, 131072, 131073, 300_000]),
        _ => r.below(3000),
    } as usize;
    match r.below(4) {
        0 => r.bytes(n),
        1 => vec![r.u8(); n],
        2 => {
            let k = r.range(1, 300) as usize;
            let p = r.bytes(k);
            p.iter().cycle().take(n).copied().collect()
        }
        _ => {
            let words: Vec<Vec<u8>> = (0..20).map(|_| r.ident(12).into_bytes()).collect();
            let mut v = vec![];
            while v.len() < n {
                v.extend(r.pick(&words));
                v.push(b' ');
            }
            v.truncate(n);
            v
        }
    }
}

fn zlib(r: &mut Rng, p: &[u8]) -> Vec<u8> {
    if r.one_in(4) {
        // Stored blocks, split anywhere, with empty ones.
        let mut b = vec![0x78, *r.pick(&[0x01u8, 0x5e, 0x9c, 0xda])];
        let mut at = 0;
        loop {
            let n = (r.below(65536) as usize).min(p.len() - at);
            let last = at + n == p.len() && !r.one_in(3);
            b.push(last as u8);
            b.extend((n as u16).to_le_bytes());
            b.extend((!(n as u16)).to_le_bytes());
            b.extend(&p[at..at + n]);
            at += n;
            if last {
                break;
            }
        }
        let (mut a, mut c) = (1u32, 0u32);
        for x in p {
            a = (a + *x as u32) % 65521;
            c = (c + a) % 65521;
        }
        b.extend((c << 16 | a).to_be_bytes());
        return b;
    }
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(r.below(10) as u32));
    if r.one_in(3) {
        for c in p.chunks(r.range(1, 5000) as usize) {
            e.write_all(c).unwrap();
            if r.one_in(3) {
                e.flush().unwrap();
            }
        }
    } else {
        e.write_all(p).unwrap();
    }
    e.finish().unwrap()
}

/// A frame of raw and run-length blocks, by the format's definition.
fn zstd_frame(r: &mut Rng, p: &[u8]) -> Vec<u8> {
    let mut b = vec![0x28, 0xb5, 0x2f, 0xfd];
    let single = r.bool();
    let n = p.len() as u64;
    // Content size field: flag 0 (absent or one byte), 1 (two bytes, -256), 2, 3.
    let mut flags = vec![2u8, 3];
    if (256..65536 + 256).contains(&n) {
        flags.push(1);
    }
    if !single || n < 256 {
        flags.push(0);
    }
    let fcs = *r.pick(&flags);
    b.push(fcs << 6 | (single as u8) << 5);
    if !single {
        // Window of at least 128 KiB, for blocks of any allowed size.
        b.push((r.range(7, 10) as u8) << 3 | r.below(8) as u8);
    }
    match fcs {
        0 if single => b.push(n as u8),
        0 => {}
        1 => b.extend((n as u16).wrapping_sub(256).to_le_bytes()),
        2 => b.extend((n as u32).to_le_bytes()),
        _ => b.extend(n.to_le_bytes()),
    }
    let mut at = 0;
    loop {
        let k = (r.below(131_072) as usize).min(p.len() - at);
        let (k, rle) = if k > 0 && r.one_in(3) {
            (p[at..at + k].iter().take_while(|c| **c == p[at]).count(), true)
        } else {
            (k, false)
        };
        let last = at + k == p.len() && !r.one_in(3);
        let h = (k as u32) << 3 | (rle as u32) << 1 | last as u32;
        b.extend(&h.to_le_bytes()[..3]);
        if rle {
            b.push(p[at]);
        } else {
            b.extend(&p[at..at + k]);
        }
        at += k;
        if last {
            break;
        }
    }
    b
}
fn zstd(r: &mut Rng, p: &[u8]) -> Vec<u8> {
    use ruzstd::encoding::{CompressionLevel, compress_to_vec};
    match r.below(4) {
        0 => compress_to_vec(p, CompressionLevel::Uncompressed),
        1 => compress_to_vec(p, CompressionLevel::Fastest),
        2 => zstd_frame(r, p),
        _ => {
            // Several frames, and skippable ones.
            let mut b = vec![];
            let k = r.below(p.len() as u64 + 1) as usize;
            b.extend(zstd_frame(r, &p[..k]));
            if r.bool() {
                let s = r.below(20) as usize;
                b.extend((0x184d2a50u32 + r.below(16) as u32).to_le_bytes());
                b.extend((s as u32).to_le_bytes());
                b.extend(r.bytes(s));
            }
            b.extend(zstd_frame(r, &p[k..]));
            b
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    None,
    Zlib,
    Zstd,
}
impl Kind {
    fn is(self, f: CompressionFormat) -> bool {
        matches!(
            (self, f),
            (Kind::None, CompressionFormat::None) | (Kind::Zlib, CompressionFormat::Zlib) | (Kind::Zstd, CompressionFormat::Zstandard)
        )
    }
}
struct SecM {
    name: Vec<u8>,
    /// Contents of the section in the file.
    body: Vec<u8>,
    /// Length of the compression header.
    skip: usize,
    kind: Kind,
    declared: u64,
    /// Ok: the bytes that must come out. Err(true): the range itself is refused; Err(false): only decompression.
    want: Result<Vec<u8>, bool>,
    elf_flag: bool,
    nobits: bool,
}

/// Damages a stream; returns what an independent decoder makes of it.
fn damage(r: &mut Rng, kind: Kind, stream: &mut Vec<u8>, declared: &mut u64, p: &[u8], o: &mut Obs) -> Result<Vec<u8>, bool> {
    match r.below(5) {
        0 => {
            // Declare another size.
            let d = *r.pick(&[1u64, 1, 2, 100]);
            *declared = if r.bool() || (p.len() as u64) < d { p.len() as u64 + d } else { p.len() as u64 - d };
            o.hit("wrong declared sizes");
            return Err(false);
        }
        1 if !stream.is_empty() => {
            let n = if r.bool() { stream.len() - 1 - r.below(stream.len().min(12) as u64) as usize } else { r.idx(stream.len()) };
            let at = n.min(stream.len() - 1);
            if kind == Kind::Zstd && zstd_ok(&stream[..at]) {
                // A cut between frames leaves a valid stream.
                return Ok(p.to_vec());
            }
            stream.truncate(at);
            o.hit("truncated streams");
            if kind == Kind::Zstd {
                return Err(false);
            }
        }
        2 if kind == Kind::Zlib => {
            for _ in 0..r.range(1, 3) {
                let i = r.idx(stream.len());
                stream[i] ^= 1 << r.below(8);
            }
            o.hit("corrupt streams");
        }
        3 if kind == Kind::Zlib => {
            // Trailing bytes after the end of the stream.
            let n = r.range(1, 20) as usize;
            let b = r.bytes(n);
            stream.extend(b);
        }
        _ if kind == Kind::Zstd => {
            let i = r.idx(4.min(stream.len()));
            stream[i] ^= 0x80 >> r.below(3);
            o.hit("corrupt streams");
            // A magic number within the skippable range is not reachable by these bits.
            return Err(false);
        }
        _ => {
            stream[0] ^= 0x0f;
            o.hit("corrupt streams");
        }
    }
    // The reference: a strict incremental decoder with room to spare, which needs the end of
    // the stream (flate2's readers accept truncated ones).
    let mut out = vec![0; *declared as usize + 64];
    let mut d = flate2::Decompress::new(true);
    loop {
        let (i, n) = (d.total_in() as usize, d.total_out() as usize);
        match d.decompress(&stream[i..], &mut out[n..], flate2::FlushDecompress::None) {
            Ok(flate2::Status::StreamEnd) => break,
            Ok(_) if (d.total_in() as usize, d.total_out() as usize) != (i, n) => {}
            _ => return Err(false),
        }
    }
    if d.total_out() == *declared {
        out.truncate(*declared as usize);
        Ok(out)
    } else {
        Err(false)
    }
}
/// Whether a truncated stream consists of whole frames.
fn zstd_ok(s: &[u8]) -> bool {
    let mut at = 0;
    while at < s.len() {
        let Some(h) = s.get(at..at + 4) else { return false };
        let m = u32::from_le_bytes(h.try_into().unwrap());
        if m & !15 == 0x184d2a50 {
            let Some(h) = s.get(at + 4..at + 8) else { return false };
            at += 8 + u32::from_le_bytes(h.try_into().unwrap()) as usize;
            if at > s.len() {
                return false;
            }
            continue;
        }
        let Some(&d) = s.get(at + 4) else { return false };
        at += 5 + if d & 0x20 == 0 { 1 } else { 0 };
        at += [if d & 0x20 != 0 { 1 } else { 0 }, 2, 4, 8][d as usize >> 6];
        loop {
            let Some(h) = s.get(at..at + 3) else { return false };
            let h = u32::from_le_bytes([h[0], h[1], h[2], 0]);
            at += 3 + if h >> 1 & 3 == 1 { 1 } else { (h >> 3) as usize };
            if at > s.len() {
                return false;
            }
            if h & 1 != 0 {
                break;
            }
        }
        if d & 4 != 0 {
            at += 4;
            if at > s.len() {
                return false;
            }
        }
    }
    true
}

fn sec(r: &mut Rng, elf: Option<(bool, bool)>, i: usize, o: &mut Obs) -> SecM {
    let p = payload(r);
    let gnu = elf.is_none() || r.one_in(3);
    let kind = *r.pick(&[Kind::None, Kind::Zlib, Kind::Zlib, if gnu { Kind::Zlib } else { Kind::Zstd }, if gnu { Kind::Zlib } else { Kind::Zstd }]);
    let zname = if elf.is_some() { format!(".zdebug_s{i}") } else { format!("__zdebug_s{i}") }.into_bytes();
    let pname = if elf.is_some() { format!("{}{i}", *r.pick(&[".debug_s", ".text", ".zdebug", ".data.zdebug_"])) } else { format!("__debug_s{i}") }.into_bytes();
    let mut m = SecM { name: pname, body: vec![], skip: 0, kind, declared: p.len() as u64, want: Ok(p.clone()), elf_flag: false, nobits: false };
    if kind == Kind::None {
        m.body = p.clone();
        // Contents that only look compressed.
        if r.one_in(4) {
            m.body = b"ZLIB\0\0\0\0\0\0\0\x10".to_vec();
            m.body.extend(zlib(r, &p));
            m.want = Ok(m.body.clone());
        }
        m.declared = m.body.len() as u64;
        return m;
    }
    let mut s = if kind == Kind::Zlib { zlib(r, &p) } else { zstd(r, &p) };
    if r.one_in(3) {
        m.want = damage(r, kind, &mut s, &mut m.declared, &p, o);
    }
    if gnu {
        let mut b = b"ZLIB".to_vec();
        b.extend(m.declared.to_be_bytes());
        m.skip = 12;
        m.name = zname;
        match r.below(12) {
            0 => {
                let i = r.idx(8);
                b[i] ^= 1 << r.below(7);
                m.want = Err(true);
                o.hit("bad headers");
            }
            1 => {
                b.truncate(r.idx(12));
                s.clear();
                m.want = Err(true);
                o.hit("bad headers");
            }
            _ => {}
        }
        b.extend(s);
        m.body = b;
    } else {
        let (is64, be) = elf.unwrap();
        m.elf_flag = true;
        if r.one_in(5) {
            // The flag decides, whatever the name.
            m.name = zname;
        }
        let mut w = W::new(be, is64);
        let mut ty = if kind == Kind::Zlib { 1u32 } else { 2 };
        let bad = r.below(12);
        if bad == 0 {
            ty = *r.pick(&[0u32, 3, 0x0100_0000, 0x0200_0000, 0x6000_0000, 0x7000_0001]);
        }
        w.u32(ty);
        if is64 {
            w.u32(r.below(2) as u32 * 0xdead);
        }
        w.word(m.declared).word(*r.pick(&[1u64, 8, 0, 3]));
        m.skip = w.len();
        match bad {
            0 => m.want = Err(true),
            1 => {
                m.nobits = true;
                m.want = Err(true);
            }
            2 => {
                w.b.truncate(r.idx(m.skip));
                s.clear();
                m.want = Err(true);
            }
            _ => {}
        }
        if bad < 3 {
            o.hit("bad headers");
        }
        w.put(&s);
        m.body = w.b;
    }
    m
}

fn check<'d, S: ObjectSection<'d>>(s: &S, m: &SecM, offset: u64, data: &'d [u8], o: &mut Obs) -> Res {
    let ctx = format!("{:?} section {} declared {}", m.kind, String::from_utf8_lossy(&m.name), m.declared);
    if !m.nobits {
        same!(okay!(s.data(), "raw data"), &m.body[..], "{ctx}: raw data");
    }
    let range = s.compressed_file_range();
    if m.want == Err(true) {
        ensure!(range.is_err(), "{ctx}: bad header accepted by compressed_file_range");
        ensure!(s.compressed_data().is_err(), "{ctx}: bad header accepted by compressed_data");
        ensure!(s.uncompressed_data().is_err(), "{ctx}: bad header accepted by uncompressed_data");
        return Ok(());
    }
    let range = okay!(range, "{ctx}: compressed_file_range");
    let n = (m.body.len() - m.skip) as u64;
    ensure!(m.kind.is(range.format), "{ctx}: format {:?}", range.format);
    same!((range.offset, range.compressed_size, range.uncompressed_size), (offset + m.skip as u64, n, m.declared), "{ctx}: range");
    let c = okay!(s.compressed_data(), "{ctx}: compressed_data");
    ensure!(m.kind.is(c.format), "{ctx}: format {:?}", c.format);
    same!(c.data, &m.body[m.skip..], "{ctx}: compressed bytes");
    same!(c.uncompressed_size, m.declared, "{ctx}: uncompressed size");
    same!(okay!(range.data(data), "{ctx}: range data"), c, "{ctx}: range data");
    let mark = mem_mark();
    let got = c.decompress();
    let peak = mem_peak_since(mark);
    ensure!(peak <= m.declared + (64 << 20), "{ctx}: {peak} bytes allocated to decompress {} bytes", m.declared);
    match &m.want {
        Ok(w) => {
            let got = okay!(got, "{ctx}: decompress");
            ensure!(got[..] == w[..], "{ctx}: decompressed bytes differ: {} bytes {:?}", got.len(), &got[..got.len().min(16)]);
            if m.kind == Kind::None {
                ensure!(matches!(got, Cow::Borrowed(_)), "{ctx}: uncompressed data was copied");
            }
            let got = okay!(s.uncompressed_data(), "{ctx}: uncompressed_data");
            ensure!(got[..] == w[..], "{ctx}: uncompressed_data differs");
            o.hit(match m.kind {
                Kind::None => "plain sections",
                Kind::Zlib if m.elf_flag => "ELF zlib sections",
                Kind::Zlib => "GNU zlib sections",
                Kind::Zstd => "ELF zstd sections",
            });
            o.add("decompressed bytes", w.len() as u64);
        }
        Err(_) => {
            ensure!(got.is_err(), "{ctx}: bad stream of {n} bytes accepted");
            ensure!(s.uncompressed_data().is_err(), "{ctx}: bad stream accepted by uncompressed_data");
            o.hit("rejected streams");
        }
    }
    Ok(())
}

fn elf(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (is64, be) = (r.bool(), r.bool());
    let mut e = Elf { is64, be, machine: 62, etype: 1, ..Default::default() };
    let mut ms = vec![];
    for i in 0..r.range(1, 4) as usize {
        let m = sec(r, Some((is64, be)), i, o);
        let mut flags = if m.elf_flag { 0x800 } else { 0 };
        flags |= *r.pick(&[0u64, 0, 0x10, 0x30]);
        e.add(Sec { name: m.name.clone(), ty: if m.nobits { 8 } else { 1 }, flags, data: m.body.clone(), size: if m.nobits { Some(m.body.len() as u64) } else { None }, align: 1, ..Default::default() });
        ms.push(m);
    }
    e.finish_names(r);
    let data = e.build(r, true);
    o.input("file", &data);
    o.nontrivial(hash(&data));
    let file = okay!(File::parse(&data[..]), "parse");
    for (i, m) in ms.iter().enumerate() {
        let s = okay!(file.section_by_index(SectionIndex(i + 1)), "section");
        check(&s, m, e.secs[i + 1].offset, &data, o)?;
        // By the name of the uncompressed section.
        if let Some(rest) = m.name.strip_prefix(b".zdebug_") {
            let n = format!(".debug_{}", String::from_utf8_lossy(rest));
            let f = some!(file.section_by_name(&n), "{n} is found as .zdebug_");
            same!(f.index(), s.index(), "{n}");
        }
    }
    Ok(())
}

fn macho(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (is64, be) = (r.bool(), r.bool());
    let (cpu, be) = match (is64, be) {
        (true, false) => (0x0100_0007, false),
        (true, true) => (0x0100_0012, true),
        (false, false) => (7, false),
        (false, true) => (18, true),
    };
    let mut m = Macho { is64, be, cputype: cpu, filetype: 1, ..Default::default() };
    let ms: Vec<SecM> = (0..r.range(1, 3) as usize).map(|i| sec(r, None, i, o)).collect();
    let mut seg = Segm { name: b"__DWARF".to_vec(), ..Default::default() };
    let mut all = vec![];
    for s in &ms {
        let n = r.below(5) as usize;
        all.extend(r.bytes(n));
        seg.sects.push(Sect { sectname: s.name.clone(), segname: b"__DWARF".to_vec(), size: s.body.len() as u64, at: Some(all.len() as u64), flags: 0x0200_0000, ..Default::default() });
        all.extend(&s.body);
    }
    seg.filesize = all.len() as u64;
    seg.vmsize = seg.filesize;
    seg.blob = m.blob(all, 4);
    let c = m.segment(&seg);
    m.cmds.push(c);
    let data = m.build(r);
    o.input("file", &data);
    o.nontrivial(hash(&data));
    let base = m.offs[seg.blob] as u64;
    let file = okay!(File::parse(&data[..]), "parse");
    for (i, (s, x)) in file.sections().zip(&ms).enumerate() {
        // A section of no bytes has no file range to speak of.
        let at = seg.sects[i].at.unwrap() + base;
        check(&s, x, at, &data, o)?;
        if let Some(rest) = x.name.strip_prefix(b"__zdebug_") {
            let n = format!(".debug_{}", String::from_utf8_lossy(rest));
            let f = some!(file.section_by_name(&n), "{n} is found as __zdebug_");
            same!(f.index(), s.index(), "{n}");
        }
    }
    same!(file.sections().count(), ms.len(), "sections");
    Ok(())
}

/// The stream decoder alone, on many more streams.
fn streams(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let kind = if r.bool() { Kind::Zlib } else { Kind::Zstd };
    let p = payload(r);
    let mut s = if kind == Kind::Zlib { zlib(r, &p) } else { zstd(r, &p) };
    let mut declared = p.len() as u64;
    let mut want: Result<Vec<u8>, bool> = Ok(p.clone());
    if !r.one_in(4) {
        want = damage(r, kind, &mut s, &mut declared, &p, o);
    }
    o.input("stream", &s);
    o.nontrivial(hash(&s));
    let format = if kind == Kind::Zlib { CompressionFormat::Zlib } else { CompressionFormat::Zstandard };
    let c = CompressedData { format, data: &s, uncompressed_size: declared };
    let got = c.decompress();
    match want {
        Ok(w) => {
            let got = okay!(got, "{kind:?} stream of {} bytes for {declared}", s.len());
            ensure!(got[..] == w[..], "{kind:?} stream: wrong bytes");
            o.hit("good streams");
        }
        Err(_) => {
            ensure!(got.is_err(), "{kind:?} stream of {} bytes, declared {declared}, payload {} accepted", s.len(), p.len());
            o.hit("rejected streams");
        }
    }
    // Unknown formats and absurd sizes are errors, not aborts.
    ensure!(CompressedData { format: CompressionFormat::Unknown, data: &s, uncompressed_size: declared }.decompress().is_err(), "unknown format");
    if r.one_in(50) {
        let d = *r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, u64::MAX - 7]);
        ensure!(CompressedData { format, data: &s, uncompressed_size: d }.decompress().is_err(), "declared size {d:#x}");
        o.hit("absurd sizes");
    }
    Ok(())
}

/// Streams from the reference zstd tool.
fn tool(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    use std::process::{Command, Stdio};
    let p = payload(r);
    let level = format!("-{}", *r.pick(&[1, 2, 3, 5, 9, 15, 19]));
    let mut c = Command::new("zstd");
    c.args(["-q", "-c", &level]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if r.bool() {
        c.arg("--no-check");
    }
    if r.one_in(3) {
        c.arg("--long=20");
    }
    let Ok(mut child) = c.spawn() else { return Ok(()) };
    let mut i = child.stdin.take().unwrap();
    let q = p.clone();
    let t = std::thread::spawn(move || i.write_all(&q));
    let mut s = vec![];
    let ok = child.stdout.take().unwrap().read_to_end(&mut s).is_ok();
    let _ = t.join();
    if !child.wait().is_ok_and(|x| x.success()) || !ok || s.is_empty() {
        return Ok(());
    }
    o.input("stream", &s);
    o.nontrivial(hash(&s));
    let c = CompressedData { format: CompressionFormat::Zstandard, data: &s, uncompressed_size: p.len() as u64 };
    let got = okay!(c.decompress(), "zstd {level} of {} bytes", p.len());
    ensure!(got[..] == p[..], "zstd {level}: wrong bytes");
    for n in [1u64, 2, 50] {
        ensure!(CompressedData { uncompressed_size: p.len() as u64 + n, ..c }.decompress().is_err(), "declared size too large by {n}");
        if p.len() as u64 >= n {
            ensure!(CompressedData { uncompressed_size: p.len() as u64 - n, ..c }.decompress().is_err(), "declared size too small by {n}");
        }
    }
    let k = r.idx(s.len());
    if !p.is_empty() {
        ensure!(CompressedData { data: &s[..k], ..c }.decompress().is_err(), "truncated to {k} of {}", s.len());
    }
    o.hit("streams of the zstd tool");
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C14",
    rule: "a file with a section or a stream whose reported compression and decompressed bytes were compared with the payload it was made from, or whose damage had to be refused",
    parts: &[
        Part { name: "elf", quick: 12_000, thorough: 400_000, run: elf },
        Part { name: "macho", quick: 8_000, thorough: 250_000, run: macho },
        Part { name: "streams", quick: 20_000, thorough: 800_000, run: streams },
        Part { name: "tool", quick: 120, thorough: 3000, run: tool },
    ],
    required: &["plain sections", "ELF zlib sections", "GNU zlib sections", "ELF zstd sections", "rejected streams", "bad headers", "wrong declared sizes", "truncated streams", "corrupt streams", "good streams", "absurd sizes"],
    tools: &[],
    assumptions: &["payloads up to 300 kB", "corrupt zlib streams are judged by a strict streaming decoder; zstd frames are damaged only by truncation, wrong magic numbers and wrong declared sizes", "bytes after the end of a zlib stream are allowed"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

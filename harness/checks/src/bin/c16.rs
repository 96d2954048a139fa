//! C16: primitive decoders and encoders against reference models.
use object::endian::{BigEndian, Endian, Endianness, LittleEndian, I16, I32, I64, U16, U32, U64};
use object::pod;
use object::read::{Bytes, ReadRef, StringTable};
use object::write::{CountingBuffer, WritableBuffer, WritableBufferExt};
use vcore::*;

fn be(n: u64, w: usize) -> Vec<u8> {
    (0..w).rev().map(|i| (n >> (8 * i)) as u8).collect()
}
fn le(n: u64, w: usize) -> Vec<u8> {
    (0..w).map(|i| (n >> (8 * i)) as u8).collect()
}
fn enc(big: bool, n: u64, w: usize) -> Vec<u8> {
    if big { be(n, w) } else { le(n, w) }
}

macro_rules! one_int {
    ($e:expr, $big:expr, $v:expr, $U:ident, $ut:ty, $w:expr, $rd:ident, $wr:ident) => {{
        let v = $v as $ut;
        let want = enc($big, v as u64, $w);
        let mut x = $U::new($e, v);
        same!(pod::bytes_of(&x), &want[..], "{}::new bytes", stringify!($U));
        same!(x.get($e), v, "{}::get", stringify!($U));
        x.set($e, !v);
        same!(pod::bytes_of(&x), &enc($big, (!v) as u64, $w)[..], "{}::set", stringify!($U));
        same!(x.get($e), !v, "{}::set get", stringify!($U));
        let arr: [u8; $w] = want[..].try_into().unwrap();
        same!($e.$rd(arr), v, stringify!($rd));
        same!($e.$wr(v), arr, stringify!($wr));
        let (r, t) = okay!(pod::from_bytes::<$U<_, $ut>>(&want), "from_bytes");
        same!(r.get($e), v, "decode {}", stringify!($U));
        ensure!(t.is_empty(), "tail");
    }};
}

fn ints<E: Endian>(e: E, big: bool, v: u64) -> Res {
    one_int!(e, big, v, U16, u16, 2, read_u16, write_u16);
    one_int!(e, big, v, U32, u32, 4, read_u32, write_u32);
    one_int!(e, big, v, U64, u64, 8, read_u64, write_u64);
    one_int!(e, big, v, I16, i16, 2, read_i16, write_i16);
    one_int!(e, big, v, I32, i32, 4, read_i32, write_i32);
    one_int!(e, big, v, I64, i64, 8, read_i64, write_i64);
    same!(U16::<E>::from_bytes(enc(big, v, 2).try_into().unwrap()).get(e), v as u16, "U16::from_bytes");
    same!(U32::<E>::from_bytes(enc(big, v, 4).try_into().unwrap()).get(e), v as u32, "U32::from_bytes");
    same!(U64::<E>::from_bytes(enc(big, v, 8).try_into().unwrap()).get(e), v, "U64::from_bytes");
    same!(I16::<E>::from_bytes(enc(big, v, 2).try_into().unwrap()).get(e), v as i16, "I16::from_bytes");
    same!(I32::<E>::from_bytes(enc(big, v, 4).try_into().unwrap()).get(e), v as i32, "I32::from_bytes");
    same!(I64::<E>::from_bytes(enc(big, v, 8).try_into().unwrap()).get(e), v as i64, "I64::from_bytes");
    // 64-bit view of 32-bit fields.
    let r = U32::<E, u64>::new_u64(e, v);
    same!(r.is_ok(), v <= u32::MAX as u64, "new_u64 ok for {v:#x}");
    if let Ok(x) = r {
        same!(x.get_u64(e), v, "get_u64");
    }
    let mut x = U32::<E, u64>::new_u64_truncate(e, v);
    same!(x.get_u64(e), v & 0xffff_ffff, "new_u64_truncate");
    same!(pod::bytes_of(&x), &enc(big, v, 4)[..], "truncate bytes");
    let before = x.get_u64(e);
    let r = x.set_u64(e, v.rotate_left(32));
    same!(r.is_ok(), v.rotate_left(32) <= u32::MAX as u64, "set_u64");
    same!(x.get_u64(e), if r.is_ok() { v.rotate_left(32) } else { before }, "after set_u64");
    x.set_u64_truncate(e, v >> 3);
    same!(x.get_u64(e), (v >> 3) & 0xffff_ffff, "set_u64_truncate");
    let s = v as i64;
    let fits = i32::try_from(s).is_ok();
    let r = I32::<E, i64>::new_i64(e, s);
    same!(r.is_ok(), fits, "new_i64 ok for {s:#x}");
    if let Ok(x) = r {
        same!(x.get_i64(e), s, "get_i64");
    }
    let mut x = I32::<E, i64>::new_i64_truncate(e, s);
    same!(x.get_i64(e), s as i32 as i64, "new_i64_truncate");
    let r = x.set_i64(e, s >> 20);
    same!(r.is_ok(), i32::try_from(s >> 20).is_ok(), "set_i64");
    if r.is_ok() {
        same!(x.get_i64(e), s >> 20, "after set_i64");
    }
    x.set_i64_truncate(e, !s);
    same!(x.get_i64(e), !s as i32 as i64, "set_i64_truncate");
    same!(e.is_big_endian(), big, "is_big_endian");
    same!(e.is_little_endian(), !big, "is_little_endian");
    // Sinks.
    let mut b = Vec::new();
    b.write_u16(e, v as u16);
    b.write_u32(e, v as u32);
    b.write_u64(e, v);
    let mut want = enc(big, v, 2);
    want.extend(enc(big, v, 4));
    want.extend(enc(big, v, 8));
    same!(b, want, "WritableBufferExt integers");
    Ok(())
}

fn endian(_c: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let v = r.edgy(64);
    o.nontrivial(mix(v));
    o.input("value", &v.to_le_bytes());
    ints(LittleEndian, false, v)?;
    ints(BigEndian, true, v)?;
    ints(Endianness::Little, false, v)?;
    ints(Endianness::Big, true, v)?;
    same!(u16::from(U16::<LittleEndian>::from(v as u16)), v as u16, "From u16 LE");
    same!(u32::from(U32::<BigEndian>::from(v as u32)), v as u32, "From u32 BE");
    same!(u64::from(U64::<BigEndian>::from(v)), v, "From u64 BE");
    same!(i16::from(I16::<BigEndian>::from(v as i16)), v as i16, "From i16 BE");
    same!(i32::from(I32::<LittleEndian>::from(v as i32)), v as i32, "From i32 LE");
    same!(i64::from(I64::<LittleEndian>::from(v as i64)), v as i64, "From i64 LE");
    same!(pod::bytes_of(&U32::<BigEndian>::from(v as u32)), &be(v, 4)[..], "From BE bytes");
    same!(pod::bytes_of(&U32::<LittleEndian>::from(v as u32)), &le(v, 4)[..], "From LE bytes");
    for big in [false, true] {
        same!(Endianness::from_big_endian(big).map(|e| e.is_big_endian()), Some(big), "from_big_endian");
        same!(Endianness::from_little_endian(big).map(|e| e.is_big_endian()), Some(!big), "from_little");
        same!(LittleEndian::from_big_endian(big).is_some(), !big, "LE from_big");
        same!(BigEndian::from_big_endian(big).is_some(), big, "BE from_big");
        same!(LittleEndian::from_little_endian(big).is_some(), big, "LE from_little");
        same!(BigEndian::from_little_endian(big).is_some(), !big, "BE from_little");
    }
    o.hit("endian values");
    o.sample(|| format!("endian round trip of {v:#x} through 4 endian types and 6 widths"));
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Span {
    at: usize,
    len: usize,
}

/// Where a returned slice lies in the buffer, or an error if it is elsewhere.
fn span(buf: &[u8], s: &[u8]) -> Result<Span, String> {
    if s.is_empty() {
        return Ok(Span { at: usize::MAX, len: 0 });
    }
    let (b, p) = (buf.as_ptr() as usize, s.as_ptr() as usize);
    if p < b || p + s.len() > b + buf.len() {
        return Err("slice outside the buffer".into());
    }
    Ok(Span { at: p - b, len: s.len() })
}

fn val<T: pod::Pod>(x: &T) -> &[u8] {
    pod::bytes_of(x)
}

fn cast_t<T: pod::Pod>(buf: &[u8], off: usize, count: usize, o: &mut Obs) -> Res {
    let d = &buf[off..];
    let sz = std::mem::size_of::<T>();
    let al = std::mem::align_of::<T>();
    let aligned = (d.as_ptr() as usize) % al == 0;
    let r = pod::from_bytes::<T>(d);
    same!(r.is_ok(), sz <= d.len() && aligned, "from_bytes size {sz} align {al} of {}", d.len());
    if let Ok((v, t)) = r {
        same!(val(v), &d[..sz], "from_bytes value");
        same!(v as *const T as usize, d.as_ptr() as usize, "from_bytes address");
        same!((t.as_ptr() as usize, t.len()), (d.as_ptr() as usize + sz, d.len() - sz), "from_bytes tail");
        o.hit("pod cast ok");
    } else {
        o.hit("pod cast refused");
    }
    let need = count.checked_mul(sz);
    let fits = need.is_some_and(|n| n <= d.len()) && aligned;
    let r = pod::slice_from_bytes::<T>(d, count);
    same!(r.is_ok(), fits, "slice_from_bytes {count} x {sz} of {}", d.len());
    if let Ok((v, t)) = r {
        same!(v.len(), count, "slice length");
        same!(pod::bytes_of_slice(v), &d[..count * sz], "slice bytes");
        same!(t, &d[count * sz..], "slice tail");
    }
    let r = pod::slice_from_all_bytes::<T>(d);
    same!(r.is_ok(), d.len() % sz == 0 && aligned, "slice_from_all_bytes");
    if let Ok(v) = r {
        same!(pod::bytes_of_slice(v), d, "all bytes");
    }
    // Mutable versions: alignment depends on the copy, so recompute it.
    let mut m = buf.to_vec();
    let dm = &mut m[off..];
    let al_m = (dm.as_ptr() as usize) % al == 0;
    let n = dm.len();
    let copy = dm.to_vec();
    match pod::from_bytes_mut::<T>(dm) {
        Ok((v, t)) => {
            ensure!(sz <= n && al_m, "from_bytes_mut accepted");
            same!(val(v), &copy[..sz], "from_bytes_mut value");
            for b in pod::bytes_of_mut(v) {
                *b = !*b;
            }
            same!(t.len(), n - sz, "from_bytes_mut tail");
            for (i, b) in m[off..].iter().enumerate() {
                same!(*b, if i < sz { !copy[i] } else { copy[i] }, "write through from_bytes_mut");
            }
        }
        Err(()) => ensure!(!(sz <= n && al_m), "from_bytes_mut refused"),
    }
    let mut m = buf.to_vec();
    let dm = &mut m[off..];
    let al_m = (dm.as_ptr() as usize) % al == 0;
    match pod::slice_from_bytes_mut::<T>(dm, count) {
        Ok((v, t)) => {
            ensure!(need.is_some_and(|x| x <= n) && al_m, "slice_from_bytes_mut accepted");
            same!((v.len(), t.len()), (count, n - count * sz), "slice_from_bytes_mut lengths");
            for b in pod::bytes_of_slice_mut(v) {
                *b = !*b;
            }
            for (i, b) in m[off..].iter().enumerate() {
                same!(*b, if i < count * sz { !copy[i] } else { copy[i] }, "write through slice mut");
            }
        }
        Err(()) => ensure!(!(need.is_some_and(|x| x <= n) && al_m), "slice_from_bytes_mut refused"),
    }
    let mut m = buf.to_vec();
    let dm = &mut m[off..];
    let al_m = (dm.as_ptr() as usize) % al == 0;
    match pod::slice_from_all_bytes_mut::<T>(dm) {
        Ok(v) => {
            ensure!(n % sz == 0 && al_m, "slice_from_all_bytes_mut accepted");
            same!(pod::bytes_of_slice(v), &copy[..], "all_bytes_mut");
        }
        Err(()) => ensure!(!(n % sz == 0 && al_m), "slice_from_all_bytes_mut refused"),
    }
    // Bytes and ReadRef wrappers.
    let mut b = Bytes(d);
    let r = b.read::<T>();
    same!(r.is_ok(), sz <= d.len() && aligned, "Bytes::read");
    same!(b.0, if r.is_ok() { &d[sz..] } else { &[][..] }, "Bytes after read");
    let mut b = Bytes(d);
    let r = b.read_slice::<T>(count);
    same!(r.is_ok(), fits, "Bytes::read_slice");
    same!(b.0, if fits { &d[count * sz..] } else { &[][..] }, "Bytes after read_slice");
    let whole = buf;
    let r = Bytes(whole).read_at::<T>(off);
    same!(r.is_ok(), sz <= d.len() && aligned, "Bytes::read_at");
    if let Ok(v) = r {
        same!(val(v), &d[..sz], "Bytes::read_at value");
    }
    let r = Bytes(whole).read_slice_at::<T>(off, count);
    same!(r.is_ok(), fits, "Bytes::read_slice_at");
    if let Ok(v) = r {
        same!(pod::bytes_of_slice(v), &d[..count * sz], "Bytes::read_slice_at value");
    }
    let mut at = off as u64;
    let r = ReadRef::read::<T>(whole, &mut at);
    same!(r.is_ok(), sz <= d.len() && aligned, "ReadRef::read");
    if let Ok(v) = r {
        same!(val(v), &d[..sz], "ReadRef::read value");
        same!(at, (off + sz) as u64, "ReadRef::read offset");
    }
    let r = ReadRef::read_at::<T>(whole, off as u64);
    same!(r.map(|v| val(v).to_vec()).ok(), (sz <= d.len() && aligned).then(|| d[..sz].to_vec()), "ReadRef::read_at");
    // An empty slice may be given at any address for aligned-1 types only when offset is valid.
    if count * 1 > 0 {
        let mut at = off as u64;
        let r = ReadRef::read_slice::<T>(whole, &mut at, count);
        same!(r.is_ok(), fits, "ReadRef::read_slice");
        if let Ok(v) = r {
            same!(pod::bytes_of_slice(v), &d[..count * sz], "ReadRef::read_slice value");
            same!(at, (off + count * sz) as u64, "ReadRef::read_slice offset");
        }
        let r = ReadRef::read_slice_at::<T>(whole, off as u64, count);
        same!(r.is_ok(), fits, "ReadRef::read_slice_at");
    }
    let mut sink = Vec::new();
    if let Ok((v, _)) = pod::from_bytes::<T>(d) {
        sink.write_pod(v);
        same!(&sink[..], &d[..sz], "write_pod");
    }
    if let Ok((v, _)) = pod::slice_from_bytes::<T>(d, count) {
        sink.clear();
        sink.write_pod_slice(v);
        same!(&sink[..], &d[..count * sz], "write_pod_slice");
    }
    Ok(())
}

fn casts(_c: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let n = if r.one_in(4) { r.idx(4) } else { r.idx(80) };
    let buf = r.bytes(n);
    let off = r.idx(n + 1);
    let count = match r.below(6) {
        0 => 0,
        1 => usize::MAX / [1, 2, 4, 8, 16, 3][r.idx(6)],
        2 => (1usize << (usize::BITS - 1)).wrapping_add(r.idx(3)),
        _ => r.idx(12),
    };
    o.nontrivial(hash(&buf) ^ mix(off.wrapping_add(count) as u64));
    o.input("buf", &buf);
    cast_t::<u8>(&buf, off, count, o)?;
    cast_t::<u16>(&buf, off, count, o)?;
    cast_t::<u32>(&buf, off, count, o)?;
    cast_t::<u64>(&buf, off, count, o)?;
    cast_t::<[u8; 3]>(&buf, off, count, o)?;
    cast_t::<U16<LittleEndian>>(&buf, off, count, o)?;
    cast_t::<U64<Endianness>>(&buf, off, count, o)?;
    cast_t::<[U32<BigEndian>; 3]>(&buf, off, count, o)?;
    cast_t::<object::elf::Sym64<Endianness>>(&buf, off, count, o)?;
    cast_t::<object::macho::Nlist32<BigEndian>>(&buf, off, count, o)?;
    cast_t::<object::pe::ImageSymbol>(&buf, off, count, o)?;
    cast_t::<object::xcoff::Symbol64>(&buf, off, count, o)?;
    o.sample(|| format!("pod casts of 12 types over {n} bytes at offset {off}, count {count:#x}"));
    Ok(())
}

/// Reference for `Bytes`: a position into the buffer, or the empty tail.
fn cursor(_c: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let n = r.idx(60);
    let mut buf = r.bytes(n);
    for b in &mut buf {
        if r.one_in(3) {
            *b = *r.pick(&[0, 0, 0x80, 0xff, 0x7f, 1]);
        }
    }
    o.input("buf", &buf);
    o.nontrivial(hash(&buf));
    let mut b = Bytes(&buf);
    let mut pos = 0usize;
    let steps = 1 + r.idx(12);
    for _ in 0..steps {
        o.eval();
        let left = &buf[pos..];
        match r.below(9) {
            0 => {
                let k = if r.one_in(4) { r.edgy(64) as usize } else { r.idx(n + 2) };
                let got = b.skip(k);
                same!(got.is_ok(), k <= left.len(), "skip {k}");
                pos = if got.is_ok() { pos + k } else { n };
            }
            1 => {
                let k = if r.one_in(4) { r.edgy(64) as usize } else { r.idx(n / 2 + 2) };
                let got = b.read_bytes(k);
                same!(got.map(|x| x.0.to_vec()).ok(), left.get(..k).map(|x| x.to_vec()), "read_bytes {k}");
                pos = if got.is_ok() { pos + k } else { n };
            }
            2 => {
                let (k, c) = ((r.edgy(64) >> r.below(64)) as usize, r.idx(n + 2));
                let want = left.get(k..).and_then(|x| x.get(..c));
                let got = b.read_bytes_at(k, c).ok().map(|x| x.0);
                same!(got, want, "read_bytes_at {k} {c}");
            }
            3 => {
                let got = b.read_string();
                let z = left.iter().position(|x| *x == 0);
                same!(got.ok(), z.map(|z| &left[..z]), "read_string");
                pos = z.map_or(n, |z| pos + z + 1);
                o.hit("strings");
            }
            4 => {
                let k = r.idx(n + 3);
                let want = left.get(k..).and_then(|x| x.iter().position(|c| *c == 0).map(|z| &x[..z]));
                same!(b.read_string_at(k).ok(), want, "read_string_at {k}");
            }
            5 | 6 => {
                let (got, want) = (b.read_uleb128(), ref_uleb(left));
                same!(got.ok(), want.map(|x| x.0), "uleb of {left:x?}");
                pos = want.map_or(n, |x| pos + x.1);
                // On error the position is not specified; start afresh.
                if want.is_none() {
                    b = Bytes(&[]);
                    pos = n;
                }
                o.hit("uleb128");
            }
            7 => {
                let (got, want) = (b.read_sleb128(), ref_sleb(left));
                same!(got.ok(), want.map(|x| x.0), "sleb of {left:x?}");
                pos = want.map_or(n, |x| pos + x.1);
                if want.is_none() {
                    b = Bytes(&[]);
                    pos = n;
                }
                o.hit("sleb128");
            }
            _ => {
                let got = b.read::<U16<BigEndian>>();
                let want = left.get(..2).map(|x| u16::from_be_bytes([x[0], x[1]]));
                same!(got.ok().map(|x| x.get(BigEndian)), want, "read u16");
                pos = if want.is_some() { pos + 2 } else { n };
            }
        }
        same!((b.len(), b.is_empty()), (n - pos, n == pos), "remaining");
        same!(b.0, &buf[pos..], "rest");
    }
    o.sample(|| format!("byte cursor, {steps} operations over {buf:02x?}"));
    Ok(())
}

/// ULEB128: value must fit 64 bits and take at most ten bytes.
fn ref_uleb(d: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for (i, &b) in d.iter().enumerate() {
        if i >= 10 {
            return None;
        }
        v |= ((b & 0x7f) as u128) << (7 * i);
        if i == 9 && b > 1 {
            return None;
        }
        if b & 0x80 == 0 {
            return u64::try_from(v).ok().map(|v| (v, i + 1));
        }
    }
    None
}
fn ref_sleb(d: &[u8]) -> Option<(i64, usize)> {
    let mut v: i128 = 0;
    for (i, &b) in d.iter().enumerate() {
        if i >= 10 {
            return None;
        }
        if i == 9 && b != 0 && b != 0x7f {
            return None;
        }
        v |= ((b & 0x7f) as i128) << (7 * i);
        if b & 0x80 == 0 {
            if b & 0x40 != 0 {
                v |= -1i128 << (7 * (i + 1));
            }
            // The tenth byte carries one value bit; the rest must match it.
            return i64::try_from(v).ok().map(|v| (v, i + 1)).or({
                // 0x00 after bit 63 set or 0x7f after it clear cannot happen: bit 63 is its low bit.
                None
            });
        }
    }
    None
}
fn put_uleb(mut v: u64, pad: usize) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            break;
        }
        o.push(b | 0x80);
    }
    while o.len() < pad {
        let l = o.len();
        o[l - 1] |= 0x80;
        o.push(0);
    }
    o
}
fn put_sleb(mut v: i64, pad: usize) -> Vec<u8> {
    let neg = v < 0;
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            break;
        }
        o.push(b | 0x80);
    }
    while o.len() < pad {
        let l = o.len();
        o[l - 1] |= 0x80;
        o.push(if neg { 0x7f } else { 0 });
    }
    o
}

fn leb(_c: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let v = r.edgy(64);
    let pad = 1 + r.idx(10);
    let e = put_uleb(v, pad);
    o.input("uleb", &e);
    o.nontrivial(hash(&e));
    let mut tail = e.clone();
    tail.push(0xaa);
    let mut b = Bytes(&tail);
    same!(b.read_uleb128(), Ok(v), "uleb of {e:x?}");
    same!(b.0, &[0xaa][..], "uleb consumed");
    let s = v as i64 >> r.below(64);
    let e = put_sleb(s, pad);
    o.input("sleb", &e);
    let mut tail = e.clone();
    tail.push(0x55);
    let mut b = Bytes(&tail);
    same!(b.read_sleb128(), Ok(s), "sleb of {e:x?}");
    same!(b.0, &[0x55][..], "sleb consumed");
    for cut in 0..e.len() {
        ensure!(Bytes(&e[..cut]).read_sleb128().is_err(), "truncated sleb accepted");
    }
    // Overlong: eleven bytes or excess bits.
    let mut long = vec![0x80; 10];
    long.push(0);
    ensure!(Bytes(&long).read_uleb128().is_err(), "11-byte uleb accepted");
    ensure!(Bytes(&long).read_sleb128().is_err(), "11-byte sleb accepted");
    let mut big = vec![0xff; 9];
    big.push((2 + r.below(0x7d)) as u8);
    ensure!(Bytes(&big).read_uleb128().is_err(), "uleb over 64 bits accepted {big:x?}");
    ensure!(Bytes(&big).read_sleb128().is_err(), "sleb over 64 bits accepted {big:x?}");
    // The crate's own LEB128 writer, reached through ELF attributes.
    use object::write::elf;
    let name_v = (v >> r.below(64)) as u32 as u64;
    let mut w = vec![];
    {
        let mut aw = elf::AttributesWriter::new(Endianness::Little);
        aw.start_subsection(b"v");
        aw.start_subsubsection(object::elf::AttributeTag(1));
        aw.write_attribute_tag(5);
        aw.write_attribute_integer(v);
        aw.write_attribute_integer(name_v);
        aw.end_subsubsection();
        aw.end_subsection();
        w.extend(aw.data());
    }
    let mut want = put_uleb(5, 0);
    want.extend(put_uleb(v, 0));
    want.extend(put_uleb(name_v, 0));
    ensure!(w.ends_with(&want), "uleb128 writer: {w:x?} should end with {want:x?}");
    o.hit("leb128 values");
    o.sample(|| format!("LEB128 of {v:#x} / {s} padded to {pad} bytes"));
    Ok(())
}

fn strings(_c: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let n = r.idx(64);
    let mut buf = r.bytes(n);
    for b in &mut buf {
        if r.one_in(4) {
            *b = 0;
        }
    }
    o.input("buf", &buf);
    o.nontrivial(hash(&buf));
    let start = if r.one_in(8) { r.edgy(64) } else { r.below(n as u64 + 3) };
    let end = if r.one_in(8) { r.edgy(64) } else { start.saturating_add(r.below(n as u64 + 3)) };
    let t = StringTable::new(&buf[..], start, end);
    for i in 0..24 {
        o.eval();
        let off = if i < 16 { r.below(n as u64 + 4) as u32 } else { r.edgy(32) as u32 };
        let want = (|| {
            let s = start.checked_add(off as u64)?;
            let b = buf.get(usize::try_from(s).ok()?..usize::try_from(end).ok()?)?;
            let z = b.iter().position(|c| *c == 0)?;
            Some(&b[..z])
        })();
        let got = t.get(off).ok();
        same!(got, want, "StringTable {start}..{end} get {off}");
        if let Some(g) = got {
            o.hit("string table hits");
            if !g.is_empty() {
                let sp = span(&buf, g)?;
                same!(sp.at as u64, start + off as u64, "string position");
            }
        }
    }
    ensure!(StringTable::<&[u8]>::default().get(0).is_err(), "default table");
    // ReadRef on slices.
    for _ in 0..16 {
        let a = if r.one_in(6) { r.edgy(64) } else { r.below(n as u64 + 4) };
        let c = if r.one_in(6) { r.edgy(64) } else { r.below(n as u64 + 4) };
        let d: &[u8] = &buf;
        same!(ReadRef::len(d), Ok(n as u64), "len");
        let want = if c == 0 {
            Some(&[][..])
        } else {
            usize::try_from(a).ok().and_then(|a| buf.get(a..)).and_then(|x| x.get(..usize::try_from(c).ok()?))
        };
        same!(d.read_bytes_at(a, c).ok(), want, "read_bytes_at {a} {c}");
        let mut off = a;
        let got = ReadRef::read_bytes(d, &mut off, c).ok();
        same!(got, want, "read_bytes {a} {c}");
        if want.is_some() {
            same!(off, a.wrapping_add(c), "offset after read_bytes");
        }
        let delim = *r.pick(&[0u8, 0xff, 1]);
        let want = usize::try_from(a)
            .ok()
            .and_then(|x| buf.get(x..usize::try_from(c).ok()?))
            .and_then(|b| b.iter().position(|x| *x == delim).map(|z| &b[..z]));
        same!(d.read_bytes_at_until(a..c, delim).ok(), want, "read_bytes_at_until {a}..{c}");
    }
    o.sample(|| format!("string table {start}..{end} over {n} bytes"));
    Ok(())
}

fn aligns(_c: u64, r: &mut Rng, o: &mut Obs) -> Res {
    // Alignment helpers, reached through the counting buffer.
    let mut want: Vec<u8> = vec![];
    let mut b = CountingBuffer::new(Vec::new());
    let mut key = 0;
    for _ in 0..1 + r.idx(10) {
        o.eval();
        match r.below(5) {
            0 => {
                let a = 1u64 << r.below(8);
                b.write_align(a);
                while want.len() as u64 % a != 0 {
                    want.push(0);
                }
                o.hit("write_align");
            }
            1 => {
                let n = r.idx(20);
                let d = r.bytes(n);
                b.write_bytes(&d);
                want.extend(d);
            }
            2 => {
                let n = if r.one_in(4) { 1000 + r.below(2200) } else { r.below(10) };
                b.write_zeros(n);
                want.extend(std::iter::repeat_n(0, n as usize));
            }
            3 => {
                let n = want.len() as u64 + r.below(30);
                b.resize(n);
                want.resize(n as usize, 0);
            }
            _ => {
                let v = r.u64();
                b.write_u32(Endianness::Big, v as u32);
                want.extend((v as u32).to_be_bytes());
            }
        }
        same!(b.count(), want.len() as u64, "count");
        key = mix(key ^ want.len() as u64);
    }
    same!(b.into_inner(), want, "buffer content");
    o.nontrivial(key);
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C16",
    rule: "Each case draws boundary-favouring values/buffers/offsets and compares the crate's endian integers, pod casts, byte cursor, LEB128, string tables, slice reads and counting buffers with reference models; distinct by input bytes and parameters.",
    parts: &[
        Part { name: "endian", quick: 300_000, thorough: 18000_000, run: endian },
        Part { name: "casts", quick: 300_000, thorough: 18000_000, run: casts },
        Part { name: "cursor", quick: 600_000, thorough: 36000_000, run: cursor },
        Part { name: "leb", quick: 400_000, thorough: 24000_000, run: leb },
        Part { name: "strings", quick: 300_000, thorough: 18000_000, run: strings },
        Part { name: "aligns", quick: 200_000, thorough: 12000_000, run: aligns },
    ],
    required: &["endian values", "pod cast ok", "pod cast refused", "uleb128", "sleb128", "string table hits", "write_align"],
    tools: &[],
    assumptions: &["The host is little endian (x86-64), so the big-endian native path is not executed."],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

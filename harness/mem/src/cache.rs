//! A long history of one `ReadCache`: every slice it ever returned is kept, and
//! compared with the bytes of the stream again and again.
use object::{ReadCache, ReadRef};
use std::io::{Read, Seek, SeekFrom};

pub struct R(pub u64);
impl R {
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.u() % n.max(1)
    }
}

/// Short reads, and now and then an error.
struct Stream<'a>(std::io::Cursor<&'a [u8]>, R);
impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1.below(40) == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = (self.1.below(300) as usize + 1).min(b.len());
        self.0.read(&mut b[..n])
    }
}
impl Seek for Stream<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

pub fn run(seed: u64, steps: u64) -> (u64, u64, u64) {
    let mut r = R(seed);
    let n = 200 + r.below(if steps < 2000 { 1500 } else { 20_000 });
    let zeros = [3, 20, 300][r.below(3) as usize];
    let data: Vec<u8> = (0..n).map(|_| if r.below(zeros) == 0 { 0 } else { r.u() as u8 }).collect();
    let cache = ReadCache::new(Stream(std::io::Cursor::new(&data), R(r.u())));
    let len = loop {
        if let Ok(n) = ReadRef::len(&cache) {
            break n;
        }
    };
    assert_eq!(len, n);
    let mut held: Vec<(&[u8], usize)> = vec![];
    let (mut strings, mut rechecks) = (0, 0);
    for step in 0..steps {
        let at = r.below(n + 3);
        let size = if r.below(12) == 0 { r.below(n) } else { r.below(40) };
        // A range of the stream, whose offsets start again at 0.
        let base = r.below(n / 2);
        let part = cache.range(base, n - base);
        let got = match r.below(5) {
            0 => (&cache).read_bytes_at(at, size).map(|b| (b, at)),
            1 => part.read_bytes_at(at, size).map(|b| (b, base + at)),
            2 | 3 => (&cache).read_bytes_at_until(at..(at + size).min(n).max(at), 0).map(|b| (b, at)),
            _ => part.read_bytes_at_until(at..n - base.min(n), r.below(3) as u8).map(|b| (b, base + at)),
        };
        if let Ok((b, at)) = got {
            strings += 1;
            if !b.is_empty() {
                held.push((b, at as usize));
            }
        }
        if step % 97 == 0 || step + 1 == steps {
            let all = step + 1 == steps || held.len() < 64;
            let k = if all { 0 } else { r.below(held.len() as u64) as usize };
            let m = if all { held.len() } else { (k + 200).min(held.len()) };
            for (b, at) in &held[k..m] {
                assert!(*b == &data[*at..at + b.len()], "a slice returned earlier has changed at {at:#x}+{:#x} after {step} reads", b.len());
                rechecks += 1;
            }
        }
    }
    drop(held);
    (steps, strings, rechecks)
}

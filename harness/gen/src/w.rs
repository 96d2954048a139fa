//! Byte writer with a byte order.
use vcore::Rng;

#[derive(Clone, Debug, Default)]
pub struct W {
    pub b: Vec<u8>,
    pub be: bool,
    pub is64: bool,
}

impl W {
    pub fn new(be: bool, is64: bool) -> W {
        W { b: Vec::new(), be, is64 }
    }
    pub fn len(&self) -> usize {
        self.b.len()
    }
    pub fn is_empty(&self) -> bool {
        self.b.is_empty()
    }
    pub fn u8(&mut self, v: u8) -> &mut W {
        self.b.push(v);
        self
    }
    pub fn n(&mut self, v: u64, n: usize) -> &mut W {
        for i in 0..n {
            let sh = if self.be { n - 1 - i } else { i };
            self.b.push((v >> (8 * sh)) as u8);
        }
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut W {
        self.n(v as u64, 2)
    }
    pub fn u32(&mut self, v: u32) -> &mut W {
        self.n(v as u64, 4)
    }
    pub fn u64(&mut self, v: u64) -> &mut W {
        self.n(v, 8)
    }
    /// A class-sized word.
    pub fn word(&mut self, v: u64) -> &mut W {
        self.n(v, if self.is64 { 8 } else { 4 })
    }
    pub fn put(&mut self, b: &[u8]) -> &mut W {
        self.b.extend_from_slice(b);
        self
    }
    pub fn zeros(&mut self, n: usize) -> &mut W {
        self.b.resize(self.b.len() + n, 0);
        self
    }
    /// NUL padded fixed field.
    pub fn fixed(&mut self, b: &[u8], n: usize) -> &mut W {
        let k = b.len().min(n);
        self.put(&b[..k]);
        self.zeros(n - k)
    }
    pub fn align(&mut self, a: usize) -> &mut W {
        while self.b.len() % a != 0 {
            self.b.push(0);
        }
        self
    }
    pub fn set(&mut self, at: usize, v: u64, n: usize) {
        for i in 0..n {
            let sh = if self.be { n - 1 - i } else { i };
            self.b[at + i] = (v >> (8 * sh)) as u8;
        }
    }
    /// Places bytes at an offset, extending with zeros.
    pub fn place(&mut self, at: usize, d: &[u8]) {
        if self.b.len() < at + d.len() {
            self.b.resize(at + d.len(), 0);
        }
        self.b[at..at + d.len()].copy_from_slice(d);
    }
}

pub fn uleb(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let c = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(c);
            return;
        }
        out.push(c | 0x80);
    }
}
/// ULEB with `extra` redundant continuation bytes.
pub fn uleb_pad(out: &mut Vec<u8>, v: u64, extra: usize) {
    uleb(out, v);
    for _ in 0..extra {
        let n = out.len() - 1;
        out[n] |= 0x80;
        out.push(0);
    }
}
pub fn sleb(out: &mut Vec<u8>, mut v: i64) {
    loop {
        let c = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && c & 0x40 == 0) || (v == -1 && c & 0x40 != 0) {
            out.push(c);
            return;
        }
        out.push(c | 0x80);
    }
}

/// String table that may share suffixes and repeat strings.
#[derive(Clone, Debug)]
pub struct Strs {
    pub b: Vec<u8>,
}
impl Strs {
    /// Starts with a NUL.
    pub fn new() -> Strs {
        Strs { b: vec![0] }
    }
    pub fn add(&mut self, r: &mut Rng, s: &[u8]) -> usize {
        self.add_from(r, s, 0)
    }
    /// As `add`, for tables which start with a length field of four bytes.
    pub fn add4(&mut self, r: &mut Rng, s: &[u8]) -> usize {
        self.add_from(r, s, 4)
    }
    fn add_from(&mut self, r: &mut Rng, s: &[u8], from: usize) -> usize {
        if r.bool() {
            // Any occurrence that is followed by NUL will do.
            let n = s.len() + 1;
            for i in from..self.b.len().saturating_sub(n - 1) {
                if &self.b[i..i + n - 1] == s && self.b[i + n - 1] == 0 {
                    return i;
                }
            }
        }
        if r.one_in(8) {
            let junk = r.ident(4);
            self.b.extend_from_slice(junk.as_bytes()); // becomes a prefix
        }
        let o = self.b.len();
        self.b.extend_from_slice(s);
        self.b.push(0);
        o
    }
}
impl Default for Strs {
    fn default() -> Self {
        Self::new()
    }
}

/// Assigns file offsets to blobs in random order with random gaps.
/// `items` is (size, align); returns offsets and the end.
pub fn layout(r: &mut Rng, start: usize, items: &[(usize, usize)], shuffle: bool) -> (Vec<usize>, usize) {
    let mut order: Vec<usize> = (0..items.len()).collect();
    if shuffle {
        r.shuffle(&mut order);
    }
    let mut off = vec![0; items.len()];
    let mut p = start;
    for i in order {
        if r.one_in(4) {
            p += r.idx(40);
        }
        let a = items[i].1.max(1);
        p = p.div_ceil(a) * a;
        off[i] = p;
        p += items[i].0;
    }
    (off, p)
}

/// Random symbol-ish name: mostly identifiers, sometimes arbitrary bytes.
pub fn name(r: &mut Rng) -> Vec<u8> {
    match r.below(16) {
        0 => {
            // Non UTF-8 or odd bytes, no NUL.
            let n = 1 + r.idx(6);
            (0..n).map(|_| 1 + r.below(255) as u8).collect()
        }
        1 => {
            let n = 20 + r.idx(60);
            let mut v = r.ident(8).into_bytes();
            while v.len() < n {
                v.extend_from_slice(r.ident(8).as_bytes());
            }
            v
        }
        _ => r.ident(12).into_bytes(),
    }
}

//! Independent, strict parsers: they refuse anything the format's rules forbid.
//! They share no code with the library under test.
pub mod coff;
pub mod elf;
pub mod macho;
pub mod xcoff;

pub type R<T> = Result<T, String>;

/// A checked little or big endian reader over a slice.
#[derive(Clone, Copy, Debug)]
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub be: bool,
    pub is64: bool,
}

impl<'a> Rd<'a> {
    pub fn n(&self, at: u64, n: usize) -> R<u64> {
        let s = self.bytes(at, n as u64)?;
        let mut v = 0u64;
        for i in 0..n {
            let k = if self.be { i } else { n - 1 - i };
            v = v << 8 | s[k] as u64;
        }
        Ok(v)
    }
    pub fn u8(&self, at: u64) -> R<u8> {
        Ok(self.n(at, 1)? as u8)
    }
    pub fn u16(&self, at: u64) -> R<u16> {
        Ok(self.n(at, 2)? as u16)
    }
    pub fn u32(&self, at: u64) -> R<u32> {
        Ok(self.n(at, 4)? as u32)
    }
    pub fn u64(&self, at: u64) -> R<u64> {
        self.n(at, 8)
    }
    pub fn word(&self, at: u64) -> R<u64> {
        self.n(at, if self.is64 { 8 } else { 4 })
    }
    pub fn bytes(&self, at: u64, n: u64) -> R<&'a [u8]> {
        let e = at.checked_add(n).ok_or_else(|| format!("range {at:#x}+{n:#x} overflows"))?;
        if e > self.b.len() as u64 {
            return Err(format!("range {at:#x}+{n:#x} is outside the file of {:#x}", self.b.len()));
        }
        Ok(&self.b[at as usize..e as usize])
    }
}

/// A NUL terminated string inside a table.
pub fn cstr(tab: &[u8], at: u64) -> R<Vec<u8>> {
    let t = tab.get(at as usize..).filter(|_| at < tab.len() as u64).ok_or_else(|| format!("string offset {at:#x} outside a table of {:#x}", tab.len()))?;
    let e = t.iter().position(|&c| c == 0).ok_or_else(|| format!("string at {at:#x} is not terminated"))?;
    Ok(t[..e].to_vec())
}

/// A fixed field padded with NUL bytes.
pub fn fixed(f: &[u8]) -> R<Vec<u8>> {
    let e = f.iter().position(|&c| c == 0).unwrap_or(f.len());
    if f[e..].iter().any(|&c| c != 0) {
        return Err(format!("bytes after the end of the name in {f:?}"));
    }
    Ok(f[..e].to_vec())
}

/// Which bytes of the file belong to what; overlap is an error, and gaps must be zero.
#[derive(Default, Clone, Debug)]
pub struct Map {
    pub r: Vec<(u64, u64, String)>,
}

impl Map {
    pub fn add(&mut self, at: u64, n: u64, what: impl Into<String>) {
        if n > 0 {
            self.r.push((at, n, what.into()));
        }
    }
    /// Returns the number of padding bytes.
    pub fn check(&mut self, b: &[u8]) -> R<u64> {
        self.r.sort();
        let mut pos = 0u64;
        let mut pad = 0;
        let mut last = String::from("start");
        for (at, n, what) in &self.r {
            if *at < pos {
                return Err(format!("{what} at {at:#x} overlaps {last} which ends at {pos:#x}"));
            }
            let end = at.checked_add(*n).ok_or("overflow")?;
            if end > b.len() as u64 {
                return Err(format!("{what} {at:#x}+{n:#x} is outside the file of {:#x}", b.len()));
            }
            let gap = &b[pos as usize..*at as usize];
            if gap.iter().any(|&c| c != 0) {
                return Err(format!("nonzero padding between {last} and {what}"));
            }
            pad += gap.len() as u64;
            pos = end;
            last = what.clone();
        }
        if b[pos as usize..].iter().any(|&c| c != 0) {
            return Err(format!("nonzero bytes after {last}"));
        }
        pad += b.len() as u64 - pos;
        Ok(pad)
    }
}

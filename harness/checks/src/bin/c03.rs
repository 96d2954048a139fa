//! C03: results do not depend on how the input is stored or fetched.
use checks::inputs::{base, longest_run, mutate, noise};
use checks::walk::{self, T};
use object::read::{ReadCache, ReadCacheOps, ReadCacheRange, ReadRef};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;
use std::result::Result;
use vcore::{Obs, Part, Res, Rng, Spec, ensure, same};

/// The documented limit of delimited reads through the cache.
const LIMIT: usize = 4096;

/// What the stream did, and what it is told to do.
#[derive(Default)]
struct Ctl {
    ops: u64,
    faults: u64,
    /// Chance of a fault, in 1/256.
    rate: u64,
    /// Largest short read.
    short: usize,
    interrupted: u64,
    rng: Option<Rng>,
}

/// A seekable stream with short reads and injected faults.
struct Stream {
    data: Vec<u8>,
    pos: u64,
    ctl: Rc<RefCell<Ctl>>,
}
impl Stream {
    fn fault(&mut self, read: bool) -> io::Result<Option<usize>> {
        let mut c = self.ctl.borrow_mut();
        let c = &mut *c;
        c.ops += 1;
        let Some(r) = &mut c.rng else { return Ok(None) };
        if c.rate > 0 && r.below(256) < c.rate {
            c.faults += 1;
            return Err(io::Error::other("injected"));
        }
        if read && c.short > 0 {
            return Ok(Some(1 + r.idx(c.short)));
        }
        Ok(None)
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let most = self.fault(true)?.unwrap_or(usize::MAX);
        let at = self.pos.min(self.data.len() as u64) as usize;
        let n = buf.len().min(self.data.len() - at).min(most);
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Stream {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.fault(false)?;
        self.pos = match p {
            SeekFrom::Start(n) => n,
            SeekFrom::End(n) => (self.data.len() as i64 + n) as u64,
            SeekFrom::Current(n) => (self.pos as i64 + n) as u64,
        };
        Ok(self.pos)
    }
}

/// The same stream through the crate's own trait, where a failed read may
/// leave a part of the buffer filled.
struct Raw(Stream);
impl ReadCacheOps for Raw {
    fn len(&mut self) -> Result<u64, ()> {
        self.0.fault(false).map_err(|_| ())?;
        Ok(self.0.data.len() as u64)
    }
    fn seek(&mut self, pos: u64) -> Result<u64, ()> {
        Seek::seek(&mut self.0, SeekFrom::Start(pos)).map_err(|_| ())
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ()> {
        let r = Read::read(&mut self.0, buf).map_err(|_| ());
        if r.is_err() {
            buf.fill(0xdd);
        }
        r
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<(), ()> {
        let r = Read::read_exact(&mut self.0, buf).map_err(|_| ());
        if r.is_err() {
            let n = buf.len() / 2;
            buf[n..].fill(0xdd);
        }
        r
    }
}

#[derive(Debug, Clone)]
enum Req {
    Len,
    At(u64, u64),
    Until(u64, u64, u8),
    U16(u64),
    Words(u64, usize),
    Str(u64),
}

fn ask<'a, R: ReadRef<'a>>(d: R, q: &Req) -> Result<&'a [u8], ()> {
    match *q {
        Req::Len => d.len().map(|_| &[][..]),
        Req::At(a, n) => d.read_bytes_at(a, n),
        Req::Until(a, b, c) => d.read_bytes_at_until(a..b, c),
        Req::U16(a) => d.read_at::<[u8; 2]>(a).map(|x| &x[..]),
        Req::Words(a, n) => d.read_slice_at::<[u8; 8]>(a, n).map(|x| x.as_flattened()),
        Req::Str(a) => {
            let end = d.len()?;
            d.read_bytes_at_until(a..end, 0)
        }
    }
}

/// The answer by definition: bytes of the stream, if they are all there.
fn model(d: &[u8], q: &Req) -> Option<Vec<u8>> {
    let span = |a: u64, n: u64| {
        let e = a.checked_add(n)?;
        if n == 0 {
            return Some(vec![]);
        }
        if e > d.len() as u64 {
            return None;
        }
        Some(d[a as usize..e as usize].to_vec())
    };
    match *q {
        Req::Len => Some(vec![]),
        Req::At(_, 0) => Some(vec![]),
        Req::At(a, n) => span(a, n),
        Req::U16(a) => span(a, 2),
        Req::Words(_, 0) => Some(vec![]),
        Req::Words(a, n) => span(a, (n as u64).checked_mul(8)?),
        Req::Until(a, b, c) => {
            if a > b || b > d.len() as u64 {
                return None;
            }
            let s = &d[a as usize..b as usize];
            s.iter().position(|x| *x == c).map(|i| s[..i].to_vec())
        }
        Req::Str(a) => model(d, &Req::Until(a, d.len() as u64, 0)),
    }
}

fn request(r: &mut Rng, n: u64, hot: &[u64]) -> Req {
    let at = |r: &mut Rng| match r.below(12) {
        0 => r.edgy(64),
        1 => n,
        2 => n.wrapping_sub(r.below(4)),
        3 => n + r.below(3),
        4..=8 if !hot.is_empty() => *r.pick(hot),
        _ => r.below(n + 1),
    };
    let a = at(r);
    match r.below(16) {
        0 => Req::Len,
        1..=5 => {
            let size = match r.below(8) {
                0 => r.edgy(64),
                1 => n.wrapping_sub(a),
                2 => n.wrapping_sub(a).wrapping_add(1),
                3 => 0,
                _ => r.below(n / 2 + 2),
            };
            Req::At(a, size)
        }
        6..=11 => {
            let end = match r.below(6) {
                0 => n,
                1 => at(r),
                2 => a.wrapping_add(r.below(8)),
                3 => n + r.below(2),
                _ => a.saturating_add(r.below(n + 1)).min(n),
            };
            Req::Until(a, end, *r.pick(&[0u8, 0, 0, 1, b'\n', 0xff]))
        }
        12 => Req::U16(a),
        13 => Req::Words(a, if r.one_in(6) { r.edgy(64) as usize } else { r.idx(n as usize / 8 + 2) }),
        _ => Req::Str(a),
    }
}

fn text(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => r.idx(4),
        1 => 9000,
        2 => 4000 + r.idx(300),
        3 => r.idx(2000),
        _ => r.idx(300),
    };
    let gap = *r.pick(&[2u64, 5, 40, 300, 5000]);
    (0..n).map(|_| if r.one_in(gap) { *r.pick(&[0u8, 1, b'\n', 0xff]) } else { b'a' + r.u8() % 20 }).collect()
}

/// Is an error instead of `want` allowed by the limit of the cache?
fn too_long(want: &Option<Vec<u8>>, q: &Req) -> bool {
    matches!(q, Req::Until(..) | Req::Str(_)) && want.as_ref().is_some_and(|w| w.len() >= LIMIT)
}

fn drive<S: ReadCacheOps>(mut cache: ReadCache<S>, data: &[u8], ctl: &Rc<RefCell<Ctl>>, r: &mut Rng, o: &mut Obs, faulty: bool) -> Res {
    let n = data.len() as u64;
    let hot: Vec<u64> = (0..4).map(|_| r.below(n + 1)).collect();
    let spans: Vec<(u64, u64)> = (0..3)
        .map(|_| {
            let a = if r.one_in(8) { r.edgy(64) } else { r.below(n + 1) };
            let s = match r.below(6) {
                0 => r.edgy(64),
                1 => n.wrapping_sub(a).wrapping_add(1),
                _ => r.below(n.saturating_sub(a) + 1),
            };
            (a, s)
        })
        .collect();
    for _round in 0..2 {
        let mut kept: Vec<(&[u8], Vec<u8>)> = vec![];
        let views: Vec<ReadCacheRange<S>> = spans.iter().map(|s| cache.range(s.0, s.1)).collect();
        for step in 0..60 {
            let rate = if faulty && r.one_in(4) { 120 } else { 0 };
            ctl.borrow_mut().rate = rate;
            let before = ctl.borrow().faults;
            let which = r.idx(5);
            let (q, want, got) = if which < 3 && r.bool() {
                // A view is the same as a slice of these bytes.
                let (a, s) = spans[which];
                let q = request(r, s.min(n), &hot);
                let end = a.saturating_add(s);
                // A view may promise more than the stream has: then reads of
                // the missing part fail, and of the rest do not.
                let part = if a <= n { &data[a as usize..end.min(n) as usize] } else { &[][..] };
                let mut want = model(part, &q);
                if end > n || a > n {
                    match q {
                        // The end of the string is the promised one.
                        Req::Str(_) => want = None,
                        Req::Len => want = Some(vec![]),
                        _ => {}
                    }
                }
                if a <= n && end <= n && matches!(q, Req::Len) {
                    same!(views[which].len(), Ok(s), "length of a view");
                }
                (q.clone(), want, ask(views[which], &q))
            } else {
                let q = request(r, n, &hot);
                if let (Req::Len, Ok(l)) = (&q, (&cache).len()) {
                    same!(l, n, "length of the stream");
                }
                (q.clone(), model(data, &q), ask(&cache, &q))
            };
            let faulted = ctl.borrow().faults > before;
            o.add("requests", 1);
            match (&got, &want) {
                (Ok(g), Some(w)) => {
                    same!(**g, w[..], "step {step}: {q:?}");
                    o.hit("answered");
                    if matches!(q, Req::Until(..) | Req::Str(_)) {
                        o.hit("delimited");
                    }
                    kept.push((g, w.clone()));
                }
                (Err(()), None) => o.hit("refused"),
                (Err(()), Some(_)) if faulted => o.hit("faulted"),
                (Err(()), Some(_)) if too_long(&want, &q) => o.hit("long"),
                (Err(()), Some(w)) => ensure!(false, "step {step}: {q:?} failed, although {} bytes are there", w.len()),
                (Ok(g), None) => ensure!(false, "step {step}: {q:?} gave {} bytes that are not there", g.len()),
            }
            // A slice gives the model's answer.
            if which >= 3 {
                let s = ask(data, &q).ok().map(|b| b.to_vec());
                let w = model(data, &q);
                same!(s, w, "slice: {q:?}");
            }
        }
        // References stay valid and unchanged.
        for (g, w) in &kept {
            same!(**g, w[..], "a reference returned earlier");
        }
        o.add("references", kept.len() as u64);
        drop(kept);
        if r.bool() {
            cache.clear();
            o.hit("cleared");
        }
    }
    Ok(())
}

fn history(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let data = text(r);
    o.input("data", &data);
    let faulty = r.one_in(3);
    let short = *r.pick(&[0usize, 0, 1, 3, 40, 255, 256, 300]);
    let ctl = Rc::new(RefCell::new(Ctl { short, rng: Some(r.fork()), ..Default::default() }));
    let s = Stream { data: data.clone(), pos: 0, ctl: ctl.clone() };
    if short > 0 {
        o.hit("short reads");
    }
    if r.bool() {
        drive(ReadCache::new(Raw(s)), &data, &ctl, r, o, faulty)?;
    } else {
        drive(ReadCache::new(s), &data, &ctl, r, o, faulty)?;
    }
    let c = ctl.borrow();
    o.add("stream operations", c.ops);
    o.add("faults", c.faults);
    o.nontrivial(vcore::hash(&data) ^ c.ops);
    let _ = c.interrupted;
    Ok(())
}

/// First difference between two transcripts.
fn diff(a: &T, b: &T) -> String {
    let (x, y) = (a.log.as_ref().unwrap(), b.log.as_ref().unwrap());
    for (i, (p, q)) in x.iter().zip(y).enumerate() {
        if p != q {
            let from = i.saturating_sub(1);
            return format!("observation {i} after {:?}: {} / {}", vcore::short(&x[from]), vcore::short(p), vcore::short(q));
        }
    }
    format!("{} / {} observations", x.len(), y.len())
}

fn transcript<'a, R: ReadRef<'a>>(d: R, n: usize, salt: u64, log: bool) -> T {
    let mut t = T::new(n);
    t.salt = salt;
    t.budget = 12_000;
    if log {
        t = t.logged();
    }
    walk::all(d, &mut t);
    t
}

fn file(_case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let max = if r.one_in(5) { 64 << 10 } else { 20_000 };
    let (name, mut b) = if r.one_in(12) { ("noise", noise(r)) } else { base(r, max) };
    if r.bool() {
        let other = if r.one_in(6) { base(r, 20_000).1 } else { vec![] };
        mutate(r, &mut b, &other);
        o.hit("mutated");
    } else {
        o.hit("plain");
    }
    o.input("file", &b);
    let long = longest_run(&b) >= LIMIT;
    let n = b.len();
    let salt = r.u64();
    let one = transcript(&b[..], n, salt, false);
    o.add("observations", one.n);
    o.nontrivial(one.hash);
    // Another alignment.
    let k = 1 + r.idx(7);
    let mut store = vec![0u64; (n + k).div_ceil(8)];
    let s = &mut object::pod::bytes_of_slice_mut(&mut store)[k..k + n];
    s.copy_from_slice(&b);
    let two = transcript(&*s, n, salt, false);
    if one.hash != two.hash {
        let (p, q) = (transcript(&b[..], n, salt, true), transcript(&*s, n, salt, true));
        ensure!(false, "{name}: slices at alignments 0 and {k}: {}", diff(&p, &q));
    }
    o.hit("alignment");
    if long {
        o.hit("skipped for the limit of the cache");
        return Ok(());
    }
    // Through a cache, with short reads.
    let short = *r.pick(&[0usize, 0, 1, 7, 100, 256]);
    let seed = r.fork();
    let (before, after) = if r.bool() { (r.bytes(r.clone().idx(40) + 1), r.bytes(20)) } else { (vec![], vec![]) };
    let embedded = !before.is_empty();
    let whole = [&before[..], &b, &after].concat();
    let make = || {
        let ctl = Rc::new(RefCell::new(Ctl { short, rng: Some(seed.clone()), ..Default::default() }));
        (ctl.clone(), ReadCache::new(Stream { data: whole.clone(), pos: 0, ctl }))
    };
    let run = |log: bool| {
        let (_c, cache) = make();
        if embedded { transcript(cache.range(before.len() as u64, n as u64), n, salt, log) } else { transcript(&cache, n, salt, log) }
    };
    let how = if embedded { "range" } else { "cache" };
    let three = run(false);
    if one.hash != three.hash {
        let (p, q) = (transcript(&b[..], n, salt, true), run(true));
        ensure!(false, "{name}: slice and {how}: {}", diff(&p, &q));
    }
    o.hit(how);
    if short > 0 {
        o.hit("short reads");
    }
    // A stream that fails for a while does not spoil what comes later.
    if r.one_in(3) {
        let (ctl, cache) = make();
        ctl.borrow_mut().rate = *r.pick(&[2, 20, 120]);
        let ask = |log| if embedded { transcript(cache.range(before.len() as u64, n as u64), n, salt, log) } else { transcript(&cache, n, salt, log) };
        let _ = ask(false);
        o.add("faults", ctl.borrow().faults);
        ctl.borrow_mut().rate = 0;
        let four = ask(false);
        if one.hash != four.hash {
            let (p, q) = (transcript(&b[..], n, salt, true), ask(true));
            ensure!(false, "{name}: slice and {how} after faults: {}", diff(&p, &q));
        }
        o.hit("after faults");
    }
    for s in &one.seen {
        o.hit(s);
    }
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C03",
    rule: "every storage of the same bytes gives the same answers; the cache returns exactly the bytes asked for",
    parts: &[
        Part { name: "history", quick: 20_000, thorough: 1_000_000, run: history },
        Part { name: "file", quick: 20_000, thorough: 800_000, run: file },
    ],
    required: &[
        "answered", "refused", "faulted", "delimited", "cleared", "short reads", "alignment", "cache", "range", "after faults", "mutated", "plain", "elf.file",
        "pe", "macho", "xcoff", "wasm", "archive", "coff", "cache.mapping", "fat", "import_file",
    ],
    tools: &[],
    assumptions: &["delimited reads through the cache are limited to 4096 bytes: files with a longer string are only compared between slices"],
    level: "exploration",
};

fn main() {
    vcore::main(&SPEC);
}

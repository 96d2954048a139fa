//! C20: writing is deterministic, sized exactly and fault tolerant.
use checks::inputs;
use checks::wobj::{Opts, build};
use object::endian::{BigEndian, LittleEndian};
use object::write::{CountingBuffer, GrowableBuffer, StreamingBuffer, WritableBuffer, WritableBufferExt};
use object::{BinaryFormat as BF, FileKind};
use std::io;
use vcore::{Obs, Part, Res, Rng, Spec, ensure, same};

/// A sink that records everything that happens to it.
#[derive(Default)]
struct Mon {
    out: Vec<u8>,
    reserved: Vec<(u64, usize)>,
    /// Refuse to reserve.
    refuse: bool,
    zeros: bool,
}
impl WritableBuffer for Mon {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        self.reserved.push((size, self.out.len()));
        if self.refuse { Err(()) } else { Ok(()) }
    }
    fn write_bytes(&mut self, val: &[u8]) {
        self.out.extend_from_slice(val)
    }
    fn write_zeros(&mut self, n: u64) {
        self.zeros = true;
        self.out.resize(self.out.len() + n as usize, 0)
    }
}
/// The same with the default `write_zeros`.
#[derive(Default)]
struct Plain(Mon);
impl WritableBuffer for Plain {
    fn reserve(&mut self, size: u64) -> Result<(), ()> {
        self.0.reserve(size)
    }
    fn write_bytes(&mut self, val: &[u8]) {
        self.0.write_bytes(val)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail {
    Zero,
    Kind(io::ErrorKind),
    /// Accepts everything, and fails to flush.
    Flush,
}
/// An output stream with short writes, interruptions and a fault.
struct Flaky {
    out: Vec<u8>,
    r: Rng,
    chunk: usize,
    interrupt: bool,
    fail: Option<(usize, Fail)>,
    /// The stream works again after failing once.
    recovers: bool,
    failed: bool,
    after: u64,
    flushed: u64,
    interrupts: u64,
}
impl Flaky {
    fn new(r: &mut Rng, fail: Option<(usize, Fail)>) -> Flaky {
        let chunk = *r.pick(&[1, 2, 3, 7, 16, 100, 512, 1023, 1024, 1025, 8192, 1 << 30]);
        Flaky { out: vec![], chunk, interrupt: r.one_in(2), fail, recovers: r.bool(), failed: false, after: 0, flushed: 0, interrupts: 0, r: r.fork() }
    }
}
impl io::Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after += 1;
        }
        if self.interrupt && self.r.one_in(5) {
            self.interrupts += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(1 + self.r.idx(self.chunk));
        if let Some((at, k)) = self.fail {
            if !(self.failed && self.recovers) && k != Fail::Flush {
                n = n.min(at.saturating_sub(self.out.len()));
                if n == 0 && !b.is_empty() {
                    self.failed = true;
                    return match k {
                        Fail::Kind(k) => Err(k.into()),
                        _ => Ok(0),
                    };
                }
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed += 1;
        match self.fail {
            Some((_, Fail::Flush)) => Err(io::ErrorKind::StorageFull.into()),
            _ => Ok(()),
        }
    }
}

fn at(b: &[u8], w: &[u8]) -> String {
    let i = b.iter().zip(w).position(|(x, y)| x != y).unwrap_or(b.len().min(w.len()));
    format!("{} bytes instead of {}, first difference at {i:#x}", b.len(), w.len())
}

/// A writer that can be run any number of times.
type Emit<'a> = &'a dyn Fn(&mut dyn WritableBuffer) -> Result<(), String>;

/// Every sink sees the same bytes. `need` is whether the writer promises to reserve.
fn sinks(r: &mut Rng, o: &mut Obs, w: &[u8], emit: Emit) -> Res {
    // Reserved once, first and exactly.
    let mut m = Mon::default();
    emit(&mut m).map_err(|e| format!("into a custom sink: {e}"))?;
    ensure!(m.out == w, "a custom sink: {}", at(&m.out, w));
    same!(m.reserved, vec![(w.len() as u64, 0)], "reservations (size, bytes written before)");
    let mut p = Plain::default();
    emit(&mut p).map_err(|e| format!("into a plain sink: {e}"))?;
    ensure!(p.0.out == w, "a plain sink: {}", at(&p.0.out, w));
    same!(p.0.reserved, vec![(w.len() as u64, 0)], "reservations of a plain sink");
    // References and counters.
    let mut m = Mon::default();
    let mut c = CountingBuffer::new(&mut m);
    emit(&mut c).map_err(|e| format!("into a counting buffer: {e}"))?;
    same!(c.count(), w.len() as u64, "the count");
    ensure!(m.out == w && m.reserved == [(w.len() as u64, 0)], "a counting buffer: {}, reserved {:?}", at(&m.out, w), m.reserved);
    // Slices.
    let extra = r.idx(20);
    let mut s = vec![0xa5; w.len() + extra];
    emit(&mut &mut s[..]).map_err(|e| format!("into a slice of {} + {extra} bytes: {e}", w.len()))?;
    ensure!(s[..w.len()] == *w, "a slice: {}", at(&s[..w.len()], w));
    ensure!(s[w.len()..].iter().all(|x| *x == 0xa5), "bytes after the output were changed");
    if !w.is_empty() {
        let n = if r.bool() { w.len() - 1 } else { r.idx(w.len()) };
        let mut s = vec![0xa5; n];
        ensure!(emit(&mut &mut s[..]).is_err(), "{} bytes fit into a slice of {n}", w.len());
        ensure!(s.iter().all(|x| *x == 0xa5), "a slice that is too small was changed");
    }
    // Refusing.
    let mut m = Mon { refuse: true, ..Mon::default() };
    ensure!(emit(&mut m).is_err(), "a refused reservation was ignored");
    ensure!(m.out.is_empty() && !m.zeros && m.reserved == [(w.len() as u64, 0)], "after a refused reservation: {} bytes written, {:?}", m.out.len(), m.reserved);
    // A stream.
    let mut f = Flaky::new(r, None);
    let mut b = StreamingBuffer::new(&mut f);
    emit(&mut b).map_err(|e| format!("into a stream: {e}"))?;
    b.flush().map_err(|e| format!("flush: {e}"))?;
    ensure!(f.out == w, "a stream: {}", at(&f.out, w));
    same!(f.flushed, 1, "flushes");
    o.add("interrupted writes", f.interrupts);
    // A stream that fails.
    let (k, kind) = fault(r, w.len());
    let mut f = Flaky::new(r, Some((k, kind)));
    let mut b = StreamingBuffer::new(&mut f);
    let res = emit(&mut b);
    let e = if r.bool() { b.result().and_then(|_| b.flush()) } else { b.flush() };
    faulted(o, w, &f, k, kind, res.is_err() || e.is_err())?;
    o.add("bytes compared", w.len() as u64 * 6);
    Ok(())
}

/// Where and how a stream fails.
fn fault(r: &mut Rng, n: usize) -> (usize, Fail) {
    use io::ErrorKind as K;
    let kind = *r.pick(&[Fail::Zero, Fail::Kind(K::Other), Fail::Kind(K::WouldBlock), Fail::Kind(K::BrokenPipe), Fail::Kind(K::StorageFull), Fail::Kind(K::TimedOut), Fail::Flush]);
    let k = match r.below(6) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n,
        3 => r.idx(n + 1).min(70),
        _ => r.idx(n + 1),
    };
    (k, kind)
}

fn faulted(o: &mut Obs, w: &[u8], f: &Flaky, k: usize, kind: Fail, err: bool) -> Res {
    ensure!(w.starts_with(&f.out), "{kind:?} after {k} bytes: what was written isn't a prefix: {}", at(&f.out, w));
    if kind == Fail::Flush {
        ensure!(f.out == w, "a stream that can't be flushed: {}", at(&f.out, w));
        ensure!(err, "a failure to flush was ignored");
        o.hit("failed flushes");
    } else if k < w.len() {
        ensure!(err, "{kind:?} after {k} of {} bytes was ignored", w.len());
        same!(f.out.len(), k, "bytes accepted before {kind:?}");
        ensure!(f.failed && f.after == 0, "{} writes after {kind:?}", f.after);
        o.hit("failed writes");
    } else {
        ensure!(!err, "a stream without a fault failed");
        ensure!(f.out == w, "a stream: {}", at(&f.out, w));
        o.hit("faults after the end");
    }
    Ok(())
}

fn objects(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let fmt = [BF::Elf, BF::Coff, BF::MachO, BF::Xcoff][(case % 4) as usize];
    let q = Opts { fmt: Some(fmt), sections: *r.pick(&[0, 3, 7, 20]), symbols: *r.pick(&[0, 4, 12, 40]), ..Opts::default() };
    let mut r2 = r.clone();
    let (b, _) = build(r, &q);
    let (b2, _) = build(&mut r2, &q);
    let w = b.write();
    let w2 = b2.write();
    match (&w, &w2) {
        (Ok(x), Ok(y)) => ensure!(x == y, "two equal descriptions of {fmt:?}: {}", at(y, x)),
        (Err(x), Err(y)) => {
            same!(y.to_string(), x.to_string(), "errors");
            o.hit("refused descriptions");
            ensure!(b.emit(&mut Mon::default()).is_err() && b.write_stream(io::sink()).is_err(), "a description is refused by some sinks only");
            return Ok(());
        }
        _ => return Err(format!("two equal descriptions of {fmt:?}: {:?} and {:?}", w.map(|v| v.len()), w2.map(|v| v.len()))),
    }
    let w = w.unwrap();
    o.input("out", &w);
    let again = b.write().map_err(|e| format!("again: {e}"))?;
    ensure!(again == w, "writing again: {}", at(&again, &w));
    sinks(r, o, &w, &|s| b.emit(s).map_err(|e| e.to_string()))?;
    // write_stream flushes, too.
    let mut f = Flaky::new(r, None);
    b.write_stream(&mut f).map_err(|e| format!("write_stream: {e}"))?;
    ensure!(f.out == w && f.flushed == 1, "write_stream: {}, {} flushes", at(&f.out, &w), f.flushed);
    let mut f = Flaky::new(r, None);
    b.write_stream(io::BufWriter::with_capacity(r.idx(200), &mut f)).map_err(|e| format!("write_stream: {e}"))?;
    ensure!(f.out == w && f.flushed == 1, "write_stream, buffered: {}, {} flushes", at(&f.out, &w), f.flushed);
    let (k, kind) = fault(r, w.len());
    let mut f = Flaky::new(r, Some((k, kind)));
    let e = b.write_stream(&mut f);
    if let Err(e) = &e {
        match (e.downcast_ref::<io::Error>(), kind) {
            (Some(e), Fail::Kind(k)) => same!(e.kind(), k, "the error"),
            (Some(e), Fail::Zero) => same!(e.kind(), io::ErrorKind::WriteZero, "the error"),
            (Some(e), Fail::Flush) => same!(e.kind(), io::ErrorKind::StorageFull, "the error"),
            (None, _) => return Err(format!("the error of the stream was lost: {e}")),
        }
    }
    faulted(o, &w, &f, k, kind, e.is_err())?;
    // And the object is as it was.
    let again = b.write().map_err(|e| format!("again: {e}"))?;
    ensure!(again == w, "writing after a fault: {}", at(&again, &w));
    o.hit(["ELF", "COFF", "Mach-O", "XCOFF"][(case % 4) as usize]);
    o.nontrivial(vcore::hash(&w));
    Ok(())
}

/// Files that the builders read and write.
fn builders(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (src, mut b) = inputs::base(r, 60_000);
    let kind = FileKind::parse(&*b);
    let elf = match kind {
        Ok(FileKind::Elf32 | FileKind::Elf64) => true,
        Ok(FileKind::MachO32 | FileKind::MachO64) => false,
        _ => {
            let fmt = if r.bool() { BF::Elf } else { BF::MachO };
            b = match build(r, &Opts { fmt: Some(fmt), ..Opts::default() }).0.write() {
                Ok(b) => b,
                Err(_) => return Ok(()),
            };
            fmt == BF::Elf
        }
    };
    o.input("in", &b);
    let emit = |s: &mut dyn WritableBuffer| -> Result<(), String> {
        if elf {
            object::build::elf::Builder::read(&*b).map_err(|e| e.to_string())?.write(s).map_err(|e| e.to_string())
        } else {
            object::build::macho::Builder::read(&*b).map_err(|e| e.to_string())?.write(s).map_err(|e| e.to_string())
        }
    };
    let mut w = vec![];
    match emit(&mut w) {
        Ok(()) => {}
        Err(e) => {
            o.hit("files a builder refuses");
            let e2 = emit(&mut Mon::default());
            same!(e2, Err(e), "the same file again");
            return Ok(());
        }
    }
    sinks(r, o, &w, &emit).map_err(|e| format!("{} from {src}: {e}", if elf { "ELF builder" } else { "Mach-O builder" }))?;
    o.hit(if elf { "ELF builder" } else { "Mach-O builder" });
    o.nontrivial(vcore::hash(&w));
    Ok(())
}

/// The sinks themselves.
fn steps(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    enum Op {
        Bytes(Vec<u8>),
        Zeros(u64),
        Resize(u64),
        Align(u64),
        N(bool, u64, u8),
    }
    let mut want: Vec<u8> = vec![];
    let mut ops = vec![];
    for _ in 0..r.idx(20) {
        let n = *r.pick(&[0, 1, 2, 3, 8, 100, 1023, 1024, 1025, 2048, 3000]);
        ops.push(match r.below(6) {
            0 | 1 => {
                let b = r.bytes(n);
                want.extend(&b);
                Op::Bytes(b)
            }
            2 => {
                want.resize(want.len() + n, 0);
                Op::Zeros(n as u64)
            }
            3 => {
                want.resize(want.len() + n, 0);
                Op::Resize(want.len() as u64)
            }
            4 => {
                let a = *r.pick(&[1u64, 2, 4, 8, 16, 512, 4096]);
                while want.len() as u64 % a != 0 {
                    want.push(0);
                }
                Op::Align(a)
            }
            _ => {
                let (be, v, k) = (r.bool(), r.u64(), r.u8() % 3);
                match (be, k) {
                    (true, 0) => want.extend((v as u16).to_be_bytes()),
                    (true, 1) => want.extend((v as u32).to_be_bytes()),
                    (true, _) => want.extend(v.to_be_bytes()),
                    (_, 0) => want.extend((v as u16).to_le_bytes()),
                    (_, 1) => want.extend((v as u32).to_le_bytes()),
                    _ => want.extend(v.to_le_bytes()),
                }
                Op::N(be, v, k)
            }
        });
    }
    fn go(w: &mut dyn WritableBuffer, ops: &[Op]) -> u64 {
        let mut w = CountingBuffer::new(w);
        for op in ops {
            match op {
                Op::Bytes(b) => w.write_bytes(b),
                Op::Zeros(n) => w.write_zeros(*n),
                Op::Resize(n) => w.resize(*n),
                Op::Align(n) => w.write_align(*n),
                Op::N(true, v, 0) => w.write_u16(BigEndian, *v as u16),
                Op::N(true, v, 1) => w.write_u32(BigEndian, *v as u32),
                Op::N(true, v, _) => w.write_u64(BigEndian, *v),
                Op::N(_, v, 0) => w.write_u16(LittleEndian, *v as u16),
                Op::N(_, v, 1) => w.write_u32(LittleEndian, *v as u32),
                Op::N(_, v, _) => w.write_u64(LittleEndian, *v),
            }
        }
        w.count()
    }
    let mut v = vec![];
    same!(go(&mut v, &ops), want.len() as u64, "the count");
    ensure!(v == want, "Vec: {}", at(&v, &want));
    let mut v = vec![];
    go(GrowableBuffer::as_writable(&mut v), &ops);
    ensure!(v == want, "Vec: {}", at(&v, &want));
    let mut v = vec![7; want.len() + 3];
    {
        let mut s = &mut v[..];
        go(&mut s, &ops);
        same!(s.len(), 3, "what is left of a slice");
    }
    ensure!(v[..want.len()] == want && v[want.len()..] == [7; 3], "slice: {}", at(&v, &want));
    for fail in [None, Some(fault(r, want.len()))] {
        let f = Flaky::new(r, fail);
        let mut s = StreamingBuffer::new(f);
        if r.bool() {
            go(&mut s, &ops);
        } else {
            go(s.as_writable(), &ops);
        }
        let ok = s.flush().is_ok();
        // The error is reported once.
        ensure!(s.result().is_ok(), "an error was reported twice");
        let f = s.into_inner();
        let (k, kind) = fail.unwrap_or((usize::MAX, Fail::Zero));
        faulted(o, &want, &f, k, kind, !ok)?;
        same!(f.flushed, (ok || kind == Fail::Flush) as u64, "flushes");
    }
    o.hit("sequences of steps");
    o.nontrivial(vcore::hash(&want));
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C20",
    rule: "every sink receives the bytes the first one did, or reports its fault",
    parts: &[
        Part { name: "objects", quick: 250_000, thorough: 20_000_000, run: objects },
        Part { name: "builders", quick: 60_000, thorough: 4_000_000, run: builders },
        Part { name: "steps", quick: 150_000, thorough: 5_000_000, run: steps },
    ],
    required: &[
        "ELF", "COFF", "Mach-O", "XCOFF", "ELF builder", "Mach-O builder", "failed writes", "failed flushes", "faults after the end", "interrupted writes", "sequences of steps",
        "refused descriptions", "bytes compared",
    ],
    tools: &[],
    assumptions: &["a sink that accepted a reservation accepts that many bytes, or is a stream"],
    level: "exploration",
};
#[allow(dead_code)]
fn main() {
    vcore::main(&SPEC)
}

//! C24: reading an ELF file into the builder and writing it loses nothing.
use checks::elfimg::{self, Body, Dump, consistent, diff, dump};
use checks::inputs;
use checks::wobj::{Opts, build};
use genf::strict::elf as gen_strict;
use object::BinaryFormat as BF;
use object::build::elf::Builder;
use vcore::{Obs, Part, Res, Rng, Spec};

fn rewrite(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    Builder::read(b).map_err(|e| e.to_string())?.write(&mut v).map_err(|e| e.to_string())?;
    Ok(v)
}

fn count(d: &Dump, o: &mut Obs) {
    o.add("segments", d.ph.len() as u64);
    o.add("sections", d.secs.len() as u64);
    o.add("symbols", d.syms.len() as u64);
    o.add("dynamic symbols", d.dyns.len() as u64);
    for s in &d.secs {
        match &s.body {
            Body::Rel(r, false) => o.add("relocations", r.len() as u64),
            Body::Rel(r, true) => o.add("dynamic relocations", r.len() as u64),
            Body::Dynamic(d) => o.add("dynamic entries", d.len() as u64),
            Body::Attr(a) => o.add("attribute scopes", a.iter().map(|x| x.1.len() as u64).sum()),
            _ => {}
        }
        match s.ty {
            7 => o.hit("notes"),
            18 => o.hit("extended indices"),
            5 => o.hit("hash tables"),
            0x6fff_fff6 => o.hit("GNU hash tables"),
            _ => {}
        }
    }
    o.add("versions", (0..d.vers.len()).filter(|i| d.used(*i)).count() as u64);
}

/// `b` is well formed.
fn keeps(b: &[u8], must: bool, o: &mut Obs) -> Res {
    let d = match dump(b) {
        Ok(d) => d,
        Err(e) if must => return Err(format!("the input is malformed: {e}")),
        Err(_) => {
            o.hit("not understood");
            let _ = rewrite(b);
            return Ok(());
        }
    };
    let w = match rewrite(b) {
        Ok(w) => w,
        Err(e) => {
            // Groups and some types of processors and tools are not supported.
            let odd = d.secs.iter().any(|s| [17, 0x6fff_4c03, 0x7000_002a].contains(&s.ty));
            if must && !odd {
                return Err(format!("a well formed file is refused: {e}"));
            }
            o.hit("refused");
            o.sample(|| e);
            return Ok(());
        }
    };
    o.input("out", &w);
    let d2 = dump(&w).map_err(|e| format!("the output can't be read: {e}"))?;
    diff(&d.render(), &d2.render())?;
    if must || consistent(b).is_ok() {
        o.add("facts", consistent(&w)?);
    }
    let again = rewrite(&w).map_err(|e| format!("the output is refused: {e}"))?;
    let d3 = dump(&again).map_err(|e| format!("the output of the output can't be read: {e}"))?;
    diff(&d2.render(), &d3.render()).map_err(|e| format!("second time: {e}"))?;
    count(&d, o);
    o.nontrivial(vcore::hash(&w));
    Ok(())
}

fn images(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let b = elfimg::image(r, case % 3 > 0);
    o.input("in", &b);
    keeps(&b, true, o)?;
    o.hit(if case % 3 > 0 { "images" } else { "objects" });
    Ok(())
}

fn objects(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (b, _) = build(r, &Opts { fmt: Some(BF::Elf), ..Opts::default() });
    if let Ok(b) = b.write() {
        o.input("in", &b);
        // (Attributes here can be arbitrary bytes.)
        keeps(&b, false, o)?;
        o.hit("written objects");
    }
    Ok(())
}

fn corpus(case: u64, _: &mut Rng, o: &mut Obs) -> Res {
    let c = inputs::corpus();
    if let Some((name, b)) = c.get(case as usize) {
        if b.starts_with(b"\x7fELF") {
            keeps(b, true, o).map_err(|e| format!("{name}: {e}"))?;
            if rewrite(b).is_ok() {
                o.hit("real files");
            }
        }
    }
    Ok(())
}

/// Anything at all: no panic, and no change if the meaning is clear.
fn hostile(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (src, mut b) = if case % 2 == 0 { ("image", elfimg::image(r, case % 4 > 0)) } else { inputs::base(r, 40_000) };
    if case % 8 > 0 {
        inputs::mutate(r, &mut b, &[]);
    }
    o.input("in", &b);
    if !b.starts_with(b"\x7fELF") {
        return Ok(());
    }
    // Output with huge holes is legitimate, but takes long.
    if gen_strict::parse(&b).is_ok_and(|f| f.sh.iter().any(|s| [s.offset, s.align].iter().any(|x| (1 << 20..1 << 46).contains(x)))) {
        return Ok(());
    }
    let w = rewrite(&b);
    if let Ok(w) = w {
        // (A file without section headers has nothing to keep, and is refused.)
        if dump(&w).is_ok_and(|d| !d.secs.is_empty()) {
            rewrite(&w).map_err(|e| format!("{src}: the output is refused: {e}"))?;
        }
        if dump(&b).is_ok_and(|d| !d.secs.is_empty()) {
            o.hit("hostile files understood");
            keeps(&b, false, o).map_err(|e| format!("{src}: {e}"))?;
        }
        o.hit("hostile files accepted");
        o.nontrivial(vcore::hash(&w));
    }
    o.hit("hostile files");
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C24",
    rule: "an independent reader finds the same content before and after",
    parts: &[
        Part { name: "images", quick: 60_000, thorough: 6_000_000, run: images },
        Part { name: "objects", quick: 12_000, thorough: 2_000_000, run: objects },
        Part { name: "corpus", quick: 64, thorough: 64, run: corpus },
        Part { name: "hostile", quick: 40_000, thorough: 6_000_000, run: hostile },
    ],
    required: &[
        "images", "objects", "written objects", "real files", "segments", "sections", "symbols", "dynamic symbols", "relocations", "dynamic relocations", "dynamic entries", "attribute scopes", "notes",
        "extended indices", "hash tables", "GNU hash tables", "versions", "facts", "hostile files", "hostile files accepted",
    ],
    tools: &[],
    assumptions: &["versions that no symbol uses may be dropped", "string tables, hash tables and symbol order may be regenerated"],
    level: "exploration",
};
#[allow(dead_code)]
fn main() {
    vcore::main(&SPEC)
}

//! C21: string tables resolve every identifier to its string.
use object::Endianness;
use object::write::coff::{self, Name};
use object::write::elf::{self, FileHeader};
use object::write::{StringId, StringTable};
use std::collections::HashMap;
use vcore::*;

/// Strings with many shared suffixes, prefixes and repeats.
fn strings(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = *r.pick(&[0u64, 1, 1, 2, 3, 5, 10, 30, 100, 400]) as usize;
    let alpha: &[u8] = *r.pick(&[&b"ab"[..], b"a", b"abc", b"\x01\xff\x80a", b"_abcdefghijklmnopqrstuvwxyz.0123456789"]);
    let max = *r.pick(&[1u64, 2, 3, 4, 8, 20, 60]);
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let s = match r.below(8) {
            0 => vec![],
            1 if !v.is_empty() => r.pick(&v).clone(),
            2 if !v.is_empty() => {
                // A suffix of an earlier one.
                let s = r.pick(&v).clone();
                s[r.idx(s.len() + 1)..].to_vec()
            }
            3 if !v.is_empty() => {
                // An earlier one is a suffix of this.
                let mut s = vec![*r.pick(alpha); r.range(1, 3) as usize];
                s.extend(r.pick(&v));
                s
            }
            4 if !v.is_empty() => {
                let s = r.pick(&v).clone();
                s[..r.idx(s.len() + 1)].to_vec()
            }
            5 if !v.is_empty() => {
                let mut s = r.pick(&v).clone();
                s.push(*r.pick(alpha));
                s
            }
            6 if !v.is_empty() => {
                let mut s = r.pick(&v).clone();
                let i = r.idx(s.len() + 1);
                s.insert(i, *r.pick(alpha));
                s
            }
            _ => (0..r.below(max + 1)).map(|_| *r.pick(alpha)).collect(),
        };
        v.push(s);
    }
    if r.one_in(40) {
        let n = r.range(1000, 70_000) as usize;
        v.push(vec![*r.pick(alpha); n]);
        v.push(vec![*r.pick(alpha); n / 2]);
    }
    v
}

/// The string at `off`, which must be terminated.
fn at<'a>(b: &'a [u8], off: u64, want: &[u8], what: &str) -> Result<(), String> {
    let s = b.get(off as usize..).and_then(|s| s.get(..want.len() + 1));
    let s = some!(s, "{what}: {:?} at {off} is outside the table of {} bytes", short(&String::from_utf8_lossy(want)), b.len());
    ensure!(s[..want.len()] == *want && s[want.len()] == 0, "{what}: {:?} at {off}, not {:?}", short(&String::from_utf8_lossy(s)), short(&String::from_utf8_lossy(want)));
    Ok(())
}

struct Ids<'a>(Vec<(StringId, &'a [u8])>);
impl Ids<'_> {
    /// One identifier per string.
    fn unique(&self) -> Res {
        let mut m: HashMap<&[u8], StringId> = HashMap::new();
        for (i, s) in &self.0 {
            let j = *m.entry(s).or_insert(*i);
            same!(*i, j, "identifiers of equal strings");
        }
        let ids: std::collections::HashSet<String> = m.values().map(|i| format!("{i:?}")).collect();
        same!(ids.len(), m.len(), "distinct strings have distinct identifiers");
        Ok(())
    }
}

fn table(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let v = strings(r);
    let order = r.one_in(3);
    let base = *r.pick(&[0u32, 1, 1, 4, 4, 17, 1000]);
    let mut t = if order { StringTable::new_in_order(base) } else if r.bool() { StringTable::new() } else { StringTable::default() };
    ensure!(t.is_empty(), "new table");
    let mut ids = Ids(vec![]);
    for s in &v {
        let id = t.add(s);
        ids.0.push((id, s));
        same!(t.get_string(id), &s[..], "get_string");
        same!(t.get_id(s), id, "get_id");
        if r.one_in(4) {
            let k = r.idx(ids.0.len());
            same!(t.get_string(ids.0[k].0), ids.0[k].1, "get_string of an earlier one");
        }
    }
    ids.unique()?;
    same!(t.is_empty(), v.is_empty(), "is_empty");
    // What precedes the strings is the caller's; nothing may be assumed of
    // it except for the leading NUL of ELF tables.
    let mut out = vec![0x2au8; base as usize];
    if base == 1 {
        out[0] = 0;
    }
    let size = okay!(t.write(&mut out, base), "write");
    same!(size as usize, out.len(), "size");
    o.input("table", &out);
    for (id, s) in &ids.0 {
        let off = t.get_offset(*id);
        at(&out, off as u64, s, if order { "in order" } else { "merged" })?;
        same!(t.maybe_get_offset(Some(*id)), off, "maybe_get_offset");
        same!(t.get_string(*id), *s, "get_string after write");
        same!(t.get_id(s), *id, "get_id after write");
    }
    same!(t.maybe_get_offset(None), 0, "no string");
    let mut distinct: Vec<&[u8]> = vec![];
    let mut seen = std::collections::HashSet::new();
    for s in &v {
        if seen.insert(&s[..]) {
            distinct.push(s);
        }
    }
    let plain: usize = distinct.iter().map(|s| s.len() + 1).sum();
    if order {
        // The strings in the order they were added, each once.
        let mut want = out[..base as usize].to_vec();
        for s in &distinct {
            want.extend_from_slice(s);
            want.push(0);
        }
        ensure!(out == want, "in order: contents");
        o.hit("tables in order");
    } else {
        ensure!(out.len() - base as usize <= plain, "{} bytes for {plain} bytes of strings", out.len());
        if out.len() - (base as usize) < plain {
            o.hit("merged tables");
        }
        if !v.is_empty() {
            let mut again = vec![];
            ensure!(t.write(&mut again, base).is_err(), "a second write");
        }
    }
    o.add("strings resolved", v.len() as u64);
    if v.len() > 1 {
        o.nontrivial(hash(&out));
    }
    if v.len() == 1 && v[0].is_empty() {
        o.hit("tables of the empty string only");
    }
    o.sample(|| format!("{} strings base {base} in order {order}: {} bytes of {plain}", v.len(), out.len()));
    Ok(())
}

/// The three string tables of the ELF writer.
fn elf_writer(_: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (a, b, c) = (strings(r), strings(r), strings(r));
    let mut out = vec![];
    let endian = if r.bool() { Endianness::Little } else { Endianness::Big };
    let is64 = r.bool();
    let (sh, st, dy);
    let mut offs: Vec<(u8, u64, Vec<u8>)> = vec![];
    if r.bool() {
        let mut w = elf::Writer::new(endian, is64, &mut out);
        w.reserve_file_header();
        w.reserve_null_section_index();
        let ia: Vec<_> = a.iter().map(|s| (w.add_section_name(s), s)).collect();
        let ib: Vec<_> = b.iter().map(|s| (w.add_string(s), s)).collect();
        let ic: Vec<_> = c.iter().map(|s| (w.add_dynamic_string(s), s)).collect();
        let _ = w.reserve_shstrtab_section_index();
        if w.strtab_needed() {
            w.reserve_strtab_section_index();
        }
        if w.dynstr_needed() {
            w.reserve_dynstr_section_index();
        }
        let x = w.reserved_len();
        okay!(w.reserve_shstrtab());
        let y = w.reserved_len();
        okay!(w.reserve_strtab());
        let z = w.reserved_len();
        let dz = okay!(w.reserve_dynstr());
        let e = w.reserved_len();
        if !c.is_empty() {
            same!(dz, z, "reserved offset of the dynamic strings");
            same!(w.dynstr_len() as u64, e - z, "dynstr_len");
        }
        (sh, st, dy) = ((x, y - x), (y, z - y), (z, e - z));
        w.reserve_section_headers();
        okay!(w.write_file_header(&FileHeader { os_abi: object::elf::OsAbi(0), abi_version: 0, e_type: object::elf::FileType(1), e_machine: object::elf::Machine(62), e_entry: 0, e_flags: object::elf::FileFlags(0) }));
        w.write_shstrtab();
        w.write_strtab();
        w.write_dynstr();
        same!(w.len(), e, "written so far");
        w.write_null_section_header();
        w.write_shstrtab_section_header();
        w.write_strtab_section_header();
        w.write_dynstr_section_header(0);
        same!(w.len(), w.reserved_len(), "written in all");
        for (i, s) in ia {
            offs.push((0, w.section_name_offset(Some(i)) as u64, s.clone()));
        }
        for (i, s) in ib {
            offs.push((1, w.string_offset(Some(i)) as u64, s.clone()));
        }
        for (i, s) in ic {
            same!(w.get_dynamic_string(s), i, "get_dynamic_string");
            offs.push((2, w.dynamic_string_offset(Some(i)) as u64, s.clone()));
        }
        o.hit("two-phase writers");
    } else {
        let mut w = elf::Writer::new_single_phase(endian, is64, &mut out);
        let ia: Vec<_> = a.iter().map(|s| (w.add_section_name(s), s)).collect();
        let ib: Vec<_> = b.iter().map(|s| (w.add_string(s), s)).collect();
        let ic: Vec<_> = c.iter().map(|s| (w.add_dynamic_string(s), s)).collect();
        for (i, s) in &ib {
            // Known from the start.
            offs.push((1, w.string_offset(Some(*i)) as u64, s.to_vec()));
        }
        let x = okay!(w.write_strtab());
        let y = okay!(w.write_dynstr());
        let z = okay!(w.write_shstrtab());
        (sh, st, dy) = ((z.0, z.1 as u64), (x.0, x.1 as u64), (y.0, y.1 as u64));
        same!(w.offset(), z.0 + z.1 as u64, "offset after the last table");
        for (i, s) in ia {
            offs.push((0, w.section_name_offset(Some(i)) as u64, s.clone()));
        }
        for (i, s) in ib {
            offs.push((1, w.string_offset(Some(i)) as u64, s.clone()));
        }
        for (i, s) in ic {
            offs.push((2, w.dynamic_string_offset(Some(i)) as u64, s.clone()));
        }
        o.hit("single-phase writers");
    }
    o.input("output", &out);
    for (k, off, s) in &offs {
        let (at0, n) = [sh, st, dy][*k as usize];
        let t = some!(out.get(at0 as usize..(at0 + n) as usize), "table {k} is in the file");
        same!(t.first(), Some(&0), "table {k} starts with a NUL");
        at(t, *off, s, ["shstrtab", "strtab", "dynstr"][*k as usize])?;
    }
    o.add("strings resolved", offs.len() as u64);
    o.nontrivial(hash(&out));
    Ok(())
}

/// Names of sections and symbols of the COFF writer.
fn coff_writer(case: u64, r: &mut Rng, o: &mut Obs) -> Res {
    let (mut a, b) = (strings(r), strings(r));
    a.truncate(60);
    // Offsets from 10 million on use another encoding.
    let big = case < 4 || (thorough() && r.one_in(3000));
    let mut filler = vec![b'z'; 40];
    if big {
        filler = vec![b'q'; r.range(9_999_900, 11_000_000) as usize];
        for i in 0..20 {
            a.push(format!("A{i}~~~~~~~~~!").into_bytes());
        }
    }
    let mut out = vec![];
    let mut w = coff::Writer::new(&mut out);
    w.reserve_file_header();
    w.reserve_section_headers(a.len() as u16);
    let na: Vec<(Name, &Vec<u8>)> = a.iter().map(|s| (w.add_name(s), s)).collect();
    let nf = w.add_name(&filler);
    let nb: Vec<(Name, &Vec<u8>)> = b.iter().map(|s| (w.add_name(s), s)).collect();
    let ns: Vec<(StringId, &Vec<u8>)> = if r.bool() { b.iter().map(|s| (w.add_string(s), s)).collect() } else { vec![] };
    for _ in 0..b.len() + 1 {
        w.reserve_symbol_index();
    }
    let symoff = w.reserved_len();
    okay!(w.reserve_symtab_strtab());
    let total = w.reserved_len();
    okay!(w.write_file_header(coff::FileHeader { machine: object::pe::Machine(0x8664), time_date_stamp: 0, characteristics: object::pe::FileFlags(0) }));
    for (n, _) in &na {
        w.write_section_header(coff::SectionHeader { name: *n, ..Default::default() });
    }
    for n in nb.iter().map(|x| x.0).chain([nf]) {
        w.write_symbol(coff::Symbol { name: n, value: 1, section_number: object::pe::SymbolSection(0), typ: object::pe::SymbolType(0), storage_class: object::pe::SymbolClass(2), number_of_aux_symbols: 0 });
    }
    w.write_strtab();
    drop(w);
    let _ = ns;
    same!(out.len() as u64, total, "output length");
    if !big {
        o.input("output", &out);
    }
    let st = &out[symoff as usize + 18 * (b.len() + 1)..];
    same!(u32::from_le_bytes(st[..4].try_into().unwrap()) as usize, st.len(), "string table length");
    let padded = |n: &[u8], s: &[u8], what: &str| -> Res {
        let mut w = [0u8; 8];
        w[..s.len()].copy_from_slice(s);
        same!(n, &w[..], "{what} short name");
        Ok(())
    };
    for (i, s) in a.iter().enumerate() {
        let n = &out[20 + 40 * i..][..8];
        if s.len() <= 8 {
            padded(n, s, "section")?;
            continue;
        }
        same!(n[0], b'/', "section {i} long name");
        let off = if n[1] == b'/' {
            o.hit("base64 section names");
            let mut v = 0u64;
            for c in &n[2..] {
                let d = match c {
                    b'A'..=b'Z' => c - b'A',
                    b'a'..=b'z' => c - b'a' + 26,
                    b'0'..=b'9' => c - b'0' + 52,
                    b'+' => 62,
                    b'/' => 63,
                    _ => return Err(format!("section {i}: {n:?} is not base64")),
                };
                v = v << 6 | d as u64;
            }
            v
        } else {
            let e = n.iter().position(|c| *c == 0).unwrap_or(8);
            ensure!(n[e..].iter().all(|c| *c == 0), "section {i}: {n:?} is padded with NUL");
            okay!(std::str::from_utf8(&n[1..e]).unwrap_or("?").parse::<u64>(), "section {i}: {n:?}")
        };
        ensure!(off >= 4, "section {i}: offset in the length field");
        at(st, off, s, "section name")?;
    }
    for (i, s) in b.iter().enumerate() {
        let n = &out[symoff as usize + 18 * i..][..8];
        if s.len() <= 8 {
            padded(n, s, "symbol")?;
            continue;
        }
        same!(n[..4], [0u8; 4][..], "symbol {i} long name");
        let off = u32::from_le_bytes(n[4..].try_into().unwrap()) as u64;
        ensure!(off >= 4, "symbol {i}: offset in the length field");
        at(st, off, s, "symbol name")?;
    }
    o.add("strings resolved", (a.len() + b.len()) as u64);
    o.nontrivial(hash(&out));
    o.hit("COFF writers");
    Ok(())
}

pub static SPEC: Spec = Spec {
    id: "C21",
    rule: "a string table of several strings of which every identifier was resolved in the written bytes",
    parts: &[
        Part { name: "table", quick: 60_000, thorough: 3_000_000, run: table },
        Part { name: "elf", quick: 12_000, thorough: 500_000, run: elf_writer },
        Part { name: "coff", quick: 12_000, thorough: 500_000, run: coff_writer },
    ],
    required: &["strings resolved", "tables in order", "merged tables", "tables of the empty string only", "two-phase writers", "single-phase writers", "COFF writers", "base64 section names"],
    tools: &[],
    assumptions: &["tables of up to a few hundred strings and 11 MB", "strings hold no NUL byte (documented)", "the bytes before the base offset are the caller's, a NUL for base 1 as documented"],
    level: "exploration",
};
fn main() {
    vcore::main(&SPEC)
}

//! Archives.
use super::{T, generic};
use object::read::ReadRef;
use object::read::archive::{ArchiveFile, ArchiveOffset};

pub fn archive<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 8) else { return };
    if id[0] != b'!' && id[0] != b'<' {
        return;
    }
    let Some(a) = t.ok("archive", ArchiveFile::parse(data)) else { return };
    t.at("archive");
    t.d("archive", (a.kind(), a.is_thin()));
    let mut nested: Vec<&'data [u8]> = vec![];
    let member = |t: &mut T, m: object::read::archive::ArchiveMember<'data>| {
        t.b("member.name", m.name());
        t.d("member", (m.date(), m.uid(), m.gid(), m.mode(), m.size(), m.file_range(), m.is_thin()));
        if let Some(h) = m.header() {
            t.p("member.header", h);
        }
        if let Some(h) = m.aix_header() {
            t.p("member.aix", h);
        }
        let d = m.data(data);
        t.rb("member.data", d.clone());
        d.ok()
    };
    t.iter("archive.members", a.members(), |t, m| {
        if let Some(m) = t.ok("member", m) {
            if let Some(d) = member(t, m) {
                if nested.len() < 3 && d.len() > 8 {
                    nested.push(d);
                }
            }
        }
    });
    let mut offs = vec![0u64, 8, 7, 68, 1 << 40, u64::MAX, u64::MAX - 59];
    if let Some(s) = t.oko("archive.symbols", a.symbols()) {
        t.iter("archive.symbol", s, |t, s| {
            if let Some(s) = t.ok("symbol", s) {
                t.b("symbol.name", s.name());
                t.d("symbol.offset", s.offset());
                if offs.len() < 12 {
                    offs.push(s.offset().0);
                }
            }
        });
    }
    for o in offs {
        if let Some(m) = t.ok("archive.member", a.member(ArchiveOffset(o))) {
            member(t, m);
        }
    }
    // Members are files in their own right.
    if t.depth == 0 {
        for d in nested {
            t.depth += 1;
            generic::detect(d, t);
            t.depth -= 1;
        }
    }
}

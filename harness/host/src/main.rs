//! For hosts with a file system: host jobs inputs
//! Jobs and answers are those of run.js; a case's answer is printed when it is
//! known, so that what ends the program can be told.
use host::case;
use std::io::Write;

fn main() {
    vcore::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let jobs = std::fs::read_to_string(&a[1]).unwrap();
    let inputs = std::fs::read(&a[2]).unwrap_or_default();
    let mut o = vcore::Obs::default();
    let mut out = std::io::stdout();
    for (i, j) in jobs.lines().enumerate() {
        let f: Vec<&str> = j.split(' ').collect();
        let n = |k: usize| f[k].parse::<u64>().unwrap();
        let _ = writeln!(out, "{i}\tstart\t");
        let (r, m) = if f[0] == "case" {
            match case(n(1) as usize, n(2), n(3), &mut o) {
                Ok(()) => ("ok", String::new()),
                Err(e) => ("err", e),
            }
        } else {
            let mut l = vec![];
            let log = n(6) != 0;
            let d = inputs[n(4) as usize..][..n(5) as usize].to_vec();
            let (h, a, g) = checks::hosts::answer(n(1) as u8, n(3) << 32 | n(2), &d, true, 600, log.then_some(&mut l));
            ("ok", format!("{h:016x} {a} {g}\n{}", l.concat()))
        };
        let _ = writeln!(out, "{i}\t{r}\t{}", m.replace('\n', "\x1f"));
    }
    let _ = writeln!(out, "seen\t{}\t{}", o.distinct(), o.counters().values().sum::<u64>());
}

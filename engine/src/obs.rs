//! Reads observation lines printed by the runtime.

use crate::gram::undebug;
use crate::lr::{Ev, Mem, Obs, Outcome};
use crate::pipe::RawOut;

pub fn parse_obs(line: &str) -> Option<Obs> {
    let (trace, out) = line.split_once('|')?;
    let (out, mem) = out.rsplit_once('|')?;
    let mem = parse_mem(mem)?;
    let mut evs = vec![];
    for w in trace.split_whitespace() {
        match w {
            "p" => evs.push(Ev::Poll),
            "P" => evs.push(Ev::LatePoll),
            _ => {
                let w = w.strip_prefix('r')?;
                let (np, args) = w.strip_suffix(')')?.split_once('(')?;
                let (n, p) = np.split_once('.')?;
                let mut ids = vec![];
                for x in args.split(',').filter(|x| !x.is_empty()) {
                    ids.push(x.parse().ok()?);
                }
                evs.push(Ev::Act(n.parse().ok()?, p.parse().ok()?, ids));
            }
        }
    }
    let out = parse_outcome(out)?;
    Some(Obs {
        trace: evs,
        out,
        mem: Some(mem),
    })
}

pub fn parse_mem(s: &str) -> Option<Mem> {
    let f: Vec<&str> = s.split_whitespace().collect();
    if f.len() != 4 && f.len() != 5 {
        return None;
    }
    Some(Mem {
        held: f[0].parse().ok()?,
        after: f[1].parse().ok()?,
        pos: f[2].parse().ok()?,
        double_drops: f[3].parse().ok()?,
        lives: match f.get(4) {
            Some(l) => l.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?,
            None => vec![],
        },
    })
}

pub fn parse_outcome(out: &str) -> Option<Outcome> {
    Some(if let Some(x) = out.strip_prefix("ok ") {
        Outcome::Ok(x.parse().ok()?)
    } else if let Some(x) = out.strip_prefix("lex ") {
        Outcome::Lex(x.parse().ok()?)
    } else if let Some(x) = out.strip_prefix("panic ") {
        Outcome::Panic(undebug(x)?)
    } else if let Some(x) = out.strip_prefix("err ") {
        // two debug strings
        let b = x.as_bytes();
        let mut i = 1;
        while i < b.len() && b[i] != b'"' {
            i += if b[i] == b'\\' { 2 } else { 1 };
        }
        Outcome::Err {
            found: undebug(&x[..i + 1])?,
            expected: undebug(&x[i + 1..])?,
        }
    } else {
        return None;
    })
}

/// None: no answer (the trouble has been noted)
pub fn obs(r: &RawOut) -> Option<Obs> {
    match r {
        RawOut::Line(l) => Some(parse_obs(l).unwrap_or(Obs {
            trace: vec![],
            out: Outcome::Crash(format!("unreadable observation {:?}", l)),
            mem: None,
        })),
        RawOut::Crash(c) => Some(Obs {
            trace: vec![],
            out: Outcome::Crash(c.clone()),
            mem: None,
        }),
        RawOut::Unknown(_) => None,
    }
}

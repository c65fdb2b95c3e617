//! C12: the same grammar is expanded several times, in different compiler processes, positions,
//! orders, neighbourhoods, directories and environments; all expansions must be the same text, all
//! rejections the same message.

use crate::emit;
use crate::gcheck::hash_of;
use crate::gen::*;
use crate::gram::*;
use crate::lr::Class;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub struct Determ;

const NEIGHBOURS: [&str; 3] = [
    "use parsegen::parser; #[derive(Debug)] pub enum Tok { A } parser! { enum Tok { \"a\" => Tok::A, } pub S: u32 = \"a\" => 1, }",
    "use parsegen::parser; #[derive(Debug)] pub enum Tok { A, B(u8), C } parser! { enum Tok { \"a\" => Tok::A, \"b\" => Tok::B(<u8>), \"c\" => Tok::C, }
     pub S: Vec<u8> = { <mut x: S> <y: \"b\"> => { x.push(y); x }, \"a\" <x: T> \"c\" => vec![x], => vec![], };
     T: u8 = { \"b\" U => 1, U \"a\" => 2, }; U: () = { => (), \"c\" => (), }; pub V: u8 = T => 1, }",
    "use parsegen::parser; #[derive(Debug)] pub enum Tok { A } parser! { enum Tok { \"a\" => Tok::A, } pub S: u32 = { \"a\" => 1, \"a\" => 2, }; }",
];

/// Variables that build tools set, or that people look at
const ENVIRONMENT: [&str; 24] = [
    "CARGO_PKG_VERSION", "CARGO_PKG_AUTHORS", "CARGO_CRATE_NAME", "CARGO_BIN_NAME", "CARGO_PRIMARY_PACKAGE", "CARGO_TARGET_DIR",
    "CARGO_CFG_DEBUG_ASSERTIONS", "CARGO_TERM_COLOR", "OUT_DIR", "PROFILE", "OPT_LEVEL", "DEBUG", "TARGET", "HOST", "NUM_JOBS",
    "CI", "DOCS_RS", "SOURCE_DATE_EPOCH", "TERM", "COLUMNS", "NO_COLOR", "PWD", "PARSEGEN_DEBUG", "PARSEGEN_LOG",
];

/// The same names and numbers of things, but another grammar.
fn resembling(g: &Gram, s: &mut Src) -> Option<(Gram, &'static str)> {
    let mut h = g.clone();
    if h.terms.is_empty() {
        return None;
    }
    let how = match s.below(8) {
        0..=3 => {
            for _ in 0..s.range(1, 3) {
                let n = s.below(h.nts.len());
                let k = h.nts[n].prods.len();
                if k == 0 {
                    continue;
                }
                let p = s.below(k);
                let nt = s.below(h.nts.len());
                let t = s.below(h.terms.len().max(1));
                let pr = &mut h.nts[n].prods[p];
                match s.below(4) {
                    0 if pr.len() > 1 => pr.reverse(),
                    1 if !pr.is_empty() => {
                        let i = s.below(pr.len());
                        pr.remove(i);
                    }
                    2 if !pr.is_empty() => {
                        let i = s.below(pr.len());
                        pr[i].sym = Sym::N(nt);
                    }
                    _ if !pr.is_empty() => {
                        let i = s.below(pr.len());
                        pr[i].sym = Sym::T(t);
                    }
                    _ => pr.push(BSym { sym: Sym::T(t), bind: Bind::No }),
                }
            }
            "other productions"
        }
        4 => {
            let n = s.below(h.nts.len());
            h.nts[n].prods.reverse();
            "reordered productions"
        }
        5 => {
            let (n, m) = (s.below(h.nts.len()), s.below(h.nts.len()));
            let p = std::mem::take(&mut h.nts[n].prods);
            let q = std::mem::replace(&mut h.nts[m].prods, p);
            h.nts[n].prods = q;
            "swapped non-terminals"
        }
        6 => {
            for n in &mut h.nts {
                n.ty = (n.ty + 1) % 4;
            }
            "other types"
        }
        _ => {
            for t in &mut h.terms {
                t.shape = if t.shape == Shape::One { Shape::Unit } else { Shape::One };
            }
            "other token patterns"
        }
    };
    (h != *g).then_some((h, how))
}

impl TProp for Determ {
    fn tape_len(&self) -> usize {
        420
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let mut labels = vec![];
        let mut states = 0;
        let kind = s.weighted(&[60, 15, 15, 10]);
        // a grammar that resembles the first one, expanded in the same processes
        let mut sibling = None;
        let salt: Vec<u32> = (0..24).map(|_| s.below(1 << 31) as u32 * 2).collect();
        let text = match kind {
            0 => {
                let raw = candidate(s);
                let g = decorate(&raw, s);
                let a = analysed(g, raw.family, 160)?;
                labels.push(format!("class:{:?}", a.class));
                states = a.states;
                if a.class == Class::Clean && a.states < 4 {
                    return None;
                }
                let mut t = Src::zeros(salt);
                if let Some((h, how)) = resembling(&a.g, &mut t) {
                    labels.push(format!("next to a grammar with {}", how));
                    sibling = Some(emit::module(&h, &Default::default()));
                }
                emit::module(&a.g, &Default::default())
            }
            k => {
                let c = match k {
                    1 => super::tokens::Tokens.build(s)?,
                    2 => super::types::Types.build(s)?,
                    _ => super::mistakes::Mistakes.build(s)?,
                };
                labels.push(["", "token patterns", "types", "ill-formed"][k].to_string());
                c.progs.last()?.src.clone()
            }
        };
        let key = hash_of(&text);
        let progs: Vec<Prog> = [Some(text.clone()), sibling]
            .into_iter()
            .flatten()
            .map(|src| Prog {
                src,
                inputs: vec![],
                weight: 1,
            })
            .collect();
        Some(TCase {
            progs,
            labels,
            readable: text,
            judge: Box::new(move |rs| {
                let mut j = TJudged::default();
                match &rs[0].comp {
                    Comp::Unknown(_) => return j,
                    Comp::Ok => j.labels.push("expanded".into()),
                    Comp::Rejected { .. } => j.labels.push("rejected".into()),
                }
                for o in rs.iter().flat_map(|r| &r.outs) {
                    if let RawOut::Crash(m) = o {
                        j.fail = Some(m.clone());
                    }
                }
                if kind != 0 || states >= 6 {
                    j.nontrivial.push(key);
                }
                j
            }),
        })
    }

    fn suspect(&self, s: &mut Src, h: &mut crate::probe::Helper) -> Suspect {
        let kind = s.weighted(&[60, 15, 15, 10]);
        let salt: Vec<u32> = (0..24).map(|_| s.below(1 << 31) as u32 * 2).collect();
        let raw = candidate(s);
        let g = decorate(&raw, s);
        if kind != 0 || analysed(g.clone(), raw.family, 160).map_or(true, |a| a.class == Class::Clean && a.states < 4) {
            return Suspect::Skip;
        }
        let text = emit::grammar_text(&g, &Default::default());
        let Some(first) = h.hash(&text) else { return Suspect::Skip };
        let mut t = Src::zeros(salt.clone());
        if let Some((o, _)) = resembling(&g, &mut t) {
            h.hash(&emit::grammar_text(&o, &Default::default()));
        }
        if salt[23] >> 29 == 0 {
            h.stop();
        }
        for n in 0..2 {
            match h.hash(&text) {
                None => return Suspect::Skip,
                Some(x) if x != first => return Suspect::Hint(format!("another output, time {}", n + 2)),
                _ => {}
            }
        }
        Suspect::Quiet(3)
    }

    fn exec(&self, env: &Env, progs: &[&Prog]) -> Vec<Res> {
        let dir = env.fresh_dir("d");
        let n = progs.len();
        let mut seen: Vec<Vec<(String, Verdict)>> = vec![vec![]; n];
        let mut dead = vec![false; n];
        let rounds = if n <= 4 { 10 } else { 3 };
        for round in 0..rounds {
            let lone = round == 2 || round > 5;
            let groups: Vec<Vec<usize>> = match round {
                0 => vec![(0..n).collect()],
                1 => vec![(0..n).rev().chain(0..n).collect()],
                // alone, two of them, others each time
                _ if lone => (0..n).filter(|k| n <= 4 || (k + n * 7) % 11 < 2).map(|k| vec![k]).collect(),
                _ => vec![(0..n).map(|k| (k * 5 + round) % n).collect::<BTreeSet<_>>().into_iter().collect()],
            };
            for group in groups {
                let sub = env.fresh_dir("e");
                let Some(vs) = expand(env, &sub, progs, &group, round) else {
                    for k in &group {
                        dead[*k] = true;
                    }
                    continue;
                };
                let _ = std::fs::remove_dir_all(&sub);
                for (i, k) in group.iter().enumerate() {
                    seen[*k].push((format!("process {}.{}, place {}", round, group[0], i), vs[i].clone()));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        seen.into_iter()
            .enumerate()
            .map(|(k, vs)| {
                if vs.len() < 3 && dead[k] || vs.is_empty() {
                    return Res {
                        comp: Comp::Unknown("no expansion".into()),
                        outs: vec![],
                    };
                }
                env.executed.fetch_add(vs.len(), std::sync::atomic::Ordering::Relaxed);
                let first = &vs[0];
                let outs = vs
                    .iter()
                    .map(|v| {
                        if v.1 == first.1 {
                            RawOut::Line(String::new())
                        } else {
                            RawOut::Crash(differ(first, v))
                        }
                    })
                    .collect();
                Res {
                    comp: match &first.1 {
                        Verdict::Code(_) => Comp::Ok,
                        Verdict::Rejected(m) => Comp::Rejected {
                            msg: m.clone(),
                            expansion: true,
                        },
                    },
                    outs,
                }
            })
            .collect()
    }
}

#[derive(Clone, PartialEq)]
enum Verdict {
    Code(std::sync::Arc<str>),
    Rejected(String),
}

fn differ(a: &(String, Verdict), b: &(String, Verdict)) -> String {
    match (&a.1, &b.1) {
        (Verdict::Code(x), Verdict::Code(y)) => {
            let k = x.bytes().zip(y.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| {
                let b = s.as_bytes();
                String::from_utf8_lossy(&b[k.saturating_sub(40)..(k + 60).min(b.len())]).into_owned()
            };
            format!(
                "two expansions of one grammar differ: ...{}... in {}, ...{}... in {}",
                cut(x),
                a.0,
                cut(y),
                b.0
            )
        }
        (Verdict::Rejected(x), Verdict::Rejected(y)) => {
            format!("one grammar, two rejections: {:?} in {}, {:?} in {}", x, a.0, y, b.0)
        }
        (Verdict::Rejected(x), _) => format!("a grammar is rejected ({:?}) in {} and expanded in {}", x, a.0, b.0),
        (_, Verdict::Rejected(y)) => format!("a grammar is expanded in {} and rejected ({:?}) in {}", a.0, y, b.0),
    }
}

/// One compiler process; verdicts for the members of the group, in order (members may repeat).
fn expand(env: &Env, dir: &Path, progs: &[&Prog], group: &[usize], round: usize) -> Option<Vec<Verdict>> {
    let mut main = String::from("#![allow(warnings)]\n");
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    if round % 2 == 1 {
        for (i, n) in NEIGHBOURS.iter().enumerate() {
            let f = dir.join(format!("neighbour{}.rs", i));
            std::fs::write(&f, n).unwrap();
            main.push_str(&format!("#[path={:?}] mod neighbour{};\n", f, i));
        }
    }
    for (i, k) in group.iter().enumerate() {
        let stem = if round % 2 == 1 { format!("q{}_{}", i, k) } else { format!("unit_{}_{}", k, i) };
        let f = dir.join(format!("{}.rs", stem));
        let mut text = progs[*k].src.replace("__SELF__", "unit");
        if round % 2 == 1 {
            // another place in the file
            text = format!("{}{}{}", "\n".repeat(17 * (i + 1)), "/* - */ ".repeat(i % 5), text);
            text = text.replace("parser! {", "       parser! {");
        }
        std::fs::write(&f, text).unwrap();
        names.insert(stem, i);
        main.push_str(&format!(
            "mod c{0} {{ const PGMARK_{0}_B: () = (); #[path={1:?}] pub mod unit; const PGMARK_{0}_E: () = (); }}\n",
            i, f
        ));
    }
    let m = dir.join("main.rs");
    std::fs::write(&m, main).unwrap();
    let mut c = env.rustc();
    c.args(["--crate-type", "lib", "-Zunpretty=expanded", "--error-format=json"])
        .env("RUSTC_BOOTSTRAP", "1")
        .arg(&m);
    if round % 2 == 1 {
        c.current_dir(dir)
            .args(["--crate-name", "another", "-Copt-level=2"])
            .env("HOME", dir)
            .env("TMPDIR", dir)
            .env("USER", "nobody")
            .env("LANG", "tr_TR.UTF-8")
            .env("TZ", "Asia/Tokyo")
            .env("CARGO_MANIFEST_DIR", dir)
            .env("CARGO_PKG_NAME", "another")
            .env("RUST_BACKTRACE", "1")
            .env("RUST_LOG", "off");
        for v in ENVIRONMENT {
            c.env(v, dir);
        }
    } else {
        c.current_dir(&env.scratch);
    }
    let Timed::Done(_, out, err) = timed(c, RUSTC_LIMIT) else {
        env.trouble("no expansion".into());
        return None;
    };
    let mut rejected: BTreeMap<usize, String> = BTreeMap::new();
    for line in String::from_utf8_lossy(&err).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
        if v["level"] != "error" {
            continue;
        }
        // the macro's own errors only: what rustc says about names depends on the other modules
        let msg = v["message"].as_str().unwrap_or("");
        if !v["code"].is_null() || msg.starts_with("cannot find") || msg.starts_with("cannot determine") {
            continue;
        }
        let mut text = v["message"].as_str().unwrap_or("").to_string();
        for ch in v["children"].as_array().into_iter().flatten() {
            text.push_str(" / ");
            text.push_str(ch["message"].as_str().unwrap_or(""));
        }
        let mut file = None;
        for s in v["spans"].as_array().into_iter().flatten() {
            let f = s["file_name"].as_str().unwrap_or("");
            let stem = f.rsplit('/').next().unwrap_or("").trim_end_matches(".rs").to_string();
            if let Some(i) = names.get(&stem) {
                file = Some(*i);
            }
        }
        if let Some(i) = file {
            let e = rejected.entry(i).or_default();
            e.push_str(&text);
            e.push('\n');
        }
    }
    let out = String::from_utf8_lossy(&out);
    let mut vs = vec![];
    for i in 0..group.len() {
        if let Some(m) = rejected.remove(&i) {
            vs.push(Verdict::Rejected(m));
            continue;
        }
        let (b, e) = (format!("PGMARK_{}_B: () = ();", i), format!("const PGMARK_{}_E", i));
        let (Some(b), Some(e)) = (out.find(&b).map(|x| x + b.len()), out.find(&e)) else {
            env.trouble(format!("no expansion found for a unit: {}", String::from_utf8_lossy(&err).chars().take(300).collect::<String>()));
            return None;
        };
        let text = &out[b..e];
        let text = text.split_once("pub mod unit {").map_or(text, |x| x.1);
        let code: String = text.chars().filter(|c| !c.is_whitespace()).collect();
        vs.push(Verdict::Code(code.into()));
    }
    Some(vs)
}

//! C11: ill-formed grammars. A well-formed, conflict-free grammar (the control, which compiles) and
//! copies of it with one mistake each, which must be rejected by the macro.

use crate::emit::lit;
use crate::gen::*;
use crate::gram::*;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;

pub struct Mistakes;

#[derive(Clone)]
struct NtI {
    public: bool,
    name: String,
    /// symbols, arrow, action
    prods: Vec<(Vec<String>, &'static str, String)>,
    short: bool,
}

#[derive(Clone)]
enum It {
    Toks(String, Vec<(String, String)>),
    Nt(NtI),
    Ty(String, String),
}

fn render(items: &[It]) -> String {
    let mut s = String::new();
    for it in items {
        match it {
            It::Toks(n, es) => {
                s.push_str(&format!("enum {} {{\n", n));
                for (a, b) in es {
                    s.push_str(&format!("    {} => {},\n", a, b));
                }
                s.push_str("}\n");
            }
            It::Ty(a, b) => s.push_str(&format!("type {} = {};\n", a, b)),
            It::Nt(n) => {
                s.push_str(&format!("{}{}: u32 =", if n.public { "pub " } else { "" }, n.name));
                let ps: Vec<String> = n
                    .prods
                    .iter()
                    .map(|(sy, ar, ac)| format!("{} {} {},", sy.join(" "), ar, ac))
                    .collect();
                if n.short && ps.len() == 1 {
                    s.push_str(&format!(" {}\n", ps[0]));
                } else {
                    s.push_str(" {\n");
                    for p in ps {
                        s.push_str(&format!("    {}\n", p));
                    }
                    s.push_str("};\n");
                }
            }
        }
    }
    s
}

fn module(items: &[It], nterms: usize) -> String {
    let mut s = String::from("use parsegen::parser;\n");
    for e in ["Tok", "Token"] {
        s.push_str(&format!("#[derive(Debug)] pub enum {} {{", e));
        for i in 0..nterms + 2 {
            s.push_str(&format!(" T{}(u32), U{},", i, i));
        }
        s.push_str(" }\n");
    }
    s.push_str("#[derive(Debug, Default)] pub struct St;\npub type State = St; pub type Error = u32; pub type LexerError = u32;\n");
    s.push_str(&format!("parser! {{\n{}}}\n", render(items)));
    s.push_str("pub fn run(_: usize, _: &str) -> String { String::new() }\n");
    s
}

fn swapcase(x: &str) -> String {
    x.chars()
        .map(|c| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
        .collect()
}

fn macro_text(module: &str) -> Option<&str> {
    let (_, r) = module.split_once("parser! {\n")?;
    Some(r.rsplit_once("}\npub fn run")?.0)
}

impl TProp for Mistakes {
    fn suspect(&self, s: &mut Src, h: &mut crate::probe::Helper) -> crate::tape::Suspect {
        use crate::probe::Reply;
        use crate::tape::Suspect::*;
        let Some(c) = self.build(s) else { return Skip };
        for (k, p) in c.progs.iter().enumerate() {
            let Some(t) = macro_text(&p.src) else { return Skip };
            match (k, h.ask(t)) {
                (0, Reply::Ok(_)) => {}
                (0, _) => return Skip,
                (_, Reply::Ok(_)) => return Hint("no panic".into()),
                (_, Reply::Dead(m)) => return Hint(m),
                _ => {}
            }
        }
        Quiet(c.progs.len())
    }

    fn tape_len(&self) -> usize {
        420
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let wanted: Vec<usize> = (0..4).map(|_| s.below(KINDS.len() + 1)).collect();
        let salts: Vec<Vec<u32>> = (0..4).map(|_| (0..14).map(|_| s.below(1 << 31) as u32 * 2).collect()).collect();
        let kinds_of_order = s.below(3);
        let raw = candidate(s);
        if raw.nterms > 30 || raw.prods.len() > 24 {
            return None;
        }
        let mut g = decorate(&raw, s);
        for n in &mut g.nts {
            n.ty = 2; // u32
        }
        for t in &mut g.terms {
            t.shape = Shape::One;
        }
        let a = analysed(g, raw.family, 60)?;
        if a.class != crate::lr::Class::Clean {
            return None;
        }
        let g = &a.g;
        // tokens no production takes the value of may have none
        let mut unit = vec![s.chance(1, 2); g.terms.len()];
        for b in g.nts.iter().flat_map(|n| n.prods.iter()).flatten() {
            if let (Sym::T(t), true) = (b.sym, b.bind != Bind::No) {
                unit[t] = false;
            }
        }
        let unit_rest = s.chance(1, 2);
        let mut items = vec![It::Toks(
            "Tok".into(),
            g.terms
                .iter()
                .enumerate()
                .map(|(i, t)| (lit(&t.name), if unit[i] { format!("Tok::U{}", i) } else { format!("Tok::T{}(<u32>)", i) }))
                .chain([
                    (lit("rest 1"), if unit_rest { format!("Tok::U{}", g.terms.len()) } else { format!("Tok::T{}(_)", g.terms.len()) }),
                    (lit("rest 2"), "_".into()),
                ])
                .collect(),
        )];
        for n in &g.nts {
            items.push(It::Nt(NtI {
                public: n.public,
                name: n.name.clone(),
                short: s.chance(1, 2),
                prods: n
                    .prods
                    .iter()
                    .map(|p| {
                        let mut k = 0;
                        let sy = p
                            .iter()
                            .map(|b| {
                                let x = match b.sym {
                                    Sym::T(t) => lit(&g.terms[t].name),
                                    Sym::N(m) => g.nts[m].name.clone(),
                                };
                                if b.bind == Bind::No {
                                    x
                                } else {
                                    k += 1;
                                    format!("<{}x{}: {}>", if b.bind == Bind::Mut { "mut " } else { "" }, k, x)
                                }
                            })
                            .collect();
                        let sum = (1..=k).fold("1u32".to_string(), |a, i| format!("{} + x{}", a, i));
                        (sy, "=>", if s.chance(1, 3) { format!("{{ {} }}", sum) } else { sum })
                    })
                    .collect(),
            }));
        }
        if s.chance(1, 4) {
            items.push(It::Ty("State".into(), "St".into()));
        }
        match kinds_of_order {
            0 => {}
            1 => items.reverse(),
            _ => s.shuffle(&mut items),
        }
        let nterms = g.terms.len();
        let mut progs = vec![module(&items, nterms)];
        let mut labels = vec![];
        let mut notes = vec![];
        let reach = g.reachable(&g.entries());
        for (k, salt) in wanted.iter().zip(salts) {
            // 0: none (shrinking drops mistakes that way)
            let Some(k) = &k.checked_sub(1) else { continue };
            let mut t = Src::zeros(salt);
            let mut m = items.clone();
            let Some(note) = mistake(*k, g, &reach, &mut m, &mut t) else { continue };
            progs.push(module(&m, nterms));
            labels.push(format!("mistake:{}", KINDS[*k]));
            notes.push(note);
        }
        if notes.is_empty() {
            return None;
        }
        let readable = notes
            .iter()
            .zip(&progs[1..])
            .map(|(n, p)| format!("// mistake: {}\n{}", n, p))
            .collect::<Vec<_>>()
            .join("\n");
        let texts: Vec<String> = progs[1..].to_vec();
        Some(TCase {
            progs: progs
                .into_iter()
                .map(|src| Prog {
                    src,
                    inputs: vec![],
                    weight: 1,
                })
                .collect(),
            labels,
            readable,
            judge: Box::new(move |rs| {
                let mut j = TJudged::default();
                if rs[0].comp != Comp::Ok {
                    j.labels.push("control rejected".into());
                    return j;
                }
                for (i, n) in notes.iter().enumerate() {
                    match &rs[i + 1].comp {
                        Comp::Unknown(_) => {}
                        Comp::Rejected { expansion: true, .. } => j.nontrivial.push(crate::gcheck::hash_of(&texts[i])),
                        Comp::Rejected { msg, .. } => {
                            if j.fail.is_none() {
                                j.fail = Some(format!(
                                    "the macro does not report a mistake ({}); rustc stumbles over the generated code: {}",
                                    n, msg
                                ))
                            }
                        }
                        Comp::Ok => {
                            if j.fail.is_none() {
                                j.fail = Some(format!("an ill-formed grammar compiles: {}", n))
                            }
                        }
                    }
                }
                j
            }),
        })
    }
}

const KINDS: [&str; 12] = [
    "undefined non-terminal",
    "undefined token",
    "duplicate token",
    "duplicate non-terminal",
    "no token declaration",
    "several token declarations",
    "several state types",
    "unknown type declaration",
    "repetition",
    "fallible action",
    "undefined non-terminal in unreachable code",
    "undefined token in unreachable code",
];

/// (item, production) of a random production
fn site(m: &[It], t: &mut Src) -> Option<(usize, usize)> {
    let sites: Vec<(usize, usize)> = m
        .iter()
        .enumerate()
        .filter_map(|(i, x)| match x {
            It::Nt(n) => Some((i, n.prods.len())),
            _ => None,
        })
        .flat_map(|(i, n)| (0..n).map(move |p| (i, p)))
        .collect();
    if sites.is_empty() {
        return None;
    }
    Some(*t.pick(&sites))
}

fn put(n: &mut NtI, p: usize, sym: String, t: &mut Src) {
    let pr = &mut n.prods[p].0;
    // bound, or not; in place of a symbol (its binder is kept), or in between
    if !pr.is_empty() && t.chance(1, 2) {
        let at = t.below(pr.len());
        let old = &pr[at];
        let new = match old.split_once(": ") {
            Some((b, _)) if old.starts_with('<') => format!("{}: {}>", b, sym),
            _ => sym,
        };
        pr[at] = new;
    } else {
        let at = t.below(pr.len() + 1);
        let new = if t.chance(1, 3) { format!("<extra: {}>", sym) } else { sym };
        pr.insert(at, new);
    }
}

fn mistake(kind: usize, g: &Gram, _reach: &[bool], m: &mut Vec<It>, t: &mut Src) -> Option<String> {
    let nt_names: Vec<&String> = g.nts.iter().map(|n| &n.name).collect();
    let t_names: Vec<&str> = g.terms.iter().map(|t| t.name.as_str()).chain(["rest 1", "rest 2"]).collect();
    let bad_nt = |t: &mut Src| -> Option<String> {
        let n = t.pick(&g.nts).name.clone();
        let c = [
            format!("{}1", n),
            format!("{}0", n),
            swapcase(&n),
            n[..n.len() - 1].to_string(),
            "Undefined".into(),
            "Tok".into(),
            "u32".into(),
            "x1".into(),
            "State".into(),
            format!("_{}", n),
            "empty".into(),
        ];
        let c = c[t.below(c.len())].clone();
        let ok = !c.is_empty() && !nt_names.contains(&&c) && c.starts_with(|x: char| x.is_alphabetic() || x == '_') && c != "_";
        ok.then_some(c)
    };
    let bad_t = |t: &mut Src| -> Option<String> {
        let n = *t.pick(&t_names);
        let c = [
            format!("{} ", n),
            format!(" {}", n),
            swapcase(n),
            n.chars().skip(1).collect(),
            String::new(),
            "end-of-input".into(),
            "$".into(),
            g.nts[0].name.clone(),
            "undefined".into(),
            "_".into(),
            "T0".into(),
            format!("\"{}\"", n),
        ];
        let c = c[t.below(c.len())].clone();
        (!t_names.contains(&c.as_str())).then_some(c)
    };
    let anywhere = |m: &[It], t: &mut Src| t.below(m.len() + 1);
    match kind {
        0 | 1 => {
            let sym = if kind == 0 { bad_nt(t)? } else { lit(&bad_t(t)?) };
            let (i, p) = site(m, t)?;
            if let It::Nt(n) = &mut m[i] {
                put(n, p, sym.clone(), t);
                return Some(format!("{} {} in {}", KINDS[kind], sym, n.name));
            }
            None
        }
        10 | 11 => {
            let sym = if kind == 10 { bad_nt(t)? } else { lit(&bad_t(t)?) };
            let name = "Unreachable9";
            let mut ps: Vec<(Vec<String>, &'static str, String)> = vec![(vec![sym.clone()], "=>", "7".into())];
            if t.chance(1, 2) {
                let ok = (vec![lit("rest 1")], "=>", "8".to_string());
                ps.insert(t.below(2), ok);
            }
            let at = anywhere(m, t);
            m.insert(
                at,
                It::Nt(NtI {
                    public: false,
                    name: name.into(),
                    prods: ps,
                    short: t.chance(1, 2),
                }),
            );
            Some(format!("{} {}", KINDS[kind], sym))
        }
        2 => {
            let at = m.iter().position(|x| matches!(x, It::Toks(..)))?;
            let It::Toks(_, es) = &mut m[at] else { return None };
            let k = t.below(es.len());
            let name = t_names[k];
            let new = crate::emit::spell(name, t.below(4));
            let pat = match t.below(4) {
                0 => es[k].1.clone(),
                1 if t.chance(1, 2) => format!("Tok::U{}", g.terms.len() + 1),
                1 => format!("Tok::T{}(<u32>)", g.terms.len() + 1),
                2 => es[t.below(es.len())].1.clone(),
                _ => "Tok::T0(1)".into(),
            };
            let pos = match t.below(3) {
                0 => k,
                1 => k + 1,
                _ => t.below(es.len() + 1),
            };
            es.insert(pos, (new.clone(), pat.clone()));
            Some(format!("token {} declared again as {} => {}", lit(name), new, pat))
        }
        3 => {
            let nts: Vec<usize> = (0..m.len()).filter(|i| matches!(m[*i], It::Nt(_))).collect();
            let i = *t.pick(&nts);
            let It::Nt(old) = m[i].clone() else { return None };
            let mut new = old.clone();
            new.short = t.chance(1, 2);
            new.public = match t.below(3) {
                0 => old.public,
                1 => false,
                _ => !old.public,
            };
            let how = t.below(4);
            match how {
                0 => {}
                1 => new.prods = vec![],
                2 => {
                    // a production no other starts with: merging would not even be a conflict
                    new.prods = vec![(vec![lit("rest 1")], "=>", "9".into())]
                }
                _ => {
                    let s = lit(["rest 1", "rest 2"][t.below(2)]);
                    let k = t.below(new.prods.len().max(1));
                    new.prods.truncate(k);
                    new.prods.push((vec![s.clone(), s], "=>", "9".into()));
                }
            }
            let at = match t.below(4) {
                0 => i,
                1 => i + 1,
                2 => m.len(),
                _ => anywhere(m, t),
            };
            m.insert(at, It::Nt(new.clone()));
            Some(format!(
                "non-terminal {} defined twice ({}pub and {}pub, {})",
                old.name,
                if old.public { "" } else { "not " },
                if new.public { "" } else { "not " },
                ["same productions", "no productions", "another production", "changed productions"][how]
            ))
        }
        4 => {
            m.retain(|x| !matches!(x, It::Toks(..)));
            let how = t.below(3);
            if how > 0 {
                // nothing else may be wrong
                for x in m.iter_mut() {
                    if let It::Nt(n) = x {
                        n.prods = if how == 1 || !n.public { vec![(vec![], "=>", "3".into())] } else { vec![] };
                    }
                }
            }
            Some(format!("no token declaration{}", ["", ", all productions empty", ", no productions"][how]))
        }
        5 => {
            let i = m.iter().position(|x| matches!(x, It::Toks(..)))?;
            let It::Toks(n, es) = m[i].clone() else { return None };
            let how = t.below(5);
            let new = match how {
                0 => It::Toks(n, es),
                1 => It::Toks(n, vec![]),
                2 => It::Toks("Token".into(), es),
                3 => It::Toks(n, vec![(lit("another"), format!("Tok::T{}(<u32>)", g.terms.len() + 1))]),
                _ => {
                    // split
                    let k = t.below(es.len() + 1);
                    m[i] = It::Toks(n.clone(), es[..k].to_vec());
                    It::Toks(n, es[k..].to_vec())
                }
            };
            let at = match t.below(3) {
                0 => i + 1,
                1 => m.len(),
                _ => anywhere(m, t),
            };
            m.insert(at, new);
            Some(format!(
                "two token declarations ({})",
                ["identical", "one empty", "another type", "another token", "split"][how]
            ))
        }
        6 => {
            m.retain(|x| !matches!(x, It::Ty(..)));
            let n = t.range(2, 3);
            for k in 0..n {
                let ty = if k > 0 && t.chance(1, 2) { "u32" } else { "St" };
                let at = if t.chance(1, 3) { m.len() } else { anywhere(m, t) };
                m.insert(at, It::Ty("State".into(), ty.into()));
            }
            Some(format!("{} state types", n))
        }
        7 => {
            let names = ["Token", "Error", "LexerError", "Location", "state", "STATE", "States", "Stat", "T", "Tok", "UserState"];
            let name = *t.pick(&names);
            let at = anywhere(m, t);
            m.insert(at, It::Ty(name.into(), "u32".into()));
            Some(format!("unknown `type {}`", name))
        }
        8 => {
            let (i, p) = site(m, t)?;
            let It::Nt(n) = &mut m[i] else { return None };
            let op = ["+", "*", "?", "+?", "**", "?*"][t.weighted(&[5, 5, 5, 1, 1, 1])];
            let pr = &mut n.prods[p].0;
            if pr.is_empty() {
                let sy = if t.chance(1, 2) { lit(t_names[0]) } else { n.name.clone() };
                pr.push(format!("{}{}", sy, op));
            } else {
                let at = t.below(pr.len());
                let old = pr[at].clone();
                pr[at] = if old.starts_with('<') && t.chance(2, 3) {
                    format!("{}{}>", &old[..old.len() - 1], op)
                } else {
                    format!("{}{}", old, op)
                };
            }
            Some(format!("repetition {} in {}", op, n.name))
        }
        9 => {
            let (i, p) = site(m, t)?;
            let It::Nt(n) = &mut m[i] else { return None };
            n.prods[p].1 = "=>?";
            if t.chance(1, 2) {
                n.prods[p].2 = format!("Ok::<u32, u32>({})", n.prods[p].2);
            }
            Some(format!("fallible action in {}", n.name))
        }
        _ => None,
    }
}

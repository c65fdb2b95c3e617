//! C16 (and part of C06): grammars with hundreds of tokens, non-terminals, productions, states,
//! symbols per production, value types. Everything observed is compared with the reference parser.

use super::long::{Ctxs, INF};
use crate::derive::*;
use crate::earley::*;
use crate::emit;
use crate::gcheck::hash_of;
use crate::gen::*;
use crate::gram::*;
use crate::inputs::mutate;
use crate::lr::{run, Class};
use crate::obs;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;
use Sym::{N, T};

pub struct Big {
    /// C06: only whether conflicts are found
    pub expand_only: bool,
}

fn raw(nterms: usize, prods: Vec<Vec<Vec<Sym>>>, family: &'static str) -> Raw {
    Raw {
        nterms,
        prods,
        pubs: vec![0],
        family,
    }
}

/// n alternatives, each a non-terminal of its own
fn menu(n: usize, s: &mut Src) -> Raw {
    let mut start = vec![];
    let mut rest = vec![];
    for i in 0..n {
        start.push(vec![N(1 + i)]);
        let mut p = vec![T(i)];
        for _ in 0..s.below(if n > 150 { 2 } else { 3 }) {
            p.push(T(s.below(n)));
        }
        rest.push(vec![p]);
        if s.chance(1, 5) {
            rest[i].push(vec![T(i), T(n), N(1 + s.below(n))]);
            rest[i][0] = vec![T(i)];
        }
    }
    rest.insert(0, start);
    raw(n + 1, rest, "menu")
}

/// one production of n symbols, some of them optional
fn long(n: usize, s: &mut Src) -> Raw {
    let m = s.range(20, 60);
    let mut p = vec![];
    let mut prods = vec![vec![]];
    let mut terms = m;
    for _ in 0..n {
        if s.chance(1, 8) {
            p.push(N(prods.len()));
            prods.push(match s.below(3) {
                0 => vec![vec![T(terms)], vec![]],
                1 => vec![vec![], vec![N(prods.len()), T(terms)]],
                _ => vec![vec![T(terms), T(s.below(m))]],
            });
            terms += 1;
        } else {
            p.push(T(s.below(m)));
        }
    }
    prods[0].push(p);
    raw(terms, prods, "long production")
}

/// right-linear: the states of a random automaton
fn automaton(n: usize, s: &mut Src) -> Raw {
    let k = if n > 150 { s.range(1, 3) } else { s.range(2, 6) };
    let mut prods = vec![];
    for i in 0..n {
        let mut ps = vec![];
        for a in 0..k {
            if s.chance(3, 4) {
                let to = if s.chance(1, 3) && i + 1 < n { i + 1 } else { s.below(n) };
                ps.push(vec![T(a), N(to)]);
            }
        }
        if s.chance(1, 3) || ps.is_empty() {
            ps.push(vec![]);
        } else if s.chance(1, 3) {
            ps.push(vec![T(k)]);
        }
        prods.push(ps);
    }
    raw(k + 1, prods, "automaton")
}

/// a list of n kinds of items: every token follows every other
fn items(n: usize, s: &mut Src) -> Raw {
    let mut it = vec![];
    for i in 0..n {
        it.push(vec![T(i)]);
    }
    let list = if s.chance(1, 2) { vec![vec![N(0), N(1)], vec![]] } else { vec![vec![N(0), N(1)], vec![N(1)]] };
    raw(n, vec![list, it], "items")
}

/// a chain of unit productions with a token hanging on each
fn chain(n: usize, s: &mut Src) -> Raw {
    let mut prods = vec![];
    for i in 0..n {
        let mut ps = vec![vec![T(i)]];
        if i + 1 < n {
            let at = s.below(2);
            ps.insert(at, vec![N(i + 1)]);
        }
        prods.push(ps);
    }
    raw(n, prods, "chain")
}

fn blocks(n: usize, s: &mut Src) -> Raw {
    let mut prods = vec![];
    for i in 0..n {
        let mut ps = vec![];
        if i + 1 < n {
            ps.push(vec![T(2 * i), N(i + 1), T(2 * i + 1)]);
        }
        if i + 1 == n || s.chance(1, 2) {
            ps.push(if s.chance(1, 2) { vec![T(2 * n)] } else { vec![] });
        }
        prods.push(ps);
    }
    raw(2 * n + 1, prods, "blocks")
}

fn levels(n: usize, s: &mut Src) -> Raw {
    let mut prods = vec![];
    for i in 0..n {
        let (me, up) = (N(i), N(i + 1));
        prods.push(match s.below(3) {
            0 => vec![vec![me, T(i), up], vec![up]],
            1 => vec![vec![up, T(i), me], vec![up]],
            _ => vec![vec![T(i), me], vec![up]],
        });
    }
    prods.push(vec![vec![T(n)], vec![T(n + 1), N(0), T(n + 2)]]);
    raw(n + 3, prods, "levels")
}

/// many small random grammars side by side, told apart by their first token
fn union(n: usize, s: &mut Src) -> Raw {
    let mut prods: Vec<Vec<Vec<Sym>>> = vec![vec![]];
    let mut terms = 0;
    let shared = s.chance(1, 3);
    let mut own = 0;
    let parts = n / 6 + 2;
    for _ in 0..parts {
        let c = candidate(s);
        if c.prods.len() > 12 || c.nterms > 16 {
            continue;
        }
        // keep conflict-free parts, and now and then another
        let ok = analysed(plain(&c), "", 80).map_or(false, |a| a.class == Class::Clean);
        if !ok && !s.chance(1, 40) {
            continue;
        }
        let first = *c.pubs.first().unwrap();
        let toff = if shared { 0 } else { terms };
        let noff = prods.len();
        own = own.max(toff + c.nterms);
        terms = own;
        prods[0].push(vec![N(noff + first)]);
        for ps in &c.prods {
            prods.push(
                ps.iter()
                    .map(|p| {
                        p.iter()
                            .map(|x| match x {
                                T(t) => T(t + toff),
                                N(m) => N(m + noff),
                            })
                            .collect()
                    })
                    .collect(),
            );
        }
    }
    let k = prods[0].len();
    for (i, p) in prods[0].iter_mut().enumerate() {
        p.insert(0, T(terms + i));
    }
    let mut r = raw(terms + k, prods, "union");
    // the keywords may be declared anywhere
    if s.chance(1, 2) {
        let n = r.nterms;
        let mut perm: Vec<usize> = (0..n).collect();
        s.shuffle(&mut perm);
        for ps in &mut r.prods {
            for p in ps {
                for x in p {
                    if let T(t) = x {
                        *x = T(perm[*t]);
                    }
                }
            }
        }
    }
    r
}

impl TProp for Big {
    fn tape_len(&self) -> usize {
        1500
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let (a, rows, t) = self.grammar(s)?;
        self.case(a, rows, t)
    }

    fn suspect(&self, s: &mut Src, h: &mut crate::probe::Helper) -> crate::tape::Suspect {
        use crate::probe::*;
        use crate::tape::Suspect::*;
        let Some((a, _, _)) = self.grammar(s) else { return Skip };
        match h.ask(&emit::grammar_text(&a.g, &Default::default())) {
            Reply::Unknown(_) => Skip,
            Reply::Dead(m) => Hint(m),
            Reply::Panic if a.class == Class::Clean => Hint("the macro panics".into()),
            Reply::Panic => Quiet(1),
            Reply::Ok(_) if a.class == Class::ReduceReduce => Hint("no panic".into()),
            Reply::Ok(_) if self.expand_only => Quiet(1),
            Reply::Ok(sut) => match compare(&a, &sut, 1) {
                Err(_) => Skip,
                Ok(d) => match d.first() {
                    None => Quiet(1),
                    Some(d) => Hint(d.what.clone()),
                },
            },
        }
    }
}

impl Big {
    fn grammar(&self, s: &mut Src) -> Option<(Analysed, usize, Src)> {
        let salt: Vec<u32> = (0..700).map(|_| s.below(1 << 31) as u32 * 2).collect();
        let mut t = Src::new(salt);
        // log-uniform in about 20..400
        let size = |lo: usize, hi: usize, s: &mut Src| {
            if hi > 300 && s.chance(1, 4) {
                // just above what a byte holds
                return s.range(254, 275);
            }
            let x = s.below(1000) as f64 / 1000.0;
            (lo as f64 * (hi as f64 / lo as f64).powf(x)) as usize
        };
        let mut r = match s.weighted(&[3, 3, 3, 2, 2, 2, 2, 6]) {
            0 => menu(size(40, 420, s), s),
            1 => long(size(40, 560, s), s),
            2 => automaton(size(30, 420, s), s),
            3 => items(size(40, 400, s), s),
            4 => chain(size(40, 420, s), s),
            5 => blocks(size(20, 220, s), s),
            6 => levels(size(8, 16, s), s),
            _ => union(size(30, 700, s), s),
        };
        if r.prods[0].is_empty() {
            return None;
        }
        if self.expand_only && t.chance(1, 2) {
            // an injected conflict: the same production once more somewhere else
            let a = t.below(r.prods.len());
            if !r.prods[a].is_empty() {
                let p = r.prods[a][t.below(r.prods[a].len())].clone();
                let k = r.prods.len();
                r.prods[a].push(vec![N(k)]);
                r.prods.push(vec![p]);
            }
        }
        let k = r.prods.len();
        if t.chance(1, 2) {
            let mut perm: Vec<usize> = (0..k).collect();
            t.shuffle(&mut perm);
            r = permute_nts(&r, &perm);
        }
        let mut g = decorate(&r, &mut t);
        match t.below(3) {
            0 => {
                // all types different
                let off = if t.chance(1, 2) { 0 } else { 20 };
                for (i, n) in g.nts.iter_mut().enumerate() {
                    n.ty = i + off;
                }
            }
            1 => {
                for n in &mut g.nts {
                    n.ty = 0;
                }
            }
            _ => {}
        }
        let a = analysed(g, r.family, 1600)?;
        let rows = a.states * (a.g.terms.len() + 1) + a.states * a.g.nts.len() / 2;
        if rows > 400_000 {
            return None;
        }
        if !self.expand_only && a.class == Class::ReduceReduce {
            return None;
        }
        Some((a, rows, t))
    }

    fn case(&self, a: Analysed, rows: usize, mut t: Src) -> Option<TCase> {
        let g = a.g.clone();
        let nprods: usize = g.nts.iter().map(|n| n.prods.len()).sum();
        let longest = g.nts.iter().flat_map(|n| n.prods.iter().map(|p| p.len())).max().unwrap_or(0);
        let mut tys: Vec<usize> = g.nts.iter().map(|n| n.ty).collect();
        tys.sort();
        tys.dedup();
        let mut labels = vec![format!("family:{}", a.family), format!("class:{:?}", a.class)];
        for (what, n) in [
            ("tokens", g.terms.len()),
            ("non-terminals", g.nts.len()),
            ("productions", nprods),
            ("states", a.states),
            ("symbols in one production", longest),
            ("types", tys.len()),
        ] {
            for b in [64, 127, 255, 511] {
                if n > b {
                    labels.push(format!("more than {} {}", b, what));
                }
            }
        }
        let big = g.terms.len() > 60 || g.nts.len() > 60 || nprods > 60 || a.states > 120 || longest > 60;
        let mut inputs: Vec<(usize, Vec<Item>)> = vec![];
        if !self.expand_only {
            let cx = Ctxs { ms: min_size(&g), g: &g };
            for e in g.entries() {
                if cx.ms.nt[e] >= INF {
                    continue;
                }
                let mut words: Vec<Vec<usize>> = vec![];
                // through every production, as far as the quota goes
                let mut all: Vec<(usize, usize)> = (0..g.nts.len()).flat_map(|n| (0..g.nts[n].prods.len()).map(move |p| (n, p))).collect();
                t.shuffle(&mut all);
                for (n, p) in all.into_iter().take(160) {
                    if cx.ms.prod[n][p] >= INF {
                        continue;
                    }
                    let ctx = if n == e { Some((vec![], vec![])) } else { cx.walk(e, n, &mut t) };
                    let Some((x, y)) = ctx else { continue };
                    let mut w = x;
                    for b in &g.nts[n].prods[p] {
                        match b.sym {
                            T(k) => w.push(k),
                            N(m) => w.extend(cx.some(m, 2, &mut t)),
                        }
                    }
                    w.extend(y);
                    words.push(w);
                }
                for k in 0..20 {
                    let mut w = vec![];
                    if let Some(tree) = derive(&g, &cx.ms, e, [20, 60, 200][k % 3], &mut t) {
                        tokens(&tree, &mut w);
                        words.push(w);
                    }
                }
                let n = words.len();
                for k in 0..n {
                    let mut w = words[k].clone();
                    match t.below(3) {
                        0 => mutate(&mut w, g.terms.len(), &mut t),
                        1 => {
                            w.truncate(t.below(w.len() + 1));
                        }
                        _ => {
                            w.truncate(t.below(w.len() + 1));
                            w.push(t.below(g.terms.len()));
                        }
                    }
                    words.push(w);
                }
                words.retain(|w| w.len() < 1500);
                inputs.extend(words.into_iter().map(|w| (e, w.into_iter().map(Item::Tok).collect())));
            }
        }
        let prog = Prog {
            src: emit::module(&g, &Default::default()),
            inputs: inputs.iter().map(|(e, w)| (*e, items_text(w))).collect(),
            weight: 10 + a.states / 40 + rows / 20000,
        };
        let readable = format!(
            "// {} tokens, {} non-terminals, {} productions, {} states\n{}",
            g.terms.len(),
            g.nts.len(),
            nprods,
            a.states,
            g.bnf()
        );
        let expand_only = self.expand_only;
        Some(TCase {
            progs: vec![prog],
            labels,
            readable,
            judge: Box::new(move |rs| judge(&a, &inputs, &rs[0], expand_only, big)),
        })
    }
}

fn judge(a: &Analysed, inputs: &[(usize, Vec<Item>)], r: &Res, expand_only: bool, big: bool) -> TJudged {
    let mut j = TJudged::default();
    match &r.comp {
        Comp::Unknown(_) => return j,
        Comp::Rejected { msg, .. } => {
            j.labels.push(format!("{:?} rejected", a.class));
            if expand_only {
                if a.class == Class::Clean {
                    j.fail = Some(format!("this grammar is LR(1) but does not compile: {}", msg));
                } else if big {
                    j.nontrivial.push(1);
                }
            }
            return j;
        }
        Comp::Ok => {}
    }
    if expand_only {
        if a.class == Class::ReduceReduce {
            j.fail = Some("this grammar has two possible reductions in one state on one lookahead, but it compiles".into());
        } else if big {
            j.nontrivial.push(1);
        }
        return j;
    }
    let g = &a.g;
    let words = |w: &[Item]| {
        w.iter()
            .map(|i| match i {
                Item::Tok(t) => format!("{:?}", g.terms[*t].name),
                Item::Err(e) => format!("Err({})", e),
            })
            .collect::<Vec<_>>()
            .join(" ")
    };
    let mut ear: Vec<(usize, Earley)> = vec![];
    for (k, (e, w)) in inputs.iter().enumerate() {
        let Some(o) = r.outs.get(k).and_then(obs::obs) else { continue };
        let tab = &a.tabs.iter().find(|t| t.0 == *e).unwrap().1;
        let want = run(g, tab, *e, w);
        if k % 16 == 0 && w.len() < 60 && a.class == Class::Clean {
            if !ear.iter().any(|x| x.0 == *e) {
                ear.push((*e, Earley::new(g, *e)));
            }
            let v = verdict(&ear.iter().find(|x| x.0 == *e).unwrap().1, w);
            if (v == Verdict::Accept) != want.accepted() {
                j.broken = Some(format!("Earley {:?} but LR {:?} on [{}]", v, want.out, words(w)));
                return j;
            }
        }
        let mut got = o.clone();
        got.mem = None;
        if got != want {
            j.fail = Some(format!(
                "a large grammar is not handled exactly\n  parser: {}\n  input: [{}]\n  expected: {}\n  observed: {}",
                g.nts[*e].name,
                words(w),
                want.text(),
                o.text()
            ));
            return j;
        }
        if big && w.len() > 1 {
            j.nontrivial.push(hash_of(w));
        }
    }
    j
}

//! Grammar generators. Families build plain productions (`Raw`); `decorate` adds names, payload
//! shapes, value types and binders. Classification by the reference construction decides which
//! candidates a check uses, and `Features` records what they are so that a batch can be balanced.

use crate::gram::*;
use crate::lr::*;
use crate::src::Src;
use std::collections::HashMap;

/// Productions only. Non-terminal 0 is the start symbol.
#[derive(Clone, Debug, Default)]
pub struct Raw {
    pub nterms: usize,
    pub prods: Vec<Vec<Vec<Sym>>>,
    /// extra public non-terminals
    pub pubs: Vec<usize>,
    pub family: &'static str,
}

use Sym::{N, T};

fn random(src: &mut Src) -> Raw {
    let nterms = src.range(1, 5);
    let nn = src.range(1, 6);
    let pt = src.range(35, 80);
    let mut prods = vec![];
    for i in 0..nn {
        let k = 1 + src.weighted(&[20, 45, 25, 10]);
        let mut ps = vec![];
        for _ in 0..k {
            let len = src.weighted(&[14, 28, 28, 18, 8, 3, 1]);
            let mut p = vec![];
            for _ in 0..len {
                if src.below(100) < pt {
                    p.push(T(src.below(nterms)));
                } else if src.chance(7, 10) && i + 1 < nn {
                    p.push(N(src.range(i + 1, nn - 1)));
                } else {
                    p.push(N(src.below(nn)));
                }
            }
            ps.push(p);
        }
        prods.push(ps);
    }
    let mut r = Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "random",
    };
    if src.chance(9, 10) {
        make_productive(&mut r, src);
    }
    r
}

fn make_productive(r: &mut Raw, src: &mut Src) {
    let plain = plain(r);
    let prod = plain.productive();
    for i in 0..r.prods.len() {
        if !prod[i] {
            let t = src.below(r.nterms);
            r.prods[i].push(vec![T(t)]);
        }
    }
}

/// Alternatives start with distinct terminals, plus at most one that may be empty.
fn ll(src: &mut Src) -> Raw {
    let nterms = src.range(2, 6);
    let nn = src.range(1, 6);
    let mut prods = vec![];
    for _ in 0..nn {
        let mut firsts: Vec<usize> = (0..nterms).collect();
        src.shuffle(&mut firsts);
        let k = src.range(1, 3.min(nterms));
        let mut ps = vec![];
        for f in firsts.iter().take(k) {
            let mut p = vec![T(*f)];
            for _ in 0..src.weighted(&[25, 35, 25, 15]) {
                p.push(if src.chance(1, 2) { T(src.below(nterms)) } else { N(src.below(nn)) });
            }
            ps.push(p);
        }
        if src.chance(1, 3) {
            ps.push(vec![]);
        } else if src.chance(1, 4) {
            ps.push(vec![N(src.below(nn)), N(src.below(nn))]);
        }
        prods.push(ps);
    }
    let mut r = Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "ll",
    };
    make_productive(&mut r, src);
    r
}

/// Sequences of optional and unit non-terminals: FIRST sets that must look through nullable
/// symbols, nullability that needs several passes, in every declaration order.
fn nullables(src: &mut Src) -> Raw {
    let nterms = src.range(2, 7);
    let nn = src.range(3, 8);
    let mut prods: Vec<Vec<Vec<Sym>>> = vec![vec![]; nn];
    // a random order of "definition depth": symbol order[k] may use order[j], j > k
    let mut order: Vec<usize> = (1..nn).collect();
    src.shuffle(&mut order);
    let mut full = vec![0];
    full.extend(order);
    for k in 0..nn {
        let i = full[k];
        let later = &full[k + 1..];
        let last = later.is_empty();
        match src.below(6) {
            0 if k > 0 => {
                prods[i].push(vec![T(src.below(nterms))]);
                prods[i].push(vec![]);
            }
            1 if !last && k > 0 => prods[i].push(vec![N(later[src.below(later.len())])]),
            2 if k > 0 => prods[i].push(vec![]),
            _ => {
                let len = src.range(1, 4);
                let mut p = vec![];
                for _ in 0..len {
                    if last || src.chance(2, 5) {
                        p.push(T(src.below(nterms)));
                    } else {
                        p.push(N(later[src.below(later.len())]));
                    }
                }
                prods[i].push(p);
                if src.chance(1, 3) {
                    let mut p = vec![T(src.below(nterms))];
                    if src.chance(1, 2) {
                        p.push(N(i));
                    }
                    prods[i].push(p);
                }
                if src.chance(1, 4) {
                    prods[i].push(vec![]);
                }
            }
        }
    }
    Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "nullables",
    }
}

/// Expression ladders: prefix, postfix, left, right and non-associative levels, juxtaposition.
fn ladder(src: &mut Src) -> Raw {
    let levels = src.range(1, 4);
    let mut nterms = 0;
    let mut fresh = || {
        nterms += 1;
        nterms - 1
    };
    let mut prods = vec![];
    for l in 0..levels {
        let me = N(l);
        let up = N(l + 1);
        let mut ps = vec![];
        match src.below(6) {
            0 => {
                for _ in 0..src.range(1, 2) {
                    ps.push(vec![me, T(fresh()), up]);
                }
            }
            1 => {
                for _ in 0..src.range(1, 2) {
                    ps.push(vec![up, T(fresh()), me]);
                }
            }
            2 => ps.push(vec![up, T(fresh()), up]),
            3 => ps.push(vec![T(fresh()), me]),
            4 => ps.push(vec![me, T(fresh())]),
            _ => {
                if l + 1 == levels {
                    ps.push(vec![me, up])
                } else {
                    ps.push(vec![me, T(fresh()), up, T(fresh())])
                }
            }
        }
        ps.push(vec![up]);
        if src.chance(1, 2) {
            ps.reverse();
        }
        prods.push(ps);
    }
    let mut atom = vec![vec![T(fresh())]];
    if src.chance(3, 4) {
        let (a, b) = (fresh(), fresh());
        atom.push(vec![T(a), N(0), T(b)]);
    }
    if src.chance(1, 3) {
        atom.push(vec![T(fresh())]);
    }
    prods.push(atom);
    Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "ladder",
    }
}

/// Contexts that decide by one token of lookahead between productions with equal bodies: LR(1)
/// grammars that LALR or SLR construction cannot handle, or handles only with exact follow sets.
fn contexts(src: &mut Src) -> Raw {
    let ncore = src.range(2, 3);
    let nctx = src.range(1, 3);
    let nfollow = ncore.max(2);
    // terminals: ctx 0..nctx, follow, body
    let follow0 = nctx;
    let body0 = nctx + nfollow;
    let mut nterms = body0 + 2;
    let mut start = vec![];
    let opt = src.chance(1, 3);
    for c in 0..nctx {
        let mut fol: Vec<usize> = (0..nfollow).collect();
        src.shuffle(&mut fol);
        for k in 0..ncore {
            if src.chance(1, 8) && k > 0 {
                continue;
            }
            let mut p = vec![];
            if !(c == 0 && src.chance(1, 3)) {
                p.push(T(c));
            }
            p.push(N(1 + k));
            if opt {
                p.push(N(1 + ncore));
            }
            p.push(T(follow0 + fol[k]));
            start.push(p);
        }
    }
    let mut prods = vec![start];
    let style = src.below(4);
    for k in 0..ncore {
        let me = N(1 + k);
        prods.push(match style {
            0 => vec![vec![T(body0)]],
            1 => vec![vec![T(body0), me], vec![T(body0)]],
            2 => vec![vec![T(body0), me], vec![]],
            _ => vec![vec![T(body0), N(2 + ncore)], vec![T(body0 + 1)]],
        });
    }
    // optional part between core and follow (own terminal)
    let o = nterms;
    nterms += 1;
    prods.push(vec![vec![T(o)], vec![]]);
    // shared tail
    prods.push(vec![vec![T(body0 + 1)], vec![T(body0), N(2 + ncore)]]);
    Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "contexts",
    }
}

/// Lists: separators, terminators, optional trailing separators, nesting.
fn lists(src: &mut Src) -> Raw {
    let mut nterms = 1;
    let mut prods: Vec<Vec<Vec<Sym>>> = vec![];
    let n = src.range(1, 3);
    // list l: non-terminal 2*l = list, 2*l+1 = element
    for l in 0..n {
        let me = N(2 * l);
        let el = N(2 * l + 1);
        let sep = T({
            nterms += 1;
            nterms - 1
        });
        prods.push(match src.below(7) {
            0 => vec![vec![me, sep, el], vec![el]],
            1 => vec![vec![el, sep, me], vec![el]],
            2 => vec![vec![el, sep, me], vec![el], vec![]],
            3 => vec![vec![me, el, sep], vec![]],
            4 => vec![vec![el, sep, me], vec![]],
            5 => vec![vec![me, el], vec![]],
            _ => vec![vec![el, me], vec![el]],
        });
        let mut e = vec![];
        if l + 1 < n {
            let a = nterms;
            nterms += 1;
            if src.chance(1, 2) {
                nterms += 1;
                e.push(vec![T(a), N(2 * l + 2), T(a + 1)]);
            } else {
                e.push(vec![T(a), N(2 * l + 2)]);
            }
        }
        e.push(vec![T(0)]);
        if src.chance(1, 3) {
            e.push(vec![T(0), T(nterms), N(if src.chance(1, 2) { 0 } else { 2 * l })]);
            nterms += 1;
        }
        if src.chance(1, 4) {
            e.push(vec![T(nterms), N(2 * l + 1)]);
            nterms += 1;
        }
        prods.push(e);
    }
    Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "lists",
    }
}

/// Statement-like grammars: keyword statements with blocks and optional clauses.
fn statements(src: &mut Src) -> Raw {
    let mut nterms = 3; // 0 = id, 1 = open, 2 = close
    let mut fresh = || {
        nterms += 1;
        nterms - 1
    };
    // 0 program, 1 stmt, 2 block, 3 expr, 4 optional clause, 5 args
    let mut stmt = vec![];
    let kinds = src.range(2, 4);
    for _ in 0..kinds {
        let kw = T(fresh());
        stmt.push(match src.below(6) {
            0 => vec![kw, N(3), N(2)],
            1 => vec![kw, N(3), N(2), N(4)],
            2 => vec![kw, T(fresh())],
            3 => vec![kw, N(2)],
            4 => vec![kw, N(5), T(fresh())],
            _ => vec![kw, N(3), T(fresh()), N(3), T(fresh())],
        });
    }
    if src.chance(1, 2) {
        stmt.push(vec![N(3), T(fresh())]);
    }
    let prog = match src.below(3) {
        0 => vec![vec![N(0), N(1)], vec![]],
        1 => vec![vec![N(1), N(0)], vec![]],
        _ => vec![vec![N(0), N(1)], vec![N(1)]],
    };
    let block = vec![vec![T(1), N(0), T(2)]];
    let clause_kw = fresh();
    let clause = vec![vec![T(clause_kw), N(2)], vec![]];
    let mut expr = vec![vec![T(0)]];
    if src.chance(1, 2) {
        let op = fresh();
        expr.push(vec![N(3), T(op), T(0)]);
    }
    let args = match src.below(3) {
        0 => vec![vec![], vec![T(0), N(5)]],
        1 => vec![vec![N(5), T(0)], vec![]],
        _ => vec![vec![T(0)], vec![T(0), N(5)]],
    };
    Raw {
        nterms,
        prods: vec![prog, stmt, block, expr, clause, args],
        pubs: vec![],
        family: "statements",
    }
}

/// Plugs grammar b into a in place of one of a's terminals.
fn compose(a: Raw, b: Raw, src: &mut Src) -> Raw {
    if a.nterms == 0 {
        return a;
    }
    let t = src.below(a.nterms);
    let share = src.chance(1, 2);
    let toff = if share { 0 } else { a.nterms };
    let noff = a.prods.len();
    let mut prods: Vec<Vec<Vec<Sym>>> = a
        .prods
        .iter()
        .map(|ps| {
            ps.iter()
                .map(|p| p.iter().map(|s| if *s == T(t) { N(noff) } else { *s }).collect())
                .collect()
        })
        .collect();
    for ps in &b.prods {
        prods.push(
            ps.iter()
                .map(|p| {
                    p.iter()
                        .map(|s| match s {
                            T(x) => T(x + toff),
                            N(x) => N(x + noff),
                        })
                        .collect()
                })
                .collect(),
        );
    }
    Raw {
        nterms: (a.nterms).max(b.nterms + toff),
        prods,
        pubs: vec![],
        family: "composed",
    }
}

fn mutate(mut r: Raw, src: &mut Src) -> Raw {
    for _ in 0..src.range(1, 3) {
        let n = src.below(r.prods.len());
        match src.below(7) {
            0 => r.prods[n].push(vec![]),
            1 => {
                let t = src.below(r.nterms.max(1));
                r.prods[n].push(vec![T(t)]);
            }
            2 if r.prods[n].len() > 1 => {
                let p = src.below(r.prods[n].len());
                r.prods[n].remove(p);
            }
            3 | 4 => {
                if r.prods[n].is_empty() {
                    continue;
                }
                let p = src.below(r.prods[n].len());
                let nn = r.prods.len();
                let s = if src.chance(1, 2) { T(src.below(r.nterms.max(1))) } else { N(src.below(nn)) };
                let pr = &mut r.prods[n][p];
                let at = src.below(pr.len() + 1);
                pr.insert(at, s);
            }
            5 => {
                if r.prods[n].is_empty() {
                    continue;
                }
                let p = src.below(r.prods[n].len());
                let pr = &mut r.prods[n][p];
                if !pr.is_empty() {
                    let at = src.below(pr.len());
                    pr.remove(at);
                }
            }
            _ => {
                // permute non-terminals' declaration order (start stays first)
                let k = r.prods.len();
                let mut perm: Vec<usize> = (1..k).collect();
                src.shuffle(&mut perm);
                perm.insert(0, 0);
                r = permute_nts(&r, &perm);
            }
        }
    }
    r.nterms = r.nterms.max(1);
    r
}

/// New declaration order: position i holds old non-terminal perm[i].
pub fn permute_nts(r: &Raw, perm: &[usize]) -> Raw {
    let mut inv = vec![0; perm.len()];
    for (new, old) in perm.iter().enumerate() {
        inv[*old] = new;
    }
    let mut out = r.clone();
    for (new, old) in perm.iter().enumerate() {
        out.prods[new] = r.prods[*old]
            .iter()
            .map(|p| {
                p.iter()
                    .map(|s| match s {
                        N(x) => N(inv[*x]),
                        t => *t,
                    })
                    .collect()
            })
            .collect();
    }
    out.pubs = r.pubs.iter().map(|p| inv[*p]).collect();
    out
}

/// Few short productions over very few symbols.
fn small(src: &mut Src) -> Raw {
    let nterms = src.range(1, 3);
    let nn = src.range(1, 4);
    let mut prods = vec![];
    for _ in 0..nn {
        let k = 1 + src.weighted(&[35, 45, 20]);
        let mut ps: Vec<Vec<Sym>> = vec![];
        for _ in 0..k {
            let len = src.weighted(&[20, 30, 30, 20]);
            let p: Vec<Sym> = (0..len)
                .map(|_| if src.chance(1, 2) { T(src.below(nterms)) } else { N(src.below(nn)) })
                .collect();
            if !ps.contains(&p) {
                ps.push(p);
            }
        }
        prods.push(ps);
    }
    let mut r = Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "small",
    };
    if src.chance(9, 10) {
        make_productive(&mut r, src);
    }
    r
}

/// The same non-terminal in several places of one item set, with different things after it: some
/// that may be empty, some shared, so that the same symbol meets lookahead sets that differ by a
/// token or by end of input only.
fn suffixes(src: &mut Src) -> Raw {
    let nterms = src.range(3, 6);
    // 0 start, 1..=c contexts, then shared, then optional ones
    let nc = src.range(0, 3);
    let ns = src.range(1, 2);
    let no = src.range(0, 3);
    let nn = 1 + nc + ns + no;
    let shared = 1 + nc;
    let opt = shared + ns;
    let pre: Vec<usize> = (0..src.range(1, 2)).map(|_| src.below(nterms)).collect();
    let mut prods: Vec<Vec<Vec<Sym>>> = vec![vec![]; nn];
    for i in 0..=nc {
        let k = src.range(1, if i == 0 { 4 } else { 3 });
        for _ in 0..k {
            let mut p = vec![];
            if src.chance(1, 3) {
                p.push(T(*src.pick(&pre)));
            }
            // a shared one, or a later context
            if i < nc && src.chance(1, 2) {
                p.push(N(src.range(i + 1, nc)));
            } else {
                p.push(N(src.range(shared, shared + ns - 1)));
            }
            for _ in 0..src.weighted(&[35, 35, 20, 10]) {
                p.push(if no > 0 && src.chance(3, 5) {
                    N(src.range(opt, nn - 1))
                } else if src.chance(1, 5) {
                    N(src.range(shared, shared + ns - 1))
                } else {
                    T(src.below(nterms))
                });
            }
            if !prods[i].contains(&p) {
                prods[i].push(p);
            }
        }
    }
    for i in shared..opt {
        let k = src.range(1, 3);
        for _ in 0..k {
            let mut p = vec![];
            match src.below(6) {
                0 => p.push(T(src.below(nterms))),
                1 => p.extend([T(src.below(nterms)), T(src.below(nterms))]),
                2 if i + 1 < opt => p.push(N(i + 1)),
                3 if no > 0 => p.extend([T(src.below(nterms)), N(src.range(opt, nn - 1))]),
                4 if no > 0 => p.extend([N(src.range(opt, nn - 1)), T(src.below(nterms))]),
                _ => p.extend([T(src.below(nterms)), N(src.range(shared, nn - 1))]),
            }
            if !prods[i].contains(&p) {
                prods[i].push(p);
            }
        }
    }
    for i in opt..nn {
        prods[i].push(vec![]);
        match src.below(5) {
            0 if i + 1 < nn => prods[i].push(vec![N(i + 1)]),
            1 if i + 1 < nn => prods[i].push(vec![T(src.below(nterms)), N(i + 1)]),
            2 => prods[i].push(vec![T(src.below(nterms)), N(i)]),
            _ => prods[i].push(vec![T(src.below(nterms))]),
        }
        if src.chance(1, 2) {
            prods[i].reverse();
        }
    }
    let mut r = Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "suffixes",
    };
    make_productive(&mut r, src);
    r
}

/// Long runs of optional parts: what follows a symbol is only visible behind several non-terminals
/// that may be empty, some of them empty only through a chain of others.
fn runs(src: &mut Src) -> Raw {
    let mut nterms = 0;
    let mut fresh = |src: &mut Src| {
        if nterms > 1 && src.chance(1, 8) {
            src.below(nterms)
        } else {
            nterms += 1;
            nterms - 1
        }
    };
    let no = src.range(2, 7);
    let nh = src.range(1, 3);
    // 0 start, 1..=nh heads, then optional ones
    let opt = 1 + nh;
    let nn = opt + no;
    let mut prods: Vec<Vec<Vec<Sym>>> = vec![vec![]; nn];
    let mut opts: Vec<usize> = (opt..nn).collect();
    src.shuffle(&mut opts);
    let mut free = opts.clone();
    for _ in 0..src.range(1, 2) {
        let mut p = vec![];
        if src.chance(1, 3) {
            p.push(T(fresh(src)));
        }
        for _ in 0..src.range(1, 2) {
            p.push(N(src.range(1, nh)));
            let k = src.range(0, 6).min(free.len());
            for o in free.drain(..k) {
                p.push(N(o));
            }
            if src.chance(1, 3) {
                p.push(T(fresh(src)));
            }
        }
        prods[0].push(p);
        if src.chance(1, 2) {
            free = opts.clone();
        }
    }
    for h in 1..=nh {
        match src.below(4) {
            0 => prods[h].push(vec![T(fresh(src))]),
            1 => {
                let (a, b) = (fresh(src), fresh(src));
                prods[h].push(vec![T(a)]);
                prods[h].push(vec![T(b), N(if src.chance(1, 3) { 0 } else { h })]);
            }
            2 => {
                let a = fresh(src);
                prods[h].push(vec![T(a), N(*src.pick(&opts))]);
            }
            _ => {
                let (a, b) = (fresh(src), fresh(src));
                let mut p = vec![T(a), N(if src.chance(1, 2) { 0 } else { src.range(1, nh) })];
                for _ in 0..src.range(0, 4) {
                    p.push(N(*src.pick(&opts)));
                }
                p.push(T(b));
                prods[h].push(p);
                prods[h].push(vec![T(fresh(src))]);
            }
        }
    }
    for (k, o) in opts.iter().enumerate() {
        let later = &opts[k + 1..];
        match src.below(6) {
            0 if !later.is_empty() => prods[*o].push(vec![N(later[0])]),
            1 if later.len() > 1 => prods[*o].push(vec![N(later[0]), N(later[1])]),
            2 => {
                prods[*o].push(vec![T(fresh(src)), N(*o)]);
                prods[*o].push(vec![]);
            }
            3 => {
                prods[*o].push(vec![N(*o), T(fresh(src))]);
                prods[*o].push(vec![]);
            }
            4 => prods[*o].push(vec![]),
            _ => {
                prods[*o].push(vec![T(fresh(src))]);
                prods[*o].push(vec![]);
            }
        }
        if src.chance(1, 2) {
            prods[*o].reverse();
        }
    }
    // declaration order matters to fixed points
    let mut perm: Vec<usize> = (1..nn).collect();
    src.shuffle(&mut perm);
    perm.insert(0, 0);
    let mut r = Raw {
        nterms: nterms.max(1),
        prods,
        pubs: vec![],
        family: "runs",
    };
    make_productive(&mut r, src);
    permute_nts(&r, &perm)
}

/// Candidates of the wide search.
/// Long chains of non-terminals, each at the front of the one before: what is at the end of the
/// chain (terminals, or the empty word) has to reach its beginning, in every declaration order.
fn chains(src: &mut Src) -> Raw {
    let mut nterms = 0;
    let mut fresh = || {
        nterms += 1;
        nterms - 1
    };
    let depth = if src.chance(1, 3) { src.range(3, 8) } else { src.range(8, 26) };
    // 0 start, 1..=depth the chain, then an optional and an empty one
    let opt = depth + 1;
    let empty = depth + 2;
    let nn = depth + 3;
    let mut prods: Vec<Vec<Vec<Sym>>> = vec![vec![]; nn];
    let (first, last, o) = (fresh(), fresh(), fresh());
    let ends_empty = src.chance(1, 3);
    match src.below(4) {
        0 => prods[0].push(vec![N(opt), N(1)]),
        1 => prods[0].push(vec![N(opt), N(1), T(last)]),
        2 => {
            prods[0].push(vec![N(opt), N(1), N(opt)]);
        }
        _ => {
            prods[0].push(vec![T(o), N(1), T(last)]);
            prods[0].push(vec![N(opt), N(1)]);
        }
    }
    prods[opt].push(vec![T(o)]);
    prods[opt].push(vec![]);
    prods[empty].push(vec![]);
    let plain = src.chance(1, 2);
    for k in 1..depth {
        let up = N(k + 1);
        let how = if plain || src.chance(3, 4) { 0 } else { src.range(1, 7) };
        match how {
            0 => prods[k].push(vec![up]),
            1 => prods[k].push(vec![N(empty), up]),
            2 => prods[k].push(vec![up, N(empty)]),
            3 => {
                prods[k].push(vec![up]);
                prods[k].push(vec![N(k), T(fresh()), up]);
            }
            4 => {
                prods[k].push(vec![T(fresh()), up]);
                prods[k].push(vec![up]);
            }
            5 => {
                prods[k].push(vec![up]);
                prods[k].push(vec![T(fresh())]);
            }
            6 => {
                prods[k].push(vec![up, T(fresh())]);
            }
            _ => {
                let (a, b) = (fresh(), fresh());
                prods[k].push(vec![up]);
                prods[k].push(vec![T(a), N(src.range(1, k)), T(b)]);
            }
        }
    }
    prods[depth].push(vec![T(first)]);
    if src.chance(1, 2) {
        prods[depth].push(vec![T(fresh())]);
    }
    if ends_empty {
        prods[depth].push(vec![]);
    }
    let r = Raw {
        nterms,
        prods,
        pubs: vec![],
        family: "chains",
    };
    // the start symbol stays first
    match src.below(3) {
        0 => r,
        1 => {
            let mut perm: Vec<usize> = (0..nn).rev().collect();
            perm.retain(|x| *x != 0);
            perm.insert(0, 0);
            permute_nts(&r, &perm)
        }
        _ => {
            let mut perm: Vec<usize> = (1..nn).collect();
            src.shuffle(&mut perm);
            perm.insert(0, 0);
            permute_nts(&r, &perm)
        }
    }
}

/// Every grammar of the given size (symbols plus productions), up to renaming of its terminals and
/// repetition of productions: all non-terminals reachable, each of `pubs` choices of entry points.
/// Stops when `f` says so.
pub fn tiny(size: usize, nts: usize, f: &mut dyn FnMut(Raw) -> bool) {
    struct St {
        prods: Vec<Vec<Vec<Sym>>>,
        k: usize,
    }
    fn go(s: &mut St, left: usize, used: usize, f: &mut dyn FnMut(Raw) -> bool) -> bool {
        // the current production is the last of the last non-terminal; `left` more to spend
        let behind = s.k - s.prods.len();
        let fresh = {
            let ps = s.prods.last().unwrap();
            !ps[..ps.len() - 1].contains(ps.last().unwrap())
        };
        if left == 0 {
            if behind > 0 || !fresh {
                return true;
            }
            let mut pubs = vec![vec![0]];
            if s.k > 1 {
                pubs.push(vec![s.k - 1]);
                pubs.push((0..s.k).collect());
            }
            for p in pubs {
                let r = Raw {
                    nterms: if s.k == 1 { used } else { used.max(1) },
                    prods: s.prods.clone(),
                    pubs: p,
                    family: "tiny",
                };
                if plain(&r).reachable(&r.pubs).iter().all(|x| *x) && !f(r) {
                    return false;
                }
            }
            return true;
        }
        if left > behind {
            for x in 0..s.k {
                s.prods.last_mut().unwrap().last_mut().unwrap().push(N(x));
                let go_on = go(s, left - 1, used, f);
                s.prods.last_mut().unwrap().last_mut().unwrap().pop();
                if !go_on {
                    return false;
                }
            }
            for x in 0..=used {
                s.prods.last_mut().unwrap().last_mut().unwrap().push(T(x));
                let go_on = go(s, left - 1, used.max(x + 1), f);
                s.prods.last_mut().unwrap().last_mut().unwrap().pop();
                if !go_on {
                    return false;
                }
            }
            if fresh {
                s.prods.last_mut().unwrap().push(vec![]);
                let go_on = go(s, left - 1, used, f);
                s.prods.last_mut().unwrap().pop();
                if !go_on {
                    return false;
                }
            }
        }
        if behind > 0 && fresh {
            s.prods.push(vec![vec![]]);
            let go_on = go(s, left - 1, used, f);
            s.prods.pop();
            if !go_on {
                return false;
            }
        }
        true
    }
    if size >= nts {
        let mut s = St {
            prods: vec![vec![vec![]]],
            k: nts,
        };
        go(&mut s, size - 1, 0, f);
    }
}

pub fn wide_candidate(src: &mut Src) -> Raw {
    match src.weighted(&[40, 20, 28, 12, 3]) {
        0 => candidate(src),
        4 => {
            let r = chains(src);
            finish(r, src)
        }
        3 => {
            let r = runs(src);
            let r = if src.chance(1, 6) { mutate(r, src) } else { r };
            finish(r, src)
        }
        1 => {
            let r = small(src);
            finish(r, src)
        }
        _ => {
            let r = suffixes(src);
            let r = if src.chance(1, 4) { mutate(r, src) } else { r };
            finish(r, src)
        }
    }
}

fn base(src: &mut Src) -> Raw {
    match src.weighted(&[26, 14, 18, 8, 12, 12, 6, 4, 12, 10, 5]) {
        10 => chains(src),
        0 => random(src),
        1 => ll(src),
        2 => nullables(src),
        3 => ladder(src),
        4 => contexts(src),
        5 => lists(src),
        6 => statements(src),
        7 => small(src),
        8 => suffixes(src),
        _ => runs(src),
    }
}

/// One candidate grammar. `pub0_any`: the entry point need not be the first non-terminal.
pub fn candidate(src: &mut Src) -> Raw {
    let r = match src.weighted(&[60, 22, 18]) {
        0 => base(src),
        1 => {
            let b = base(src);
            mutate(b, src)
        }
        _ => {
            let a = base(src);
            let b = base(src);
            compose(a, b, src)
        }
    };
    finish(r, src)
}

fn finish(mut r: Raw, src: &mut Src) -> Raw {
    // no tokens at all
    let silent = r.prods.len() <= 9 && src.chance(1, 60);
    if silent {
        for ps in &mut r.prods {
            for p in ps.iter_mut() {
                p.retain(|s| matches!(s, N(_)));
            }
            let mut seen = std::collections::HashSet::new();
            ps.retain(|p| seen.insert(p.clone()));
        }
        r.nterms = 0;
        r.family = "silent";
    }
    // Drop unused terminals' gaps now and then: keep them 1 in 3 (declared but unused tokens)
    if src.chance(2, 3) && !silent {
        r = compact_terms(r);
    }
    // many more terminals, most of them possible in one place or another
    if src.chance(1, 16) && !silent {
        widen(&mut r, src);
    }
    // extra entry points
    let k = r.prods.len();
    if src.chance(1, 5) {
        for n in 1..k {
            if src.chance(1, 3) {
                r.pubs.push(n);
            }
        }
    }
    // move the start symbol away from the front
    if k > 1 && src.chance(2, 5) {
        let mut perm: Vec<usize> = (0..k).collect();
        src.shuffle(&mut perm);
        let start = perm.iter().position(|x| *x == 0).unwrap();
        r = permute_nts(&r, &perm);
        r.pubs.push(start);
    } else {
        r.pubs.push(0);
    }
    r.pubs.sort();
    r.pubs.dedup();
    if src.chance(3, 4) {
        r = drop_unreachable(r);
    }
    r
}

fn widen(r: &mut Raw, src: &mut Src) {
    for _ in 0..src.range(1, 2) {
        let n = src.below(r.prods.len());
        let to = src.below(r.prods.len());
        let first = r.nterms;
        for k in 0..src.range(4, 28) {
            let t = if k > 4 && src.chance(1, 10) { src.range(first, r.nterms - 1) } else { r.nterms };
            r.nterms = r.nterms.max(t + 1);
            match src.below(12) {
                0 => r.prods[n].push(vec![T(t), N(to)]),
                1 => r.prods[n].push(vec![T(t), T(first)]),
                _ if t + 1 == r.nterms => r.prods[n].push(vec![T(t)]),
                _ => {}
            }
        }
    }
    // and some that are not
    r.nterms += src.below(6);
}

fn drop_unreachable(r: Raw) -> Raw {
    let reach = plain(&r).reachable(&r.pubs);
    let mut map = vec![usize::MAX; r.prods.len()];
    let mut n = 0;
    for (i, x) in reach.iter().enumerate() {
        if *x {
            map[i] = n;
            n += 1;
        }
    }
    let mut out = r.clone();
    out.prods = (0..r.prods.len())
        .filter(|i| reach[*i])
        .map(|i| {
            r.prods[i]
                .iter()
                .map(|p| {
                    p.iter()
                        .map(|s| match s {
                            N(x) => N(map[*x]),
                            t => *t,
                        })
                        .collect()
                })
                .collect()
        })
        .collect();
    out.pubs = r.pubs.iter().map(|p| map[*p]).collect();
    out
}

fn compact_terms(r: Raw) -> Raw {
    let mut used = vec![false; r.nterms];
    for ps in &r.prods {
        for p in ps {
            for s in p {
                if let T(t) = s {
                    used[*t] = true;
                }
            }
        }
    }
    let mut map = HashMap::new();
    let mut n = 0;
    for (t, u) in used.iter().enumerate() {
        if *u {
            map.insert(t, n);
            n += 1;
        }
    }
    let mut out = r.clone();
    out.nterms = n.max(1);
    for ps in &mut out.prods {
        for p in ps {
            for s in p {
                if let T(t) = s {
                    *t = map[t];
                }
            }
        }
    }
    out
}

/// A Gram with plain decorations.
pub fn plain(r: &Raw) -> Gram {
    Gram {
        acts: 0,
        terms: (0..r.nterms)
            .map(|i| Term {
                name: format!("t{}", i),
                shape: Shape::One,
            })
            .collect(),
        nts: r
            .prods
            .iter()
            .enumerate()
            .map(|(i, ps)| Nt {
                name: format!("N{}", i),
                public: r.pubs.contains(&i),
                ty: 0,
                prods: ps
                    .iter()
                    .map(|p| p.iter().map(|s| BSym { sym: *s, bind: Bind::Yes }).collect())
                    .collect(),
            })
            .collect(),
    }
}

pub const NT_NAMES: [&str; 30] = [
    "S", "S1", "S0", "A", "A1", "A11", "B", "B1", "Expr", "Expr1", "Stmt", "expr", "stmt0", "x",
    "X", "Y", "Z", "Term", "Factor", "E1", "T0", "F", "list_item", "Items", "Q", "Q1", "R1",
    "nt0p0", "V", "P",
];

pub const TERM_NAMES: [&str; 40] = [
    "(", ")", "+", "-", "*", "/", ",", ";", ":", "id", "int", "if", "else", "{", "}", "[", "]",
    "=>", "\"", "\\", "'", "a", "b", "c", "a, b", "", " ", "end-of-input", "λ", "\n", "{}", "{0}",
    "$", "error", "Token", "t", "x", "#", "//", "very long token name with spaces",
];

/// Names, payload shapes, types and binders.
pub fn decorate(r: &Raw, src: &mut Src) -> Gram {
    let mut g = plain(r);
    let mut tn: Vec<&str> = TERM_NAMES.to_vec();
    src.shuffle(&mut tn);
    let plain_names = src.chance(1, 4);
    for (i, t) in g.terms.iter_mut().enumerate() {
        if !plain_names {
            if let Some(n) = tn.get(i) {
                t.name = n.to_string();
            }
        }
        t.shape = SHAPES[src.weighted(&[20, 40, 10, 10, 10, 10])];
    }
    let mut nn: Vec<&str> = NT_NAMES.to_vec();
    src.shuffle(&mut nn);
    let ntypes = src.range(1, TYPES.len());
    let all_one = src.chance(1, 4);
    let bind_style = src.below(4);
    g.acts = src.weighted(&[50, 20, 30]) as u8;
    // values that can be passed on
    let pass_ty = if g.acts == 2 && src.chance(1, 2) { Some(*src.pick(&[0, 2, 4, 12])) } else { None };
    for (i, n) in g.nts.iter_mut().enumerate() {
        if let Some(x) = nn.get(i) {
            n.name = x.to_string();
        }
        // a `pub` non-terminal becomes a struct: keep to type-like names
        if n.public && n.name.starts_with(|c: char| c.is_lowercase()) {
            n.name = format!("Pub{}", i);
        }
        n.ty = match pass_ty {
            Some(t) if src.chance(3, 4) => t,
            _ if all_one => 0,
            _ => src.below(ntypes),
        };
        for p in &mut n.prods {
            for b in p {
                b.bind = match bind_style {
                    0 => Bind::Yes,
                    1 => [Bind::Yes, Bind::No][src.below(2)],
                    _ => [Bind::Yes, Bind::Mut, Bind::No][src.weighted(&[6, 1, 3])],
                };
            }
        }
    }
    g
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Feature {
    EmptyProduction,
    /// a lookahead computed through a nullable non-terminal that also starts with terminals
    LookThroughNullable,
    /// nullability only visible through another non-terminal
    IndirectNullable,
    /// nullability of a non-terminal declared before the one it depends on (several passes)
    ForwardNullable,
    LeftRecursive,
    RightRecursive,
    MutualRecursion,
    MultiEntry,
    Unproductive,
    Unreachable,
    NotLalr,
    UnusedToken,
    LongProduction,
    Over30States,
    Over100States,
    ManyTypes,
}

pub struct Analysed {
    pub g: Gram,
    pub family: &'static str,
    /// (entry non-terminal, its table)
    pub tabs: Vec<(usize, Table)>,
    pub class: Class,
    pub features: Vec<Feature>,
    pub states: usize,
}

pub fn analysed(g: Gram, family: &'static str, cap: usize) -> Option<Analysed> {
    let an = analyse(&g);
    let mut tabs = vec![];
    let mut class = Class::Clean;
    let mut states = 0;
    for e in g.entries() {
        let t = table(&g, &an, e, cap)?;
        states += t.action.len();
        class = class.max(t.class());
        tabs.push((e, t));
    }
    if states > cap {
        return None;
    }
    let features = features(&g, &an, &tabs, states);
    Some(Analysed {
        g,
        family,
        tabs,
        class,
        features,
        states,
    })
}

fn features(g: &Gram, an: &Analysis, tabs: &[(usize, Table)], states: usize) -> Vec<Feature> {
    use Feature::*;
    let mut f = vec![];
    let mut add = |x: Feature, c: bool| {
        if c && !f.contains(&x) {
            f.push(x);
        }
    };
    let nn = g.nts.len();
    let reach = g.reachable(&g.entries());
    let productive = g.productive();
    let mut used = vec![false; g.terms.len()];
    // direct "mentions" relation
    let mut uses = vec![vec![false; nn]; nn];
    for (i, n) in g.nts.iter().enumerate() {
        add(Unreachable, !reach[i]);
        add(Unproductive, !productive[i]);
        for p in &n.prods {
            add(EmptyProduction, p.is_empty());
            add(LongProduction, p.len() >= 5);
            if let Some(b) = p.first() {
                add(LeftRecursive, b.sym == N(i));
            }
            if let Some(b) = p.last() {
                add(RightRecursive, b.sym == N(i));
            }
            for (k, b) in p.iter().enumerate() {
                match b.sym {
                    T(t) => used[t] = true,
                    N(m) => {
                        uses[i][m] = true;
                        if k >= 1 && an.nullable[m] && an.first[m].iter().next().is_some() {
                            if matches!(p[k - 1].sym, N(_)) {
                                add(LookThroughNullable, true);
                            }
                        }
                        // nullable start of a production that matters for FIRST(i)
                        if k == 0 && an.nullable[m] && p.len() > 1 && !an.nullable[i] {
                            add(LookThroughNullable, an.first[m].iter().next().is_some());
                        }
                        if an.nullable[i] && p.iter().all(|b| matches!(b.sym, N(m) if an.nullable[m]))
                        {
                            add(IndirectNullable, true);
                            add(ForwardNullable, m > i);
                        }
                    }
                }
            }
        }
    }
    for i in 0..nn {
        for j in 0..nn {
            add(MutualRecursion, i != j && uses[i][j] && uses[j][i]);
        }
    }
    add(UnusedToken, used.iter().any(|u| !u));
    add(MultiEntry, tabs.len() > 1);
    add(NotLalr, tabs.iter().any(|t| t.1.class() == Class::Clean && t.1.lalr_conflict()));
    add(Over30States, states > 30);
    add(Over100States, states > 100);
    let mut tys: Vec<usize> = g.nts.iter().map(|n| n.ty).collect();
    tys.sort();
    tys.dedup();
    add(ManyTypes, tys.len() >= 4);
    f
}

/// Draws analysed grammars of the wanted classes, balancing features: a candidate that adds
/// nothing to a feature still under quota is kept only one time in four.
pub struct Picker {
    pub counts: HashMap<Feature, usize>,
    pub drawn: usize,
    pub by_class: HashMap<Class, usize>,
    seen: std::collections::HashSet<Gram>,
    pub quota: usize,
    pub cap: usize,
}

impl Picker {
    pub fn new(quota: usize, cap: usize) -> Picker {
        Picker {
            counts: HashMap::new(),
            drawn: 0,
            by_class: HashMap::new(),
            seen: Default::default(),
            quota,
            cap,
        }
    }

    pub fn pick(
        &mut self,
        gen: &mut crate::src::Gen,
        want: &dyn Fn(&Analysed) -> bool,
    ) -> (Analysed, Src) {
        loop {
            let mut src = gen.src(400);
            self.drawn += 1;
            let raw = candidate(&mut src);
            let g = decorate(&raw, &mut src);
            let Some(a) = analysed(g, raw.family, self.cap) else { continue };
            *self.by_class.entry(a.class).or_default() += 1;
            if !want(&a) {
                continue;
            }
            let fresh = a
                .features
                .iter()
                .any(|f| self.counts.get(f).copied().unwrap_or(0) < self.quota);
            if !fresh && !src.chance(1, 4) {
                continue;
            }
            if !self.seen.insert(a.g.clone()) {
                continue;
            }
            for f in &a.features {
                *self.counts.entry(*f).or_default() += 1;
            }
            return (a, src);
        }
    }
}

//! Earley recogniser: the language oracle. It shares nothing with LR construction: no FIRST sets,
//! no states, no tables. It works on the productive part of the grammar, so "some item has t after
//! the dot" means exactly "prefix.t can be continued to a sentence".

use crate::gram::*;
use crate::lr::Bits;
use std::collections::HashSet;

pub struct Earley {
    /// (lhs, rhs); index 0 is the augmented production
    prods: Vec<(usize, Vec<Sym>)>,
    by_nt: Vec<Vec<usize>>,
    nullable: Vec<bool>,
    nterms: usize,
}

#[derive(Clone, Default)]
pub struct Set {
    items: Vec<(usize, usize, usize)>,
    seen: HashSet<(usize, usize, usize)>,
}

#[derive(Clone)]
pub struct Chart {
    pub sets: Vec<Set>,
}

impl Earley {
    pub fn new(g: &Gram, entry: usize) -> Earley {
        let productive = g.productive();
        let mut prods = vec![(usize::MAX, vec![Sym::N(entry)])];
        let mut by_nt = vec![vec![]; g.nts.len()];
        for (i, n) in g.nts.iter().enumerate() {
            for p in &n.prods {
                let ok = p.iter().all(|b| match b.sym {
                    Sym::T(_) => true,
                    Sym::N(m) => productive[m],
                });
                if ok {
                    by_nt[i].push(prods.len());
                    prods.push((i, p.iter().map(|b| b.sym).collect()));
                }
            }
        }
        if !productive[entry] {
            prods[0].1 = vec![Sym::T(usize::MAX)];
        }
        Earley {
            prods,
            by_nt,
            nullable: g.nullable(),
            nterms: g.terms.len(),
        }
    }

    pub fn start(&self) -> Chart {
        let mut c = Chart { sets: vec![Set::default()] };
        c.sets[0].add((0, 0, 0));
        self.complete(&mut c);
        c
    }

    fn complete(&self, c: &mut Chart) {
        let k = c.sets.len() - 1;
        let mut i = 0;
        while i < c.sets[k].items.len() {
            let (p, d, o) = c.sets[k].items[i];
            i += 1;
            match self.prods[p].1.get(d) {
                Some(Sym::N(n)) => {
                    for q in &self.by_nt[*n] {
                        c.sets[k].add((*q, 0, k));
                    }
                    if self.nullable[*n] {
                        c.sets[k].add((p, d + 1, o));
                    }
                }
                Some(Sym::T(_)) => {}
                None => {
                    if p == 0 {
                        continue;
                    }
                    let lhs = self.prods[p].0;
                    let mut j = 0;
                    while j < c.sets[o].items.len() {
                        let (p2, d2, o2) = c.sets[o].items[j];
                        j += 1;
                        if self.prods[p2].1.get(d2) == Some(&Sym::N(lhs)) {
                            c.sets[k].add((p2, d2 + 1, o2));
                        }
                    }
                }
            }
        }
    }

    /// Advances over `t`; false (and unchanged chart) if no sentence continues that way.
    pub fn push(&self, c: &mut Chart, t: usize) -> bool {
        let k = c.sets.len() - 1;
        let mut s = Set::default();
        for (p, d, o) in &c.sets[k].items {
            if self.prods[*p].1.get(*d) == Some(&Sym::T(t)) {
                s.add((*p, d + 1, *o));
            }
        }
        if s.items.is_empty() {
            return false;
        }
        c.sets.push(s);
        self.complete(c);
        true
    }

    /// Terminals that can follow the prefix read so far.
    pub fn next(&self, c: &Chart) -> Bits {
        let mut b = Bits::new(self.nterms + 1);
        for (p, d, _) in &c.sets.last().unwrap().items {
            if let Some(Sym::T(t)) = self.prods[*p].1.get(*d) {
                if *t != usize::MAX {
                    b.set(*t);
                }
            }
        }
        b
    }

    pub fn accepts_here(&self, c: &Chart) -> bool {
        c.sets.last().unwrap().seen.contains(&(0, 1, 0))
    }

    /// Is the prefix read so far extendable at all? (only false for an empty language)
    pub fn viable(&self, c: &Chart) -> bool {
        self.accepts_here(c) || self.next(c).0.iter().any(|w| *w != 0)
    }
}

impl Set {
    fn add(&mut self, it: (usize, usize, usize)) {
        if self.seen.insert(it) {
            self.items.push(it);
        }
    }
}

/// What the language says about an input.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    /// position of the first item that no sentence allows (== number of tokens: end of input is
    /// not allowed), and the terminals that are allowed there
    Reject { pos: usize, next: Bits },
    /// lexer error at this position, after a viable prefix
    Lex { pos: usize, err: u32 },
}

pub fn verdict(e: &Earley, input: &[Item]) -> Verdict {
    let mut c = e.start();
    for (pos, it) in input.iter().enumerate() {
        match it {
            Item::Err(err) => return Verdict::Lex { pos, err: *err },
            Item::Tok(t) => {
                let next = e.next(&c);
                if !e.push(&mut c, *t) {
                    return Verdict::Reject { pos, next };
                }
            }
        }
    }
    if e.accepts_here(&c) {
        Verdict::Accept
    } else {
        Verdict::Reject {
            pos: input.len(),
            next: e.next(&c),
        }
    }
}

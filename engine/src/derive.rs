//! Random sentences with their derivation trees, and the evaluation of a tree.

use crate::gram::*;
use crate::lr::{nt_id, tok_id, Ev, ID0};
use crate::src::Src;

#[derive(Clone, Debug)]
pub enum Tree {
    Leaf(usize),
    Node(usize, usize, Vec<Tree>),
}

/// Minimal number of tree nodes each production / non-terminal needs.
pub struct MinSize {
    pub nt: Vec<usize>,
    pub prod: Vec<Vec<usize>>,
}

const INF: usize = usize::MAX / 4;

impl MinSize {
    pub fn derives(&self, n: usize) -> bool {
        self.nt[n] < INF
    }
}

pub fn min_size(g: &Gram) -> MinSize {
    let mut nt = vec![INF; g.nts.len()];
    let mut prod: Vec<Vec<usize>> = g.nts.iter().map(|n| vec![INF; n.prods.len()]).collect();
    loop {
        let mut ch = false;
        for (i, n) in g.nts.iter().enumerate() {
            for (j, p) in n.prods.iter().enumerate() {
                let mut s = 1usize;
                for b in p {
                    s = s.saturating_add(match b.sym {
                        Sym::T(_) => 1,
                        Sym::N(m) => nt[m],
                    });
                }
                let s = s.min(INF);
                if s < prod[i][j] {
                    prod[i][j] = s;
                    ch = true;
                }
                if s < nt[i] {
                    nt[i] = s;
                    ch = true;
                }
            }
        }
        if !ch {
            return MinSize { nt, prod };
        }
    }
}

/// Random derivation of about `budget` nodes. None if the start symbol derives nothing.
pub fn derive(g: &Gram, ms: &MinSize, start: usize, budget: usize, src: &mut Src) -> Option<Tree> {
    if ms.nt[start] >= INF {
        return None;
    }
    // Generation is iterative over an explicit agenda: (nt, budget), result built from a flat
    // preorder to stay safe for deep trees.
    Some(go(g, ms, start, budget, src, 0))
}

fn go(g: &Gram, ms: &MinSize, n: usize, budget: usize, src: &mut Src, depth: usize) -> Tree {
    let alts: Vec<usize> = (0..g.nts[n].prods.len())
        .filter(|p| ms.prod[n][*p] <= budget && ms.prod[n][*p] < INF)
        .collect();
    let p = if alts.is_empty() || depth > 400 {
        let best = *ms.prod[n].iter().min().unwrap();
        (0..g.nts[n].prods.len()).find(|p| ms.prod[n][*p] == best).unwrap()
    } else {
        // With budget left, prefer an alternative that can grow
        let growing: Vec<usize> = alts
            .iter()
            .copied()
            .filter(|p| g.nts[n].prods[*p].iter().any(|b| matches!(b.sym, Sym::N(_))))
            .collect();
        if budget > 6 && !growing.is_empty() && src.chance(3, 4) {
            growing[src.below(growing.len())]
        } else {
            alts[src.below(alts.len())]
        }
    };
    let rhs = &g.nts[n].prods[p];
    let mut spare = budget.saturating_sub(ms.prod[n][p].min(budget));
    let mut kids = vec![];
    let mut left: usize = rhs.iter().filter(|b| matches!(b.sym, Sym::N(_))).count();
    for b in rhs {
        match b.sym {
            Sym::T(t) => kids.push(Tree::Leaf(t)),
            Sym::N(m) => {
                let share = if left == 1 { spare } else { src.below(spare + 1) };
                left -= 1;
                spare -= share;
                kids.push(go(g, ms, m, ms.nt[m] + share, src, depth + 1));
            }
        }
    }
    Tree::Node(n, p, kids)
}

pub fn tokens(t: &Tree, out: &mut Vec<usize>) {
    match t {
        Tree::Leaf(t) => out.push(*t),
        Tree::Node(_, _, k) => {
            for c in k {
                tokens(c, out);
            }
        }
    }
}

/// Post-order evaluation: the action calls with their arguments, and the id of the result.
pub fn eval(g: &Gram, t: &Tree) -> (Vec<Ev>, u32) {
    let mut evs = vec![];
    let mut pos = 0;
    let id = ev(g, t, &mut evs, &mut pos);
    (evs, id)
}

fn ev(g: &Gram, t: &Tree, evs: &mut Vec<Ev>, pos: &mut usize) -> u32 {
    match t {
        Tree::Leaf(t) => {
            *pos += 1;
            tok_id(g, *t, *pos - 1)
        }
        Tree::Node(n, p, kids) => {
            let ids: Vec<u32> = kids.iter().map(|k| ev(g, k, evs, pos)).collect();
            let args = g.nts[*n].prods[*p]
                .iter()
                .zip(&ids)
                .filter(|(b, _)| b.bind != Bind::No)
                .map(|(_, i)| *i)
                .collect();
            if let Some(k) = g.passes(*n, *p) {
                return ids[k];
            }
            let id = ID0 + evs.len() as u32;
            let (tn, tp) = g.tag(*n, *p);
            evs.push(Ev::Act(tn, tp, args));
            nt_id(g, *n, id)
        }
    }
}

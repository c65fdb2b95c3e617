//! Inputs that visit a chosen state of the reference automaton and go on from there.

use crate::derive::*;
use crate::gram::*;
use crate::lr::*;
use crate::src::Src;
use std::collections::VecDeque;

pub struct Cover<'a> {
    g: &'a Gram,
    tab: &'a Table,
    ms: MinSize,
    /// symbols leading to each state, shortest first found
    pub access: Vec<Option<Vec<Sym>>>,
    entry: usize,
}

impl<'a> Cover<'a> {
    pub fn new(g: &'a Gram, tab: &'a Table, entry: usize) -> Cover<'a> {
        let mut access: Vec<Option<Vec<Sym>>> = vec![None; tab.action.len()];
        access[0] = Some(vec![]);
        let mut q = VecDeque::from([0]);
        let ms = min_size(g);
        while let Some(s) = q.pop_front() {
            let path = access[s].clone().unwrap();
            let mut next: Vec<(Sym, usize)> = vec![];
            for (t, acts) in &tab.action[s] {
                for a in acts {
                    if let Act::Shift(to) = a {
                        next.push((Sym::T(*t), *to));
                    }
                }
            }
            let mut gs: Vec<(usize, usize)> = tab.goto[s].iter().map(|(n, to)| (*n, *to)).collect();
            gs.sort();
            next.extend(gs.into_iter().filter(|(n, _)| ms.derives(*n)).map(|(n, to)| (Sym::N(n), to)));
            for (x, to) in next {
                if access[to].is_none() {
                    let mut p = path.clone();
                    p.push(x);
                    access[to] = Some(p);
                    q.push_back(to);
                }
            }
        }
        Cover { g, tab, ms, access, entry }
    }

    fn yield_of(&self, s: Sym, src: &mut Src, out: &mut Vec<usize>) -> Option<()> {
        match s {
            Sym::T(t) => out.push(t),
            Sym::N(n) => {
                let budget = if src.chance(1, 4) { 6 } else { 1 };
                tokens(&derive(self.g, &self.ms, n, budget, src)?, out)
            }
        }
        Some(())
    }

    /// Tokens of a sentential prefix
    pub fn prefix(&self, path: &[Sym], src: &mut Src) -> Option<Vec<usize>> {
        let mut w = vec![];
        for s in path {
            self.yield_of(*s, src, &mut w)?;
        }
        Some(w)
    }

    /// A sentence that starts with `w`, if `w` is a viable prefix and luck is with us.
    pub fn complete(&self, w: &[usize], src: &mut Src) -> Option<Vec<usize>> {
        let mut states = vec![0usize];
        let mut fuel = 1000 + 100 * w.len();
        let mut pos = 0;
        while pos < w.len() {
            fuel -= 1;
            if fuel == 0 {
                return None;
            }
            let acts = self.tab.action[*states.last()?].get(&w[pos])?;
            let a = *acts.iter().find(|a| matches!(a, Act::Shift(_))).unwrap_or(&acts[0]);
            match a {
                Act::Shift(to) => {
                    states.push(to);
                    pos += 1;
                }
                Act::Reduce(n, p) => {
                    states.truncate(states.len() - self.g.nts[n].prods[p].len());
                    let to = *self.tab.goto[*states.last()?].get(&n)?;
                    states.push(to);
                }
                Act::Accept => return None,
            }
        }
        let mut best: Option<Vec<usize>> = None;
        for _ in 0..6 {
            let mut st = states.clone();
            let mut out = w.to_vec();
            let mut steps = 0;
            let done = loop {
                steps += 1;
                if steps > 60 || out.len() > w.len() + 60 {
                    break false;
                }
                let kernel = &self.tab.kernels[*st.last()?];
                let ok: Vec<&(usize, usize, Bits)> =
                    kernel.iter().filter(|k| self.rest(k.0, k.1).iter().all(|s| self.derives(*s))).collect();
                if ok.is_empty() {
                    break false;
                }
                // most often an item with little left
                let k = if src.chance(2, 3) {
                    *ok.iter().min_by_key(|k| (self.rest(k.0, k.1).len(), k.0)).unwrap()
                } else {
                    ok[src.below(ok.len())]
                };
                for s in self.rest(k.0, k.1) {
                    self.yield_of(s, src, &mut out)?;
                }
                if k.0 == 0 {
                    break true;
                }
                if k.1 > st.len() - 1 {
                    break false;
                }
                st.truncate(st.len() - k.1);
                let (n, _) = self.prod(k.0);
                match self.tab.goto[*st.last()?].get(&n) {
                    Some(to) => st.push(*to),
                    None => break false,
                }
            };
            if done && best.as_ref().map_or(true, |b| out.len() < b.len()) {
                best = Some(out);
            }
        }
        best
    }

    fn derives(&self, s: Sym) -> bool {
        match s {
            Sym::T(_) => true,
            Sym::N(n) => self.ms.derives(n),
        }
    }

    fn prod(&self, mut p: usize) -> (usize, usize) {
        p -= 1;
        for (i, n) in self.g.nts.iter().enumerate() {
            if p < n.prods.len() {
                return (i, p);
            }
            p -= n.prods.len();
        }
        unreachable!()
    }

    fn rest(&self, p: usize, d: usize) -> Vec<Sym> {
        if p == 0 {
            return [Sym::N(self.entry)][d..].to_vec();
        }
        let (n, p) = self.prod(p);
        self.g.nts[n].prods[p][d..].iter().map(|b| b.sym).collect()
    }

    /// Words through `path` with `t` next: the prefix, the prefix with `t`, sentences through it.
    pub fn through(&self, path: &[Sym], t: Option<usize>, src: &mut Src, out: &mut Vec<Vec<usize>>) {
        for _ in 0..3 {
            let Some(mut w) = self.prefix(path, src) else { return };
            out.push(w.clone());
            out.extend(self.complete(&w, src));
            if let Some(t) = t {
                w.push(t);
                out.push(w.clone());
                out.extend(self.complete(&w, src));
            }
        }
    }
}

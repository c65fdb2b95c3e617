//! Inputs for one entry point of a grammar.

use crate::cover::Cover;
use crate::derive::*;
use crate::earley::*;
use crate::gen::Analysed;
use crate::gram::*;
use crate::src::Src;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    /// viable prefixes enumerated exhaustively, shortest first
    pub prefixes: usize,
    /// random derivations
    pub sentences: usize,
    /// mutated sentences
    pub mutants: usize,
    /// add lexer errors
    pub errors: bool,
    /// cap on the number of inputs
    pub max: usize,
}

pub struct Inputs {
    pub items: Vec<Vec<Item>>,
    /// derivation trees, for the first `trees.len()` inputs' sentences: (index, tree)
    pub trees: Vec<(usize, Tree)>,
}

/// All viable prefixes in order of length, at most `n`, and those followed by an impossible token.
pub fn exhaustive(e: &Earley, nterms: usize, n: usize, bad_per: usize, src: &mut Src) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let start = e.start();
    if !e.viable(&start) {
        // empty language: a few arbitrary inputs
        out.push(vec![]);
        for t in 0..nterms.min(4) {
            out.push(vec![t]);
        }
        return out;
    }
    let mut layer = vec![(vec![], start)];
    let mut count = 0;
    while !layer.is_empty() && count < n {
        let mut next = vec![];
        // sample a layer that does not fit, so that no branch is systematically left out
        if layer.len() > n - count {
            src.shuffle(&mut layer);
            layer.truncate(n - count);
        }
        for (w, chart) in layer {
            count += 1;
            out.push(w.clone());
            let nx = e.next(&chart);
            let mut bad: Vec<usize> = (0..nterms).filter(|t| !nx.has(*t)).collect();
            if bad.len() > bad_per {
                src.shuffle(&mut bad);
                bad.truncate(bad_per);
            }
            for t in bad {
                let mut v = w.clone();
                v.push(t);
                // what follows an offending token must not matter
                for _ in 0..src.below(3) {
                    v.push(src.below(nterms));
                }
                out.push(v);
            }
            if next.len() < 4 * n {
                for t in nx.iter() {
                    let mut c = chart.clone();
                    if e.push(&mut c, t) {
                        let mut v = w.clone();
                        v.push(t);
                        next.push((v, c));
                    }
                }
            }
        }
        layer = next;
    }
    out
}

pub fn mutate(w: &mut Vec<usize>, nterms: usize, src: &mut Src) {
    if nterms == 0 {
        return;
    }
    for _ in 0..src.range(1, 2) {
        let n = w.len();
        match src.below(6) {
            0 if n > 0 => {
                let i = src.below(n);
                w.remove(i);
            }
            1 => {
                let i = src.below(n + 1);
                w.insert(i, src.below(nterms));
            }
            2 if n > 0 => {
                let i = src.below(n);
                w[i] = src.below(nterms);
            }
            3 if n > 1 => {
                let i = src.below(n - 1);
                w.swap(i, i + 1);
            }
            4 if n > 0 => {
                let k = src.below(n);
                w.truncate(k);
            }
            _ if n > 0 => {
                let i = src.below(n);
                let t = w[i];
                w.insert(i, t);
            }
            _ => {}
        }
    }
}

pub fn inputs(a: &Analysed, entry: usize, plan: Plan, src: &mut Src) -> Inputs {
    let g = &a.g;
    let nterms = g.terms.len();
    let e = Earley::new(g, entry);
    let mut words: Vec<Vec<usize>> = vec![];
    let mut trees = vec![];
    let mut seen: HashSet<Vec<usize>> = HashSet::new();
    let ms = min_size(g);
    let mut sentences = vec![];
    for k in 0..plan.sentences {
        let budget = [3, 8, 15, 25, 40, 70][k % 6];
        if let Some(t) = derive(g, &ms, entry, budget, src) {
            let mut w = vec![];
            tokens(&t, &mut w);
            if w.len() > 400 {
                continue;
            }
            sentences.push(w.clone());
            if seen.insert(w.clone()) {
                trees.push((words.len(), t));
                words.push(w);
            }
        }
    }
    for w in exhaustive(&e, nterms, plan.prefixes, 6, src) {
        if seen.insert(w.clone()) {
            words.push(w);
        }
    }
    // through every state of the automaton, with every token that may come next there
    if let Some((_, tab)) = a.tabs.iter().find(|t| t.0 == entry) {
        let cov = Cover::new(g, tab, entry);
        let mut pairs: Vec<(usize, usize)> = (0..tab.action.len())
            .filter(|s| cov.access[*s].is_some())
            .flat_map(|s| tab.action[s].keys().map(move |t| (s, *t)))
            .collect();
        src.shuffle(&mut pairs);
        for (s, t) in pairs.into_iter().take(plan.prefixes) {
            let path = cov.access[s].clone().unwrap();
            let Some(mut w) = cov.prefix(&path, src) else { continue };
            if t < nterms {
                w.push(t);
            }
            let w = if src.chance(3, 4) { cov.complete(&w, src).unwrap_or(w) } else { w };
            if w.len() < 100 && seen.insert(w.clone()) {
                words.push(w);
            }
        }
    }
    if !sentences.is_empty() {
        for _ in 0..plan.mutants {
            let mut w = sentences[src.below(sentences.len())].clone();
            mutate(&mut w, nterms, src);
            if seen.insert(w.clone()) {
                words.push(w);
            }
        }
    }
    words.truncate(plan.max);
    trees.retain(|t| t.0 < words.len());
    let mut items: Vec<Vec<Item>> =
        words.iter().map(|w| w.iter().map(|t| Item::Tok(*t)).collect()).collect();
    if plan.errors {
        let n = items.len();
        let mut seen: HashSet<Vec<Item>> = HashSet::new();
        for i in 0..n {
            let w = items[i].clone();
            // an error somewhere, most often near the end
            let at = if src.chance(1, 2) { w.len() } else { src.below(w.len() + 1) };
            let mut v = w.clone();
            v.insert(at, Item::Err(src.range(1, 9) as u32));
            if src.chance(1, 6) {
                let at = src.below(v.len() + 1);
                v.insert(at, Item::Err(src.range(1, 9) as u32));
            }
            if seen.insert(v.clone()) {
                items.push(v);
            }
        }
    }
    Inputs { items, trees }
}

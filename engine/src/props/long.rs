//! C13, long inputs: pumped sentences of tens of thousands of tokens, parsed on a small stack.

use crate::derive::*;
use crate::emit;
use crate::gcheck::hash_of;
use crate::gen::*;
use crate::gram::*;
use crate::lr::{run_counting, Class, Counts, Ev, Outcome};
use crate::obs;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;

pub struct Long {
    pub max: usize,
}

/// Contexts: for non-terminals A and B, token strings x and y with A =>+ x B y.
pub struct Ctxs<'a> {
    pub g: &'a Gram,
    pub ms: MinSize,
}

pub const INF: usize = usize::MAX / 4;

impl<'a> Ctxs<'a> {
    pub fn some(&self, n: usize, budget: usize, src: &mut Src) -> Vec<usize> {
        let mut out = vec![];
        if let Some(t) = derive(self.g, &self.ms, n, self.ms.nt[n] + budget, src) {
            tokens(&t, &mut out);
        }
        out
    }

    /// Random walk from `a` to `b`, at least one step: the tokens to the left and right.
    pub fn walk(&self, a: usize, b: usize, src: &mut Src) -> Option<(Vec<usize>, Vec<usize>)> {
        // distance to b
        let g = self.g;
        let n = g.nts.len();
        let ok = |i: usize, p: usize| self.ms.prod[i][p] < INF;
        let mut dist = vec![INF; n];
        dist[b] = 0;
        loop {
            let mut ch = false;
            for i in 0..n {
                for (p, r) in g.nts[i].prods.iter().enumerate() {
                    if !ok(i, p) {
                        continue;
                    }
                    for s in r {
                        if let Sym::N(m) = s.sym {
                            if dist[m] < INF && dist[m] + 1 < dist[i] {
                                dist[i] = dist[m] + 1;
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let (mut x, mut y) = (vec![], vec![]);
        let mut at = a;
        let mut first = true;
        let mut steps = 0;
        while first || at != b {
            steps += 1;
            let mut ways = vec![];
            for (p, r) in g.nts[at].prods.iter().enumerate() {
                if !ok(at, p) {
                    continue;
                }
                for (k, s) in r.iter().enumerate() {
                    if let Sym::N(m) = s.sym {
                        if dist[m] < INF && (first || steps < 6 || dist[m] < dist[at]) {
                            ways.push((p, k, m));
                        }
                    }
                }
            }
            if ways.is_empty() || steps > 40 {
                return None;
            }
            first = false;
            let (p, k, m) = *src.pick(&ways);
            let r = &g.nts[at].prods[p];
            let part = |ss: &[BSym], src: &mut Src| {
                let mut out = vec![];
                for s in ss {
                    match s.sym {
                        Sym::T(t) => out.push(t),
                        Sym::N(m) => {
                            let b = src.below(4);
                            out.extend(self.some(m, b, src))
                        }
                    }
                }
                out
            };
            let l = part(&r[..k], src);
            let mut rr = part(&r[k + 1..], src);
            x.extend(l);
            rr.extend(std::mem::take(&mut y));
            y = rr;
            at = m;
        }
        Some((x, y))
    }
}

fn seg(k: usize, w: &[usize]) -> String {
    if k == 0 || w.is_empty() {
        return String::new();
    }
    format!("{}:{};", k, w.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" "))
}

fn expand(arg: &str) -> Vec<Item> {
    let mut out = vec![];
    for s in arg.split(';').filter(|s| !s.is_empty()) {
        let (k, w) = s.split_once(':').unwrap();
        let w = parse_items(w);
        for _ in 0..k.parse::<usize>().unwrap() {
            out.extend(w.iter().copied());
        }
    }
    out
}

impl TProp for Long {
    fn build(&self, s: &mut Src) -> Option<TCase> {
        let salt: Vec<u32> = (0..120).map(|_| s.below(1 << 31) as u32 * 2).collect();
        let raw = candidate(s);
        let g = decorate(&raw, s);
        let a = analysed(g, raw.family, 120)?;
        if a.class == Class::ReduceReduce {
            return None;
        }
        let mut t = Src::zeros(salt);
        let g = a.g.clone();
        if g.terms.is_empty() {
            return None;
        }
        let cx = Ctxs { ms: min_size(&g), g: &g };
        let mut inputs: Vec<(usize, String)> = vec![];
        let mut labels = vec![];
        for e in g.entries() {
            if cx.ms.nt[e] >= INF {
                continue;
            }
            for _ in 0..2 {
                let n = t.below(g.nts.len());
                let len = [300, 3000, 12000, self.max, 140_000, 400_000][t.weighted(&[6, 12, 18, 12, 2, 1])];
                let Some((u, v)) = cx.walk(n, n, &mut t) else { continue };
                if u.len() + v.len() == 0 {
                    continue;
                }
                let (x, y) = if n == e && t.chance(1, 2) {
                    (vec![], vec![])
                } else {
                    match cx.walk(e, n, &mut t) {
                        Some(w) => w,
                        None if n == e => (vec![], vec![]),
                        None => continue,
                    }
                };
                let w = cx.some(n, 3, &mut t);
                // a second way around, now and then
                let (u, v) = match (t.chance(1, 3), cx.walk(n, n, &mut t)) {
                    (true, Some((u2, v2))) => ([u, u2].concat(), [v2, v].concat()),
                    _ => (u, v),
                };
                let k = len / (u.len() + v.len()) + 1;
                let open = seg(1, &x) + &seg(k, &u) + &seg(1, &w);
                let shape = match (u.len(), v.len()) {
                    (0, _) => "left",
                    (_, 0) => "right",
                    _ => "nested",
                };
                labels.push(format!("pump:{}", shape));
                let bad = t.below(g.terms.len());
                inputs.push((e, format!("L{}{}{}", open, seg(k, &v), seg(1, &y))));
                inputs.push((
                    e,
                    match t.below(4) {
                        0 => format!("L{}", open),
                        1 => format!("L{}{}{}", open, seg(k - k / 3, &v), seg(1, &[bad])),
                        2 => format!("L{}{}1:E7;", open, seg(k / 2, &v)),
                        _ => format!("L{}{}{}", seg(1, &x), seg(k / 2, &u), seg(k, &v)),
                    },
                ));
            }
            let w: Vec<usize> = (0..t.range(1, 6)).map(|_| t.below(g.terms.len())).collect();
            inputs.push((e, format!("L{}", seg(4000, &w))));
        }
        if inputs.is_empty() {
            return None;
        }
        labels.push(format!("class:{:?}", a.class));
        let prog = Prog {
            src: emit::module(&g, &Default::default()),
            inputs: inputs.clone(),
            weight: 1 + a.states / 40,
        };
        let readable = format!(
            "{}\n{}",
            g.bnf(),
            inputs
                .iter()
                .map(|i| format!("{}: {}", g.nts[i.0].name, i.1))
                .collect::<Vec<_>>()
                .join("\n")
        );
        Some(TCase {
            progs: vec![prog],
            labels,
            readable,
            judge: Box::new(move |rs| {
                let mut j = TJudged::default();
                match &rs[0].comp {
                    Comp::Ok => {}
                    _ => return j,
                }
                for (k, (e, arg)) in inputs.iter().enumerate() {
                    let items = expand(&arg[1..]);
                    let n = items.len();
                    let fail = |m: String| {
                        Some(format!(
                            "{}\n  parser: {}\n  input (count:tokens): {}\n  {} tokens",
                            m, g.nts[*e].name, arg, n
                        ))
                    };
                    let line = match &rs[0].outs[k] {
                        RawOut::Line(l) => l,
                        RawOut::Crash(c) => {
                            j.fail = fail(format!("parsing does not return: {}", c));
                            return j;
                        }
                        RawOut::Unknown(_) => continue,
                    };
                    let tab = &a.tabs.iter().find(|t| t.0 == *e).unwrap().1;
                    let mut counts = Counts::default();
                    let want = run_counting(&g, tab, *e, &items, &mut counts);
                    let acts = want.trace.iter().filter(|e| matches!(e, Ev::Act(..))).count();
                    let Some((acts2, polls2, heap, all, time, out)) = parse(line) else {
                        j.fail = fail(format!("unreadable observation {:?}", line));
                        return j;
                    };
                    if let Outcome::Panic(m) | Outcome::Crash(m) = &out {
                        j.fail = fail(format!("parsing ends in a panic: {}", m));
                        return j;
                    }
                    if acts2 > 2 * acts + 1000 + 2 * n || polls2 > n + 2 {
                        j.fail = fail(format!(
                            "{} actions and {} polls; the reference parser needs {} actions",
                            acts2, polls2, acts
                        ));
                        return j;
                    }
                    if heap > 100_000 + 2000 * counts.deepest {
                        j.fail = fail(format!(
                            "{} bytes of heap memory are in use at once; there are never more than {} symbols on the reference parser's stack",
                            heap, counts.deepest
                        ));
                        return j;
                    }
                    if all > 100_000 + 2000 * (n + acts) {
                        j.fail = fail(format!(
                            "{} bytes of heap memory are allocated in total; the reference parser needs {} actions",
                            all, acts
                        ));
                        return j;
                    }
                    // normally at most 0.3 microseconds for each
                    if time > 200_000 + 20 * (n + acts) {
                        j.fail = fail(format!(
                            "{} microseconds of processor time are used; the reference parser needs {} actions",
                            time, acts
                        ));
                        return j;
                    }
                    if n >= 3000 && counts.deepest < 40 {
                        j.labels.push("long input, small stack".into());
                    }
                    if n >= 3000 {
                        j.nontrivial.push(hash_of(&(k as u32)));
                        j.labels.push(match out {
                            Outcome::Ok(_) => "long input accepted".into(),
                            Outcome::Lex(_) => "long input, lexer error".into(),
                            _ => "long input, syntax error".into(),
                        });
                    }
                }
                j
            }),
        })
    }
}

fn parse(line: &str) -> Option<(usize, usize, usize, usize, usize, Outcome)> {
    let (c, rest) = line.split_once('|')?;
    let (a, p) = c.split_once(' ')?;
    let (p, h) = p.split_once(' ')?;
    let (h, all) = h.split_once(' ')?;
    let (all, time) = all.split_once(' ')?;
    let (out, _) = rest.rsplit_once('|')?;
    Some((a.parse().ok()?, p.parse().ok()?, h.parse().ok()?, all.parse().ok()?, time.parse().ok()?, obs::parse_outcome(out)?))
}

//! C15: histories of parse calls. Every call is observed alone and inside random histories
//! (repeated, nested in actions and in the iterator, after and during abandoned parses, on several
//! threads at once); all observations of one call must be equal.

use crate::emit;
use crate::gcheck::hash_of;
use crate::gen::*;
use crate::gram::*;
use crate::inputs;
use crate::lr::{Class, Ev, Obs, Outcome};
use crate::obs;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;
use std::fmt::Write;

pub struct Hist;

#[derive(Clone, Debug)]
enum Op {
    Call(usize),
    /// kind a or p, at, outer, inner
    Nested(char, usize, usize, usize),
    /// kind x or y, at, call
    Abort(char, usize, usize),
    Threads(usize, Vec<usize>),
}

fn call_text(c: &(usize, Vec<Item>)) -> String {
    format!("{} {}", c.0, items_text(&c.1))
}

fn history_text(h: &[Op], calls: &[(usize, Vec<Item>)]) -> String {
    let mut s = String::from("H");
    for op in h {
        match op {
            Op::Call(c) => write!(s, "c {};", call_text(&calls[*c])),
            Op::Nested(k, at, a, b) => write!(s, "{} {} {} / {};", k, at, call_text(&calls[*a]), call_text(&calls[*b])),
            Op::Abort(k, at, a) => write!(s, "{} {} {};", k, at, call_text(&calls[*a])),
            Op::Threads(n, cs) => {
                let t: Vec<String> = cs.iter().map(|c| call_text(&calls[*c])).collect();
                write!(s, "t {} {};", n, t.join(" / "))
            }
        }
        .unwrap();
    }
    s
}

impl TProp for Hist {
    fn tape_len(&self) -> usize {
        460
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let salt: Vec<u32> = (0..160).map(|_| s.below(1 << 31) as u32 * 2).collect();
        let raw = candidate(s);
        let g = decorate(&raw, s);
        let a = analysed(g, raw.family, 100)?;
        if a.class != Class::Clean {
            return None;
        }
        let mut t = Src::zeros(salt);
        let g = a.g.clone();
        let plan = inputs::Plan {
            prefixes: 6,
            sentences: 10,
            mutants: 4,
            errors: true,
            max: 40,
        };
        let mut pool = vec![];
        for e in g.entries() {
            pool.extend(inputs::inputs(&a, e, plan, s).items.into_iter().map(|w| (e, w)));
        }
        if pool.is_empty() {
            return None;
        }
        // long ones first: they leave most behind
        pool.sort_by_key(|c| usize::MAX - c.1.len());
        let mut calls: Vec<(usize, Vec<Item>)> = vec![];
        for k in 0..t.range(2, 6) {
            let half = (pool.len() / 2).max(1);
            let c = if k % 2 == 0 { t.below(half) } else { t.below(pool.len()) };
            if !calls.contains(&pool[c]) {
                calls.push(pool[c].clone());
            }
        }
        let n = calls.len();
        let mut hists: Vec<Vec<Op>> = vec![];
        for _ in 0..t.range(2, 5) {
            let mut h = vec![];
            for _ in 0..t.range(1, 7) {
                let at = t.weighted(&[4, 3, 2, 1, 1, 1, 1]);
                h.push(match t.weighted(&[4, 3, 3, 3, 2, 1]) {
                    0 => Op::Call(t.below(n)),
                    1 => Op::Nested('a', at, t.below(n), t.below(n)),
                    2 => Op::Nested('p', at, t.below(n), t.below(n)),
                    3 => Op::Abort('x', at, t.below(n)),
                    4 => Op::Abort('y', at, t.below(n)),
                    _ => Op::Threads(t.range(1, 12), (0..t.range(2, 5)).map(|_| t.below(n)).collect()),
                });
            }
            hists.push(h);
        }
        let lines = |order: &[usize], first: bool| {
            let solo = order.iter().map(|c| (calls[*c].0, items_text(&calls[*c].1)));
            let hs = hists.iter().map(|h| (0, history_text(h, &calls)));
            if first {
                solo.chain(hs).collect::<Vec<_>>()
            } else {
                hs.chain(solo).collect()
            }
        };
        let fwd: Vec<usize> = (0..n).collect();
        let rev: Vec<usize> = (0..n).rev().collect();
        let src = emit::module(&g, &Default::default());
        let progs = vec![
            Prog {
                src: src.clone(),
                inputs: lines(&fwd, true),
                weight: 1 + a.states / 40,
            },
            Prog {
                src,
                inputs: lines(&rev, false),
                weight: 1 + a.states / 40,
            },
        ];
        let mut readable = g.bnf();
        for (k, c) in calls.iter().enumerate() {
            write!(readable, "\ncall {}: {} [{}]", k, g.nts[c.0].name, items_text(&c.1)).unwrap();
        }
        for h in &hists {
            write!(readable, "\nhistory: {:?}", h).unwrap();
        }
        Some(TCase {
            progs,
            labels: vec![format!("entries:{}", g.entries().len().min(3))],
            readable,
            judge: Box::new(move |rs| judge(&calls, &hists, rs)),
        })
    }
}

fn judge(calls: &[(usize, Vec<Item>)], hists: &[Vec<Op>], rs: &[Res]) -> TJudged {
    let mut j = TJudged::default();
    let n = calls.len();
    if rs.iter().any(|r| r.comp != Comp::Ok) {
        return j;
    }
    // what follows a history that does not return is not run
    for (p, r) in rs.iter().enumerate() {
        for (h, ops) in hists.iter().enumerate() {
            if let Some(RawOut::Crash(c)) = r.outs.get(if p == 0 { n + h } else { h }) {
                j.fail = Some(format!("a history of calls does not come to its end: {}\n  history: {:?}", c, ops));
                return j;
            }
        }
    }
    if rs.iter().any(|r| r.outs.iter().any(|o| matches!(o, RawOut::Unknown(_)))) {
        return j;
    }
    // alone
    let mut solo: Vec<Obs> = vec![];
    for k in 0..n {
        let Some(o) = obs::obs(&rs[0].outs[k]) else { return j };
        solo.push(o);
    }
    let name = |k: usize| format!("call {} [{}]", k, items_text(&calls[k].1));
    let differs = |k: usize, o: &Obs, what: String| {
        Some(format!(
            "{} {} ends differently than alone\n  alone: {}\n  there: {}",
            name(k),
            what,
            solo[k].text(),
            o.text()
        ))
    };
    for k in 0..n {
        let Some(o) = obs::obs(&rs[1].outs[hists.len() + (n - 1 - k)]) else { return j };
        if o != solo[k] {
            j.fail = differs(k, &o, "after other calls".into());
            return j;
        }
    }
    for (p, r) in rs.iter().enumerate() {
        for (h, ops) in hists.iter().enumerate() {
            let out = &r.outs[if p == 0 { n + h } else { h }];
            let line = match out {
                RawOut::Line(l) => l.clone(),
                RawOut::Crash(c) => {
                    j.fail = Some(format!("a history of calls does not come to its end: {}\n  history: {:?}", c, ops));
                    return j;
                }
                RawOut::Unknown(_) => continue,
            };
            let parts: Vec<Obs> = line.split(" ## ").map(|l| obs::obs(&RawOut::Line(l.into())).unwrap()).collect();
            let mut at = 0;
            let mut depth = 0;
            for (i, op) in ops.iter().enumerate() {
                let mut expect: Vec<(usize, String)> = vec![];
                match op {
                    Op::Call(c) => expect.push((*c, format!("in a history ({}th operation of {:?})", i, ops))),
                    Op::Nested(k, pos, a, b) => {
                        expect.push((*a, format!("with {} called inside its {}th {}", name(*b), pos, if *k == 'a' { "action" } else { "poll" })));
                        let reach = solo[*a]
                            .trace
                            .iter()
                            .filter(|e| matches!(e, Ev::Act(..)) == (*k == 'a'))
                            .count();
                        if reach > *pos {
                            depth += 1;
                            expect.push((*b, format!("inside {} of {}", if *k == 'a' { "an action" } else { "a poll" }, name(*a))));
                        }
                    }
                    Op::Abort(k, pos, c) => {
                        depth += 1;
                        let o = &parts[at.min(parts.len() - 1)];
                        let what = if *k == 'x' { "action" } else { "poll" };
                        if o.out != Outcome::Panic("ABORT".into()) {
                            // not reached
                            if *o != solo[*c] {
                                j.fail = differs(*c, o, format!("in a history ({}th operation of {:?})", i, ops));
                                return j;
                            }
                        } else if let Some(m) = o.mem.clone().filter(|m| m.after != 0 || m.double_drops != 0) {
                            j.fail = Some(format!(
                                "{} is abandoned by a panic in its {}th {}: {} values are never dropped, {} are dropped twice",
                                name(*c), pos, what, m.after, m.double_drops
                            ));
                            return j;
                        }
                        at += 1;
                        continue;
                    }
                    Op::Threads(_, cs) => {
                        depth += 1;
                        for c in cs {
                            expect.push((*c, format!("on its own thread among {} others", cs.len() - 1)));
                        }
                    }
                }
                for (c, what) in expect {
                    match parts.get(at) {
                        Some(o) if *o == solo[c] => {}
                        Some(o) => {
                            j.fail = differs(c, o, what);
                            return j;
                        }
                        None => {
                            j.fail = Some(format!("{} {} was not observed", name(c), what));
                            return j;
                        }
                    }
                    at += 1;
                }
            }
            if depth > 0 && ops.len() > 1 {
                j.nontrivial.push(hash_of(&(p, h)));
            }
            for op in ops {
                j.labels.push(
                    match op {
                        Op::Call(_) => "op:call",
                        Op::Nested('a', ..) => "op:nested in action",
                        Op::Nested(..) => "op:nested in iterator",
                        Op::Abort('x', ..) => "op:abandoned in action",
                        Op::Abort(..) => "op:abandoned in iterator",
                        Op::Threads(..) => "op:threads",
                    }
                    .into(),
                );
            }
        }
    }
    j
}

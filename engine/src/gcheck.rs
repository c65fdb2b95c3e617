//! Harness for properties whose cases are a grammar, a small tape of extra choices and inputs.

use crate::gram::*;
use crate::pipe::*;
use crate::report::*;
use crate::src::*;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct GCase {
    pub g: Gram,
    /// extra choices, meaning is up to the property
    pub aux: Vec<u32>,
    pub inputs: Vec<(usize, Vec<Item>)>,
}

#[derive(Default)]
pub struct Judged {
    /// message and index of the failing input
    pub fail: Option<(String, Option<usize>)>,
    /// per input: how it counts
    pub nontrivial: Vec<usize>,
    pub labels: Vec<&'static str>,
    /// the engine contradicts itself
    pub broken: Option<String>,
    pub unknown: usize,
}

/// A judge keeps whatever it needs between `progs` and `judge` inside `Prep`.
pub trait GProp: Sync {
    type Prep: Send + Sync;
    /// None: the case is outside the property's domain (used while shrinking too)
    fn prepare(&self, c: &GCase) -> Option<(Self::Prep, Vec<Prog>)>;
    fn judge(&self, c: &GCase, p: &Self::Prep, rs: &[Res]) -> Judged;
    /// Draws a case
    fn draw(&self, gen: &mut Gen, picker: &mut crate::gen::Picker) -> (GCase, Vec<String>);
    /// entry points shrinking must keep
    fn keep_entries(&self) -> usize {
        1
    }
    /// also try inputs other than the failing one while shrinking
    fn shrink_inputs(&self, _c: &GCase) -> Vec<(usize, Vec<Item>)> {
        vec![]
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl GCase {
    pub fn to_text(&self) -> String {
        let mut s = self.g.to_text();
        s.push_str(&format!(
            "aux {}\n",
            self.aux.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
        ));
        for (e, i) in &self.inputs {
            s.push_str(&format!("input {} : {}\n", e, items_text(i)));
        }
        s
    }
    pub fn from_text(t: &str) -> Option<GCase> {
        let g = Gram::from_text(t)?;
        let mut c = GCase { g, aux: vec![], inputs: vec![] };
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("aux ") {
                c.aux = r.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            }
            if let Some(r) = l.strip_prefix("input ") {
                let (e, i) = r.split_once(" :")?;
                c.inputs.push((e.trim().parse().ok()?, parse_items(i)));
            }
        }
        Some(c)
    }
    fn size(&self) -> (usize, usize) {
        (
            self.g.size() + self.aux.iter().filter(|x| **x != 0).count(),
            self.inputs.iter().map(|i| i.1.len()).sum(),
        )
    }
}

pub struct Plan {
    pub chunks: usize,
    pub per_chunk: usize,
    /// programs compiled together
    pub batch: usize,
    pub quota: usize,
    pub cap: usize,
}

struct ChunkOut {
    fail: Option<(GCase, String, Option<usize>)>,
    broken: Option<String>,
}

/// Runs the campaign. Returns the shrunk failure, if any.
pub fn campaign<P: GProp>(env: &Env, prop: &P, id: &str, seed: u64, plan: Plan, ev: &mut Evidence) -> Option<Failure> {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let outs: Mutex<BTreeMap<usize, ChunkOut>> = Mutex::new(BTreeMap::new());
    let stats = Mutex::new(std::mem::take(ev));
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    std::thread::scope(|s| {
        for _ in 0..env.threads {
            s.spawn(|| loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let ch = next.fetch_add(1, Ordering::Relaxed);
                if ch >= plan.chunks || env.late() {
                    break;
                }
                let mut gen = Gen::new(seed, &format!("{}/{}", id, ch));
                let mut picker = crate::gen::Picker::new(plan.quota, plan.cap);
                let mut cases = vec![];
                let mut labels: BTreeMap<String, usize> = BTreeMap::new();
                let mut progs: Vec<Prog> = vec![];
                for _ in 0..plan.per_chunk {
                    let (c, ls) = prop.draw(&mut gen, &mut picker);
                    let Some((prep, ps)) = prop.prepare(&c) else { continue };
                    for l in ls {
                        *labels.entry(l).or_default() += 1;
                    }
                    let at = progs.len();
                    let n = ps.len();
                    progs.extend(ps);
                    cases.push((c, prep, at, n));
                }
                // batches
                let mut rs: Vec<Res> = vec![];
                for b in progs.chunks(plan.batch.max(1)) {
                    let refs: Vec<&Prog> = b.iter().collect();
                    rs.extend(env.batch(&refs));
                }
                let mut out = ChunkOut { fail: None, broken: None };
                let mut keys = vec![];
                let mut samples = vec![];
                let mut evals = 0;
                for (c, prep, at, n) in &cases {
                    let slice = &rs[*at..*at + *n];
                    evals += slice.iter().map(|r| r.outs.len().max(1)).sum::<usize>();
                    let j = prop.judge(c, prep, slice);
                    for l in &j.labels {
                        *labels.entry(l.to_string()).or_default() += 1;
                    }
                    let gh = hash_of(&(&c.g, &c.aux));
                    for i in &j.nontrivial {
                        keys.push(match c.inputs.get(*i) {
                            Some(inp) => hash_of(&(gh, inp)),
                            None => hash_of(&(gh, *i)),
                        });
                    }
                    if let Some(i) = j.nontrivial.last() {
                        if samples.is_empty() {
                            let inp = c.inputs.get(*i);
                            samples.push(format!(
                                "{}{}",
                                c.g.bnf().chars().take(600).collect::<String>(),
                                match inp {
                                    Some((e, w)) => format!(
                                        "  |  {} on [{}]",
                                        c.g.nts[*e].name,
                                        w.iter()
                                            .take(60)
                                            .map(|i| match i {
                                                Item::Tok(t) => format!("{:?}", c.g.terms[*t].name),
                                                Item::Err(e) => format!("Err({})", e),
                                            })
                                            .collect::<Vec<_>>()
                                            .join(" ")
                                    ),
                                    None => String::new(),
                                }
                            ));
                        }
                    }
                    if j.broken.is_some() && out.broken.is_none() {
                        out.broken = j.broken;
                    }
                    if let (Some((m, i)), None) = (j.fail, &out.fail) {
                        out.fail = Some((c.clone(), m, i));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                {
                    let mut st = stats.lock().unwrap();
                    st.evaluations += evals;
                    st.cases += cases.len();
                    for (k, v) in labels {
                        *st.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in &picker.by_class {
                        *st.labels.entry(format!("drawn:{:?}", k)).or_default() += v;
                    }
                    for s in samples {
                        st.sample(ch, s);
                    }
                    let mut d = distinct.lock().unwrap();
                    d.extend(keys);
                    st.distinct_nontrivial = d.len();
                }
                outs.lock().unwrap().insert(ch, out);
            });
        }
    });
    *ev = stats.into_inner().unwrap();
    let outs = outs.into_inner().unwrap();
    for o in outs.values() {
        if let Some(b) = &o.broken {
            env.trouble(format!("engine contradiction: {}", b));
        }
    }
    let (c, m, i) = outs.into_values().find_map(|o| o.fail)?;
    eprintln!("pgcheck: violation found, shrinking");
    let t = std::time::Instant::now();
    let (c, m) = shrink(env, prop, c, m, i);
    eprintln!("pgcheck: shrunk in {:.1} s", t.elapsed().as_secs_f64());
    Some(failure(c, m))
}

pub fn failure(c: GCase, m: String) -> Failure {
    Failure {
        message: m,
        case: c.to_text(),
        readable: format!("{}\n{}", c.g.bnf(), crate::emit::grammar_text(&c.g, &Default::default())),
    }
}

/// Judges many cases at once; None = holds or out of domain.
pub fn eval_cases<P: GProp>(env: &Env, prop: &P, cases: &[GCase]) -> Vec<Option<(String, Option<usize>)>> {
    let mut out: Vec<Option<(String, Option<usize>)>> = vec![None; cases.len()];
    let mut prepped = vec![];
    let mut progs: Vec<Prog> = vec![];
    for (k, c) in cases.iter().enumerate() {
        if let Some((prep, ps)) = prop.prepare(c) {
            let at = progs.len();
            let n = ps.len();
            progs.extend(ps);
            prepped.push((k, prep, at, n));
        }
    }
    let rs = env.process(&progs);
    for (k, prep, at, n) in prepped {
        out[k] = prop.judge(&cases[k], &prep, &rs[at..at + n]).fail;
    }
    out
}

fn focus(c: &GCase, i: Option<usize>) -> GCase {
    let mut c = c.clone();
    c.inputs = match i {
        Some(i) => vec![c.inputs[i].clone()],
        None => vec![],
    };
    c
}

pub fn shrink<P: GProp>(env: &Env, prop: &P, c: GCase, m: String, i: Option<usize>) -> (GCase, String) {
    let before = env.executed.load(Ordering::Relaxed);
    let start = std::time::Instant::now();
    let one = focus(&c, i);
    let mut best = one.clone();
    let mut msg = m;
    // the focused case alone must fail too; otherwise keep the whole case
    match eval_cases(env, prop, &[one]).remove(0) {
        Some((m, _)) => msg = m,
        None => best = c.clone(),
    }
    let had_input = !best.inputs.is_empty();
    for _ in 0..60 {
        if start.elapsed().as_secs() > 100 {
            break;
        }
        let mut cands: Vec<GCase> = reductions(&best, prop.keep_entries())
            .into_iter()
            .filter(|x| x.size() < best.size())
            .collect();
        cands.sort_by_key(|x| x.size());
        cands.dedup();
        cands.truncate(400);
        if had_input {
            // other inputs may show the failure on a smaller grammar
            for c in &mut cands {
                let more = prop.shrink_inputs(c);
                c.inputs.extend(more);
            }
        }
        if cands.is_empty() {
            break;
        }
        // a few at a time, smallest first
        let mut found = None;
        for part in cands.chunks(64) {
            let rs = eval_cases(env, prop, part);
            if let Some((k, Some((m, i)))) = rs.into_iter().enumerate().find(|x| x.1.is_some()) {
                let f = if had_input { focus(&part[k], i) } else { part[k].clone() };
                found = Some((f, m));
                break;
            }
        }
        match found {
            Some((c, m)) => {
                best = c;
                msg = m;
            }
            None => break,
        }
    }
    let _ = before;
    (best, msg)
}

pub fn remove_nt(g: &Gram, n: usize, drop_prods: bool) -> Gram {
    let mut h = g.clone();
    h.nts.remove(n);
    for nt in &mut h.nts {
        let mut ps = vec![];
        for p in &nt.prods {
            if drop_prods && p.iter().any(|b| b.sym == Sym::N(n)) {
                continue;
            }
            let q: Vec<BSym> = p
                .iter()
                .filter(|b| b.sym != Sym::N(n))
                .map(|b| BSym {
                    sym: match b.sym {
                        Sym::N(m) if m > n => Sym::N(m - 1),
                        s => s,
                    },
                    bind: b.bind,
                })
                .collect();
            ps.push(q);
        }
        nt.prods = ps;
    }
    h
}

fn reductions(c: &GCase, keep: usize) -> Vec<GCase> {
    let mut out = vec![];
    let g = &c.g;
    let mut push = |g: Gram, inputs: Vec<(usize, Vec<Item>)>| {
        out.push(GCase { g, aux: c.aux.clone(), inputs });
    };
    // inputs
    for (k, (e, w)) in c.inputs.iter().enumerate() {
        for len in [w.len() / 2, w.len() / 4, 4, 2, 1] {
            if len == 0 || len > w.len() {
                continue;
            }
            for at in (0..w.len()).step_by(len) {
                let mut v = w.clone();
                v.drain(at..(at + len).min(w.len()));
                let mut ins = c.inputs.clone();
                ins[k] = (*e, v);
                push(g.clone(), ins);
            }
        }
    }
    // non-terminals
    for n in 0..g.nts.len() {
        if g.nts[n].public && (g.entries().len() <= keep || c.inputs.iter().any(|i| i.0 == n)) {
            continue;
        }
        let ins: Vec<(usize, Vec<Item>)> = c
            .inputs
            .iter()
            .map(|(e, w)| (if *e > n { e - 1 } else { *e }, w.clone()))
            .collect();
        push(remove_nt(g, n, true), ins.clone());
        push(remove_nt(g, n, false), ins);
    }
    // terminals
    for t in 0..g.terms.len() {
        for drop in [true, false] {
            let mut h = g.clone();
            h.terms.remove(t);
            for nt in &mut h.nts {
                if drop {
                    nt.prods.retain(|p| !p.iter().any(|b| b.sym == Sym::T(t)));
                }
                for p in &mut nt.prods {
                    p.retain(|b| b.sym != Sym::T(t));
                    for b in p {
                        if let Sym::T(u) = b.sym {
                            if u > t {
                                b.sym = Sym::T(u - 1);
                            }
                        }
                    }
                }
            }
            let ins = c
                .inputs
                .iter()
                .map(|(e, w)| {
                    (
                        *e,
                        w.iter()
                            .filter(|i| **i != Item::Tok(t))
                            .map(|i| match i {
                                Item::Tok(u) if *u > t => Item::Tok(u - 1),
                                i => *i,
                            })
                            .collect(),
                    )
                })
                .collect();
            if !h.terms.is_empty() {
                push(h, ins);
            }
        }
    }
    // productions and symbols
    for n in 0..g.nts.len() {
        for p in 0..g.nts[n].prods.len() {
            let mut h = g.clone();
            h.nts[n].prods.remove(p);
            push(h, c.inputs.clone());
            for k in 0..g.nts[n].prods[p].len() {
                let mut h = g.clone();
                h.nts[n].prods[p].remove(k);
                push(h, c.inputs.clone());
                if let Sym::N(m) = g.nts[n].prods[p][k].sym {
                    // inline a non-terminal with one production
                    if g.nts[m].prods.len() == 1 && m != n {
                        let mut h = g.clone();
                        let body = g.nts[m].prods[0].clone();
                        h.nts[n].prods[p].splice(k..k + 1, body);
                        push(h, c.inputs.clone());
                    }
                }
            }
        }
    }
    // decoration
    for n in 0..g.nts.len() {
        if g.nts[n].public && g.entries().len() > keep && !c.inputs.iter().any(|i| i.0 == n) {
            let mut h = g.clone();
            h.nts[n].public = false;
            push(h, c.inputs.clone());
        }
        if g.nts[n].ty != 0 {
            let mut h = g.clone();
            h.nts[n].ty = 0;
            push(h, c.inputs.clone());
        }
    }
    let mut h = g.clone();
    for t in &mut h.terms {
        t.shape = Shape::One;
    }
    for n in &mut h.nts {
        n.ty = 0;
        for p in &mut n.prods {
            for b in p {
                if b.bind == Bind::Mut {
                    b.bind = Bind::Yes;
                }
            }
        }
    }
    push(h, c.inputs.clone());
    for t in 0..g.terms.len() {
        if g.terms[t].shape != Shape::One {
            let mut h = g.clone();
            h.terms[t].shape = Shape::One;
            push(h, c.inputs.clone());
        }
    }
    if g.acts != 0 {
        let mut h = g.clone();
        h.acts = 0;
        push(h, c.inputs.clone());
    }
    // extra choices
    for k in 0..c.aux.len() {
        if c.aux[k] != 0 {
            let mut x = c.clone();
            x.aux[k] = 0;
            out.push(x);
        }
    }
    out
}

/// Replays one saved case.
pub fn replay<P: GProp>(env: &Env, prop: &P, text: &str) -> Result<Option<String>, String> {
    let c = GCase::from_text(text).ok_or("unreadable replay file")?;
    match eval_cases(env, prop, &[c]).remove(0) {
        Some((m, _)) => Ok(Some(m)),
        None => Ok(None),
    }
}

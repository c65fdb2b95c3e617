//! Harness for properties whose cases are decoded from a tape of choices; shrinking works on the
//! tape, replay files hold it.

use crate::gcheck::hash_of;
use crate::pipe::*;
use crate::report::*;
use crate::src::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Default)]
pub struct TJudged {
    pub fail: Option<String>,
    /// keys of the non-trivial evaluations
    pub nontrivial: Vec<u64>,
    pub labels: Vec<String>,
    /// the case shows a problem of the engine, not of the code under test
    pub broken: Option<String>,
}

pub struct TCase {
    pub progs: Vec<Prog>,
    pub labels: Vec<String>,
    pub readable: String,
    pub judge: Box<dyn Fn(&[Res]) -> TJudged + Send + Sync>,
}

pub trait TProp: Sync {
    /// None: the tape does not decode to a case
    fn build(&self, s: &mut Src) -> Option<TCase>;
    fn tape_len(&self) -> usize {
        400
    }
    /// Cheap look at a tape with the macro running in a helper process: worth trying in full?
    fn suspect(&self, _s: &mut Src, _h: &mut crate::probe::Helper) -> Suspect {
        Suspect::Skip
    }
    /// How a batch of programs is processed
    fn exec(&self, env: &Env, progs: &[&Prog]) -> Vec<Res> {
        env.batch(progs)
    }
}

pub enum Suspect {
    /// not a case, or not understood
    Skip,
    Quiet(usize),
    Hint(String),
}

/// Wide search over tapes (see probe.rs): what `suspect` points at is judged in full.
pub fn wide<P: TProp>(
    env: &Env,
    bin: &std::path::Path,
    prop: &P,
    id: &str,
    seed: u64,
    chunks: usize,
    per_chunk: usize,
    ev: &mut Evidence,
) -> Option<Failure> {
    let next = AtomicUsize::new(0);
    let nhints = AtomicUsize::new(0);
    let hints: Mutex<BTreeMap<usize, Vec<(Vec<u32>, String)>>> = Mutex::new(BTreeMap::new());
    let counts: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..env.threads {
            s.spawn(|| {
                let mut helper = crate::probe::Helper::new(bin);
                loop {
                    let ch = next.fetch_add(1, Ordering::Relaxed);
                    if ch >= chunks || env.late() || nhints.load(Ordering::Relaxed) > 200 {
                        break;
                    }
                    let mut gen = Gen::new(seed, &format!("wide/{}/{}", id, ch));
                    let mut local: BTreeMap<String, usize> = BTreeMap::new();
                    let mut found = vec![];
                    for _ in 0..per_chunk {
                        let tape = gen.tape(prop.tape_len());
                        let mut count = |s: &str, n: usize| *local.entry(s.to_string()).or_default() += n;
                        match prop.suspect(&mut Src::zeros(tape.clone()), &mut helper) {
                            Suspect::Skip => count("skipped", 1),
                            Suspect::Quiet(n) => {
                                count("cases as expected", 1);
                                count("expansions", n);
                            }
                            Suspect::Hint(m) => {
                                count("hints", 1);
                                nhints.fetch_add(1, Ordering::Relaxed);
                                found.push((tape, m));
                            }
                        }
                    }
                    if !found.is_empty() {
                        hints.lock().unwrap().insert(ch, found);
                    }
                    let mut c = counts.lock().unwrap();
                    for (k, v) in local {
                        *c.entry(k).or_default() += v;
                    }
                }
            });
        }
    });
    let mut all: Vec<(Vec<u32>, String)> = hints.into_inner().unwrap().into_values().flatten().collect();
    all.truncate(32);
    let counts = counts.into_inner().unwrap();
    eprintln!("pgcheck: wide search {:?}", counts);
    ev.extra.insert("wide_search_tapes".into(), serde_json::json!(counts));
    if all.is_empty() {
        return None;
    }
    eprintln!("pgcheck: {} hints, e.g. {}", all.len(), all[0].1);
    let tapes: Vec<Vec<u32>> = all.into_iter().map(|x| x.0).collect();
    let rs = eval(env, prop, &tapes);
    let (k, m) = rs.into_iter().enumerate().find_map(|(k, m)| m.map(|m| (k, m)))?;
    Some(fail(env, prop, tapes[k].clone(), m))
}

fn fail<P: TProp>(env: &Env, prop: &P, tape: Vec<u32>, m: String) -> Failure {
    eprintln!("pgcheck: violation found, shrinking");
    let t = std::time::Instant::now();
    let (tape, m) = shrink(env, prop, tape, m);
    eprintln!("pgcheck: shrunk in {:.1} s", t.elapsed().as_secs_f64());
    let readable = prop.build(&mut Src::zeros(tape.clone())).map(|c| c.readable).unwrap_or_default();
    Failure {
        message: m,
        case: format!(
            "tape {}\n",
            tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
        ),
        readable,
    }
}

pub struct TPlan {
    pub chunks: usize,
    pub per_chunk: usize,
    pub batch: usize,
}

struct ChunkOut {
    fail: Option<(Vec<u32>, String)>,
    broken: Option<String>,
}

pub fn campaign<P: TProp>(env: &Env, prop: &P, id: &str, seed: u64, plan: TPlan, ev: &mut Evidence) -> Option<Failure> {
    let before = ev.distinct_nontrivial;
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let outs: Mutex<BTreeMap<usize, ChunkOut>> = Mutex::new(BTreeMap::new());
    let stats = Mutex::new(std::mem::take(ev));
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    std::thread::scope(|s| {
        for _ in 0..env.threads {
            s.spawn(|| loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let ch = next.fetch_add(1, Ordering::Relaxed);
                if ch >= plan.chunks || env.late() {
                    break;
                }
                let mut gen = Gen::new(seed, &format!("{}/{}", id, ch));
                let mut cases = vec![];
                let mut progs: Vec<Prog> = vec![];
                let mut labels: BTreeMap<String, usize> = BTreeMap::new();
                let mut tries = 0;
                while cases.len() < plan.per_chunk && tries < plan.per_chunk * 40 {
                    tries += 1;
                    let tape = gen.tape(prop.tape_len());
                    let Some(mut c) = prop.build(&mut Src::zeros(tape.clone())) else { continue };
                    for l in c.labels.drain(..) {
                        *labels.entry(l).or_default() += 1;
                    }
                    let ps = std::mem::take(&mut c.progs);
                    let (at, n) = (progs.len(), ps.len());
                    progs.extend(ps);
                    cases.push((tape, c, at, n));
                }
                let mut rs: Vec<Res> = vec![];
                for b in progs.chunks(plan.batch.max(1)) {
                    let refs: Vec<&Prog> = b.iter().collect();
                    rs.extend(prop.exec(env, &refs));
                }
                let mut out = ChunkOut { fail: None, broken: None };
                let mut keys = vec![];
                let mut evals = 0;
                let mut sample = None;
                for (tape, c, at, n) in &cases {
                    let slice = &rs[*at..*at + *n];
                    evals += slice.iter().map(|r| r.outs.len().max(1)).sum::<usize>();
                    let j = (c.judge)(slice);
                    for l in j.labels {
                        *labels.entry(l).or_default() += 1;
                    }
                    if !j.nontrivial.is_empty() && sample.is_none() {
                        sample = Some(c.readable.chars().take(1200).collect::<String>());
                    }
                    let h = hash_of(&c.readable);
                    keys.extend(j.nontrivial.iter().map(|k| hash_of(&(h, k))));
                    if out.broken.is_none() {
                        out.broken = j.broken;
                    }
                    if let (Some(m), None) = (j.fail, &out.fail) {
                        out.fail = Some((tape.clone(), m));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                {
                    let mut st = stats.lock().unwrap();
                    st.evaluations += evals;
                    st.cases += cases.len();
                    for (k, v) in labels {
                        *st.labels.entry(k).or_default() += v;
                    }
                    if let Some(s) = sample {
                        st.sample(ch, s);
                    }
                    let mut d = distinct.lock().unwrap();
                    d.extend(keys);
                    st.distinct_nontrivial = before + d.len();
                }
                outs.lock().unwrap().insert(ch, out);
            });
        }
    });
    *ev = stats.into_inner().unwrap();
    let outs = outs.into_inner().unwrap();
    for o in outs.values() {
        if let Some(b) = &o.broken {
            env.trouble(format!("engine contradiction: {}", b));
        }
    }
    let (tape, m) = outs.into_values().find_map(|o| o.fail)?;
    Some(fail(env, prop, tape, m))
}

fn eval<P: TProp>(env: &Env, prop: &P, tapes: &[Vec<u32>]) -> Vec<Option<String>> {
    let mut out = vec![None; tapes.len()];
    let mut cs = vec![];
    let mut progs = vec![];
    for (k, t) in tapes.iter().enumerate() {
        if let Some(mut c) = prop.build(&mut Src::zeros(t.clone())) {
            let ps = std::mem::take(&mut c.progs);
            let (at, n) = (progs.len(), ps.len());
            progs.extend(ps);
            cs.push((k, c, at, n));
        }
    }
    let rs = env.process_by(&progs, &|ps| prop.exec(env, ps));
    for (k, c, at, n) in cs {
        out[k] = (c.judge)(&rs[at..at + n]).fail;
    }
    out
}

fn trim(t: &mut Vec<u32>) {
    while t.last() == Some(&0) {
        t.pop();
    }
}

fn shrink<P: TProp>(env: &Env, prop: &P, mut best: Vec<u32>, mut msg: String) -> (Vec<u32>, String) {
    // keep only the part of the tape that is read
    let mut s = Src::zeros(best.clone());
    prop.build(&mut s);
    best.truncate(s.used());
    let size = |t: &[u32]| (t.len(), t.iter().filter(|x| **x != 0).count(), t.iter().map(|x| *x as u64).sum::<u64>());
    let start = std::time::Instant::now();
    for _round in 0..80 {
        if start.elapsed().as_secs() > 90 {
            break;
        }
        let n = best.len();
        let mut cands: Vec<Vec<u32>> = vec![];
        let mut len = n;
        while len > 0 {
            for at in (0..n).step_by(len) {
                let end = (at + len).min(n);
                let mut t = best.clone();
                t.drain(at..end);
                cands.push(t);
                let mut t = best.clone();
                t[at..end].iter_mut().for_each(|x| *x = 0);
                cands.push(t);
            }
            len /= 2;
        }
        for k in 0..n {
            for d in [2u32, 16] {
                if best[k] > 0 {
                    let mut t = best.clone();
                    t[k] /= d;
                    cands.push(t);
                }
            }
        }
        for t in &mut cands {
            trim(t);
        }
        let mut seen = HashSet::new();
        cands.retain(|t| size(t) < size(&best) && seen.insert(t.clone()));
        cands.truncate(900);
        // only candidates that build something else than the best so far
        let now = prop.build(&mut Src::zeros(best.clone())).map(|c| c.readable);
        let mut found = None;
        'parts: for part in cands.chunks(96) {
            if start.elapsed().as_secs() > 90 {
                break;
            }
            // a shorter tape for the same case is taken at once
            let mut todo = vec![];
            let mut texts = HashSet::new();
            for t in part {
                match prop.build(&mut Src::zeros(t.clone())).map(|c| c.readable) {
                    Some(r) if Some(&r) == now.as_ref() => {
                        found = Some((t.clone(), msg.clone()));
                        break 'parts;
                    }
                    Some(r) => {
                        if texts.insert(r) {
                            todo.push(t.clone())
                        }
                    }
                    None => {}
                }
            }
            let rs = eval(env, prop, &todo);
            if let Some((k, Some(m))) = rs.into_iter().enumerate().find(|x| x.1.is_some()) {
                found = Some((todo[k].clone(), m));
                break;
            }
        }
        match found {
            Some((t, m)) => {
                best = t;
                msg = m;
            }
            None => break,
        }
    }
    (best, msg)
}

pub fn replay<P: TProp>(env: &Env, prop: &P, text: &str) -> Result<Option<String>, String> {
    let l = text.lines().find_map(|l| l.strip_prefix("tape")).ok_or("unreadable replay file")?;
    let t: Vec<u32> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    Ok(eval(env, prop, &[t]).remove(0))
}

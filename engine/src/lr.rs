//! Reference canonical LR(1) construction and parser. Written independently of the code under
//! test: it works on numbered productions and bit sets, builds one automaton per entry point, and
//! keeps every conflict instead of resolving it while filling the table.

use crate::gram::*;
use std::collections::{BTreeMap, HashMap};

/// Bit set over terminals; the last index is end of input.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Bits(pub Vec<u64>);

impl Bits {
    pub fn new(n: usize) -> Bits {
        Bits(vec![0; n / 64 + 1])
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn set(&mut self, i: usize) -> bool {
        let old = self.has(i);
        self.0[i / 64] |= 1 << (i % 64);
        !old
    }
    pub fn or(&mut self, o: &Bits) -> bool {
        let mut ch = false;
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            let n = *a | *b;
            ch |= n != *a;
            *a = n;
        }
        ch
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        self.0.iter().enumerate().flat_map(|(w, b)| {
            let b = *b;
            (0..64).filter(move |i| b >> i & 1 == 1).map(move |i| w * 64 + i)
        })
    }
}

pub struct Analysis {
    pub nullable: Vec<bool>,
    pub first: Vec<Bits>,
}

pub fn analyse(g: &Gram) -> Analysis {
    let nt = g.terms.len();
    let nullable = g.nullable();
    let mut first = vec![Bits::new(nt + 1); g.nts.len()];
    loop {
        let mut ch = false;
        for (i, n) in g.nts.iter().enumerate() {
            for p in &n.prods {
                for b in p {
                    match b.sym {
                        Sym::T(t) => {
                            ch |= first[i].set(t);
                            break;
                        }
                        Sym::N(m) => {
                            let f = first[m].clone();
                            ch |= first[i].or(&f);
                            if !nullable[m] {
                                break;
                            }
                        }
                    }
                }
            }
        }
        if !ch {
            return Analysis { nullable, first };
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Act {
    Shift(usize),
    /// non-terminal, production
    Reduce(usize, usize),
    Accept,
}

pub struct Table {
    /// state -> terminal (n_terms = end of input) -> possible actions (more than one: conflict)
    pub action: Vec<BTreeMap<usize, Vec<Act>>>,
    pub goto: Vec<HashMap<usize, usize>>,
    pub kernels: Vec<Vec<(usize, usize, Bits)>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Clean,
    ShiftReduce,
    /// reduce/reduce or accept/reduce
    ReduceReduce,
}

const TOO_BIG: usize = 20_000;

/// Canonical LR(1) table for one entry point, or None if it has more than `cap` states.
pub fn table(g: &Gram, an: &Analysis, entry: usize, cap: usize) -> Option<Table> {
    let eof = g.terms.len();
    // productions, flattened. index 0 is the augmented one
    let mut prods: Vec<(usize, usize, Vec<Sym>)> = vec![(usize::MAX, 0, vec![Sym::N(entry)])];
    let mut first_prod = vec![];
    for (i, n) in g.nts.iter().enumerate() {
        first_prod.push(prods.len());
        for (j, p) in n.prods.iter().enumerate() {
            prods.push((i, j, p.iter().map(|b| b.sym).collect()));
        }
    }

    let closure = |kernel: &[(usize, usize, Bits)]| -> BTreeMap<(usize, usize), Bits> {
        let mut items: BTreeMap<(usize, usize), Bits> = BTreeMap::new();
        let mut work: Vec<(usize, usize)> = vec![];
        for (p, d, la) in kernel {
            items.insert((*p, *d), la.clone());
            work.push((*p, *d));
        }
        while let Some((p, d)) = work.pop() {
            let rhs = &prods[p].2;
            if let Some(Sym::N(n)) = rhs.get(d) {
                let mut la = Bits::new(eof + 1);
                let mut all_null = true;
                for s in &rhs[d + 1..] {
                    match s {
                        Sym::T(t) => {
                            la.set(*t);
                            all_null = false;
                        }
                        Sym::N(m) => {
                            la.or(&an.first[*m]);
                            all_null = an.nullable[*m];
                        }
                    }
                    if !all_null {
                        break;
                    }
                }
                if all_null {
                    let own = items[&(p, d)].clone();
                    la.or(&own);
                }
                if la.0.iter().all(|w| *w == 0) {
                    // No lookahead at all: the item set has no such items
                    continue;
                }
                for k in 0..g.nts[*n].prods.len() {
                    let key = (first_prod[*n] + k, 0);
                    let e = items.entry(key).or_insert_with(|| Bits::new(eof + 1));
                    if e.or(&la) {
                        work.push(key);
                    }
                }
            }
        }
        items
    };

    let mut start_la = Bits::new(eof + 1);
    start_la.set(eof);
    let start = vec![(0usize, 0usize, start_la)];
    let mut index: HashMap<Vec<(usize, usize, Bits)>, usize> = HashMap::new();
    index.insert(start.clone(), 0);
    let mut kernels = vec![start];
    let mut action: Vec<BTreeMap<usize, Vec<Act>>> = vec![];
    let mut goto: Vec<HashMap<usize, usize>> = vec![];
    let mut i = 0;
    while i < kernels.len() {
        let items = closure(&kernels[i]);
        let mut act: BTreeMap<usize, Vec<Act>> = BTreeMap::new();
        let mut got: HashMap<usize, usize> = HashMap::new();
        let mut next: BTreeMap<Sym, Vec<(usize, usize, Bits)>> = BTreeMap::new();
        for ((p, d), la) in &items {
            let (lhs, alt, rhs) = &prods[*p];
            match rhs.get(*d) {
                Some(s) => next.entry(*s).or_default().push((*p, *d + 1, la.clone())),
                None => {
                    for t in la.iter() {
                        let a = if *p == 0 { Act::Accept } else { Act::Reduce(*lhs, *alt) };
                        act.entry(t).or_default().push(a);
                    }
                }
            }
        }
        for (s, kernel) in next {
            let to = match index.get(&kernel) {
                Some(to) => *to,
                None => {
                    let to = kernels.len();
                    if to >= cap.min(TOO_BIG) {
                        return None;
                    }
                    index.insert(kernel.clone(), to);
                    kernels.push(kernel);
                    to
                }
            };
            match s {
                Sym::T(t) => act.entry(t).or_default().push(Act::Shift(to)),
                Sym::N(n) => {
                    got.insert(n, to);
                }
            }
        }
        action.push(act);
        goto.push(got);
        i += 1;
    }
    Some(Table {
        action,
        goto,
        kernels,
    })
}

impl Table {
    pub fn class(&self) -> Class {
        let mut c = Class::Clean;
        for st in &self.action {
            for acts in st.values() {
                if acts.len() < 2 {
                    continue;
                }
                let reds = acts
                    .iter()
                    .filter(|a| !matches!(a, Act::Shift(_)))
                    .count();
                c = c.max(if reds > 1 { Class::ReduceReduce } else { Class::ShiftReduce });
            }
        }
        c
    }

    /// Would merging states with equal cores (LALR) create a reduce/reduce conflict?
    pub fn lalr_conflict(&self) -> bool {
        let mut by_core: HashMap<Vec<(usize, usize)>, usize> = HashMap::new();
        let mut merged: Vec<BTreeMap<usize, Vec<Act>>> = vec![];
        for (i, k) in self.kernels.iter().enumerate() {
            let core: Vec<(usize, usize)> = k.iter().map(|x| (x.0, x.1)).collect();
            let m = *by_core.entry(core).or_insert_with(|| {
                merged.push(BTreeMap::new());
                merged.len() - 1
            });
            for (t, acts) in &self.action[i] {
                for a in acts {
                    if matches!(a, Act::Shift(_)) {
                        continue;
                    }
                    let e = merged[m].entry(*t).or_default();
                    if !e.contains(a) {
                        e.push(*a);
                    }
                }
            }
        }
        merged.iter().any(|m| m.values().any(|a| a.len() > 1))
    }
}

/// Everything the harness can observe of one parse call.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// `next` called on the input
    Poll,
    /// `next` called again after it returned None or an error
    LatePoll,
    /// an action ran: non-terminal, production, ids of the bound values
    Act(usize, usize, Vec<u32>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Outcome {
    Ok(u32),
    Lex(u32),
    Err { found: String, expected: String },
    Panic(String),
    /// the process died while working on this input
    Crash(String),
}

/// Value accounting of one call.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mem {
    /// tracked values alive when `parse` had returned, the result still held
    pub held: i64,
    /// and after dropping the result
    pub after: i64,
    /// items taken from the iterator
    pub pos: usize,
    pub double_drops: u32,
    /// tracked values alive at each poll
    pub lives: Vec<i64>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obs {
    pub trace: Vec<Ev>,
    pub out: Outcome,
    /// None for the reference parser
    pub mem: Option<Mem>,
}

pub const ID0: u32 = 1_000_000;

impl Obs {
    pub fn acts(&self) -> Vec<&Ev> {
        self.trace.iter().filter(|e| matches!(e, Ev::Act(..))).collect()
    }
    pub fn accepted(&self) -> bool {
        matches!(self.out, Outcome::Ok(_))
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for e in &self.trace {
            match e {
                Ev::Poll => s.push_str("poll "),
                Ev::LatePoll => s.push_str("POLL-AFTER-END "),
                Ev::Act(n, p, a) => s.push_str(&format!(
                    "action(n{}.{})({}) ",
                    n,
                    p,
                    a.iter().map(|x| fmt_id(*x)).collect::<Vec<_>>().join(",")
                )),
            }
        }
        s.push_str(&match &self.out {
            Outcome::Ok(i) => format!("=> Ok({})", fmt_id(*i)),
            Outcome::Lex(e) => format!("=> LexerError({})", e),
            Outcome::Err { found, expected } => {
                format!("=> ParserError {{ found: {:?}, expected: {:?} }}", found, expected)
            }
            Outcome::Panic(m) => format!("=> panic: {}", m),
            Outcome::Crash(m) => format!("=> crash: {}", m),
        });
        if let Some(m) = &self.mem {
            if m.after != 0 || m.double_drops != 0 {
                s.push_str(&format!(" [{:?}]", m));
            }
        }
        s
    }
}

fn fmt_id(x: u32) -> String {
    if x >= ID0 {
        format!("#{}", x - ID0)
    } else {
        format!("tok{}", x)
    }
}

/// The declared names of the terminals in `set`, in declaration order.
pub fn expected_text(g: &Gram, set: impl Fn(usize) -> bool) -> String {
    (0..g.terms.len())
        .filter(|t| set(*t))
        .map(|t| g.terms[t].name.as_str())
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn found_text(g: &Gram, t: Option<usize>) -> String {
    match t {
        None => "end-of-input".to_string(),
        Some(t) => g.terms[t].name.clone(),
    }
}

/// Id a token symbol's value shows.
pub fn tok_id(g: &Gram, t: usize, pos: usize) -> u32 {
    if g.terms[t].shape.carries() {
        pos as u32 + 1
    } else {
        0
    }
}

pub fn nt_id(g: &Gram, n: usize, id: u32) -> u32 {
    if type_carries(g.nts[n].ty) {
        id
    } else {
        0
    }
}

/// Runs the table. Shift wins over reduce; with several reductions the first is taken (such
/// grammars must not compile, so that is never compared).
pub fn run(g: &Gram, tab: &Table, entry: usize, input: &[Item]) -> Obs {
    run_counting(g, tab, entry, input, &mut Counts::default())
}

#[derive(Default)]
pub struct Counts {
    /// at each poll, the number of counted values owned by the symbols on the stack and by the
    /// token that was read last
    pub lives: Vec<i64>,
    /// most symbols ever on the stack
    pub deepest: usize,
}

pub fn run_counting(g: &Gram, tab: &Table, entry: usize, input: &[Item], counts: &mut Counts) -> Obs {
    let mut owned: Vec<i64> = vec![];
    let mut sum = 0;
    counts.lives.push(0);
    let eof = g.terms.len();
    let mut trace = vec![Ev::Poll];
    let mut states = vec![0usize];
    let mut values: Vec<u32> = vec![];
    let mut pos = 0;
    let mut acts = 0u32;
    let mut steps = 0;
    let fuel = 200 + 200 * input.len() * (1 + g.nts.len());
    loop {
        let la = match input.get(pos) {
            None => eof,
            Some(Item::Err(e)) => {
                return Obs {
                    trace,
                    out: Outcome::Lex(*e),
                    mem: None,
                }
            }
            Some(Item::Tok(t)) => *t,
        };
        let st = *states.last().unwrap();
        let act = tab.action[st].get(&la).map(|a| {
            *a.iter().find(|a| matches!(a, Act::Shift(_))).unwrap_or(&a[0])
        });
        match act {
            None => {
                let found = found_text(g, if la == eof { None } else { Some(la) });
                let expected = expected_text(g, |t| tab.action[st].contains_key(&t));
                return Obs {
                    trace,
                    out: Outcome::Err { found, expected },
                    mem: None,
                };
            }
            Some(Act::Shift(to)) => {
                states.push(to);
                values.push(tok_id(g, la, pos));
                counts.lives.push(sum + g.terms[la].shape.payload() as i64);
                owned.push(g.terms[la].shape.captured() as i64);
                sum += owned.last().unwrap();
                counts.deepest = counts.deepest.max(owned.len());
                pos += 1;
                trace.push(Ev::Poll);
            }
            Some(Act::Reduce(n, p)) => {
                let rhs = &g.nts[n].prods[p];
                let base = values.len() - rhs.len();
                let args = rhs
                    .iter()
                    .zip(&values[base..])
                    .filter(|(b, _)| b.bind != Bind::No)
                    .map(|(_, v)| *v)
                    .collect();
                let value = match g.passes(n, p) {
                    Some(k) => values[base + k],
                    None => {
                        let (tn, tp) = g.tag(n, p);
                        trace.push(Ev::Act(tn, tp, args));
                        acts += 1;
                        nt_id(g, n, ID0 + acts - 1)
                    }
                };
                steps += 1;
                values.truncate(base);
                sum -= owned.drain(base..).sum::<i64>();
                owned.push(type_tracked(g.nts[n].ty) as i64);
                sum += owned.last().unwrap();
                counts.deepest = counts.deepest.max(owned.len());
                states.truncate(states.len() - rhs.len());
                values.push(value);
                let st = *states.last().unwrap();
                states.push(tab.goto[st][&n]);
                if steps > fuel {
                    return Obs {
                        trace,
                        out: Outcome::Panic("reference out of fuel".into()),
                        mem: None,
                    };
                }
            }
            Some(Act::Accept) => {
                let _ = entry;
                return Obs {
                    trace,
                    out: Outcome::Ok(values.pop().unwrap()),
                    mem: None,
                };
            }
        }
    }
}

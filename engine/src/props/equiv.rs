//! C07 (entry points) and C10 (renderings): one grammar, several programs, equal behaviour.

use crate::emit::{self, Style, BINDERS};
use crate::gcheck::*;
use crate::gen::*;
use crate::gram::*;
use crate::inputs;
use crate::lr::*;
use crate::obs;
use crate::pipe::*;
use crate::src::*;

// ------------------------------------------------------------------------------------------ C07

pub struct Entries {
    pub plan: inputs::Plan,
    pub cap: usize,
}

pub struct EPrep {
    /// for program 1 + k: its entry, and for each of its inputs the index in the case
    singles: Vec<(usize, Vec<usize>)>,
    /// the non-terminal whose parser must not exist, and is named by the last program
    probe: Option<String>,
    used_inside: bool,
}

fn publish(g: &mut Gram, n: usize) {
    g.nts[n].public = true;
    if g.nts[n].name.starts_with(|c: char| c.is_lowercase()) {
        let mut name = format!("Pub{}", n);
        while g.nts.iter().any(|m| m.name == name) {
            name.push('x');
        }
        g.nts[n].name = name;
    }
}

impl GProp for Entries {
    type Prep = EPrep;

    fn keep_entries(&self) -> usize {
        1
    }

    fn draw(&self, gen: &mut Gen, picker: &mut Picker) -> (GCase, Vec<String>) {
        loop {
            let (a, mut src) = picker.pick(gen, &|a| a.class == Class::Clean && a.g.nts.len() >= 2);
            let mut g = a.g;
            let k = src.range(1, 3);
            for _ in 0..k {
                let n = src.below(g.nts.len());
                publish(&mut g, n);
            }
            let Some(a) = analysed(g, a.family, self.cap) else { continue };
            if a.class != Class::Clean || a.g.entries().len() < 2 {
                continue;
            }
            let mut ins = vec![];
            for e in a.g.entries() {
                let i = inputs::inputs(&a, e, self.plan, &mut src);
                ins.extend(i.items.into_iter().map(|w| (e, w)));
            }
            let mut labels: Vec<String> = a.features.iter().map(|f| format!("{:?}", f)).collect();
            labels.push(format!("entries:{}", a.g.entries().len()));
            let probe = src.weighted(&[18, 3, 3]) as u32;
            return (
                GCase {
                    g: a.g,
                    aux: vec![probe],
                    inputs: ins,
                },
                labels,
            );
        }
    }

    fn prepare(&self, c: &GCase) -> Option<(EPrep, Vec<Prog>)> {
        let g = &c.g;
        let entries = g.entries();
        if g.terms.is_empty() || entries.is_empty() {
            return None;
        }
        let a = analysed(g.clone(), "", self.cap)?;
        if a.class != Class::Clean || c.inputs.iter().any(|i| !entries.contains(&i.0)) {
            return None;
        }
        let line = |i: usize| (c.inputs[i].0, items_text(&c.inputs[i].1));
        let w = 1 + a.states / 40;
        let mut progs = vec![Prog {
            src: emit::module(g, &Style::default()),
            inputs: (0..c.inputs.len()).map(line).collect(),
            weight: w,
        }];
        let mut singles = vec![];
        for e in &entries {
            let mut h = g.clone();
            for n in 0..h.nts.len() {
                h.nts[n].public = n == *e;
            }
            let idx: Vec<usize> = (0..c.inputs.len()).filter(|i| c.inputs[*i].0 == *e).collect();
            if idx.is_empty() && !c.inputs.is_empty() {
                continue;
            }
            progs.push(Prog {
                src: emit::module(&h, &Style::default()),
                inputs: idx.iter().map(|i| line(*i)).collect(),
                weight: w,
            });
            singles.push((*e, idx));
        }
        let mut probe = None;
        if c.aux.first() == Some(&1) {
            if let Some(n) = (0..g.nts.len()).find(|n| !g.nts[*n].public) {
                let name = g.nts[n].name.clone();
                // `TOK_` types of the runtime are not parsers; the names used cannot clash
                progs.push(Prog {
                    src: format!(
                        "{}\npub fn probe() {{ let _ = self::{}::parse(std::iter::empty::<Result<Tok, LexErr>>()); }}\n",
                        emit::module(g, &Style::default()),
                        name
                    ),
                    inputs: vec![],
                    weight: 1,
                });
                probe = Some(name);
            }
        }
        if c.aux.first() == Some(&2) {
            // a grammar without entry points has no parsers
            let mut h = g.clone();
            for n in &mut h.nts {
                n.public = false;
            }
            let name = h.nts[c.inputs.len() % 3 % h.nts.len()].name.clone();
            progs.push(Prog {
                src: format!(
                    "{}\npub fn probe() {{ let _ = self::{}::parse(std::iter::empty::<Result<Tok, LexErr>>()); }}\n",
                    emit::module(&h, &Style::default()),
                    name
                ),
                inputs: vec![],
                weight: 1,
            });
            probe = Some(name);
        }
        let mut used_inside = false;
        for n in &g.nts {
            for p in &n.prods {
                used_inside |= p.iter().any(|b| matches!(b.sym, Sym::N(m) if g.nts[m].public));
            }
        }
        Some((
            EPrep {
                singles,
                probe,
                used_inside,
            },
            progs,
        ))
    }

    fn shrink_inputs(&self, c: &GCase) -> Vec<(usize, Vec<Item>)> {
        all_short(c)
    }

    fn judge(&self, c: &GCase, p: &EPrep, rs: &[Res]) -> Judged {
        let mut j = Judged::default();
        let n = 1 + p.singles.len();
        for (k, r) in rs[..n].iter().enumerate() {
            match &r.comp {
                Comp::Ok => {}
                Comp::Unknown(_) => {
                    j.unknown += 1;
                    return j;
                }
                Comp::Rejected { msg, .. } => {
                    j.fail = Some((
                        format!(
                            "{} does not compile although the grammar is LR(1) from every entry point: {}",
                            if k == 0 {
                                "the grammar with all entry points".to_string()
                            } else {
                                format!("the grammar with {} as only entry point", c.g.nts[p.singles[k - 1].0].name)
                            },
                            super::lang::short(msg)
                        ),
                        None,
                    ));
                    return j;
                }
            }
        }
        if let (Some(name), Some(r)) = (&p.probe, rs.get(n)) {
            j.labels.push(if c.aux.first() == Some(&2) { "probe:no-pub" } else { "probe:private" });
            if r.comp == Comp::Ok {
                j.fail = Some((format!("{} is not pub, but a parser for it exists", name), None));
                return j;
            }
        }
        for (k, (e, idx)) in p.singles.iter().enumerate() {
            for (pos, i) in idx.iter().enumerate() {
                let (Some(a), Some(b)) = (
                    rs[0].outs.get(*i).and_then(obs::obs),
                    rs[1 + k].outs.get(pos).and_then(obs::obs),
                ) else {
                    j.unknown += 1;
                    continue;
                };
                if a != b {
                    j.fail = Some((
                        format!(
                            "{} behaves differently when other non-terminals are pub as well\n  input: {}\n  alone:  {}\n  with others: {}",
                            c.g.nts[*e].name,
                            items_text(&c.inputs[*i].1),
                            b.text(),
                            a.text()
                        ),
                        Some(*i),
                    ));
                    return j;
                }
                if p.singles.len() > 1 && (p.used_inside || !c.inputs[*i].1.is_empty()) {
                    j.nontrivial.push(*i);
                }
            }
        }
        if p.used_inside {
            j.labels.push("pub-used-inside-productions");
        }
        j
    }
}

impl crate::probe::Wide for Entries {
    fn simulated(&self) -> bool {
        false
    }
    fn family(&self, a: Analysed, src: &mut Src) -> Vec<Analysed> {
        let mut out = vec![];
        if a.class != Class::Clean || a.g.nts.len() < 2 {
            return out;
        }
        let mut g = a.g;
        for _ in 0..src.range(1, 4) {
            let n = src.below(g.nts.len());
            publish(&mut g, n);
        }
        let Some(b) = analysed(g, a.family, 2 * self.cap) else { return out };
        if b.class != Class::Clean || b.g.entries().len() < 2 {
            return out;
        }
        let entries = b.g.entries();
        out.push(b);
        for e in entries {
            let mut h = out[0].g.clone();
            for n in 0..h.nts.len() {
                h.nts[n].public = n == e;
            }
            out.extend(analysed(h, a.family, 2 * self.cap));
        }
        out
    }
    fn case_for(&self, a: &Analysed, words: Vec<(usize, Vec<usize>)>, src: &mut Src) -> GCase {
        let mut ins: Vec<(usize, Vec<Item>)> =
            words.into_iter().map(|(e, w)| (e, w.into_iter().map(Item::Tok).collect())).collect();
        for e in a.g.entries() {
            let i = inputs::inputs(a, e, self.plan, src);
            ins.extend(i.items.into_iter().map(|w| (e, w)));
        }
        let mut seen = std::collections::HashSet::new();
        ins.retain(|i| seen.insert(i.clone()));
        GCase {
            g: a.g.clone(),
            aux: vec![0],
            inputs: ins,
        }
    }
}

pub fn all_short(c: &GCase) -> Vec<(usize, Vec<Item>)> {
    let mut out = vec![];
    let mut src = Src::new(vec![1, 2, 3]);
    for e in c.g.entries() {
        let ear = crate::earley::Earley::new(&c.g, e);
        for w in inputs::exhaustive(&ear, c.g.terms.len(), 30, 4, &mut src) {
            out.push((e, w.into_iter().map(Item::Tok).collect()));
        }
    }
    out
}

// ------------------------------------------------------------------------------------------ C10

pub struct Renderings {
    pub plan: inputs::Plan,
    pub cap: usize,
    pub variants: usize,
}

const PRIV_NAMES: [&str; 34] = [
    "a", "b", "c", "list", "x", "f0", "value_stack", "token", "state", "S", "S1", "S11", "Entry", "Entry1",
    "ParseError", "LRAction", "SemanticActionResult", "ACTION", "GOTO", "Tok", "E", "R", "T", "Some", "None",
    "parse", "parse_generic", "NonTerminal0", "Token0", "Main1", "Main11", "self_", "W0", "r#loop",
];
const PUB_NAMES: [&str; 13] = [
    "S", "S1", "S11", "Entry", "Entry1", "Main", "Main1", "E", "R", "X1", "Ps", "T9", "r#type",
];

pub fn style(g: &Gram, src: &mut Src) -> Style {
    let mut st = Style::default();
    let on = src.below(8);
    if on == 0 {
        return st;
    }
    if src.chance(2, 3) {
        let mut o: Vec<usize> = (0..=g.nts.len()).collect();
        src.shuffle(&mut o);
        st.item_order = o;
    }
    if src.chance(2, 3) {
        for n in &g.nts {
            let mut o: Vec<usize> = (0..n.prods.len()).collect();
            src.shuffle(&mut o);
            st.prod_order.push(o);
        }
    }
    if src.chance(1, 2) {
        let mut o: Vec<usize> = (0..g.terms.len()).collect();
        src.shuffle(&mut o);
        st.term_order = o;
    }
    st.short = src.chance(1, 2);
    st.commas = src.below(3) as u8;
    if src.chance(2, 3) {
        st.binders = 1 + src.below(BINDERS.len());
    }
    st.all_mut = src.chance(1, 3);
    if src.chance(1, 2) {
        let mut pn = PRIV_NAMES.to_vec();
        let mut qn = PUB_NAMES.to_vec();
        src.shuffle(&mut pn);
        src.shuffle(&mut qn);
        let mut used: Vec<String> = vec![];
        for (i, n) in g.nts.iter().enumerate() {
            let pool = if n.public { &qn } else { &pn };
            let name = pool
                .iter()

                .find(|x| !used.contains(&x.to_string()))
                .map(|x| x.to_string())
                .unwrap_or(format!("Fresh{}", i));
            used.push(name.clone());
            st.nt_names.push(name);
        }
    }
    if src.chance(1, 2) {
        let mut tn = TERM_NAMES.to_vec();
        src.shuffle(&mut tn);
        for i in 0..g.terms.len() {
            st.term_names.push(tn.get(i).map(|s| s.to_string()).unwrap_or(format!("tok {}", i)));
        }
    }
    st.context = src.below(5) as u8;
    st.actions = src.below(2) as u8;
    if src.chance(1, 2) {
        st.spelling = 1 + src.below(1 << 20) as u32;
    }
    st
}

pub struct RPrep {
    styles: Vec<Style>,
}

impl GProp for Renderings {
    type Prep = RPrep;

    fn draw(&self, gen: &mut Gen, picker: &mut Picker) -> (GCase, Vec<String>) {
        let (mut a, mut src) = picker.pick(gen, &|a| a.class == Class::Clean);
        for (i, t) in a.g.terms.iter_mut().enumerate() {
            t.name = format!("t{}", i);
        }
        let mut ins = vec![];
        for e in a.g.entries() {
            let i = inputs::inputs(&a, e, self.plan, &mut src);
            ins.extend(i.items.into_iter().map(|w| (e, w)));
        }
        // one tape per variant
        let aux = (0..self.variants).map(|_| src.below(u32::MAX as usize) as u32).collect();
        let labels = a.features.iter().map(|f| format!("{:?}", f)).collect();
        (
            GCase {
                g: a.g,
                aux,
                inputs: ins,
            },
            labels,
        )
    }

    fn prepare(&self, c: &GCase) -> Option<(RPrep, Vec<Prog>)> {
        let mut g = c.g.clone();
        for (i, t) in g.terms.iter_mut().enumerate() {
            t.name = format!("t{}", i);
        }
        let g = &g;
        let entries = g.entries();
        if g.terms.is_empty() || entries.is_empty() {
            return None;
        }
        let a = analysed(g.clone(), "", self.cap)?;
        if a.class != Class::Clean || c.inputs.iter().any(|i| !entries.contains(&i.0)) {
            return None;
        }
        let inputs: Vec<(usize, String)> = c.inputs.iter().map(|(e, w)| (*e, items_text(w))).collect();
        let w = 1 + a.states / 40;
        let mut progs = vec![Prog {
            src: emit::module(g, &Style::default()),
            inputs: inputs.clone(),
            weight: w,
        }];
        let mut styles = vec![];
        for x in &c.aux {
            let st = if *x == 0 {
                Style::default()
            } else {
                style(g, &mut Src::new(expand(*x)))
            };
            progs.push(Prog {
                src: emit::module(g, &st),
                inputs: inputs.clone(),
                weight: w,
            });
            styles.push(st);
        }
        Some((RPrep { styles }, progs))
    }

    fn shrink_inputs(&self, c: &GCase) -> Vec<(usize, Vec<Item>)> {
        all_short(c)
    }

    fn judge(&self, c: &GCase, p: &RPrep, rs: &[Res]) -> Judged {
        let mut j = Judged::default();
        let base = &rs[0];
        if let Comp::Unknown(_) = base.comp {
            j.unknown += 1;
            return j;
        }
        for (k, st) in p.styles.iter().enumerate() {
            let r = &rs[1 + k];
            let how = || format!("\n  variant written as:\n{}", emit::grammar_text(&c.g, st));
            match (&base.comp, &r.comp) {
                (_, Comp::Unknown(_)) => {
                    j.unknown += 1;
                    continue;
                }
                (Comp::Ok, Comp::Rejected { msg, .. }) => {
                    j.fail = Some((
                        format!(
                            "an equivalent rendering ({:?}) of a grammar that compiles does not compile: {}{}",
                            context(st),
                            super::lang::short(msg),
                            how()
                        ),
                        None,
                    ));
                    return j;
                }
                (Comp::Rejected { msg, .. }, Comp::Ok) => {
                    j.fail = Some((
                        format!(
                            "a grammar does not compile ({}), but an equivalent rendering ({:?}) does{}",
                            super::lang::short(msg),
                            context(st),
                            how()
                        ),
                        None,
                    ));
                    return j;
                }
                // LR(1) grammars always compile: that is C06
                (Comp::Rejected { .. }, Comp::Rejected { .. }) => return j,
                _ => {}
            }
            for i in 0..c.inputs.len() {
                let (Some(a), Some(b)) = (base.outs.get(i).and_then(obs::obs), r.outs.get(i).and_then(obs::obs)) else {
                    j.unknown += 1;
                    continue;
                };
                let want = map_obs(&c.g, st, &a);
                if want != b {
                    j.fail = Some((
                        format!(
                            "two renderings of one grammar behave differently ({:?})\n  input: {}\n  plain:   {}\n  variant: {}{}",
                            context(st),
                            items_text(&c.inputs[i].1),
                            want.text(),
                            b.text(),
                            how()
                        ),
                        Some(i),
                    ));
                    return j;
                }
                if *st != Style::default() && !c.inputs[i].1.is_empty() {
                    j.nontrivial.push(i);
                }
            }
            j.labels.push(context(st));
            if !st.nt_names.is_empty() {
                j.labels.push("renamed non-terminals");
            }
            if !st.term_order.is_empty() {
                j.labels.push("reordered tokens");
            }
            if st.binders > 0 {
                j.labels.push("renamed binders");
            }
            if !st.item_order.is_empty() {
                j.labels.push("reordered items");
            }
        }
        j.nontrivial.dedup();
        j
    }
}

fn context(st: &Style) -> &'static str {
    match st.context {
        1 => "inside a function",
        2 => "through a macro",
        3 => "in a macro body",
        4 => "in a macro body with type fragments",
        _ => "at module level",
    }
}

/// What the variant must show where the plain rendering shows `o`. The plain rendering's tokens
/// are called t0, t1, ...
fn map_obs(g: &Gram, st: &Style, o: &Obs) -> Obs {
    let mut o = o.clone();
    if let Outcome::Err { found, expected } = &o.out {
        let name = |t: usize| st.term_names.get(t).unwrap_or(&g.terms[t].name).clone();
        let index = |s: &str| s.strip_prefix('t').and_then(|x| x.parse::<usize>().ok()).filter(|t| *t < g.terms.len());
        let f = index(found).map(name).unwrap_or(found.clone());
        let set: Vec<Option<usize>> = expected.split(", ").map(index).collect();
        let order: Vec<usize> = if st.term_order.is_empty() {
            (0..g.terms.len()).collect()
        } else {
            st.term_order.clone()
        };
        let e = if expected.is_empty() {
            String::new()
        } else {
            order
                .iter()
                .filter(|t| set.contains(&Some(**t)))
                .map(|t| name(*t))
                .collect::<Vec<_>>()
                .join(", ")
        };
        o.out = Outcome::Err { found: f, expected: e };
    }
    o
}

pub fn expand(x: u32) -> Vec<u32> {
    // one u32 as a short tape; the source continues it by a fixed function
    vec![x, x.rotate_left(7) ^ 0x5bd1_e995, x.wrapping_mul(2_654_435_761), x.rotate_right(9)]
}

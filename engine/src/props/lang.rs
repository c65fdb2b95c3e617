//! C01 C02 C03 C04 C05 C06 C13: single grammars against the reference oracles.

use crate::derive::*;
use crate::earley::*;
use crate::emit;
use crate::gcheck::*;
use crate::gen::*;
use crate::gram::*;
use crate::inputs;
use crate::lr::*;
use crate::obs;
use crate::pipe::*;
use crate::src::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Language,
    Values,
    SyntaxErrors,
    LexerErrors,
    Streaming,
    Conflicts,
    Total,
    Memory,
}

pub struct Lang {
    pub kind: Kind,
    pub plan: inputs::Plan,
    pub cap: usize,
}

pub struct Prep {
    a: Analysed,
    earley: HashMap<usize, Earley>,
    productive: bool,
}

impl Lang {
    fn domain(&self, a: &Analysed) -> bool {
        match self.kind {
            Kind::Language | Kind::Values | Kind::Memory => a.class == Class::Clean,
            Kind::SyntaxErrors | Kind::LexerErrors | Kind::Streaming => {
                a.class == Class::Clean && a.g.all_productive()
            }
            Kind::Conflicts => true,
            Kind::Total => a.class != Class::ReduceReduce,
        }
    }
}

impl GProp for Lang {
    type Prep = Prep;

    fn draw(&self, gen: &mut Gen, picker: &mut Picker) -> (GCase, Vec<String>) {
        // Conflicts: all classes, in fixed proportion; the class wanted next is part of the tape
        let want = if self.kind == Kind::Conflicts || self.kind == Kind::Total {
            let mut s = gen.src(2);
            let w: &[usize] = if self.kind == Kind::Conflicts { &[40, 25, 35] } else { &[55, 45, 0] };
            Some([Class::Clean, Class::ShiftReduce, Class::ReduceReduce][s.weighted(w)])
        } else {
            None
        };
        let (mut a, mut src) = picker.pick(gen, &|a| self.domain(a) && want.map_or(true, |w| a.class == w));
        let mut labels: Vec<String> = a.features.iter().map(|f| format!("{:?}", f)).collect();
        labels.push(format!("family:{}", a.family));
        labels.push(format!("class:{:?}", a.class));
        if self.kind == Kind::Memory {
            // nearly everything is counted, nearly nothing is Clone
            for n in &mut a.g.nts {
                if type_tracked(n.ty) == 0 && src.chance(6, 7) {
                    n.ty = *src.pick(&[0, 1, 4, 5, 6, 7, 9, 10, 13, 14, 15]);
                }
            }
            for t in &mut a.g.terms {
                if !matches!(t.shape, Shape::Two | Shape::Named | Shape::Heap | Shape::Ignored) && src.chance(5, 6) {
                    t.shape = *src.pick(&[Shape::Two, Shape::Named, Shape::Heap, Shape::Ignored]);
                }
            }
        }
        let mut ins = vec![];
        if a.class != Class::ReduceReduce {
            for e in a.g.entries() {
                let i = inputs::inputs(&a, e, self.plan, &mut src);
                if self.kind == Kind::Values {
                    // the reference parser's evaluation must be that of the tree the sentence was derived by
                    let tab = &a.tabs.iter().find(|t| t.0 == e).unwrap().1;
                    for (k, tree) in &i.trees {
                        let r = run(&a.g, tab, e, &i.items[*k]);
                        let (evs, id) = eval(&a.g, tree);
                        if r.acts() != evs.iter().collect::<Vec<_>>() || r.out != Outcome::Ok(id) {
                            panic!("engine contradiction: evaluation of {} on {:?}: {:?} but {}", a.g.bnf(), i.items[*k], evs, r.text());
                        }
                        labels.push("sentence compared with its derivation tree".into());
                    }
                }
                ins.extend(i.items.into_iter().map(|w| (e, w)));
            }
            if self.kind == Kind::Total {
                // garbage
                for e in a.g.entries() {
                    for _ in 0..20 {
                        let n = if a.g.terms.is_empty() { 0 } else { src.below(30) };
                        let w = (0..n).map(|_| Item::Tok(src.below(a.g.terms.len()))).collect();
                        ins.push((e, w));
                    }
                }
            }
        }
        (
            GCase {
                g: a.g,
                aux: vec![],
                inputs: ins,
            },
            labels,
        )
    }

    fn prepare(&self, c: &GCase) -> Option<(Prep, Vec<Prog>)> {
        let g = &c.g;
        if g.terms.is_empty() || g.entries().is_empty() {
            return None;
        }
        let a = analysed(g.clone(), "", self.cap)?;
        if !self.domain(&a) {
            return None;
        }
        let entries = g.entries();
        if c.inputs.iter().any(|i| !entries.contains(&i.0)) {
            return None;
        }
        let earley = entries.iter().map(|e| (*e, Earley::new(g, *e))).collect();
        let prog = Prog {
            src: emit::module(g, &Default::default()),
            inputs: c.inputs.iter().map(|(e, w)| (*e, items_text(w))).collect(),
            weight: 1 + a.states / 40,
        };
        Some((
            Prep {
                productive: g.all_productive(),
                a,
                earley,
            },
            vec![prog],
        ))
    }

    fn shrink_inputs(&self, c: &GCase) -> Vec<(usize, Vec<Item>)> {
        let mut out = vec![];
        let mut src = Src::new(vec![1, 2, 3]);
        if analysed(c.g.clone(), "", self.cap).is_none() {
            return out;
        }
        for e in c.g.entries() {
            let ear = Earley::new(&c.g, e);
            for w in inputs::exhaustive(&ear, c.g.terms.len(), 30, 4, &mut src) {
                let w: Vec<Item> = w.into_iter().map(Item::Tok).collect();
                if self.kind == Kind::LexerErrors {
                    let mut v = w.clone();
                    v.push(Item::Err(1));
                    out.push((e, v));
                }
                out.push((e, w));
            }
        }
        out
    }

    fn judge(&self, c: &GCase, p: &Prep, rs: &[Res]) -> Judged {
        let mut j = Judged::default();
        let r = &rs[0];
        let class = p.a.class;
        match &r.comp {
            Comp::Unknown(_) => {
                j.unknown += 1;
                return j;
            }
            Comp::Rejected { msg, .. } => {
                match class {
                    Class::Clean if self.kind == Kind::Total => {}
                    Class::Clean => {
                        j.fail = Some((
                            format!("this grammar is LR(1) but does not compile: {}", short(msg)),
                            None,
                        ))
                    }
                    Class::ShiftReduce => {
                        j.labels.push("shift/reduce:rejected");
                        j.nontrivial.push(0);
                    }
                    Class::ReduceReduce => {
                        j.labels.push("reduce/reduce:rejected");
                        j.nontrivial.push(0);
                    }
                }
                return j;
            }
            Comp::Ok => {}
        }
        if class == Class::ReduceReduce {
            j.fail = Some((
                "this grammar has two possible reductions (or a reduction and acceptance) in one state on one \
                 lookahead, but it compiles"
                    .into(),
                None,
            ));
            return j;
        }
        if class == Class::ShiftReduce {
            j.labels.push("shift/reduce:compiled");
            j.nontrivial.push(0);
        } else if c.inputs.is_empty() {
            j.nontrivial.push(0);
        }
        for (k, (entry, w)) in c.inputs.iter().enumerate() {
            let Some(o) = r.outs.get(k).and_then(obs::obs) else {
                j.unknown += 1;
                continue;
            };
            let tab = &p.a.tabs.iter().find(|t| t.0 == *entry).unwrap().1;
            match self.one(c, p, *entry, w, &o, tab, class) {
                Ok(nt) => {
                    if nt {
                        j.nontrivial.push(k);
                    }
                }
                Err(Bad::Broken(m)) => {
                    j.broken = Some(format!("{} [{}] {}", c.g.bnf(), items_text(w), m));
                    return j;
                }
                Err(Bad::Fail(m)) => {
                    j.fail = Some((m, Some(k)));
                    return j;
                }
            }
        }
        j
    }
}

impl crate::probe::Wide for Lang {
    fn family(&self, a: Analysed, _src: &mut Src) -> Vec<Analysed> {
        if self.domain(&a) {
            vec![a]
        } else {
            vec![]
        }
    }
    fn case_for(&self, a: &Analysed, words: Vec<(usize, Vec<usize>)>, src: &mut Src) -> GCase {
        let mut ins: Vec<(usize, Vec<Item>)> =
            words.into_iter().map(|(e, w)| (e, w.into_iter().map(Item::Tok).collect())).collect();
        if self.kind == Kind::LexerErrors || self.kind == Kind::Streaming {
            for k in 0..ins.len() {
                let (e, mut w) = ins[k].clone();
                let at = if src.chance(1, 2) { w.len() } else { src.below(w.len() + 1) };
                w.insert(at, Item::Err(1));
                ins.push((e, w));
            }
        }
        if a.class != Class::ReduceReduce {
            for e in a.g.entries() {
                let i = inputs::inputs(a, e, self.plan, src);
                ins.extend(i.items.into_iter().map(|w| (e, w)));
            }
        }
        let mut seen = std::collections::HashSet::new();
        ins.retain(|i| seen.insert(i.clone()));
        GCase {
            g: a.g.clone(),
            aux: vec![],
            inputs: ins,
        }
    }
}

enum Bad {
    Fail(String),
    Broken(String),
}

pub fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

fn words(g: &Gram, w: &[Item]) -> String {
    w.iter()
        .take(80)
        .map(|i| match i {
            Item::Tok(t) => format!("{:?}", g.terms[*t].name),
            Item::Err(e) => format!("Err({})", e),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

impl Lang {
    #[allow(clippy::too_many_arguments)]
    fn one(
        &self,
        c: &GCase,
        p: &Prep,
        entry: usize,
        w: &[Item],
        o: &Obs,
        tab: &Table,
        class: Class,
    ) -> Result<bool, Bad> {
        let g = &c.g;
        let v = verdict(&p.earley[&entry], w);
        let ctx = |m: String| {
            Bad::Fail(format!(
                "{}\n  parser: {}\n  input: [{}]\n  observed: {}",
                m,
                g.nts[entry].name,
                words(g, w),
                o.text()
            ))
        };
        // The reference parser and the Earley recogniser must agree; if not, the engine is wrong.
        let reference = run(g, tab, entry, w);
        if class == Class::Clean {
            let agree = match (&v, &reference.out) {
                (Verdict::Accept, Outcome::Ok(_)) => true,
                (Verdict::Reject { pos, next }, Outcome::Err { found, expected }) => {
                    !p.productive
                        || (*found
                            == found_text(
                                g,
                                w.get(*pos).map(|i| match i {
                                    Item::Tok(t) => *t,
                                    _ => unreachable!(),
                                }),
                            )
                            && *expected == expected_text(g, |t| next.has(t)))
                }
                (Verdict::Lex { err, .. }, Outcome::Lex(e)) => err == e,
                (Verdict::Reject { .. }, Outcome::Lex(_)) => !p.productive,
                // unproductive parts only: any error position is possible
                (Verdict::Lex { .. }, Outcome::Err { .. }) => false,
                _ => false,
            };
            if !agree {
                return Err(Bad::Broken(format!("Earley {:?} but LR {:?}", v, reference.out)));
            }
        }
        let died = matches!(o.out, Outcome::Panic(_) | Outcome::Crash(_));
        match self.kind {
            Kind::Language => {
                if matches!(v, Verdict::Lex { .. }) {
                    return Ok(false);
                }
                let should = v == Verdict::Accept;
                if should != o.accepted() {
                    return Err(ctx(if should {
                        "a sentence of the grammar is not accepted".into()
                    } else {
                        "an input outside the language is accepted".into()
                    }));
                }
                Ok(!w.is_empty())
            }
            Kind::Values => {
                if v != Verdict::Accept {
                    return Ok(false);
                }
                if died {
                    return Err(ctx("parsing a sentence of the grammar ends in a panic".into()));
                }
                if !o.accepted() {
                    // C01's business
                    return Ok(false);
                }
                let want = reference.acts();
                if o.acts() != want || o.out != reference.out {
                    return Err(ctx(format!(
                        "the actions or their arguments are not those of the input's parse tree\n  expected: {}",
                        reference.text()
                    )));
                }
                Ok(want.len() >= 2 && want.iter().any(|e| matches!(e, Ev::Act(_, _, a) if !a.is_empty())))
            }
            Kind::SyntaxErrors => {
                let Verdict::Reject { pos, next } = v else { return Ok(false) };
                let found = found_text(
                    g,
                    w.get(pos).map(|i| match i {
                        Item::Tok(t) => *t,
                        _ => unreachable!(),
                    }),
                );
                let expected = expected_text(g, |t| next.has(t));
                let want = Outcome::Err { found, expected };
                if o.out != want {
                    return Err(ctx(format!(
                        "wrong syntax error; expected {:?} (offending item at position {})",
                        want, pos
                    )));
                }
                Ok(pos > 0)
            }
            Kind::LexerErrors => {
                let has_err = w.iter().any(|i| matches!(i, Item::Err(_)));
                if !has_err {
                    return Ok(false);
                }
                match v {
                    Verdict::Lex { pos, err } => {
                        if o.out != Outcome::Lex(err) {
                            return Err(ctx(format!(
                                "the lexer error at position {} is not what parsing returns; expected LexerError({})",
                                pos, err
                            )));
                        }
                        Ok(pos > 0)
                    }
                    Verdict::Reject { .. } => {
                        if o.out != reference.out {
                            return Err(ctx(format!(
                                "a syntax error before the lexer error is not reported as such; expected {:?}",
                                reference.out
                            )));
                        }
                        Ok(true)
                    }
                    Verdict::Accept => unreachable!(),
                }
            }
            Kind::Streaming => {
                if died {
                    return Err(ctx("parsing does not return".into()));
                }
                if o.trace != reference.trace {
                    return Err(ctx(format!(
                        "polls and actions are not interleaved as they must be\n  expected: {}",
                        reference.text()
                    )));
                }
                Ok(reference.trace.len() >= 4)
            }
            Kind::Conflicts => {
                if class == Class::Clean {
                    return Ok(false);
                }
                if matches!(reference.out, Outcome::Panic(_)) {
                    return Ok(false);
                }
                if died {
                    return Ok(false); // C13
                }
                if o.accepted() && v != Verdict::Accept {
                    return Err(ctx("a parser with resolved conflicts accepts an input outside the language".into()));
                }
                if o.acts() != reference.acts() || o.accepted() != reference.accepted() {
                    return Err(ctx(format!(
                        "a shift/reduce conflict is not resolved as a shift\n  expected: {}",
                        reference.text()
                    )));
                }
                Ok(o.accepted())
            }
            Kind::Memory => {
                let Some(m) = &o.mem else { return Ok(false) };
                let polls = o.trace.iter().filter(|e| matches!(e, Ev::Poll | Ev::LatePoll)).count();
                let needed = reference.trace.iter().filter(|e| matches!(e, Ev::Poll)).count();
                if polls > needed {
                    return Err(ctx(format!(
                        "{} items are read from the iterator; the result is settled after {}, the others should be left in it",
                        polls, needed
                    )));
                }
                if died {
                    return Ok(false); // C13
                }
                let held = if o.accepted() { type_tracked(g.nts[entry].ty) as i64 } else { 0 };
                if m.double_drops != 0 {
                    return Err(ctx(format!("{} values are dropped twice", m.double_drops)));
                }
                if m.held > held {
                    return Err(ctx(format!(
                        "when parsing returns, {} counted values are alive; the result owns {}",
                        m.held, held
                    )));
                }
                if m.held < held {
                    return Err(ctx(format!(
                        "when parsing returns, {} counted values are alive, but the result must own {}",
                        m.held, held
                    )));
                }
                if m.after != 0 {
                    return Err(ctx(format!("{} values are never dropped", m.after)));
                }
                if m.pos != polls {
                    return Err(ctx(format!("{} items taken from the iterator with {} polls", m.pos, polls)));
                }
                let mut counts = Counts::default();
                run_counting(g, tab, entry, w, &mut counts);
                for (k, (l, most)) in m.lives.iter().zip(&counts.lives).enumerate() {
                    // one token more than necessary may be under way
                    if *l > most + 2 {
                        return Err(ctx(format!(
                            "when item {} is asked for, {} counted values are alive; the symbols not yet reduced and the last token own {}",
                            k, l, most
                        )));
                    }
                }
                let seen = w.iter().take(polls).filter(|i| matches!(i, Item::Tok(_))).count();
                Ok(seen >= 2)
            }
            Kind::Total => {
                if died {
                    return Err(ctx("parsing ends in a panic".into()));
                }
                Ok(class == Class::ShiftReduce || !p.productive)
            }
        }
    }
}

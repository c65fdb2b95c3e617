//! C17: what a parser may be called with and from where. Random iterators (chains of adaptors over
//! random sources), error types and calling contexts, in another crate than the grammar's, under
//! every edition; each call must end as the plain call on the same items does.

use crate::emit;
use crate::gcheck::hash_of;
use crate::gen::*;
use crate::gram::*;
use crate::inputs;
use crate::lr::{Class, Ev, Obs, Outcome};
use crate::obs;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;
use std::fmt::Write;

pub struct Uses;

/// type, value for the number `x` at place `k`, number in `e`, may be compared and shown
const ERRORS: [(&str, &str, &str, bool); 18] = [
    ("u32", "x", "e", true),
    ("String", "x.to_string()", "e.parse().unwrap()", true),
    ("&u32", "&local[k]", "*e", true),
    ("&str", "&text[k]", "e.parse().unwrap()", true),
    ("OnlyClone", "OnlyClone(x)", "e.0", false),
    ("Borrowing<'_>", "Borrowing(&local[k])", "*e.0", false),
    ("Gen<&String>", "Gen(&text[k])", "e.0.parse().unwrap()", false),
    ("std::rc::Rc<u32>", "std::rc::Rc::new(x)", "*e", true),
    ("std::rc::Rc<std::cell::RefCell<OnlyClone>>", "std::rc::Rc::new(std::cell::RefCell::new(OnlyClone(x)))", "e.borrow().0", false),
    ("std::cell::Cell<u32>", "std::cell::Cell::new(x)", "e.get()", true),
    ("Option<Result<u32, ()>>", "Some(Ok(x))", "e.unwrap().unwrap()", true),
    ("[u32; 40]", "[x; 40]", "e[39]", true),
    ("lib::ParseError<u32>", "lib::ParseError::LexerError(x)", "match e { lib::ParseError::LexerError(x) => x, _ => 0 }", true),
    ("lib::ParseError<OnlyClone>", "lib::ParseError::LexerError(OnlyClone(x))", "match e { lib::ParseError::LexerError(x) => x.0, _ => 0 }", false),
    ("(u32, std::marker::PhantomData<*const u8>)", "(x, std::marker::PhantomData)", "e.0", true),
    ("std::borrow::Cow<'_, str>", "std::borrow::Cow::Borrowed(&text[k][..])", "e.parse().unwrap()", true),
    ("Box<dyn Num + '_>", "Box::new(Borrowing(&local[k]))", "e.num()", false),
    ("f64", "x as f64", "e as u32", false),
];

/// expressions for an iterator over the items of `v`
const SOURCES: [&str; 12] = [
    "v.into_iter()",
    "v.drain(..)",
    "{ v.reverse(); v.into_iter().rev() }",
    "std::collections::VecDeque::from(v).into_iter()",
    "{ let (tx, rx) = std::sync::mpsc::channel(); for x in v { tx.send(x).ok(); } drop(tx); rx.into_iter() }",
    "{ v.reverse(); std::iter::from_fn(move || v.pop()) }",
    "{ v.reverse(); std::iter::from_fn(|| v.pop()) }",
    "{ let q = std::rc::Rc::new(std::cell::RefCell::new(v.into_iter())); std::iter::from_fn(move || q.borrow_mut().next()) }",
    "Unfused(v.into_iter(), false)",
    "v.into_iter().enumerate().collect::<std::collections::BTreeMap<_, _>>().into_values()",
    "items.iter().enumerate().map(make)",
    // endless when the parser need not reach the end
    "{ let bad = v.iter().any(|x| x.is_err()); v.into_iter().chain(std::iter::repeat_with(|| Ok(lib::mk(0, 9))).take(if bad { usize::MAX } else { 0 })) }",
];

/// adaptors of `i`; `IT` is the item type
const ADAPTORS: [&str; 22] = [
    "i.map(|x| x)",
    "i.fuse()",
    "i.peekable()",
    "i.chain(std::iter::empty())",
    "std::iter::empty().chain(i)",
    "i.skip(0)",
    "i.take(items.len() + 3)",
    "i.take_while(|_| true)",
    "i.inspect(|_| count.set(count.get() + 1))",
    "i.filter(|_| true)",
    "i.filter_map(Some)",
    "i.flat_map(Some)",
    "i.scan((), |_, x| Some(x))",
    "i.zip(0..).map(|(x, _)| x)",
    "Loose(i, 0, Some(usize::MAX))",
    "Loose(i, 0, Some(0))",
    "Loose(i, usize::MAX, None)",
    "Loose(i, 1, Some(1))",
    "Box::new(i) as Box<dyn Iterator<Item = IT> + '_>",
    "Box::new(i)",
    "&mut i",
    "&mut i as &mut dyn Iterator<Item = IT>",
];

const CALLS: [&str; 9] = [
    "lib::X::parse(i)",
    "general(i, lib::X::parse)",
    "(|i| lib::X::parse(i))(i)",
    "(move || { let v = lib::X::parse(i)?; Ok(v) })()",
    "lib::X::parse(i).map_err(|e| e.clone())",
    "block_on(async { lib::X::parse(i) })",
    "re::X::parse(i)",
    "{ use lib::X as Y; <Y>::parse(i) }",
    "through_X(i)",
];

const HELP: &str = "
#[derive(Clone)] pub struct OnlyClone(u32);
#[derive(Clone)] pub struct Borrowing<'b>(&'b u32);
#[derive(Clone)] pub struct Gen<T>(T);
pub trait Num { fn num(&self) -> u32; fn boxed<'b>(&self) -> Box<dyn Num + 'b> where Self: 'b; }
impl<'x> Num for Borrowing<'x> { fn num(&self) -> u32 { *self.0 } fn boxed<'b>(&self) -> Box<dyn Num + 'b> where Self: 'b { Box::new(Borrowing(self.0)) } }
impl<'b> Clone for Box<dyn Num + 'b> { fn clone(&self) -> Self { (**self).boxed() } }
/// yields items after its end
pub struct Unfused<I>(I, bool);
impl<E, I: Iterator<Item = Result<lib::Tok, E>>> Iterator for Unfused<I> {
    type Item = Result<lib::Tok, E>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.1 { return Some(Ok(lib::mk(0, 999_999))); }
        let x = self.0.next();
        self.1 = !matches!(x, Some(Ok(_)));
        x
    }
}
pub struct Loose<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<Self::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, self.2) }
}
fn general<I, T>(i: I, f: impl FnOnce(I) -> T) -> T { f(i) }
fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
}
fn compare<E: Clone + PartialEq + std::fmt::Debug>(e: &lib::ParseError<E>) {
    let c = e.clone();
    assert!(*e == c && c == *e, \"an error differs from its clone\");
    assert!(format!(\"{:?}\", e) == format!(\"{:?}\", c), \"an error and its clone are shown differently\");
    assert!(*e != lib::ParseError::ParserError { found: \"\\0\", expected: \"\\0\" }, \"different errors are equal\");
    if let lib::ParseError::ParserError { found, expected } = e {
        assert!(*e == lib::ParseError::ParserError { found, expected }, \"equal errors are not equal\");
        assert!(*e != lib::ParseError::ParserError { found: \"\\0\", expected }, \"different errors are equal\");
        assert!(*e != lib::ParseError::ParserError { found, expected: \"\\0\" }, \"different errors are equal\");
    }
    if let lib::ParseError::LexerError(x) = e { assert!(*e == lib::ParseError::LexerError(x.clone()), \"equal errors are not equal\"); }
}
fn eq<E: Eq>(_: &lib::ParseError<E>) {}
";

#[derive(Clone, Debug)]
struct Use {
    entry: usize,
    err: usize,
    source: usize,
    adaptors: Vec<usize>,
    call: usize,
    calls: Vec<Vec<Item>>,
}

fn user(g: &Gram, uses: &[Use]) -> String {
    let mut s = String::from("use rt::*;\nuse __LIB__ as lib;\n");
    s.push_str(HELP);
    s.push_str("mod re {\n");
    for e in g.entries() {
        writeln!(s, "pub use __LIB__::{};", g.nts[e].name).unwrap();
    }
    s.push_str("pub use __LIB__::ParseError as Bad; }\n");
    for e in g.entries() {
        writeln!(
            s,
            "fn through_{x}<I, E>(i: I) -> Result<{}, re::Bad<E>> where I: Iterator<Item = Result<lib::Tok, E>>, E: Clone {{ lib::{x}::parse(i) }}",
            type_text(g.nts[e].ty),
            x = g.nts[e].name
        )
        .unwrap();
    }
    for (n, u) in uses.iter().enumerate() {
        let (et, make, back, cmp) = ERRORS[u.err];
        let it = format!("Result<lib::Tok, {}>", et);
        let name = &g.nts[u.entry].name;
        writeln!(
            s,
            "fn u{n}(_: usize, items: &[Item]) -> Out {{\n\
             let local: Vec<u32> = items.iter().map(|i| match i {{ Item::Err(x) => *x, _ => 0 }}).collect();\n\
             let text: Vec<String> = local.iter().map(|x| x.to_string()).collect();\n\
             let count = std::cell::Cell::new(0);\n\
             let make = |(k, i): (usize, &Item)| -> {it} {{ match i {{ Item::Tok(t) => Ok(lib::mk(*t, k as u32 + 1)), Item::Err(x) => {{ let x = *x; Err({make}) }} }} }};\n\
             let mut v: Vec<{it}> = items.iter().enumerate().map(&make).collect();\n\
             let mut i = {};",
            SOURCES[u.source]
        )
        .unwrap();
        for a in &u.adaptors {
            writeln!(s, "let mut i = {};", ADAPTORS[*a].replace("IT", &it)).unwrap();
        }
        let call = match CALLS[u.call] {
            c if c.contains('?') => format!(
                "{{ let r: Result<{}, lib::ParseError<{}>> = {}; r }}",
                type_text(g.nts[u.entry].ty),
                et,
                c.replace("X::", &format!("{}::", name))
            ),
            c => c.replace("X", name),
        };
        writeln!(s, "let r = {};", call).unwrap();
        if cmp {
            s.push_str("if let Err(e) = &r { compare(e); }\n");
        }
        if ["u32", "String", "&str"].contains(&et) {
            s.push_str("if let Err(e) = &r { eq(e); }\n");
        }
        writeln!(
            s,
            "match r {{ Ok(v) => Out::Ok(Val::id(&v)), Err(lib::ParseError::LexerError(e)) => Out::Lex({back}), \
             Err(lib::ParseError::ParserError {{ found, expected }}) => Out::Err(found, expected) }} }}"
        )
        .unwrap();
    }
    s.push_str("fn plain(e: usize, items: &[Item]) -> Out {\nlet mut s = Stream::new(items, lib::mk); match e {\n");
    for e in g.entries() {
        writeln!(
            s,
            "{e} => match lib::{}::parse(&mut s) {{ Ok(v) => Out::Ok(Val::id(&v)), Err(lib::ParseError::LexerError(e)) => Out::Lex(e.0), \
             Err(lib::ParseError::ParserError {{ found, expected }}) => Out::Err(found, expected) }},",
            g.nts[e].name
        )
        .unwrap();
    }
    s.push_str("_ => unreachable!() } }\npub fn run(e: usize, arg: &str) -> String { match e {\n");
    for n in 0..uses.len() {
        writeln!(s, "{} => entry(0, arg, u{}),", 1000 + n, n).unwrap();
    }
    s.push_str("_ => entry(e, arg, plain) } }\n");
    s
}

fn lib(g: &Gram, real: bool) -> String {
    let mut s = String::from("use rt::*;\n");
    s.push_str(&emit::tok_enum(g));
    s.push_str(&emit::tok_mk(g));
    if real {
        write!(s, "use parsegen::parser;\nparser! {{\n{}}}\n", emit::grammar_text(g, &Default::default())).unwrap();
    } else {
        s.push_str(
            "#[derive(Debug, Clone, PartialEq, Eq)]\npub enum ParseError<E> { LexerError(E), ParserError { found: &'static str, expected: &'static str } }\n",
        );
        for e in g.entries() {
            writeln!(
                s,
                "pub struct {x};\nimpl {x} {{ pub fn parse<E: Clone>(input: impl Iterator<Item = Result<Tok, E>>) -> Result<{}, ParseError<E>> {{ unimplemented!() }} }}",
                type_text(g.nts[e].ty),
                x = g.nts[e].name
            )
            .unwrap();
        }
    }
    s
}

impl TProp for Uses {
    fn tape_len(&self) -> usize {
        420
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let salt: Vec<u32> = (0..120).map(|_| s.below(1 << 31) as u32 * 2).collect();
        let raw = candidate(s);
        let g = decorate(&raw, s);
        let a = analysed(g, raw.family, 60)?;
        if a.class != Class::Clean {
            return None;
        }
        let mut t = Src::zeros(salt);
        let g = a.g.clone();
        let plan = inputs::Plan {
            prefixes: 8,
            sentences: 8,
            mutants: 4,
            errors: true,
            max: 40,
        };
        let edition = ["2021", "2018", "2024"][t.weighted(&[3, 4, 4])];
        let mut pools = vec![];
        for e in g.entries() {
            let mut w = inputs::inputs(&a, e, plan, s).items;
            w.sort_by_key(|w| usize::MAX - w.len());
            pools.push((e, w));
        }
        let mut uses: Vec<Use> = vec![];
        for _ in 0..t.range(3, 8) {
            let (e, pool) = t.pick(&pools).clone();
            if pool.is_empty() {
                continue;
            }
            let mut u = Use {
                entry: e,
                err: t.below(ERRORS.len()),
                source: t.below(SOURCES.len()),
                adaptors: (0..t.weighted(&[2, 3, 3, 2])).map(|_| t.below(ADAPTORS.len())).collect(),
                call: t.below(CALLS.len()),
                calls: vec![],
            };
            for k in 0..6 {
                // with and without lexer errors
                let c = pool[t.below(pool.len())].clone();
                let lex = c.iter().any(|i| matches!(i, Item::Err(_)));
                if k >= 3 && !lex {
                    if let Some(d) = pool.iter().filter(|w| w.iter().any(|i| matches!(i, Item::Err(_)))).nth(t.below(6)) {
                        u.calls.push(d.clone());
                        continue;
                    }
                }
                u.calls.push(c);
            }
            uses.push(u);
        }
        if uses.is_empty() {
            return None;
        }
        let mut lines = vec![];
        for (n, u) in uses.iter().enumerate() {
            for w in &u.calls {
                lines.push((u.entry, items_text(w)));
                lines.push((1000 + n, items_text(w)));
            }
        }
        let user = user(&g, &uses);
        let src = |real: bool| format!("//@lib {}\n{}//@user\n{}", if real { edition } else { "2021" }, lib(&g, real), user);
        let mut readable = format!("{}\nedition {}\n", g.bnf(), edition);
        for u in &uses {
            writeln!(
                readable,
                "{}  with i = {}{}  over Result<Tok, {}>",
                CALLS[u.call].replace("X", &g.nts[u.entry].name),
                SOURCES[u.source],
                u.adaptors.iter().map(|a| format!(" then {}", ADAPTORS[*a])).collect::<String>(),
                ERRORS[u.err].0
            )
            .unwrap();
        }
        let mut labels = vec![format!("edition:{}", edition)];
        for u in &uses {
            labels.push(format!("error type:{}", ERRORS[u.err].0));
            labels.push(format!("adaptors:{}", u.adaptors.len()));
        }
        let weight = 3 + a.states / 30;
        let names: Vec<String> = readable.lines().skip(readable.lines().count() - uses.len()).map(|x| x.to_string()).collect();
        let in_crate = Prog {
            src: emit::module(&g, &Default::default()),
            inputs: vec![],
            weight: 1,
        };
        Some(TCase {
            progs: vec![
                Prog {
                    src: src(true),
                    inputs: lines,
                    weight,
                },
                Prog {
                    src: src(false),
                    inputs: vec![],
                    weight: 1,
                },
                in_crate,
            ],
            labels,
            readable,
            judge: Box::new(move |rs| judge(&uses, &names, rs)),
        })
    }
}

fn acts(o: &Obs) -> Vec<&Ev> {
    o.acts()
}

fn judge(uses: &[Use], names: &[String], rs: &[Res]) -> TJudged {
    let mut j = TJudged::default();
    match (&rs[0].comp, &rs[1].comp, &rs[2].comp) {
        (_, Comp::Rejected { msg, .. }, _) => {
            j.broken = Some(format!("the uses do not compile against the declared interface: {}", msg));
            return j;
        }
        // an expansion that fails anyway is not this property's business
        (Comp::Rejected { .. }, _, Comp::Rejected { .. }) => return j,
        (Comp::Rejected { msg, .. }, Comp::Ok, Comp::Ok) => {
            j.fail = Some(format!(
                "the parser cannot be used from another crate, from that edition or with one of those iterators and error types: {}",
                super::lang::short(msg)
            ));
            return j;
        }
        (Comp::Ok, Comp::Ok, Comp::Ok) => {}
        _ => return j,
    }
    let mut k = 0;
    for (n, u) in uses.iter().enumerate() {
        for w in &u.calls {
            let (Some(x), Some(y)) = (rs[0].outs.get(k), rs[0].outs.get(k + 1)) else { return j };
            k += 2;
            let (Some(x), Some(y)) = (obs::obs(x), obs::obs(y)) else { continue };
            if matches!(x.out, Outcome::Crash(_)) && x.out == y.out {
                continue;
            }
            if x.out != y.out || acts(&x) != acts(&y) {
                j.fail = Some(format!(
                    "{}\n  items: [{}]\n  plain call: {}\n  this call:  {}",
                    names[n],
                    items_text(w),
                    x.text(),
                    y.text()
                ));
                return j;
            }
            if !w.is_empty() && (!u.adaptors.is_empty() || u.err > 0) {
                j.nontrivial.push(hash_of(&(n, w)));
            }
        }
    }
    j
}

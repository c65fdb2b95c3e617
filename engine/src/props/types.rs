//! C09: value types and lifetimes. Random token fields and non-terminal types; the oracle is that
//! the program type checks exactly when the same computation written as plain functions does, and
//! that both give the same values (including addresses of borrowed data).

use crate::gcheck::hash_of;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;
use std::fmt::Write;

pub struct Types;

/// type (with `{L}` for a lifetime, `{M}` for another) and an expression for a value
const ATOMS: [(&str, &str); 46] = [
    ("u8", "{k}"),
    ("&{L} str", "&{v}.s[{k}..{k} + 2]"),
    ("String", "format!(\"s{k}\")"),
    ("()", "()"),
    ("&{L} [u8]", "&{v}.s.as_bytes()[{k}..]"),
    ("std::borrow::Cow<{L}, str>", "std::borrow::Cow::Borrowed(&{v}.s[{k}..])"),
    ("Option<&{L} u32>", "Some(&{v}.n[{k}])"),
    ("Vec<&{L} str>", "vec![&{v}.s[{k}..], &{v}.s[..{k}]]"),
    ("&{L} Big", "&{v}.big"),
    ("Wrap<{L}>", "Wrap(&{v}.s[..{k}])"),
    ("G<&{L} str>", "G { v: &{v}.s[..{k}] }"),
    ("(&{L} str, u8)", "(&{v}.s[{k}..], {k})"),
    ("std::cell::Cell<&{L} str>", "std::cell::Cell::new(&{v}.s[{k}..])"),
    ("&{L} std::cell::Cell<u8>", "&{v}.c"),
    ("&{L} dyn Sho", "&{v}.big"),
    ("Box<dyn Sho + {L}>", "Box::new(Wrap(&{v}.s[{k}..]))"),
    ("[&{L} str; 2]", "[&{v}.s[{k}..], &{v}.s[..{k}]]"),
    ("Al<{L}>", "(&{v}.s[{k}..], &{v}.n[{k}])"),
    ("<&{L} str as Assoc>::Out", "Some(&{v}.s[{k}..])"),
    ("std::marker::PhantomData<&{L} u8>", "std::marker::PhantomData"),
    ("&{L} (u8, String)", "&{v}.t"),
    ("std::collections::BTreeMap<u8, &{L} str>", "std::iter::once(({k}, &{v}.s[{k}..])).collect()"),
    ("Result<&{L} str, E>", "Ok(&{v}.s[{k}..])"),
    ("&{L} &{M} str", "&*Box::leak(Box::new(&{w}.s[{k}..]))"),
    ("Two<{L}, {M}>", "Two(&{v}.s[{k}..], &{w}.s[..{k}])"),
    ("(&{L} str, &{M} str)", "(&{v}.s[{k}..], &{w}.s[..{k}])"),
    ("E", "E({k})"),
    ("R", "R { r: {k} }"),
    ("T", "T::Two({k}, '{k}')"),
    ("Vec<E>", "vec![E({k}), E(9)]"),
    ("Result<E, R>", "Err(R { r: {k} })"),
    ("Box<[u8]>", "vec![{k}u8, 3].into_boxed_slice()"),
    ("std::rc::Rc<str>", "\"r{k}\".into()"),
    ("fn(u8) -> u8", "(|x| x + {k}) as fn(u8) -> u8"),
    ("for<'x> fn(&'x str) -> usize", "(|x: &str| x.len() + {k}) as for<'x> fn(&'x str) -> usize"),
    ("Arr<u8, 3>", "Arr([{k}; 3])"),
    ("[u8; 2 + 1]", "[{k}; 3]"),
    ("(u8)", "{k}"),
    ("&'static str", "\"static{k}\""),
    ("((u8, char), [E; 1])", "(({k}, 'c'), [E({k})])"),
    ("mytype!(u8)", "({k}, {k})"),
    ("m::Inner", "m::Inner({k})"),
    ("A", "A({k})"),
    ("f64", "{k}.5"),
    ("&{L} mut u32", "Box::leak(Box::new({k}))"),
    ("&{L} mut [&{L} str]", "Box::leak(vec![&{v}.s[{k}..]].into_boxed_slice())"),
];

/// Types that differ in one place only
const NEAR: [&[(&str, &str)]; 10] = [
    &[("E", "E(2)"), ("m::E", "m::E(300)"), ("n::E", "n::E('e')"), ("m::n::E", "m::n::E(\"e\")")],
    &[("m::Inner", "m::Inner(4)"), ("n::Inner", "n::Inner('i')")],
    &[("[u8; 2]", "[1, 2]"), ("[u8; 3]", "[1, 2, 3]"), ("[u16; 2]", "[1, 200]"), ("[u8; 1 + 3]", "[4; 4]")],
    &[("G<u8>", "G { v: 1 }"), ("G<u16>", "G { v: 500 }"), ("G<G<u8>>", "G { v: G { v: 2 } }"), ("G<E>", "G { v: E(4) }"), ("G<n::E>", "G { v: n::E('g') }")],
    &[("Arr<u8, 2>", "Arr([7; 2])"), ("Arr<u8, 3>", "Arr([7; 3])"), ("Arr<u8, { 1 + 3 }>", "Arr([7; 4])"), ("Arr<u16, 2>", "Arr([700; 2])")],
    &[("(u8, u16)", "(1, 600)"), ("(u16, u8)", "(600, 1)"), ("((u8, u16),)", "((1, 600),)"), ("(u8, u16, ())", "(1, 600, ())")],
    &[("<u8 as Assoc>::Out", "Some(9)"), ("<u16 as Assoc>::Out", "Some(900)"), ("<u8 as Assoc2>::Out", "9")],
    &[("Box<u8>", "Box::new(1)"), ("std::rc::Rc<u8>", "std::rc::Rc::new(1)"), ("Option<u8>", "Some(1)"), ("Option<Option<u8>>", "None")],
    &[("fn(u8) -> u8", "(|x| x + 1) as fn(u8) -> u8"), ("fn(u8) -> u16", "(|x| x as u16 + 300) as fn(u8) -> u16"), ("fn(u16) -> u8", "(|x| x as u8) as fn(u16) -> u8")],
    &[("&'static str", "\"st\""), ("&'static [u8]", "b\"st\""), ("&'static u8", "&7"), ("&'static &'static str", "&\"st\"")],
];

const PRELUDE: &str = "
#[derive(Debug)] pub struct Buf { s: String, n: [u32; 12], big: Big, c: std::cell::Cell<u8>, t: (u8, String) }
pub fn buf(x: &str) -> Buf { Buf { s: x.repeat(8), n: [4; 12], big: Big(7), c: std::cell::Cell::new(5), t: (1, x.into()) } }
#[derive(Debug)] pub struct Big(u64);
pub struct Bare([u8; 3]);
#[derive(Debug)] pub struct Wrap<'w>(&'w str);
#[derive(Debug)] pub struct Two<'x, 'y>(&'x str, &'y str);
#[derive(Debug)] pub struct G<T> { v: T }
#[derive(Debug, Clone)] pub struct E(u8);
#[derive(Debug)] pub struct R { r: u8 }
#[derive(Debug)] pub enum T { One, Two(u8, char) }
#[derive(Debug)] pub struct A(u8);
#[derive(Debug)] pub struct Arr<T, const N: usize>([T; N]);
pub type Al<'x> = (&'x str, &'x u32);
pub trait Assoc { type Out; }
impl<T> Assoc for T { type Out = Option<T>; }
pub trait Sho: std::fmt::Debug { fn sho(&self) -> String; }
impl Sho for Big { fn sho(&self) -> String { format!(\"{:?}\", self) } }
impl<'w> Sho for Wrap<'w> { fn sho(&self) -> String { self.show() } }
impl<T: Show + std::fmt::Debug> Sho for Vec<T> { fn sho(&self) -> String { self.show() } }
pub mod m { #[derive(Debug, Clone)] pub struct Inner(pub u8); #[derive(Debug, Clone)] pub struct E(pub u16); pub mod n { #[derive(Debug, Clone)] pub struct E(pub &'static str); } }
pub mod n { #[derive(Debug, Clone)] pub struct Inner(pub char); #[derive(Debug, Clone)] pub struct E(pub char); }
pub trait Assoc2 { type Out; }
impl Assoc2 for u8 { type Out = u16; }
impl Show for m::E { fn show(&self) -> String { format!(\"m{:?}\", self) } }
impl Show for n::E { fn show(&self) -> String { format!(\"n{:?}\", self) } }
impl Show for m::n::E { fn show(&self) -> String { format!(\"mn{:?}\", self) } }
impl Show for n::Inner { fn show(&self) -> String { format!(\"n{:?}\", self) } }
macro_rules! mytype { ($t:ty) => { ($t, $t) } }
impl Show for Big { fn show(&self) -> String { format!(\"{:p}\", self) } }
impl<'w> Show for Wrap<'w> { fn show(&self) -> String { format!(\"Wrap{}\", self.0.show()) } }
impl<'x, 'y> Show for Two<'x, 'y> { fn show(&self) -> String { format!(\"Two{}{}\", self.0.show(), self.1.show()) } }
impl<T: Show> Show for G<T> { fn show(&self) -> String { format!(\"G{}\", self.v.show()) } }
impl Show for E { fn show(&self) -> String { format!(\"{:?}\", self) } }
impl Show for R { fn show(&self) -> String { format!(\"{:?}\", self) } }
impl Show for T { fn show(&self) -> String { format!(\"{:?}\", self) } }
impl Show for A { fn show(&self) -> String { format!(\"{:?}\", self) } }
impl Show for m::Inner { fn show(&self) -> String { format!(\"{:?}\", self) } }
impl<T: Show, const N: usize> Show for Arr<T, N> { fn show(&self) -> String { self.0.show() } }
impl<'s> Show for dyn Sho + 's { fn show(&self) -> String { self.sho() } }
";

#[derive(Clone)]
struct Val {
    ty: String,
    /// composition depth
    depth: usize,
}

struct Token {
    /// type, expression, captured
    fields: Vec<(String, String, bool)>,
    named: bool,
}

struct Nt {
    name: String,
    public: bool,
    ty: Val,
    /// token or (as 1000 + i) non-terminal, bound, mut
    rhs: Vec<(usize, bool, bool)>,
    action: String,
}

fn uses(ty: &str, l: &str) -> bool {
    // lifetimes here are never prefixes of each other followed by a letter
    ty.match_indices(l)
        .any(|(i, _)| !ty[i + l.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'))
}

impl TProp for Types {
    fn tape_len(&self) -> usize {
        500
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let n_l = s.weighted(&[3, 6, 5]);
        let names: &[[&str; 2]] = &[["'a", "'b"], ["'input", "'i"], ["'e", "'r"], ["'token", "'state"]];
        let ls: Vec<&str> = s.pick(names)[..n_l].to_vec();
        let lt = |with: &str| {
            if ls.is_empty() {
                String::new()
            } else {
                format!("<{}{}>", ls.join(", "), with)
            }
        };
        let tok_name = *s.pick(&["Tok", "Token", "I", "Lexeme", "r#Type"]);
        // buffers: one per lifetime, `a` and `b`
        let buf = |l: usize| ["a", "b"][l];
        let near = NEAR[s.below(NEAR.len())];
        let mut toks: Vec<Token> = vec![];
        for _ in 0..s.range(1, 5) {
            let nf = s.weighted(&[2, 7, 5, 3]);
            let mut fields = vec![];
            for _ in 0..nf {
                let mut k = s.below(ATOMS.len());
                if n_l > 0 && s.chance(1, 3) {
                    k = 1;
                }
                let (t, e) = if s.chance(1, 4) { *s.pick(near) } else { ATOMS[k] };
                if t.contains("{L}") && n_l == 0 {
                    fields.push(("u8".to_string(), "1".to_string(), true));
                    continue;
                }
                let l = if n_l > 0 { s.below(n_l) } else { 0 };
                // a bound between the lifetimes cannot be declared in a grammar
                let m = if n_l > 0 && !t.starts_with("&{L} &{M}") { s.below(n_l) } else { l };
                let k = s.below(8).to_string();
                let lname = ls.get(l).copied().unwrap_or("");
                let mname = ls.get(m).copied().unwrap_or("");
                let t = t.replace("{L}", lname).replace("{M}", mname);
                let e = e.replace("{v}", buf(l)).replace("{w}", buf(m)).replace("{k}", &k);
                fields.push((t, e, !s.chance(1, 5)));
            }
            toks.push(Token {
                fields,
                named: s.chance(1, 4),
            });
        }
        let tok_ty = |t: &Token| {
            let c: Vec<&str> = t.fields.iter().filter(|f| f.2).map(|f| f.0.as_str()).collect();
            match &c[..] {
                [one] => one.to_string(),
                many => format!("({})", many.join(", ")),
            }
        };
        // Non-terminals, bottom up: number i uses only smaller numbers
        let mut nts: Vec<Nt> = vec![];
        let private_names = ["E", "R", "Wrap", "Big", "expr", "T", "state", "G"];
        let n_nt = s.range(1, 7);
        for i in 0..n_nt {
            let len = s.weighted(&[1, 6, 6, 3]);
            let mut rhs = vec![];
            let mut bound: Vec<(String, Val)> = vec![];
            for p in 0..len {
                let (id, v) = if i > 0 && s.chance(1, 2) {
                    let j = s.below(i);
                    (1000 + j, nts[j].ty.clone())
                } else {
                    let t = s.below(toks.len());
                    (
                        t,
                        Val {
                            ty: tok_ty(&toks[t]),
                            depth: 0,
                        },
                    )
                };
                let b = !s.chance(1, 5);
                let m = b && s.chance(1, 6);
                if b {
                    bound.push((format!("x{}", p), v));
                }
                rhs.push((id, b, m));
            }
            let deepest = bound.iter().map(|b| b.1.depth).max().unwrap_or(0);
            let first = bound.first().cloned();
            let consts: [(&str, &str); 8] = [
                ("()", "()"),
                ("u8", "7"),
                ("E", "E(1)"),
                ("&'static str", "\"k\""),
                ("Option<R>", "None"),
                ("Vec<T>", "vec![T::One]"),
                ("fn(u8) -> u8", "|x| x * 2"),
                ("std::marker::PhantomData<A>", "std::marker::PhantomData"),
            ];
            let (ty, action) = match first {
                Some((x, v)) if deepest < 4 => {
                    let t = v.ty.clone();
                    match s.below(21) {
                        18 | 19 => {
                            let (t, e) = *s.pick(near);
                            (t.to_string(), e.to_string())
                        }
                        0 => (t, x),
                        1 => (format!("Vec<{}>", t), format!("vec![{}]", x)),
                        2 => (format!("Option<{}>", t), format!("Some({})", x)),
                        3 => (format!("Box<{}>", t), format!("Box::new({})", x)),
                        4 => (format!("G<{}>", t), format!("G {{ v: {} }}", x)),
                        5 => (format!("Result<{}, E>", t), format!("Ok({})", x)),
                        6 => (format!("std::rc::Rc<{}>", t), format!("std::rc::Rc::new({})", x)),
                        7 => (format!("Arr<{}, 1>", t), format!("Arr([{}])", x)),
                        8 => (format!("Arr<{}, {{ 2 - 1 }}>", t), format!("Arr([{}])", x)),
                        9 => (format!("[{}; 1]", t), format!("[{}]", x)),
                        10 => (format!("<{} as Assoc>::Out", t), format!("Some({})", x)),
                        11 if n_l == 1 => (
                            format!("Box<dyn Sho + {}>", ls[0]),
                            format!("{{ let y: Box<dyn Sho + {}> = Box::new(vec![{}]); y }}", ls[0], x),
                        ),
                        12 => (format!("({},)", t), format!("({},)", x)),
                        13 => (
                            format!("std::collections::BTreeMap<u8, {}>", t),
                            format!("std::iter::once((1, {})).collect()", x),
                        ),
                        14 => (format!("({})", t), x),
                        15 => {
                            let (t, e) = *s.pick(&consts);
                            (t.to_string(), e.to_string())
                        }
                        _ => {
                            let ts: Vec<&str> = bound.iter().map(|b| b.1.ty.as_str()).collect();
                            let xs: Vec<&str> = bound.iter().map(|b| b.0.as_str()).collect();
                            (format!("({},)", ts.join(", ")), format!("({},)", xs.join(", ")))
                        }
                    }
                }
                _ => {
                    let (t, e) = if s.chance(1, 2) { *s.pick(near) } else { *s.pick(&consts) };
                    (t.to_string(), e.to_string())
                }
            };
            let action = if s.chance(1, 3) { format!("{{ {} }}", action) } else { action };
            let public = i + 1 == n_nt || s.chance(1, 2);
            let name = if public { format!("P{}", i) } else {
                match private_names.get(i) {
                    Some(n) if s.chance(1, 4) => n.to_string(),
                    _ => format!("N{}", i),
                }
            };
            nts.push(Nt {
                name,
                public,
                ty: Val { ty, depth: deepest + 1 },
                rhs,
                action,
            });
        }
        // sizes
        fn yield_of(nts: &[Nt], i: usize, out: &mut Vec<usize>) {
            for (id, _, _) in &nts[i].rhs {
                if *id >= 1000 {
                    yield_of(nts, id - 1000, out)
                } else {
                    out.push(*id)
                }
            }
        }
        let mut words = vec![];
        for i in 0..nts.len() {
            let mut w = vec![];
            yield_of(&nts, i, &mut w);
            if w.len() > 60 {
                return None;
            }
            words.push(w);
        }

        // ---- text
        let sig = |more: &str| {
            let ps: Vec<String> = ls.iter().enumerate().map(|(k, l)| format!("{}: &{} Buf", buf(k), l)).collect();
            format!("{}({})", lt(more), ps.join(", "))
        };
        let args: String = (0..n_l).map(|k| buf(k)).collect::<Vec<_>>().join(", ");
        // the token type itself, and what is not captured, need not implement anything
        let bare = s.chance(1, 2);
        if bare {
            for t in toks.iter_mut() {
                if s.chance(1, 2) {
                    let at = s.below(t.fields.len() + 1);
                    t.fields.insert(at, ("Bare".into(), "Bare([0; 3])".into(), false));
                }
            }
        }
        let mut decl = format!(
            "{}{}enum {}{} {{\n",
            if bare { "" } else { "#[derive(Debug)] " },
            if s.chance(1, 5) { "" } else { "pub " },
            tok_name,
            lt("")
        );
        for (i, t) in toks.iter().enumerate() {
            let fs: Vec<String> = t
                .fields
                .iter()
                .enumerate()
                .map(|(k, f)| if t.named { format!("g{}: {}", k, f.0) } else { f.0.clone() })
                .collect();
            match (fs.is_empty(), t.named) {
                (true, false) => writeln!(decl, "    V{},", i).unwrap(),
                (_, true) => writeln!(decl, "    V{} {{ {} }},", i, fs.join(", ")).unwrap(),
                _ => writeln!(decl, "    V{}({}),", i, fs.join(", ")).unwrap(),
            }
        }
        // a use of every lifetime
        for l in &ls {
            if !toks.iter().any(|t| t.fields.iter().any(|f| uses(&f.0, l))) {
                writeln!(decl, "    Unused{}(&{} ()),", l.trim_start_matches('\''), l).unwrap();
            }
        }
        decl.push_str("}\n");
        let mut helpers = String::new();
        for (i, t) in toks.iter().enumerate() {
            let es: Vec<String> = t
                .fields
                .iter()
                .enumerate()
                .map(|(k, f)| if t.named { format!("g{}: {}", k, f.1) } else { f.1.clone() })
                .collect();
            let e = match (es.is_empty(), t.named) {
                (true, false) => format!("{}::V{}", tok_name, i),
                (_, true) => format!("{}::V{} {{ {} }}", tok_name, i, es.join(", ")),
                _ => format!("{}::V{}({})", tok_name, i, es.join(", ")),
            };
            writeln!(helpers, "fn mk{}{} -> {}{} {{ {} }}", i, sig(""), tok_name, lt(""), e).unwrap();
            let cs: Vec<&str> = t.fields.iter().filter(|f| f.2).map(|f| f.1.as_str()).collect();
            let v = match &cs[..] {
                [one] => one.to_string(),
                many => format!("({})", many.join(", ")),
            };
            writeln!(helpers, "fn cap{}{} -> {} {{ {} }}", i, sig(""), tok_ty(t), v).unwrap();
        }
        for (i, n) in nts.iter().enumerate() {
            let mut body = String::new();
            for (p, (id, b, m)) in n.rhs.iter().enumerate() {
                if *b {
                    let f = if *id >= 1000 { format!("want{}", id - 1000) } else { format!("cap{}", id) };
                    write!(body, "let {}x{} = {}({}); ", if *m { "mut " } else { "" }, p, f, args).unwrap();
                }
            }
            writeln!(helpers, "fn want{}{} -> {} {{ {}{} }}", i, sig(""), n.ty.ty, body, n.action).unwrap();
        }
        let comma = if s.chance(1, 6) { "," } else { "" };
        let mut g = format!("enum {}{} {{\n", tok_name, lt(comma));
        for (i, t) in toks.iter().enumerate() {
            let ps: Vec<String> = t
                .fields
                .iter()
                .enumerate()
                .filter(|(_, f)| !t.named || f.2)
                .map(|(k, f)| {
                    let p = if f.2 { format!("<{}>", f.0) } else { "_".to_string() };
                    if t.named { format!("g{}: {}", k, p) } else { p }
                })
                .collect();
            match (t.fields.is_empty(), t.named) {
                (true, false) => writeln!(g, "    \"t{}\" => {}::V{},", i, tok_name, i).unwrap(),
                (_, true) => {
                    let mut ps = ps;
                    ps.push("..".into());
                    writeln!(g, "    \"t{}\" => {}::V{} {{ {} }},", i, tok_name, i, ps.join(", ")).unwrap()
                }
                _ => writeln!(g, "    \"t{}\" => {}::V{}({}),", i, tok_name, i, ps.join(", ")).unwrap(),
            }
        }
        let mut exhaustive = true;
        for l in &ls {
            if !toks.iter().any(|t| t.fields.iter().any(|f| uses(&f.0, l))) {
                exhaustive = false;
            }
        }
        if !exhaustive {
            g.push_str("    \"other\" => _,\n");
        }
        g.push_str("}\n");
        let mut order: Vec<usize> = (0..nts.len()).collect();
        s.shuffle(&mut order);
        for i in order {
            let n = &nts[i];
            write!(g, "{}{}: {} = ", if n.public { "pub " } else { "" }, n.name, n.ty.ty).unwrap();
            let mut p = String::new();
            for (k, (id, b, m)) in n.rhs.iter().enumerate() {
                let sym = if *id >= 1000 { nts[id - 1000].name.clone() } else { format!("\"t{}\"", id) };
                if *b {
                    write!(p, "<{}x{}: {}> ", if *m { "mut " } else { "" }, k, sym).unwrap();
                } else {
                    write!(p, "{} ", sym).unwrap();
                }
            }
            writeln!(g, "{{ {}=> {} }};", p, n.action).unwrap();
        }
        // calls
        let errs: [(&str, &str); 6] = [
            ("u8", "3"),
            ("()", "()"),
            ("String", "\"bad\".to_string()"),
            ("E", "E(4)"),
            ("&str", "\"bad\""),
            ("Opaque", "Opaque"),
        ];
        let mut run = String::from("#[derive(Clone)] struct Opaque;\n");
        run.push_str("fn go(e: usize) -> (String, String) { match e {\n");
        let mut inputs = vec![];
        let mut labels = vec![format!("{} lifetimes", n_l)];
        for (i, n) in nts.iter().enumerate() {
            if !n.public {
                continue;
            }
            let (et, ee) = *s.pick(&errs);
            let toks: String = words[i].iter().map(|t| format!("mk{}({}), ", t, args)).collect();
            // the second buffer may be gone before the value is looked at
            let short = n_l == 2 && !uses(&n.ty.ty, ls[1]) && s.chance(2, 3);
            if short {
                labels.push("value outlives the second lifetime".into());
            }
            let mut body = String::new();
            if n_l >= 1 {
                body.push_str("let a = buf(\"abcdef\"); ");
            }
            if n_l >= 2 && !short {
                body.push_str("let b = buf(\"uvwxyz\"); ");
            }
            writeln!(body, "let (r, w): ({}, {});\n{{", n.ty.ty.replace(ls.first().copied().unwrap_or("\0"), "'_").replace(ls.get(1).copied().unwrap_or("\0"), "'_"), n.ty.ty.replace(ls.first().copied().unwrap_or("\0"), "'_").replace(ls.get(1).copied().unwrap_or("\0"), "'_")).unwrap();
            if short {
                body.push_str("let b = buf(\"uvwxyz\"); ");
            }
            if n_l >= 1 {
                body.push_str("let a = &a; ");
            }
            if n_l >= 2 {
                body.push_str("let b = &b; ");
            }
            writeln!(
                body,
                "let mut toks: Vec<{tok_name}> = vec![{toks}];\n\
                 let res: Result<_, ParseError<{et}>> = {}::parse(toks.drain(..).map(Ok::<_, {et}>));\n\
                 match res {{ Ok(x) => r = x, Err(ParseError::LexerError(_)) => return (\"LexerError\".into(), String::new()),\n\
                 Err(ParseError::ParserError {{ found, expected }}) => return (format!(\"{{}} {{}}\", found, expected), String::new()) }}\n\
                 w = want{i}({args});",
                n.name
            )
            .unwrap();
            writeln!(
                body,
                "let none: Vec<Result<{tok_name}, {et}>> = vec![Err({ee})];\n\
                 match {}::parse(none) {{ Err(ParseError::LexerError(x)) => {{ let _: {et} = x; }} _ => return (\"no lexer error\".into(), String::new()) }}",
                n.name
            )
            .unwrap();
            // `parse` takes an iterator
            let body = body.replace("::parse(none)", "::parse(none.into_iter())");
            writeln!(run, "{} => {{ {} }}\n(r.show(), w.show()) }}", i, body).unwrap();
            inputs.push((i, String::new()));
            if ls.iter().any(|l| uses(&n.ty.ty, l)) {
                labels.push("entry borrows".into());
            }
        }
        run.push_str("_ => unreachable!() } }\n");
        run.push_str(
            "pub fn run(e: usize, _: &str) -> String { match std::panic::catch_unwind(|| go(e)) { \
             Ok((a, b)) => format!(\"{:?}\\u{1f}{:?}\", a, b), Err(_) => \"panic\\u{1f}\".into() } }\n",
        );
        let captured: Vec<bool> = ls
            .iter()
            .map(|l| toks.iter().any(|t| t.fields.iter().any(|f| f.2 && uses(&f.0, l))))
            .collect();
        if captured.iter().any(|c| !c) {
            labels.push("declared lifetime not captured".into());
        }
        let full = format!(
            "use rt::Show;\n{}{}{}use parsegen::parser;\nparser! {{\n{}}}\n{}",
            PRELUDE, decl, helpers, g, run
        );
        let alone = format!(
            "use rt::Show;\n{}{}{}pub fn run(_: usize, _: &str) -> String {{ String::new() }}\n",
            PRELUDE, decl, helpers
        );
        let readable = format!("{}{}{}", decl, g, run);
        let ins = inputs.clone();
        let rich: Vec<bool> = nts.iter().map(|n| n.ty.ty.len() > 8).collect();
        let shown: Vec<String> = nts.iter().map(|n| format!("{}: {}", n.name, n.ty.ty)).collect();
        let judge = move |rs: &[Res]| {
            let mut j = TJudged::default();
            match (&rs[0].comp, &rs[1].comp) {
                (Comp::Unknown(_), _) | (_, Comp::Unknown(_)) => return j,
                (Comp::Rejected { .. }, Comp::Rejected { msg, .. }) => {
                    j.labels.push(format!("reference does not compile: {}", super::lang::short(msg)));
                    return j;
                }
                (Comp::Rejected { msg, .. }, Comp::Ok) => {
                    j.fail = Some(format!(
                        "the actions are well typed as plain functions, but the grammar or a use of its parser does not compile: {}",
                        super::lang::short(msg)
                    ));
                    return j;
                }
                (Comp::Ok, Comp::Rejected { msg, .. }) => {
                    j.broken = Some(format!("the reference alone does not compile: {}", msg));
                    return j;
                }
                _ => {}
            }
            for (k, (e, _)) in ins.iter().enumerate() {
                match rs[0].outs.get(k) {
                    Some(RawOut::Line(l)) => {
                        let (a, b) = l.split_once('\u{1f}').unwrap_or((l, "?"));
                        if a != b {
                            j.fail = Some(format!("{}\n  parser:         {}\n  plain functions: {}", shown[*e], a, b));
                            return j;
                        }
                        if rich[*e] {
                            j.nontrivial.push(hash_of(e));
                        }
                    }
                    Some(RawOut::Crash(c)) => {
                        j.fail = Some(format!("{}: the parser dies: {}", shown[*e], c));
                        return j;
                    }
                    _ => {}
                }
            }
            j
        };
        Some(TCase {
            progs: vec![
                Prog {
                    src: full,
                    inputs,
                    weight: 2,
                },
                Prog {
                    src: alone,
                    inputs: vec![],
                    weight: 1,
                },
            ],
            labels,
            readable,
            judge: Box::new(judge),
        })
    }
}

//! Renders grammars as Rust test programs.

use crate::gram::*;
use std::fmt::Write;

/// Ways of writing one grammar that must not matter (property C10); the default is plain.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Style {
    /// order in which items appear: 0 = token declaration, 1 + i = non-terminal i
    pub item_order: Vec<usize>,
    /// order of productions inside each non-terminal
    pub prod_order: Vec<Vec<usize>>,
    /// order of token declarations
    pub term_order: Vec<usize>,
    /// write single productions without braces
    pub short: bool,
    /// drop optional commas / add trailing ones
    pub commas: u8,
    /// binder names are taken from a list starting here; 0 = x0, x1, ...
    pub binders: usize,
    /// mark all binders `mut`
    pub all_mut: bool,
    /// rename non-terminals
    pub nt_names: Vec<String>,
    /// rename tokens
    pub term_names: Vec<String>,
    /// 0 = module level, 1 = inside a function, 2 = as arguments of a macro_rules macro,
    /// 3 = in the body of a macro_rules macro, 4 = the same with value types as `ty` fragments
    pub context: u8,
    /// action layout: 0 = expression, 1 = block
    pub actions: u8,
    /// not 0: string literals are written in different ways
    pub spelling: u32,
}

pub const BINDERS: [&str; 28] = [
    "r#match", "token_", "terminal", "_x1", "value_stack", "x", "state", "token", "f", "f0", "input", "action_idx", "stack", "value", "t",
    "r", "e", "token_value", "parse_generic", "terminal_idx", "state_stack", "next_state", "_a",
    "action", "n", "result", "extract_value", "init_state",
];

pub fn lit(s: &str) -> String {
    format!("{:?}", s)
}

/// Other ways of writing the same string literal.
pub fn spell(name: &str, how: usize) -> String {
    match how {
        1 if !name.contains('"') && !name.contains('\n') => format!("r#\"{}\"#", name),
        2 => format!("\"{}\"", name.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect::<String>()),
        3 => match name.chars().next() {
            Some(c) if c.is_ascii_alphanumeric() => format!("\"\\x{:02x}{}", c as u32, &lit(name)[1 + c.len_utf8()..]),
            _ => lit(name),
        },
        _ => lit(name),
    }
}

pub fn tok_enum(g: &Gram) -> String {
    let mut s = String::from("#[derive(Debug)] pub enum Tok {");
    for (i, t) in g.terms.iter().enumerate() {
        write!(
            s,
            " T{}{},",
            i,
            match t.shape {
                Shape::Unit => "",
                Shape::One => "(u32)",
                Shape::Two => "(u32, W0)",
                Shape::Named => " { a: u8, pos: u32, c: W1 }",
                Shape::Heap => "(Vec<W0>)",
                Shape::Ignored => "(u32, W1)",
            }
        )
        .unwrap();
    }
    s.push_str(" }\n");
    s
}

pub fn tok_mk(g: &Gram) -> String {
    let mut s = String::from("pub fn mk(t: u16, p: u32) -> Tok { match t {\n");
    for (i, t) in g.terms.iter().enumerate() {
        writeln!(
            s,
            "{} => Tok::T{}{},",
            i,
            i,
            match t.shape {
                Shape::Unit => "",
                Shape::One => "(p)",
                Shape::Two => "(p, Val::mk(p))",
                Shape::Named => " { a: 7, pos: p, c: Val::mk(p) }",
                Shape::Heap => "(Val::mk(p))",
                Shape::Ignored => "(p, Val::mk(p))",
            }
        )
        .unwrap();
    }
    s.push_str("_ => unreachable!() } }\n");
    s
}

fn tok_pattern(i: usize, sh: Shape) -> String {
    match sh {
        Shape::Unit => format!("Tok::T{}", i),
        Shape::One => format!("Tok::T{}(<u32>)", i),
        Shape::Two => format!("Tok::T{}(<u32>, <W0>)", i),
        Shape::Named => format!("Tok::T{} {{ c: <W1>, pos: <u32>, .. }}", i),
        Shape::Heap => format!("Tok::T{}(<Vec<W0>>)", i),
        Shape::Ignored => format!("Tok::T{}(_, ..)", i),
    }
}

pub fn binder_name(st: &Style, k: usize) -> String {
    if st.binders == 0 {
        format!("x{}", k)
    } else {
        let name = BINDERS[(st.binders + k - 1) % BINDERS.len()];
        if k < BINDERS.len() {
            name.to_string()
        } else {
            format!("{}{}", name.trim_start_matches("r#"), k)
        }
    }
}

/// The text between `parser! {` and `}`.
pub fn grammar_text(g: &Gram, st: &Style) -> String {
    let spelled = std::cell::Cell::new(st.spelling);
    let tname = |t: usize| {
        let name = st.term_names.get(t).unwrap_or(&g.terms[t].name);
        if st.spelling == 0 {
            return lit(name);
        }
        let k = spelled.get().wrapping_mul(0x9E37_79B1).rotate_left(11).wrapping_add(t as u32 % 7);
        spelled.set(k);
        spell(name, (k >> 9) as usize % 4)
    };
    let nname = |n: usize| st.nt_names.get(n).cloned().unwrap_or(g.nts[n].name.clone());
    let order: Vec<usize> = if st.item_order.is_empty() {
        (0..=g.nts.len()).collect()
    } else {
        st.item_order.clone()
    };
    let mut s = String::new();
    for it in order {
        if it == 0 {
            s.push_str("enum Tok {\n");
            let ts: Vec<usize> = if st.term_order.is_empty() {
                (0..g.terms.len()).collect()
            } else {
                st.term_order.clone()
            };
            let mut parts = vec![];
            for t in ts {
                parts.push(format!("  {} => {}", tname(t), tok_pattern(t, g.terms[t].shape)));
            }
            s.push_str(&parts.join(",\n"));
            if st.commas != 1 && !parts.is_empty() {
                s.push(',');
            }
            s.push_str("\n}\n");
            continue;
        }
        let n = it - 1;
        let nt = &g.nts[n];
        let head = format!(
            "{}{}: {} =",
            if nt.public { "pub " } else { "" },
            nname(n),
            if st.context == 4 { format!("$ty{}", n) } else { type_text(nt.ty) }
        );
        let po: Vec<usize> = match st.prod_order.get(n) {
            Some(o) => o.clone(),
            None => (0..nt.prods.len()).collect(),
        };
        let mut ps = vec![];
        for p in &po {
            let mut line = String::new();
            let mut ids = vec![];
            let mut muts = String::new();
            for b in &nt.prods[*p] {
                let sym = match b.sym {
                    Sym::T(t) => tname(t),
                    Sym::N(m) => nname(m),
                };
                if b.bind == Bind::No {
                    write!(line, "{} ", sym).unwrap();
                } else {
                    let x = binder_name(st, ids.len());
                    let m = b.bind == Bind::Mut || st.all_mut;
                    write!(line, "<{}{}: {}> ", if m { "mut " } else { "" }, x, sym).unwrap();
                    if m {
                        write!(muts, "let _ = &mut {}; ", x).unwrap();
                    }
                    ids.push(x);
                }
            }
            let args = ids.iter().map(|x| format!("Val::id(&{})", x)).collect::<Vec<_>>();
            let (tn, tp) = g.tag(n, *p);
            let call = match g.passes(n, *p) {
                Some(_) => ids[0].clone(),
                None => format!("Val::mk(act({}, {}, &[{}]))", tn, tp, args.join(", ")),
            };
            if st.actions == 0 && muts.is_empty() {
                write!(line, "=> {}", call).unwrap();
            } else {
                write!(line, "=> {{ {}{} }}", muts, call).unwrap();
            }
            ps.push(line);
        }
        if st.short && ps.len() == 1 {
            writeln!(s, "{} {},", head, ps[0]).unwrap();
        } else {
            // commas between productions are optional, unless what follows would continue the
            // expression
            let mut body = String::new();
            for (k, p) in ps.iter().enumerate() {
                body.push_str(p);
                if let Some(next) = ps.get(k + 1) {
                    if st.commas != 2 || next.starts_with('<') {
                        body.push(',');
                    }
                    body.push_str("\n    ");
                }
            }
            writeln!(
                s,
                "{} {{\n    {}{}\n}};",
                head,
                body,
                if st.commas == 1 || ps.is_empty() { "" } else { "," }
            )
            .unwrap();
        }
    }
    s
}

/// Expression of type `rt::Out` for `call`, a Result of a parse call.
pub fn to_out(call: &str) -> String {
    format!(
        "match {} {{ Ok(v) => Out::Ok(Val::id(&v)), Err(ParseError::LexerError(e)) => Out::Lex(e.0), \
         Err(ParseError::ParserError {{ found, expected }}) => Out::Err(found, expected) }}",
        call
    )
}

/// A module that runs entry `e` (a non-terminal index) as the runtime's `entry` says:
/// `run(e, arg) -> String`.
pub fn module(g: &Gram, st: &Style) -> String {
    let mut s = String::from("use rt::*;\nuse parsegen::parser;\n");
    s.push_str(&tok_enum(g));
    s.push_str(&tok_mk(g));
    let text = grammar_text(g, st);
    let nname = |n: usize| st.nt_names.get(n).cloned().unwrap_or(g.nts[n].name.clone());
    let mut disp = String::from("let mut s = Stream::new(items, mk); match e {\n");
    for e in g.entries() {
        writeln!(
            disp,
            "{} => {{ let r = {}::parse(&mut s); returned(s.pos); {} }}",
            e,
            nname(e),
            to_out("r")
        )
        .unwrap();
    }
    disp.push_str("_ => unreachable!() }");
    let call = |inside: &str| {
        format!(
            "fn call(e: usize, items: &[Item]) -> Out {{\n{}{}\n}}\n\
             pub fn run(e: usize, arg: &str) -> String {{ entry(e, arg, call) }}\n",
            inside, disp
        )
    };
    let parser = format!("parser! {{\n{}}}\n", text);
    match st.context {
        1 => s.push_str(&call(&parser)),
        2 => {
            // the grammar's types and tokens pass through a macro_rules macro
            write!(
                s,
                "macro_rules! wrap {{ ($($t:tt)*) => {{ parser! {{ $($t)* }} }} }}\nwrap! {{\n{}}}\n",
                text
            )
            .unwrap();
            s.push_str(&call(""));
        }
        3 | 4 => {
            let (mut params, mut args) = (vec![], vec![]);
            if st.context == 4 {
                for (n, nt) in g.nts.iter().enumerate() {
                    params.push(format!("$ty{}:ty", n));
                    args.push(type_text(nt.ty));
                }
            }
            write!(
                s,
                "macro_rules! wrap {{ ({}) => {{ {} }} }}\nwrap! {{ {} }}\n",
                params.join(", "),
                parser,
                args.join(", ")
            )
            .unwrap();
            s.push_str(&call(""));
        }
        _ => {
            s.push_str(&parser);
            s.push_str(&call(""));
        }
    }
    s
}

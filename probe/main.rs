//! Runs the macro inside this process, for many grammars, and prints the tables it produced.
//! Request: a line with the length of the grammar text, then the text. Reply: lines up to "END".
//! Request "h LENGTH": only "H" and a hash of the output, or of the message of the panic.
//!   PANIC            the macro panicked
//!   UNKNOWN why      the output is not understood
//!   OK hash
//!   s a,a,..|g,g,..|"expected"      one line per state
//!   t n.p n.p ..                    production behind each semantic action
//!   e NAME state                    entry points
//! What is printed is only a hint for the checker, which decides on compiled programs.

use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::HashMap;
use std::hash::Hasher;
use std::io::{BufRead, Read, Write};

enum Flat {
    Id(String),
    Int(u64),
    Str(String),
    Open(TokenStream),
}

fn flat(ts: TokenStream, deep: bool, out: &mut Vec<Flat>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => out.push(Flat::Id(i.to_string())),
            TokenTree::Literal(l) => match syn::Lit::new(l) {
                syn::Lit::Int(i) => out.push(Flat::Int(i.base10_parse().unwrap_or(u64::MAX))),
                syn::Lit::Str(s) => out.push(Flat::Str(s.value())),
                _ => {}
            },
            TokenTree::Group(g) => {
                if deep {
                    flat(g.stream(), deep, out)
                } else {
                    out.push(Flat::Open(g.stream()))
                }
            }
            TokenTree::Punct(_) => {}
        }
    }
}

fn rows(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => {
                out.push(std::mem::take(&mut cur).into_iter().collect());
            }
            _ => cur.push(t),
        }
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}

/// `[ ... ]` alone
fn bracket(ts: TokenStream) -> Option<TokenStream> {
    let mut it = ts.into_iter();
    match (it.next(), it.next()) {
        (Some(TokenTree::Group(g)), None) if g.delimiter() == Delimiter::Bracket => Some(g.stream()),
        _ => None,
    }
}

fn action(ts: TokenStream) -> Option<String> {
    let mut f = vec![];
    flat(ts, true, &mut f);
    let mut ids = vec![];
    let mut fields: HashMap<String, u64> = HashMap::new();
    for x in &f {
        match x {
            Flat::Id(i) => ids.push(i.clone()),
            Flat::Int(n) => {
                fields.insert(ids.last()?.clone(), *n);
            }
            _ => return None,
        }
    }
    let has = |s: &str| ids.iter().any(|i| i == s);
    if ids.len() == 1 && has("None") {
        return Some(".".into());
    }
    if has("Shift") {
        return Some(format!("s{}", fields.get("next_state")?));
    }
    if has("Reduce") {
        return Some(format!(
            "r{}:{}:{}",
            fields.get("non_terminal_idx")?,
            fields.get("n_symbols")?,
            fields.get("semantic_action_idx")?
        ));
    }
    if has("Accept") {
        return Some("a".into());
    }
    None
}

fn tables(ts: TokenStream) -> Result<String, &'static str> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let id = |k: usize| match toks.get(k) {
        Some(TokenTree::Ident(i)) => Some(i.to_string()),
        _ => None,
    };
    let mut statics: HashMap<String, TokenStream> = HashMap::new();
    let mut fns: HashMap<String, TokenStream> = HashMap::new();
    let mut entries: Vec<(String, u64)> = vec![];
    let mut i = 0;
    while i < toks.len() {
        match id(i).as_deref() {
            Some("static") | Some("const") => {
                if let Some(name) = id(i + 1) {
                    let mut k = i + 2;
                    let mut val: Vec<TokenTree> = vec![];
                    let mut on = false;
                    while k < toks.len() {
                        match &toks[k] {
                            TokenTree::Punct(p) if p.as_char() == ';' => break,
                            TokenTree::Punct(p) if p.as_char() == '=' && !on => on = true,
                            t if on => val.push(t.clone()),
                            _ => {}
                        }
                        k += 1;
                    }
                    if let Some(b) = bracket(val.into_iter().collect()) {
                        statics.insert(name, b);
                    }
                    i = k;
                }
            }
            Some("fn") => {
                if let Some(name) = id(i + 1) {
                    let mut k = i + 2;
                    while k < toks.len() {
                        if let TokenTree::Group(g) = &toks[k] {
                            if g.delimiter() == Delimiter::Brace {
                                fns.insert(name, g.stream());
                                break;
                            }
                        }
                        k += 1;
                    }
                    i = k;
                }
            }
            Some("impl") => {
                if let (Some(name), Some(TokenTree::Group(g))) = (id(i + 1), toks.get(i + 2)) {
                    let mut f = vec![];
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let parse = inner.iter().any(|t| matches!(t, TokenTree::Ident(i) if *i == "parse"));
                    // the body of the last function
                    if let (true, Some(TokenTree::Group(b))) = (parse, inner.last()) {
                        flat(b.stream(), true, &mut f);
                        if let Some(n) = f.iter().find_map(|x| match x {
                            Flat::Int(n) => Some(*n),
                            _ => None,
                        }) {
                            entries.push((name, n));
                        }
                    }
                    i += 2;
                }
            }
            _ => {}
        }
        i += 1;
    }
    let act = rows(statics.remove("ACTION").ok_or("no ACTION")?);
    let goto = rows(statics.remove("GOTO").ok_or("no GOTO")?);
    let exp = rows(statics.remove("EXPECTED_TERMINALS").ok_or("no EXPECTED_TERMINALS")?);
    if act.len() != goto.len() || act.len() != exp.len() || act.is_empty() {
        return Err("sizes");
    }
    let mut out = String::new();
    for ((a, g), e) in act.into_iter().zip(goto).zip(exp) {
        out.push_str("s ");
        for (k, x) in rows(bracket(a).ok_or("row")?).into_iter().enumerate() {
            if k > 0 {
                out.push(',');
            }
            out.push_str(&action(x).ok_or("action")?);
        }
        out.push('|');
        for (k, x) in rows(bracket(g).ok_or("row")?).into_iter().enumerate() {
            if k > 0 {
                out.push(',');
            }
            let mut f = vec![];
            flat(x, true, &mut f);
            match &f[..] {
                [Flat::Id(n)] if n == "None" => out.push('.'),
                [Flat::Id(n), Flat::Int(v)] if n == "Some" => out.push_str(&v.to_string()),
                _ => return Err("goto"),
            }
        }
        out.push('|');
        let mut f = vec![];
        flat(e, true, &mut f);
        match &f[..] {
            [Flat::Str(s)] => out.push_str(&format!("{:?}", s)),
            _ => return Err("expected"),
        }
        out.push('\n');
    }
    out.push('t');
    for x in rows(statics.remove("SEMANTIC_ACTIONS").ok_or("no SEMANTIC_ACTIONS")?) {
        let mut f = vec![];
        flat(x, true, &mut f);
        let [Flat::Id(name)] = &f[..] else { return Err("semantic action") };
        let body = fns.get(name).ok_or("no such function")?.clone();
        out.push(' ');
        out.push_str(&tag(body).unwrap_or_else(|| "?".into()));
    }
    out.push('\n');
    for (n, s) in entries {
        out.push_str(&format!("e {} {}\n", n, s));
    }
    Ok(out)
}

/// `act ( n , p , ... )` somewhere inside
fn tag(ts: TokenStream) -> Option<String> {
    let mut after = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) => after = i == "act",
            TokenTree::Group(g) => {
                if after {
                    let mut f = vec![];
                    flat(g.stream(), false, &mut f);
                    if let (Some(Flat::Int(n)), Some(Flat::Int(p))) = (f.get(0), f.get(1)) {
                        return Some(format!("{}.{}", n, p));
                    }
                }
                if let Some(x) = tag(g.stream()) {
                    return Some(x);
                }
                after = false;
            }
            _ => after = false,
        }
    }
    None
}

fn one(text: &str) -> String {
    let Ok(ts) = text.parse::<TokenStream>() else { return "UNKNOWN tokens\n".into() };
    let out = match std::panic::catch_unwind(|| parsegen_probe::parser(ts)) {
        Err(_) => return "PANIC\n".into(),
        Ok(o) => o,
    };
    match std::panic::catch_unwind(|| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write(out.to_string().as_bytes());
        (h.finish(), tables(out.clone()))
    }) {
        Ok((h, Ok(t))) => format!("OK {:x}\n{}", h, t),
        Ok((h, Err(e))) => format!("UNKNOWN {} {:x}\n", e, h),
        Err(_) => "UNKNOWN panic\n".into(),
    }
}

fn hash(text: &str) -> String {
    let Ok(ts) = text.parse::<TokenStream>() else { return "UNKNOWN tokens\n".into() };
    let r = std::panic::catch_unwind(|| parsegen_probe::parser(ts).to_string());
    let (ok, s) = match r {
        Ok(s) => (1, s),
        Err(e) => (
            0,
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    };
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(s.as_bytes());
    format!("H {} {:x}\n", ok, h.finish())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let run = || {
        let mut inp = std::io::stdin().lock();
        let mut out = std::io::stdout().lock();
        loop {
            let mut l = String::new();
            if inp.read_line(&mut l).unwrap_or(0) == 0 {
                return;
            }
            let only = l.starts_with('h');
            let n: usize = l.trim_start_matches('h').trim().parse().unwrap();
            let mut buf = vec![0; n];
            inp.read_exact(&mut buf).unwrap();
            let text = std::str::from_utf8(&buf).unwrap();
            let r = if only { hash(text) } else { one(text) };
            out.write_all(r.as_bytes()).unwrap();
            out.write_all(b"END\n").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}

//! C18: texts that are not grammars. Token by token mutations of well-formed grammars; a recogniser
//! of the grammar syntax says which of them still are grammars. Those that are not must not compile;
//! those that mean the same must compile as the original does. Everything else (and whatever depends
//! on where a Rust expression or type ends) is left alone.

use crate::emit::lit;
use crate::gcheck::hash_of;
use crate::gen::*;
use crate::gram::*;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;

pub struct Syntax;

/// One token; expressions and types of the original are kept in one piece.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Tk {
    /// keyword, punctuation, bracket
    P(&'static str),
    Id(String),
    /// string literal (as written)
    S(String),
    /// any other literal
    L(&'static str),
    Life(&'static str),
    Ty(&'static str),
    /// an action; braced or not
    Ex(String, bool),
}

use Tk::*;

fn text(ts: &[Tk]) -> String {
    let mut s = String::new();
    for (k, t) in ts.iter().enumerate() {
        match t {
            P(p) => s.push_str(p),
            Id(x) | S(x) | Ex(x, _) => s.push_str(x),
            L(x) | Life(x) | Ty(x) => s.push_str(x),
        }
        s.push(if k % 24 == 23 || matches!(t, P(";")) { '\n' } else { ' ' });
    }
    s
}

/// What the recogniser makes of a text.
enum Verdict {
    /// canonical form
    Good(Vec<String>),
    Bad(String),
    Unsure,
}

enum Stop {
    Bad(String),
    Unsure,
}

type R<T> = Result<T, Stop>;

struct Rec<'t> {
    ts: &'t [Tk],
    at: usize,
    out: Vec<String>,
}

fn bad<T>(what: &str) -> R<T> {
    Err(Stop::Bad(what.into()))
}

impl<'t> Rec<'t> {
    fn peek(&self) -> Option<&'t Tk> {
        self.ts.get(self.at)
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(P(x)) if *x == p)
    }
    fn take(&mut self, p: &str) -> bool {
        let y = self.is(p);
        if y {
            self.at += 1;
        }
        y
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.take(p) {
            Ok(())
        } else {
            bad(&format!("no `{}`", p))
        }
    }
    fn put(&mut self, s: impl Into<String>) {
        self.out.push(s.into());
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(Id(x)) => {
                self.at += 1;
                Ok(x.clone())
            }
            // types are identifiers, some of them
            Some(Ty(_)) | Some(Ex(_, false)) => Err(Stop::Unsure),
            _ => bad("no identifier"),
        }
    }
    fn ty(&mut self, end: &[&str]) -> R<String> {
        let t = match self.peek() {
            Some(Ty(t)) => t.to_string(),
            None => return bad("no type"),
            Some(P(p)) if ["=>", "=", ",", ";", ":", "}", ")", ">", "pub", "enum", "type", "mut", "+", "@", "#"].contains(p) => {
                return bad("no type")
            }
            Some(S(_)) | Some(L(_)) | Some(Ex(_, true)) => return bad("no type"),
            _ => return Err(Stop::Unsure),
        };
        self.at += 1;
        match self.peek() {
            Some(P(p)) if end.contains(p) => Ok(t),
            Some(P(p)) if p.starts_with('[') => Err(Stop::Unsure),
            // may go on
            Some(P("::")) | Some(P("<")) | Some(P("+")) | Some(P("(")) | Some(P("!")) | Some(P("->")) => Err(Stop::Unsure),
            _ => bad("something after a type"),
        }
    }

    fn items(&mut self) -> R<()> {
        while self.at < self.ts.len() {
            if self.take("type") {
                self.put("type");
                let n = self.ident()?;
                if n != "State" {
                    return bad("unknown `type`");
                }
                self.want("=")?;
                let t = self.ty(&[";"])?;
                self.put(t);
                self.want(";")?;
            } else if self.take("enum") {
                self.enumeration()?;
            } else {
                self.nonterminal()?;
            }
        }
        Ok(())
    }

    fn enumeration(&mut self) -> R<()> {
        let n = self.ident()?;
        self.put(format!("enum {}", n));
        if self.take("<") {
            let mut first = true;
            loop {
                if self.take(">") {
                    break;
                }
                if !first && !matches!(self.ts.get(self.at - 1), Some(P(","))) {
                    // lifetimes without commas: as one likes
                    return match self.peek() {
                        Some(Life(_)) => Err(Stop::Unsure),
                        _ => bad("not a lifetime"),
                    };
                }
                match self.peek() {
                    Some(Life(l)) => {
                        self.at += 1;
                        self.put(*l);
                        self.take(",");
                    }
                    _ => return bad("not a lifetime"),
                }
                first = false;
            }
        }
        self.want("{")?;
        while !self.take("}") {
            match self.peek() {
                Some(S(s)) => {
                    self.at += 1;
                    self.put(format!("token {}", s));
                }
                _ => return bad("no token name"),
            }
            self.want("=>")?;
            self.pattern(0)?;
            if !self.take(",") && !self.is("}") {
                return bad("no `,` after a token");
            }
        }
        self.put("end of tokens");
        Ok(())
    }

    fn pattern(&mut self, depth: usize) -> R<()> {
        if depth > 20 {
            return Err(Stop::Unsure);
        }
        match self.peek() {
            Some(P("..")) | Some(P("_")) | Some(S(_)) | Some(L(_)) => {
                self.put(format!("{:?}", self.peek()));
                self.at += 1;
                Ok(())
            }
            Some(P("(")) => {
                self.at += 1;
                self.patterns("tuple", depth)
            }
            Some(P("<")) => {
                self.at += 1;
                let t = self.ty(&[">"])?;
                self.put(format!("<{}>", t));
                self.want(">")
            }
            Some(Id(_)) | Some(P("::")) => {
                if self.take("::") {
                    self.put("::");
                }
                loop {
                    let x = self.ident()?;
                    self.put(x);
                    if self.take("::") {
                        if matches!(self.peek(), Some(P("<"))) {
                            return Err(Stop::Unsure);
                        }
                        continue;
                    }
                    break;
                }
                if self.take("(") {
                    self.patterns("fields", depth)
                } else if self.take("{") {
                    self.put("struct");
                    loop {
                        if self.take("}") {
                            return Ok(());
                        }
                        if self.take("..") {
                            self.put("..");
                            return self.want("}");
                        }
                        let f = self.ident()?;
                        self.put(f);
                        self.want(":")?;
                        self.pattern(depth + 1)?;
                        if !self.take(",") && !self.is("}") {
                            // a comma before `..` may be missing
                            return if self.is("..") { Err(Stop::Unsure) } else { bad("no `,` after a field") };
                        }
                    }
                } else {
                    Ok(())
                }
            }
            Some(Ty(_)) | Some(Ex(_, false)) => Err(Stop::Unsure),
            Some(P("crate")) | Some(P("self")) | Some(P("super")) => Err(Stop::Unsure),
            _ => bad("no pattern"),
        }
    }

    fn patterns(&mut self, what: &str, depth: usize) -> R<()> {
        self.put(what);
        let (mut n, mut trailing) = (0, false);
        while !self.take(")") {
            trailing = false;
            self.pattern(depth + 1)?;
            n += 1;
            if self.take(",") {
                trailing = true;
            } else if !self.is(")") {
                return bad("no `,` after a pattern");
            }
        }
        self.put(format!("{}{}", n, if n == 1 && trailing && what == "tuple" { "," } else { "" }));
        Ok(())
    }

    fn nonterminal(&mut self) -> R<()> {
        if self.take("pub") {
            self.put("pub");
        }
        let n = self.ident()?;
        self.put(n);
        self.want(":")?;
        let t = self.ty(&["="])?;
        self.put(t);
        self.want("=")?;
        if self.take("{") {
            while !self.take("}") {
                self.production(true)?;
            }
            self.want(";")?;
        } else if matches!(self.peek(), Some(Ex(_, true))) {
            return bad("an action in place of the productions");
        } else {
            self.production(false)?;
        }
        self.put("end");
        Ok(())
    }

    fn production(&mut self, braced: bool) -> R<()> {
        while !self.take("=>") {
            self.symbol(0)?;
        }
        if self.is("?") {
            return bad("a fallible action");
        }
        match self.peek() {
            Some(Ex(x, _)) => {
                self.put(format!("=> {}", x));
                self.at += 1;
            }
            None => return bad("no action"),
            Some(P(p)) if [",", "}", ";", "=>", ":", ">", ")", "=", "@"].contains(p) => return bad("no action"),
            _ => return Err(Stop::Unsure),
        }
        match self.peek() {
            Some(P(",")) => {
                self.at += 1;
                Ok(())
            }
            _ if !braced => match self.peek() {
                // the expression may go on
                Some(P("?")) | Some(P(".")) | Some(P(":")) => Err(Stop::Unsure),
                Some(P(p)) if ["pub", "enum", "type", "mut", "_", "=>", ";", "}", ")", "@", "#", "::"].contains(p) || p.starts_with('#') => bad("no `,`"),
                None | Some(S(_)) | Some(L(_)) | Some(Life(_)) | Some(Id(_)) => bad("no `,`"),
                _ => Err(Stop::Unsure),
            },
            Some(P("}")) | Some(P("=>")) | Some(S(_)) | Some(Id(_)) => Ok(()),
            Some(P(p)) if ["pub", "enum", "type", "mut", "_", ";", ")", "@", "#", "::"].contains(p) || p.starts_with('#') => bad("no symbol"),
            None | Some(L(_)) | Some(Life(_)) => bad("no symbol"),
            _ => Err(Stop::Unsure),
        }
    }

    fn symbol(&mut self, depth: usize) -> R<()> {
        match self.peek() {
            Some(S(s)) => {
                self.put(s.clone());
                self.at += 1;
            }
            Some(Id(s)) => {
                self.put(s.clone());
                self.at += 1;
            }
            Some(P("<")) => {
                if depth > 0 {
                    return Err(Stop::Unsure);
                }
                self.at += 1;
                let m = self.take("mut");
                let n = self.ident()?;
                self.put(format!("<{}{}:", if m { "mut " } else { "" }, n));
                self.want(":")?;
                self.symbol(depth + 1)?;
                self.want(">")?;
            }
            Some(Ty(_)) => return Err(Stop::Unsure),
            // an identifier and an argument list
            _ => return bad("no symbol"),
        }
        match self.peek() {
            Some(P("+")) | Some(P("*")) | Some(P("?")) => bad("a repetition"),
            _ => Ok(()),
        }
    }
}

fn recognise(ts: &[Tk]) -> Verdict {
    let mut r = Rec { ts, at: 0, out: vec![] };
    match r.items() {
        Ok(()) => Verdict::Good(r.out),
        Err(Stop::Bad(w)) => Verdict::Bad(format!("{} at token {}", w, r.at)),
        Err(Stop::Unsure) => Verdict::Unsure,
    }
}

const PUNCT: [&str; 40] = [
    ",", ",", ",", ";", ";", ":", "=", "=>", "=>", "::", "<", ">", "pub", "enum", "type", "mut", "_", "..", "+", "*", "?", "@", "#", "!", "|", "-",
    "&", ".", "->", "==", "where", "fn", "let", "impl", "crate", "self", "=", ",", "/", "in",
];

/// Things that other languages, Rust or other parser generators have in places like these.
fn phrase(k: usize) -> Vec<Tk> {
    match k {
        0 => vec![P("<"), Id("T".into()), P(">")],
        1 => vec![P("<"), Life("'x"), P(">")],
        2 => vec![P("<"), P(">")],
        3 => vec![P("("), P("crate"), P(")")],
        4 => vec![P("("), P("super"), P(")")],
        5 => vec![P("pub"), P("("), P("crate"), P(")")],
        6 => vec![P("("), P(")")],
        7 => vec![P("{"), P("}")],
        8 => vec![P("where"), Id("u8".into()), P(":"), Id("Copy".into())],
        9 => vec![P("if"), L("true")],
        10 => vec![P("->"), Ty("u32")],
        11 => vec![P(":"), Ty("u32")],
        12 => vec![P("="), L("3")],
        13 => vec![P("@"), Id("L".into())],
        14 => vec![P("|"), S("\"t0\"".into())],
        15 => vec![P("as"), Id("x".into())],
        16 => vec![P("&"), P("mut")],
        17 => vec![Life("'x"), P(":")],
        18 => vec![P("#[cfg(all())]")],
        19 => vec![P("#[allow(unused)]")],
        20 => vec![P("#[doc = \"x\"]")],
        21 => vec![P("#![allow(unused)]")],
        22 => vec![P("/// text\n")],
        23 => vec![P("[1]")],
        24 => vec![P("%prec"), L("1")],
        25 => vec![P("$x")],
        26 => vec![P("[]")],
        _ => vec![P(","), P(",")],
    }
}

/// What kind of token, to pick rare kinds of places as often as frequent ones.
fn kind(t: &Tk) -> &'static str {
    match t {
        P(p) => p,
        Id(_) => "identifier",
        S(_) => "string",
        L(_) => "literal",
        Life(_) => "lifetime",
        Ty(_) => "type",
        Ex(_, true) => "block",
        Ex(..) => "expression",
    }
}

fn brackets(ts: &[Tk]) -> bool {
    let mut st = vec![];
    for t in ts {
        match t {
            P("{") => st.push("}"),
            P("(") => st.push(")"),
            P(c) if *c == "}" || *c == ")" => {
                if st.pop() != Some(*c) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}

fn close(ts: &[Tk], open: usize) -> usize {
    let mut d = 0;
    for (k, t) in ts.iter().enumerate().skip(open) {
        match t {
            P("{") | P("(") => d += 1,
            P("}") | P(")") => d -= 1,
            _ => {}
        }
        if d == 0 {
            return k;
        }
    }
    ts.len() - 1
}

fn mutate(ts: &mut Vec<Tk>, t: &mut Src) -> &'static str {
    let n = ts.len();
    if n == 0 {
        return "nothing";
    }
    let at = if t.chance(1, 2) {
        t.below(n)
    } else {
        let mut kinds: Vec<&str> = ts.iter().map(kind).collect();
        kinds.sort();
        kinds.dedup();
        let k = *t.pick(&kinds);
        let all: Vec<usize> = (0..n).filter(|i| kind(&ts[*i]) == k).collect();
        *t.pick(&all)
    };
    let bracket = |x: &Tk| matches!(x, P("{") | P("}") | P("(") | P(")"));
    // something to put there: punctuation, or another token of the text
    let other = |ts: &[Tk], t: &mut Src| -> Tk {
        match t.below(8) {
            0 | 1 => P(PUNCT[t.below(PUNCT.len())]),
            2 => L(["0", "'c'", "b\"x\"", "1.5", "true"][t.below(5)]),
            3 => Life(["'a", "'b", "'x"][t.below(3)]),
            4 => Id(["Undefined", "Tok", "State", "x1"][t.below(4)].into()),
            _ => {
                let x = ts[t.below(ts.len())].clone();
                if bracket(&x) {
                    P(",")
                } else {
                    x
                }
            }
        }
    };
    match t.below(10) {
        0 | 1 => {
            if bracket(&ts[at]) {
                // the pair: its contents stay
                if let P(p) = ts[at] {
                    if p == "{" || p == "(" {
                        let c = close(ts, at);
                        ts.remove(c);
                        ts.remove(at);
                        return "brackets deleted";
                    }
                }
                return "nothing";
            }
            ts.remove(at);
            "token deleted"
        }
        2 => {
            let x = other(ts, t);
            ts.insert(at + t.below(2), x);
            "token inserted"
        }
        3 => {
            let at = at + t.below(2);
            ts.splice(at..at, phrase(t.below(28)));
            "phrase inserted"
        }
        4 | 5 => {
            if bracket(&ts[at]) {
                return "nothing";
            }
            ts[at] = other(ts, t);
            "token replaced"
        }
        6 => {
            if bracket(&ts[at]) {
                return "nothing";
            }
            let x = ts[at].clone();
            ts.insert(at, x);
            "token doubled"
        }
        7 => {
            if at + 1 >= n || bracket(&ts[at]) || bracket(&ts[at + 1]) {
                // over a bracket
                if at + 1 < n && bracket(&ts[at]) != bracket(&ts[at + 1]) {
                    ts.swap(at, at + 1);
                    return "token moved over a bracket";
                }
                return "nothing";
            }
            ts.swap(at, at + 1);
            "tokens swapped"
        }
        8 => {
            // a bracketed part disappears, with or without its brackets
            let opens: Vec<usize> = (0..n).filter(|k| matches!(ts[*k], P("{") | P("("))).collect();
            if opens.is_empty() {
                return "nothing";
            }
            let o = *t.pick(&opens);
            let c = close(ts, o);
            if t.chance(1, 2) {
                ts.drain(o..=c);
                "bracketed part deleted"
            } else {
                ts.drain(o + 1..c);
                "brackets emptied"
            }
        }
        _ => {
            // brackets around a token, or of another kind
            if bracket(&ts[at]) {
                if let P(p) = ts[at] {
                    if p == "{" || p == "(" {
                        let c = close(ts, at);
                        let curly = p == "{";
                        ts[at] = P(if curly { "(" } else { "{" });
                        ts[c] = P(if curly { ")" } else { "}" });
                        return "other brackets";
                    }
                }
                return "nothing";
            }
            let curly = t.chance(1, 2);
            let len = 1 + t.below(3.min(n - at));
            if ts[at..at + len].iter().any(bracket) {
                return "nothing";
            }
            ts.insert(at + len, P(if curly { "}" } else { ")" }));
            ts.insert(at, P(if curly { "{" } else { "(" }));
            "brackets inserted"
        }
    }
}

/// Tokens of a rendering of the grammar.
fn tokens(g: &Gram, s: &mut Src) -> (Vec<Tk>, usize) {
    let id = |x: &str| Id(x.to_string());
    let lifetimes = s.weighted(&[3, 2, 1]);
    let mut taken = vec![false; g.terms.len()];
    for b in g.nts.iter().flat_map(|n| n.prods.iter()).flatten() {
        if let (Sym::T(t), true) = (b.sym, b.bind != Bind::No) {
            taken[t] = true;
        }
    }
    let mut items: Vec<Vec<Tk>> = vec![];
    let mut e = vec![P("enum"), id("Tok")];
    if lifetimes > 0 {
        e.push(P("<"));
        e.push(Life("'a"));
        if lifetimes > 1 {
            e.push(P(","));
            e.push(Life("'b"));
        }
        e.push(P(">"));
    }
    e.push(P("{"));
    for (i, t) in g.terms.iter().enumerate() {
        e.push(S(lit(&t.name)));
        e.push(P("=>"));
        let v = |k: &str| vec![id("Tok"), P("::"), id(&format!("{}{}", k, i))];
        let cap = [P("<"), Ty("u32"), P(">")];
        if taken[i] || s.chance(1, 3) {
            match s.below(4) {
                0 => {
                    e.extend(v("S"));
                    e.extend([P("{"), id("a"), P(":")]);
                    e.extend(cap);
                    if s.chance(1, 2) {
                        e.extend([P(","), P(".."), P("}")]);
                    } else {
                        e.extend([P(","), id("b"), P(":"), P("_"), P("}")]);
                    }
                }
                1 => {
                    e.extend(v("P"));
                    e.extend([P("("), P("("), P("_"), P(",")]);
                    e.extend(cap);
                    e.extend([P(")"), P(")")]);
                }
                _ => {
                    e.extend(v("T"));
                    e.push(P("("));
                    e.extend(cap);
                    e.push(P(")"));
                }
            }
        } else {
            match s.below(4) {
                0 => {
                    e.extend(v("T"));
                    e.extend([P("("), L("3"), P(")")]);
                }
                1 => {
                    e.extend(v("T"));
                    e.extend([P("("), P(".."), P(")")]);
                }
                _ => e.extend(v("U")),
            }
        }
        e.push(P(","));
    }
    e.extend([S(lit("rest 1")), P("=>"), P("_")]);
    if s.chance(1, 2) {
        e.push(P(","));
    }
    e.push(P("}"));
    items.push(e);
    for n in &g.nts {
        let mut m = vec![];
        if n.public {
            m.push(P("pub"));
        }
        m.extend([Id(n.name.clone()), P(":"), Ty("u32"), P("=")]);
        let mut ps = vec![];
        for p in &n.prods {
            let mut q = vec![];
            let mut k = 0;
            for b in p {
                let x = match b.sym {
                    Sym::T(t) => S(lit(&g.terms[t].name)),
                    Sym::N(m) => Id(g.nts[m].name.clone()),
                };
                if b.bind == Bind::No {
                    q.push(x);
                } else {
                    k += 1;
                    q.push(P("<"));
                    if b.bind == Bind::Mut {
                        q.push(P("mut"));
                    }
                    q.extend([Id(format!("x{}", k)), P(":"), x, P(">")]);
                }
            }
            q.push(P("=>"));
            let sum = (1..=k).fold("1u32".to_string(), |a, i| format!("{} + x{}", a, i));
            q.push(if s.chance(1, 2) { Ex(format!("{{ {} }}", sum), true) } else { Ex(format!("sum({})", sum), false) });
            ps.push(q);
        }
        if ps.len() == 1 && s.chance(1, 2) {
            m.extend(ps.pop().unwrap());
            m.push(P(","));
        } else {
            m.push(P("{"));
            let n = ps.len();
            for (k, p) in ps.into_iter().enumerate() {
                m.extend(p);
                if k + 1 < n || s.chance(1, 2) {
                    m.push(P(","));
                }
            }
            m.extend([P("}"), P(";")]);
        }
        items.push(m);
    }
    if s.chance(1, 4) {
        items.push(vec![P("type"), id("State"), P("="), Ty("St"), P(";")]);
    }
    s.shuffle(&mut items);
    (items.concat(), lifetimes)
}

fn module(ts: &[Tk], nterms: usize, lifetimes: usize) -> String {
    let mut s = String::from("use parsegen::parser;\n");
    let (l, z) = match lifetimes {
        0 => ("", ""),
        1 => ("<'a>", " Z(&'a ()),"),
        _ => ("<'a, 'b>", " Z(&'a (), &'b ()),"),
    };
    s.push_str(&format!("#[derive(Debug)] pub enum Tok{} {{{}", l, z));
    for i in 0..nterms + 1 {
        s.push_str(&format!(" T{i}(u32), U{i}, S{i} {{ a: u32, b: u32 }}, P{i}((u32, u32)),"));
    }
    s.push_str(" }\n#[derive(Debug, Default)] pub struct St;\nfn sum(x: u32) -> u32 { x }\n");
    s.push_str(&format!("parser! {{\n{}}}\n", text(ts)));
    s.push_str("pub fn run(_: usize, _: &str) -> String { String::new() }\n");
    s
}

fn macro_text(module: &str) -> Option<&str> {
    let (_, r) = module.split_once("parser! {\n")?;
    Some(r.rsplit_once("}\npub fn run")?.0)
}

impl TProp for Syntax {
    fn suspect(&self, s: &mut Src, h: &mut crate::probe::Helper) -> crate::tape::Suspect {
        use crate::probe::Reply;
        use crate::tape::Suspect::*;
        let Some((progs, bads, _)) = cases(s, 12) else { return Skip };
        for (k, p) in progs.iter().enumerate() {
            let Some(t) = macro_text(p) else { return Skip };
            let r = h.ask(t);
            if k == 0 {
                if !matches!(r, Reply::Ok(_)) {
                    return Skip;
                }
                continue;
            }
            match (bads[k - 1].is_some(), r) {
                (true, Reply::Ok(_)) => return Hint("no panic".into()),
                (false, Reply::Panic) => return Hint("panic".into()),
                (_, Reply::Dead(m)) => return Hint(m),
                _ => {}
            }
        }
        Quiet(progs.len())
    }

    fn tape_len(&self) -> usize {
        470
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let (progs, bads, labels) = cases(s, 12)?;
        let readable = progs[1..]
            .iter()
            .zip(&bads)
            .map(|(p, b)| {
                format!(
                    "// {}\n{}",
                    match b {
                        Some(b) => format!("not a grammar: {}", b),
                        None => "means the same as the original".into(),
                    },
                    macro_text(p).unwrap_or("")
                )
            })
            .collect::<Vec<_>>()
            .join("\n");
        let texts: Vec<String> = progs[1..].to_vec();
        Some(TCase {
            progs: progs
                .into_iter()
                .map(|src| Prog {
                    src,
                    inputs: vec![],
                    weight: 1,
                })
                .collect(),
            labels,
            readable,
            judge: Box::new(move |rs| {
                let mut j = TJudged::default();
                if rs[0].comp != Comp::Ok {
                    j.labels.push("control rejected".into());
                    return j;
                }
                for (i, b) in bads.iter().enumerate() {
                    let shown = macro_text(&texts[i]).unwrap_or("").to_string();
                    match (b, &rs[i + 1].comp) {
                        (_, Comp::Unknown(_)) => {}
                        (Some(_), Comp::Rejected { .. }) | (None, Comp::Ok) => j.nontrivial.push(hash_of(&texts[i])),
                        (Some(b), Comp::Ok) => {
                            j.fail.get_or_insert(format!("a text that is not a grammar compiles: {}\n{}", b, shown));
                        }
                        (None, Comp::Rejected { msg, .. }) => {
                            j.fail.get_or_insert(format!(
                                "a grammar is rejected, only optional tokens differ from one that compiles: {}\n{}",
                                super::lang::short(msg),
                                shown
                            ));
                        }
                    }
                }
                j
            }),
        })
    }
}

/// The original and mutations of it with the reason why each is no grammar, or None: it means the
/// same.
fn cases(s: &mut Src, n: usize) -> Option<(Vec<String>, Vec<Option<String>>, Vec<String>)> {
    let salts: Vec<Vec<u32>> = (0..n).map(|_| (0..14).map(|_| s.below(1 << 31) as u32 * 2).collect()).collect();
    let raw = candidate(s);
    if raw.nterms > 12 || raw.prods.len() > 9 {
        return None;
    }
    let mut g = decorate(&raw, s);
    for n in &mut g.nts {
        n.ty = 2; // u32
    }
    let a = analysed(g, raw.family, 40)?;
    if a.class != crate::lr::Class::Clean {
        return None;
    }
    let (ts, lifetimes) = tokens(&a.g, s);
    let nterms = a.g.terms.len();
    let Verdict::Good(same) = recognise(&ts) else {
        return None;
    };
    let mut progs = vec![module(&ts, nterms, lifetimes)];
    let mut bads = vec![];
    let mut labels = vec![];
    for salt in salts {
        // a mutation of zeros only changes nothing: shrinking drops it that way
        if salt.iter().all(|x| *x == 0) {
            continue;
        }
        let mut t = Src::zeros(salt);
        let mut m = ts.clone();
        let mut how = mutate(&mut m, &mut t);
        if t.chance(1, 8) {
            how = match mutate(&mut m, &mut t) {
                "nothing" => how,
                x => x,
            };
        }
        if m == ts || !brackets(&m) {
            continue;
        }
        let b = match recognise(&m) {
            Verdict::Good(x) if x == same => {
                labels.push("means the same".to_string());
                None
            }
            Verdict::Bad(w) => {
                labels.push(format!("not a grammar:{}", how));
                Some(format!("{} ({})", w, how))
            }
            Verdict::Good(_) => {
                labels.push("another grammar".into());
                continue;
            }
            Verdict::Unsure => {
                labels.push("not decided".into());
                continue;
            }
        };
        progs.push(module(&m, nterms, lifetimes));
        bads.push(b);
    }
    if bads.is_empty() {
        return None;
    }
    Some((progs, bads, labels))
}

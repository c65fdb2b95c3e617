//! The grammar model every generator produces and every oracle reads, with a plain text form that
//! is used in replay files.

use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(usize),
    N(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bind {
    No,
    Yes,
    Mut,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct BSym {
    pub sym: Sym,
    pub bind: Bind,
}

/// Shape of a token's payload. Every payload carries the token's position in the input, so that a
/// bound value shows which token it came from.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Unit,
    One,
    Two,
    Named,
    Heap,
    Ignored,
}

pub const SHAPES: [Shape; 6] = [
    Shape::Unit,
    Shape::One,
    Shape::Two,
    Shape::Named,
    Shape::Heap,
    Shape::Ignored,
];

impl Shape {
    /// Whether the value of the token symbol tells the position of the token.
    pub fn carries(self) -> bool {
        !matches!(self, Shape::Unit | Shape::Ignored)
    }
    /// Counted values in a token.
    pub fn payload(self) -> u32 {
        match self {
            Shape::Unit | Shape::One => 0,
            Shape::Two | Shape::Named | Shape::Ignored => 1,
            Shape::Heap => 2,
        }
    }
    /// Counted values in the value of the token symbol.
    pub fn captured(self) -> u32 {
        if self == Shape::Ignored { 0 } else { self.payload() }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Term {
    pub name: String,
    pub shape: Shape,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Nt {
    pub name: String,
    pub public: bool,
    /// Index into `TYPES`
    pub ty: usize,
    pub prods: Vec<Vec<BSym>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Gram {
    pub terms: Vec<Term>,
    pub nts: Vec<Nt>,
    /// What actions look like: 0 = each tells its production, 1 = all tell the same, 2 = all tell
    /// the same, and those that can are just the value they are given (`<x: E> => x`).
    pub acts: u8,
}

/// Value types of non-terminals. All implement `Val` in the runtime (rt.rs).
pub const TYPES: [&str; 16] = [
    "W0",
    "W1",
    "u32",
    "String",
    "Vec<W0>",
    "Option<W1>",
    "(W0, u32)",
    "Box<W0>",
    "[u32; 2]",
    "std::rc::Rc<W1>",
    "Result<W0, String>",
    "&'static str",
    "()",
    "(W1,)",
    "Vec<W1>",
    "Option<Box<(W0, Vec<W1>)>>",
];

/// Types beyond the table are all different.
pub fn type_text(ty: usize) -> String {
    match TYPES.get(ty) {
        Some(t) => t.to_string(),
        None => format!("Wk<{}>", ty),
    }
}

/// `()` cannot transport an id.
pub fn type_carries(ty: usize) -> bool {
    TYPES.get(ty) != Some(&"()")
}

/// Values of the type are counted by the runtime, so many per value.
pub fn type_tracked(ty: usize) -> u32 {
    match ty {
        0 | 1 | 5 | 6 | 7 | 9 | 10 | 13 => 1,
        4 | 14 => 2,
        15 => 3,
        _ => 0,
    }
}

/// An input item: a token (by terminal index) or a lexer error.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Item {
    Tok(usize),
    Err(u32),
}

impl Gram {
    pub fn entries(&self) -> Vec<usize> {
        (0..self.nts.len()).filter(|i| self.nts[*i].public).collect()
    }

    /// Total size, used to prefer smaller cases while shrinking.
    pub fn size(&self) -> usize {
        self.terms.len()
            + self
                .nts
                .iter()
                .map(|n| {
                    2 + n.public as usize
                        + (n.ty != 0) as usize
                        + n.prods
                            .iter()
                            .map(|p| {
                                1 + p.len() * 2
                                    + p.iter().filter(|s| s.bind == Bind::Mut).count()
                            })
                            .sum::<usize>()
                })
                .sum::<usize>()
            + self.terms.iter().filter(|t| t.shape != Shape::One).count()
            + self.acts as usize
    }

    /// What the action of a production tells when it runs.
    pub fn tag(&self, n: usize, p: usize) -> (usize, usize) {
        if self.acts == 0 {
            (n, p)
        } else {
            (0, 0)
        }
    }

    /// The action is the value of this symbol and tells nothing.
    pub fn passes(&self, n: usize, p: usize) -> Option<usize> {
        if self.acts != 2 {
            return None;
        }
        let rhs = &self.nts[n].prods[p];
        let mut bound = rhs.iter().enumerate().filter(|(_, b)| b.bind != Bind::No);
        let (k, b) = bound.next()?;
        if bound.next().is_some() {
            return None;
        }
        let ty = TYPES.get(self.nts[n].ty).copied();
        let same = match b.sym {
            Sym::N(m) => self.nts[m].ty == self.nts[n].ty,
            Sym::T(t) => match self.terms[t].shape {
                Shape::One => ty == Some("u32"),
                Shape::Heap => ty == Some("Vec<W0>"),
                Shape::Unit | Shape::Ignored => ty == Some("()"),
                _ => false,
            },
        };
        same.then_some(k)
    }

    pub fn sym_name(&self, s: Sym) -> String {
        match s {
            Sym::T(t) => format!("{:?}", self.terms[t].name),
            Sym::N(n) => self.nts[n].name.clone(),
        }
    }

    /// A readable form that `from_text` reads back.
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        if self.acts != 0 {
            writeln!(s, "acts {}", self.acts).unwrap();
        }
        for t in &self.terms {
            writeln!(s, "term {:?} {:?}", t.shape, t.name).unwrap();
        }
        for n in &self.nts {
            writeln!(
                s,
                "nt {} {} : {}",
                if n.public { "pub" } else { "priv" },
                n.name,
                n.ty
            )
            .unwrap();
        }
        for n in &self.nts {
            for p in &n.prods {
                write!(s, "{} ->", n.name).unwrap();
                for b in p {
                    let pre = match b.bind {
                        Bind::No => "",
                        Bind::Yes => "x:",
                        Bind::Mut => "mut:",
                    };
                    match b.sym {
                        Sym::T(t) => write!(s, " {}t{}", pre, t).unwrap(),
                        Sym::N(n) => write!(s, " {}n{}", pre, n).unwrap(),
                    }
                }
                writeln!(s).unwrap();
            }
        }
        s
    }

    /// One-line BNF, for samples in evidence files and messages.
    pub fn bnf(&self) -> String {
        let mut s = String::new();
        for n in &self.nts {
            if !s.is_empty() {
                s.push_str(" ; ");
            }
            if n.public {
                s.push_str("pub ");
            }
            s.push_str(&n.name);
            s.push_str(" ->");
            for (i, p) in n.prods.iter().enumerate() {
                if i > 0 {
                    s.push_str(" |");
                }
                if p.is_empty() {
                    s.push_str(" ε");
                }
                for b in p {
                    s.push(' ');
                    s.push_str(&self.sym_name(b.sym));
                }
            }
        }
        s
    }

    pub fn from_text(text: &str) -> Option<Gram> {
        let mut g = Gram::default();
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("acts ") {
                g.acts = rest.trim().parse().ok()?;
            } else if let Some(rest) = line.strip_prefix("term ") {
                let (sh, name) = rest.split_once(' ')?;
                let shape = *SHAPES.iter().find(|s| format!("{:?}", s) == sh)?;
                g.terms.push(Term {
                    name: undebug(name)?,
                    shape,
                });
            } else if let Some(rest) = line.strip_prefix("nt ") {
                let f: Vec<&str> = rest.split_whitespace().collect();
                g.nts.push(Nt {
                    public: f[0] == "pub",
                    name: f[1].to_string(),
                    ty: f[3].parse().ok()?,
                    prods: vec![],
                });
            } else if let Some((lhs, rhs)) = line.split_once(" ->") {
                let n = g.nts.iter().position(|n| n.name == lhs)?;
                let mut p = vec![];
                for w in rhs.split_whitespace() {
                    let (bind, w) = if let Some(w) = w.strip_prefix("x:") {
                        (Bind::Yes, w)
                    } else if let Some(w) = w.strip_prefix("mut:") {
                        (Bind::Mut, w)
                    } else {
                        (Bind::No, w)
                    };
                    let i: usize = w[1..].parse().ok()?;
                    let sym = if w.starts_with('t') { Sym::T(i) } else { Sym::N(i) };
                    p.push(BSym { sym, bind });
                }
                g.nts[n].prods.push(p);
            }
        }
        Some(g)
    }

    // ---- simple analyses, by naive fixpoints ----

    /// Non-terminals that derive some token sequence.
    pub fn productive(&self) -> Vec<bool> {
        let mut prod = vec![false; self.nts.len()];
        loop {
            let mut changed = false;
            for (i, n) in self.nts.iter().enumerate() {
                if !prod[i]
                    && n.prods.iter().any(|p| {
                        p.iter().all(|b| match b.sym {
                            Sym::T(_) => true,
                            Sym::N(m) => prod[m],
                        })
                    })
                {
                    prod[i] = true;
                    changed = true;
                }
            }
            if !changed {
                return prod;
            }
        }
    }

    pub fn nullable(&self) -> Vec<bool> {
        let mut nul = vec![false; self.nts.len()];
        loop {
            let mut changed = false;
            for (i, n) in self.nts.iter().enumerate() {
                if !nul[i]
                    && n.prods.iter().any(|p| {
                        p.iter().all(|b| match b.sym {
                            Sym::T(_) => false,
                            Sym::N(m) => nul[m],
                        })
                    })
                {
                    nul[i] = true;
                    changed = true;
                }
            }
            if !changed {
                return nul;
            }
        }
    }

    /// Non-terminals reachable from the given ones.
    pub fn reachable(&self, from: &[usize]) -> Vec<bool> {
        let mut seen = vec![false; self.nts.len()];
        let mut work: Vec<usize> = from.to_vec();
        while let Some(n) = work.pop() {
            if std::mem::replace(&mut seen[n], true) {
                continue;
            }
            for p in &self.nts[n].prods {
                for b in p {
                    if let Sym::N(m) = b.sym {
                        if !seen[m] {
                            work.push(m);
                        }
                    }
                }
            }
        }
        seen
    }

    /// All reachable non-terminals are productive.
    pub fn all_productive(&self) -> bool {
        let prod = self.productive();
        let reach = self.reachable(&self.entries());
        (0..self.nts.len()).all(|i| !reach[i] || prod[i])
    }
}

/// Reverses `{:?}` of a string.
pub fn undebug(s: &str) -> Option<String> {
    let s = s.trim();
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            '0' => out.push('\0'),
            'u' => {
                let mut hex = String::new();
                if it.next()? != '{' {
                    return None;
                }
                loop {
                    match it.next()? {
                        '}' => break,
                        c => hex.push(c),
                    }
                }
                out.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
            }
            c => out.push(c),
        }
    }
    Some(out)
}

pub fn items_text(items: &[Item]) -> String {
    items
        .iter()
        .map(|i| match i {
            Item::Tok(t) => format!("{}", t),
            Item::Err(e) => format!("E{}", e),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn parse_items(s: &str) -> Vec<Item> {
    s.split_whitespace()
        .map(|w| match w.strip_prefix('E') {
            Some(e) => Item::Err(e.parse().unwrap()),
            None => Item::Tok(w.parse().unwrap()),
        })
        .collect()
}

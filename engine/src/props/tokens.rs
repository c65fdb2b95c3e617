//! C08: token patterns. Random token types and overlapping pattern lists; the oracle is a Rust
//! `match` with the same patterns, written out by the engine in the same program.

use crate::gcheck::hash_of;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;
use std::fmt::Write;

pub struct Tokens;

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    U8,
    I16,
    Bool,
    Char,
    Str,
    Unit,
    F64,
    Bytes,
    Text,
    VecU8,
    Arr,
    Opt(Box<Ty>),
    Boxed(Box<Ty>),
    Tuple(Vec<Ty>),
    Adt(usize),
    Ref(Box<Ty>),
}

#[derive(Clone, Debug)]
enum Fields {
    Unit,
    Tuple(Vec<Ty>),
    Named(Vec<(String, Ty)>),
}

#[derive(Clone, Debug)]
struct Adt {
    name: String,
    is_enum: bool,
    variants: Vec<(String, Fields)>,
}

#[derive(Clone, Debug)]
enum Pat {
    Wild,
    Rest,
    /// literal, or path of a constant
    Lit(String),
    Paren(Box<Pat>),
    Tuple(Vec<Pat>),
    Call(String, Vec<Pat>),
    Struct(String, Vec<(String, Pat)>, bool),
    Path(String),
    /// type of the capture
    Choose(String),
}

struct World {
    adts: Vec<Adt>,
    /// name, type, value
    consts: Vec<(String, Ty, String)>,
}

const FIELD_NAMES: [&str; 10] = ["a", "b", "r#type", "f0", "token", "pos", "f1", "value", "c", "_d"];

impl World {
    fn text(&self, t: &Ty) -> String {
        match t {
            Ty::U8 => "u8".into(),
            Ty::I16 => "i16".into(),
            Ty::Bool => "bool".into(),
            Ty::Char => "char".into(),
            Ty::Str => "&'static str".into(),
            Ty::Unit => "()".into(),
            Ty::F64 => "f64".into(),
            Ty::Bytes => "&'static [u8; 2]".into(),
            Ty::Text => "String".into(),
            Ty::VecU8 => "Vec<u8>".into(),
            Ty::Arr => "[u8; 2]".into(),
            Ty::Opt(t) => format!("Option<{}>", self.text(t)),
            Ty::Boxed(t) => format!("Box<{}>", self.text(t)),
            Ty::Tuple(ts) => format!("({},)", ts.iter().map(|t| self.text(t)).collect::<Vec<_>>().join(", ")),
            Ty::Adt(i) => self.adts[*i].name.clone(),
            Ty::Ref(t) => format!("&'static {}", self.text(t)),
        }
    }

    fn pool(&self, t: &Ty) -> &'static [&'static str] {
        match t {
            Ty::U8 => &["0", "1", "2u8", "0xff", "b'a'"],
            Ty::I16 => &["0", "7", "-1", "32767", "1_000i16"],
            Ty::Bool => &["true", "false"],
            Ty::Char => &["'a'", "'\\''", "'\\u{1F600}'", "'_'"],
            Ty::Str => &["\"a\"", "\"\"", "\"a\\\"b\"", "r#\"x\"y\"#", "\"\\u{e9}\\n\""],
            Ty::F64 => &["0.5", "1.5", "2e3"],
            Ty::Bytes => &["b\"ab\"", "b\"\\xff\\x00\""],
            _ => &[],
        }
    }

    fn ty(&self, s: &mut Src, depth: usize, from: usize, n_adts: usize) -> Ty {
        let deep = depth > 0;
        let w = [
            8,
            3,
            3,
            3,
            4,
            1,
            1,
            1,
            3,
            1,
            1,
            if deep { 3 } else { 0 },
            if deep { 1 } else { 0 },
            if deep { 7 } else { 0 },
            if from < n_adts && deep { 14 } else { 0 },
            if deep { 2 } else { 0 },
        ];
        match s.weighted(&w) {
            0 => Ty::U8,
            1 => Ty::I16,
            2 => Ty::Bool,
            3 => Ty::Char,
            4 => Ty::Str,
            5 => Ty::Unit,
            6 => Ty::F64,
            7 => Ty::Bytes,
            8 => Ty::Text,
            9 => Ty::VecU8,
            10 => Ty::Arr,
            11 => Ty::Opt(Box::new(self.ty(s, depth - 1, from, n_adts))),
            12 => Ty::Boxed(Box::new(self.ty(s, depth - 1, from, n_adts))),
            13 => {
                let n = s.range(1, 3);
                Ty::Tuple((0..n).map(|_| self.ty(s, depth - 1, from, n_adts)).collect())
            }
            14 => Ty::Adt(s.range(from, n_adts - 1)),
            _ => Ty::Ref(Box::new(self.ty(s, depth - 1, from, n_adts))),
        }
    }

    fn fields(&self, s: &mut Src, i: usize, n: usize) -> Fields {
        // now and then more fields than tuples implement traits for
        let many = if s.chance(1, 20) { s.range(9, 18) } else { 0 };
        match s.weighted(&[3, 5, 4]) {
            0 => Fields::Unit,
            1 => {
                let k = many.max(s.weighted(&[1, 8, 6, 3, 1]));
                Fields::Tuple((0..k).map(|_| self.ty(s, 3, i + 1, n)).collect())
            }
            _ => {
                let k = many.max(s.weighted(&[1, 5, 6, 4, 1]));
                let off = s.below(FIELD_NAMES.len());
                Fields::Named(
                    (0..k)
                        .map(|j| {
                            (
                                match FIELD_NAMES[(off + j) % FIELD_NAMES.len()] {
                                    name if j < FIELD_NAMES.len() => name.to_string(),
                                    name => format!("{}{}", name, j),
                                },
                                self.ty(s, 2, i + 1, n),
                            )
                        })
                        .collect(),
                )
            }
        }
    }

    fn decls(&self) -> String {
        let mut o = String::new();
        for a in &self.adts {
            let body = |f: &Fields, vis: &str| match f {
                Fields::Unit => String::new(),
                Fields::Tuple(ts) => format!(
                    "({})",
                    ts.iter().map(|t| format!("{}{}", vis, self.text(t))).collect::<Vec<_>>().join(", ")
                ),
                Fields::Named(fs) => format!(
                    " {{ {} }}",
                    fs.iter()
                        .map(|(n, t)| format!("{}{}: {}", vis, n, self.text(t)))
                        .collect::<Vec<_>>()
                        .join(", ")
                ),
            };
            write!(o, "#[derive(Debug, Clone, PartialEq)] pub ").unwrap();
            if a.is_enum {
                let vs: Vec<String> = a.variants.iter().map(|(n, f)| format!("{}{}", n, body(f, ""))).collect();
                writeln!(o, "enum {} {{ {} }}", a.name, vs.join(", ")).unwrap();
            } else {
                let f = &a.variants[0].1;
                let semi = if matches!(f, Fields::Named(_)) { "" } else { ";" };
                writeln!(o, "struct {}{}{}", a.name, body(f, "pub "), semi).unwrap();
            }
            writeln!(o, "pub type Alias{} = {};", a.name, a.name).unwrap();
        }
        for (n, t, v) in &self.consts {
            writeln!(o, "pub const {}: {} = {};", n, self.text(t), v).unwrap();
        }
        o
    }

    /// path prefix in the module of the parser
    fn prefix(&self, s: &mut Src) -> &'static str {
        ["", "self::", "super::", "crate::__SELF__::", "inner::", "self::inner::", "super::super::__SELF__::"]
            [s.weighted(&[20, 1, 1, 1, 2, 1, 1])]
    }

    fn variant_path(&self, a: &Adt, v: usize, s: &mut Src, fields: &Fields) -> String {
        let p = self.prefix(s);
        let alias = s.chance(1, 8);
        // an alias of a tuple or unit struct cannot be used as a pattern path
        let name = if alias && (a.is_enum || matches!(fields, Fields::Named(_))) {
            format!("Alias{}", a.name)
        } else {
            a.name.clone()
        };
        if !a.is_enum {
            return format!("{}{}", p, name);
        }
        if s.chance(1, 8) {
            // imported variant
            return a.variants[v].0.clone();
        }
        format!("{}{}::{}", p, name, a.variants[v].0)
    }

    /// `by_ref`: reached through a reference, captures are references
    fn pat(&self, t: &Ty, s: &mut Src, depth: usize, by_ref: bool, at_ref: bool, top: bool) -> Pat {
        let lits = if at_ref && matches!(t, Ty::Str | Ty::Bytes) { &[] } else { self.pool(t) };
        let consts: Vec<&String> = if at_ref {
            vec![]
        } else {
            self.consts.iter().filter(|c| c.1 == *t).map(|c| &c.0).collect()
        };
        let structured = depth > 0 && matches!(t, Ty::Opt(_) | Ty::Tuple(_) | Ty::Adt(_) | Ty::Ref(_) | Ty::Unit);
        let w = [
            if top { 1 } else { 5 },
            if top { 2 } else { 9 },
            if lits.is_empty() { 0 } else { 7 },
            if consts.is_empty() { 0 } else { 5 },
            if structured { if top { 60 } else { 14 } } else { 0 },
            if depth > 0 { 1 } else { 0 },
        ];
        match s.weighted(&w) {
            0 => Pat::Wild,
            1 => {
                let t = self.text(t);
                Pat::Choose(if by_ref { format!("&'static {}", t) } else { t })
            }
            2 => Pat::Lit(s.pick(lits).to_string()),
            3 => {
                let c = s.pick(&consts).to_string();
                Pat::Path(format!("{}{}", self.prefix(s), c))
            }
            5 => Pat::Paren(Box::new(self.pat(t, s, depth - 1, by_ref, at_ref, top))),
            _ => match t {
                Ty::Unit => Pat::Tuple(vec![]),
                Ty::Ref(t) => self.pat(t, s, depth - 1, true, true, false),
                Ty::Opt(t) => {
                    let p = ["", "Option::", "std::option::Option::", "::std::option::Option::"]
                        [s.weighted(&[6, 2, 1, 1])];
                    if s.chance(1, 3) {
                        Pat::Path(format!("{}None", p))
                    } else {
                        Pat::Call(format!("{}Some", p), vec![self.pat(t, s, depth - 1, by_ref, false, false)])
                    }
                }
                Ty::Tuple(ts) => Pat::Tuple(self.seq(ts, s, depth, by_ref)),
                Ty::Adt(i) => {
                    let a = &self.adts[*i];
                    let v = s.below(a.variants.len());
                    let f = &a.variants[v].1;
                    let path = self.variant_path(a, v, s, f);
                    match f {
                        Fields::Unit => match s.weighted(&[10, 1, 1]) {
                            0 => Pat::Path(path),
                            1 => Pat::Struct(path, vec![], false),
                            _ => Pat::Struct(path, vec![], true),
                        },
                        Fields::Tuple(ts) => {
                            if s.chance(1, 16) {
                                Pat::Struct(path, vec![], true)
                            } else {
                                Pat::Call(path, self.seq(ts, s, depth, by_ref))
                            }
                        }
                        Fields::Named(fs) => {
                            let mut order: Vec<usize> = (0..fs.len()).collect();
                            s.shuffle(&mut order);
                            let keep = if s.chance(1, 3) { s.below(fs.len() + 1) } else { fs.len() };
                            let dots = keep < fs.len() || s.chance(1, 6);
                            order.truncate(keep);
                            let ps = order
                                .into_iter()
                                .map(|k| (fs[k].0.clone(), self.field(&fs[k].1, s, depth, by_ref, fs.len())))
                                .collect();
                            Pat::Struct(path, ps, dots)
                        }
                    }
                }
                _ => unreachable!(),
            },
        }
    }

    /// One of `n` fields; when there are many, most are captured
    fn field(&self, t: &Ty, s: &mut Src, depth: usize, by_ref: bool, n: usize) -> Pat {
        if n > 8 && s.chance(9, 10) {
            let t = self.text(t);
            return Pat::Choose(if by_ref { format!("&'static {}", t) } else { t });
        }
        self.pat(t, s, depth - 1, by_ref, false, false)
    }

    fn seq(&self, ts: &[Ty], s: &mut Src, depth: usize, by_ref: bool) -> Vec<Pat> {
        let mut out = vec![];
        let rest = if s.chance(1, 4) {
            let lo = s.below(ts.len() + 1);
            let hi = s.range(lo, ts.len());
            Some((lo, hi))
        } else {
            None
        };
        for (k, t) in ts.iter().enumerate() {
            if let Some((lo, hi)) = rest {
                if k == lo {
                    out.push(Pat::Rest);
                }
                if k >= lo && k < hi {
                    continue;
                }
            }
            out.push(self.field(t, s, depth, by_ref, ts.len()));
        }
        if rest.map_or(false, |r| r.0 == ts.len()) {
            out.push(Pat::Rest);
        }
        out
    }

    /// An expression of the type that the pattern matches (unless a literal stands in for a
    /// constant); None: any value.
    fn value(&self, t: &Ty, p: Option<&Pat>, s: &mut Src, depth: usize) -> String {
        if let Some(Pat::Paren(p)) = p {
            return self.value(t, Some(p), s, depth);
        }
        if let Ty::Ref(t) = t {
            return format!("&*Box::leak(Box::new({}))", self.value(t, p, s, depth));
        }
        let p = match p {
            Some(Pat::Wild) | Some(Pat::Choose(_)) => None,
            // now and then not what the pattern asks for
            Some(_) if s.chance(1, 14) => None,
            p => p,
        };
        if let Some(Pat::Lit(l)) = p {
            return l.clone();
        }
        match t {
            Ty::U8 | Ty::I16 | Ty::Bool | Ty::Char | Ty::Str | Ty::F64 | Ty::Bytes => {
                if let Some(Pat::Path(c)) = p {
                    return c.rsplit("::").next().unwrap().to_string();
                }
                let extra: &[&str] = match t {
                    Ty::U8 => &["3", "200"],
                    Ty::I16 => &["-2", "5"],
                    Ty::Char => &["'z'"],
                    Ty::Str => &["\"zz\"", "\"a \""],
                    Ty::F64 => &["-0.25"],
                    Ty::Bytes => &["b\"zz\""],
                    _ => &[],
                };
                let pool = self.pool(t);
                let k = s.below(pool.len() + extra.len());
                if k < pool.len() { pool[k] } else { extra[k - pool.len()] }.to_string()
            }
            Ty::Unit => "()".into(),
            Ty::Text => format!("String::from(\"s{}\")", s.below(100)),
            Ty::VecU8 => format!("vec![{}u8, 9]", s.below(100)),
            Ty::Arr => match p {
                Some(Pat::Path(c)) => c.rsplit("::").next().unwrap().to_string(),
                _ => format!("[{}, {}]", s.below(3), s.below(3)),
            },
            Ty::Opt(t) => match p {
                Some(Pat::Path(_)) => "None".into(),
                Some(Pat::Call(_, ps)) => format!("Some({})", self.value(t, ps.first(), s, depth)),
                _ => {
                    if s.chance(1, 4) {
                        "None".into()
                    } else {
                        format!("Some({})", self.value(t, None, s, depth))
                    }
                }
            },
            Ty::Boxed(t) => format!("Box::new({})", self.value(t, None, s, depth)),
            Ty::Tuple(ts) => {
                let ps = match p {
                    Some(Pat::Tuple(ps)) => Some(&ps[..]),
                    _ => None,
                };
                let vs = self.values(ts, ps, s, depth);
                format!("({},)", vs.join(", "))
            }
            Ty::Adt(i) => {
                let a = &self.adts[*i];
                let path = match p {
                    Some(Pat::Path(x)) | Some(Pat::Call(x, _)) | Some(Pat::Struct(x, _, _)) => Some(x.as_str()),
                    _ => None,
                };
                let v = match path.map(|x| x.rsplit("::").next().unwrap()) {
                    Some(name) if a.is_enum => a.variants.iter().position(|v| v.0 == name),
                    Some(_) => Some(0),
                    None => None,
                };
                let (v, p) = match v {
                    Some(v) => (v, p),
                    None => (s.below(a.variants.len()), None),
                };
                let head = if a.is_enum { format!("{}::{}", a.name, a.variants[v].0) } else { a.name.clone() };
                match &a.variants[v].1 {
                    Fields::Unit => head,
                    Fields::Tuple(ts) => {
                        let ps = match p {
                            Some(Pat::Call(_, ps)) => Some(&ps[..]),
                            _ => None,
                        };
                        format!("{}({})", head, self.values(ts, ps, s, depth).join(", "))
                    }
                    Fields::Named(fs) => {
                        let ps: &[(String, Pat)] = match p {
                            Some(Pat::Struct(_, ps, _)) => ps,
                            _ => &[],
                        };
                        let vs: Vec<String> = fs
                            .iter()
                            .map(|(n, t)| {
                                let p = ps.iter().find(|x| x.0 == *n).map(|x| &x.1);
                                format!("{}: {}", n, self.value(t, p, s, depth))
                            })
                            .collect();
                        format!("{} {{ {} }}", head, vs.join(", "))
                    }
                }
            }
            Ty::Ref(_) => unreachable!(),
        }
    }

    fn values(&self, ts: &[Ty], ps: Option<&[Pat]>, s: &mut Src, depth: usize) -> Vec<String> {
        let mut want: Vec<Option<&Pat>> = vec![None; ts.len()];
        if let Some(ps) = ps {
            let rest = ps.iter().position(|p| matches!(p, Pat::Rest));
            for (k, p) in ps.iter().enumerate() {
                match rest {
                    Some(r) if k == r => {}
                    Some(r) if k > r => want[ts.len() + k - ps.len()] = Some(p),
                    _ => want[k] = Some(p),
                }
            }
        }
        ts.iter().zip(want).map(|(t, p)| self.value(t, p, s, depth)).collect()
    }
}

impl Pat {
    /// `bind`: how a capture is written
    fn text(&self, n: &mut usize, bind: &dyn Fn(usize, &str) -> String) -> String {
        match self {
            Pat::Wild => "_".into(),
            Pat::Rest => "..".into(),
            Pat::Lit(l) => l.clone(),
            Pat::Path(p) => p.clone(),
            Pat::Choose(t) => {
                *n += 1;
                bind(*n - 1, t)
            }
            Pat::Paren(p) => format!("({})", p.text(n, bind)),
            Pat::Tuple(ps) => {
                let v: Vec<String> = ps.iter().map(|p| p.text(n, bind)).collect();
                match &v[..] {
                    [one] if one != ".." => format!("({},)", one),
                    _ => format!("({})", v.join(", ")),
                }
            }
            Pat::Call(path, ps) => {
                let v: Vec<String> = ps.iter().map(|p| p.text(n, bind)).collect();
                format!("{}({})", path, v.join(", "))
            }
            Pat::Struct(path, fs, dots) => {
                let mut v: Vec<String> = fs.iter().map(|(f, p)| format!("{}: {}", f, p.text(n, bind))).collect();
                if *dots {
                    v.push("..".into());
                }
                format!("{} {{ {} }}", path, v.join(", "))
            }
        }
    }
    fn captures(&self, out: &mut Vec<String>) {
        match self {
            Pat::Choose(t) => out.push(t.clone()),
            Pat::Paren(p) => p.captures(out),
            Pat::Tuple(ps) | Pat::Call(_, ps) => ps.iter().for_each(|p| p.captures(out)),
            Pat::Struct(_, fs, _) => fs.iter().for_each(|f| f.1.captures(out)),
            _ => {}
        }
    }
    fn nodes(&self) -> usize {
        1 + match self {
            Pat::Paren(p) => p.nodes(),
            Pat::Tuple(ps) | Pat::Call(_, ps) => ps.iter().map(|p| p.nodes()).sum(),
            Pat::Struct(_, fs, _) => fs.iter().map(|f| f.1.nodes()).sum(),
            _ => 0,
        }
    }
    /// Replaces the k-th node by `_`
    fn blur(&mut self, k: &mut usize) {
        if *k == 0 {
            if !matches!(self, Pat::Rest) {
                *self = Pat::Wild;
            }
            *k = usize::MAX;
            return;
        }
        *k -= 1;
        match self {
            Pat::Paren(p) => p.blur(k),
            Pat::Tuple(ps) | Pat::Call(_, ps) => {
                for p in ps {
                    if *k != usize::MAX {
                        p.blur(k)
                    }
                }
            }
            Pat::Struct(_, fs, _) => {
                for f in fs {
                    if *k != usize::MAX {
                        f.1.blur(k)
                    }
                }
            }
            _ => {}
        }
    }
    fn deep(&self) -> usize {
        match self {
            Pat::Paren(p) => p.deep(),
            Pat::Tuple(ps) | Pat::Call(_, ps) => 1 + ps.iter().map(|p| p.deep()).max().unwrap_or(0),
            Pat::Struct(_, fs, _) => 1 + fs.iter().map(|f| f.1.deep()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

const NAMES: [&str; 14] = [
    "a", "b", "+", "==", "id", "\"", "number", "{", "a b", "\\n", "é", "end-of-input", "", "if",
];

impl TProp for Tokens {
    fn tape_len(&self) -> usize {
        1100
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let mut w = World {
            adts: vec![],
            consts: vec![],
        };
        let n_adts = 1 + s.weighted(&[2, 3, 3]);
        let tok_name = *s.pick(&["Tok", "Token", "T", "Tokén", "LRTok", "r#enum"]);
        let kind = s.weighted(&[12, 3, 2, 1]);
        for i in 0..n_adts {
            let is_enum = if i == 0 { kind != 1 } else { s.chance(1, 2) };
            let name = if i == 0 {
                if kind <= 1 { tok_name.to_string() } else { "Base".into() }
            } else {
                format!("{}{}", if is_enum { "En" } else { "St" }, i)
            };
            let nv = if is_enum { s.range(1, 4) } else { 1 };
            let variants = (0..nv)
                .map(|v| {
                    let vn = if i == 0 && v == 0 { "r#Match".to_string() } else { format!("V{}{}", i, v) };
                    (vn.trim_start_matches("r#").to_string(), w.fields(s, i, n_adts))
                })
                .collect();
            w.adts.push(Adt {
                name,
                is_enum,
                variants,
            });
        }
        for k in 0..s.below(4) {
            let t = [Ty::U8, Ty::Str, Ty::Char, Ty::I16, Ty::Bool, Ty::Arr, Ty::Bytes][s.below(7)].clone();
            let v = w.value(&t, None, s, 0);
            w.consts.push((format!("CONST{}", k), t, v));
        }
        // the token type
        let mut alias = String::new();
        let ty = match kind {
            0 | 1 => Ty::Adt(0),
            2 => {
                let n = s.range(1, 3);
                Ty::Tuple((0..n).map(|_| w.ty(s, 2, 0, n_adts)).collect())
            }
            _ => [Ty::Str, Ty::U8, Ty::Char, Ty::Opt(Box::new(Ty::Adt(0))), Ty::Ref(Box::new(Ty::Adt(0))), Ty::Bool]
                [s.below(6)]
            .clone(),
        };
        if kind > 1 {
            alias = format!("pub type {} = {};\n", tok_name, w.text(&ty));
        }
        // patterns
        let n_pats = s.range(1, 6);
        let mut pats: Vec<Pat> = vec![];
        for _ in 0..n_pats {
            let k = if pats.is_empty() { 0 } else { s.below(pats.len()) };
            let n = pats.get(k).map_or(0, |p: &Pat| p.nodes());
            if n > 1 && s.chance(1, 3) {
                // a more general form of an earlier one
                let mut p = pats[k].clone();
                let mut k = 1 + s.below(n - 1);
                p.blur(&mut k);
                let at = s.below(pats.len() + 1);
                pats.insert(at, p);
            } else {
                pats.push(w.pat(&ty, s, 4, false, false, true));
            }
        }
        let all_variants = s.chance(1, 3);
        match (&ty, all_variants) {
            (Ty::Adt(0), true) => {
                let a = &w.adts[0];
                for v in 0..a.variants.len() {
                    let f = &a.variants[v].1;
                    let path = w.variant_path(a, v, s, f);
                    pats.push(match f {
                        Fields::Unit => Pat::Path(path),
                        Fields::Tuple(ts) => Pat::Call(
                            path,
                            ts.iter()
                                .map(|t| if s.chance(1, 2) { Pat::Choose(w.text(t)) } else { Pat::Wild })
                                .collect(),
                        ),
                        Fields::Named(_) => Pat::Struct(path, vec![], true),
                    });
                }
            }
            _ => pats.push(if s.chance(1, 5) { Pat::Choose(w.text(&ty)) } else { Pat::Wild }),
        }
        let off = s.below(NAMES.len());
        let names: Vec<String> = (0..pats.len())
            .map(|k| {
                let base = NAMES[(off + k) % NAMES.len()];
                if k < NAMES.len() { base.to_string() } else { format!("{}{}", base, k) }
            })
            .collect();
        // values
        let n_vals = s.range(4, 14);
        let mut vals: Vec<String> = vec![];
        for _ in 0..n_vals {
            let k = s.below(pats.len() + 1);
            vals.push(w.value(&ty, pats.get(k), s, 0));
        }
        // program
        let caps: Vec<Vec<String>> = pats
            .iter()
            .map(|p| {
                let mut v = vec![];
                p.captures(&mut v);
                v
            })
            .collect();
        if caps.iter().any(|c| c.len() > 24) {
            return None;
        }
        // the captures of entry k, in `y`, as text; tuples of more than twelve elements have no Debug
        let shown = |k: usize| match caps[k].len() {
            n if n > 12 => {
                let v: Vec<String> = (0..n).map(|i| format!("format!(\"{{:?}}\", y.{})", i)).collect();
                format!("format!(\"{} {{:?}}\", [{}])", k, v.join(", "))
            }
            _ => format!("format!(\"{} {{:?}}\", y)", k),
        };
        let cap_ty = |k: usize| match &caps[k][..] {
            [one] => one.clone(),
            many => format!("({})", many.join(", ")),
        };
        let mut g = format!("enum {} {{\n", tok_name);
        for (k, p) in pats.iter().enumerate() {
            let t = p.text(&mut 0, &|_, t| format!("<{}>", t));
            writeln!(g, "    {:?} => {},", names[k], t).unwrap();
        }
        g.push_str("}\npub Nothing: () = { => () };\n");
        g.push_str("pub All: Vec<String> = { => vec![], <mut v: All> <s: One> => { v.push(s); v } };\nOne: String = {\n");
        for k in 0..pats.len() {
            writeln!(
                g,
                "    <x: {:?}> => {{ let y: {} = x; {} }},",
                names[k],
                cap_ty(k),
                shown(k)
            )
            .unwrap();
        }
        g.push_str("};\n");
        let mut reference = format!(
            "fn reference(v: {0}) -> (String, &'static str, usize) {{\nlet mut n = 0;\n",
            tok_name
        );
        for p in &pats {
            let t = p.text(&mut 0, &|_, _| "_".into());
            writeln!(reference, "if matches!(v, {}) {{ n += 1; }}", t).unwrap();
        }
        reference.push_str("match v {\n");
        for (k, p) in pats.iter().enumerate() {
            let t = p.text(&mut 0, &|i, _| format!("b{}", i));
            let bs: Vec<String> = (0..caps[k].len()).map(|i| format!("b{}", i)).collect();
            let tup = match &bs[..] {
                [one] => one.clone(),
                _ => format!("({})", bs.join(", ")),
            };
            writeln!(
                reference,
                "{} => {{ let y: {} = {}; ({}, {:?}, n) }}",
                t,
                cap_ty(k),
                tup,
                shown(k),
                names[k]
            )
            .unwrap();
        }
        reference.push_str("} }\n");
        let mut mk = format!("fn value(i: usize) -> {} {{ match i {{\n", tok_name);
        for (k, v) in vals.iter().enumerate() {
            writeln!(mk, "{} => {},", k, v).unwrap();
        }
        mk.push_str("_ => unreachable!() } }\n");
        let globs: String = w
            .adts
            .iter()
            .filter(|a| a.is_enum)
            .map(|a| format!("use super::{}::*;\n", a.name))
            .collect();
        let head = format!(
            "{}{}pub mod inner {{ pub use super::*; }}\npub use p::run;\n",
            w.decls(),
            alias
        );
        let full = format!(
            "{head}pub mod p {{\nuse super::*;\n{globs}use parsegen::parser;\nparser! {{\n{g}}}\n{reference}{mk}\
             fn go(e: usize, ix: &[usize]) -> String {{\n\
             let want: Vec<_> = ix.iter().map(|i| reference(value(*i))).collect();\n\
             let ns: Vec<usize> = want.iter().map(|w| w.2).collect();\n\
             let toks = ix.iter().map(|i| Ok::<{tok_name}, u8>(value(*i)));\n\
             let (a, b) = if e == 0 {{\n\
             let want: Result<Vec<String>, ParseError<u8>> = Ok(want.into_iter().map(|w| w.0).collect());\n\
             (format!(\"{{:?}}\", All::parse(toks)), format!(\"{{:?}}\", want))\n\
             }} else {{\n\
             let want: Result<(), ParseError<u8>> = Err(ParseError::ParserError {{ found: want[0].1, expected: \"\" }});\n\
             (format!(\"{{:?}}\", Nothing::parse(toks)), format!(\"{{:?}}\", want)) }};\n\
             format!(\"{{:?}}\\u{{1f}}{{}}\\u{{1f}}{{}}\", ns, a, b) }}\n\
             pub fn run(e: usize, arg: &str) -> String {{\n\
             let ix: Vec<usize> = arg.split_whitespace().map(|x| x.parse().unwrap()).collect();\n\
             std::panic::catch_unwind(|| go(e, &ix)).unwrap_or_else(|_| \"[]\\u{{1f}}panic\\u{{1f}}\".into()) }}\n}}\n",
        );
        let alone = format!(
            "{head}pub mod p {{\nuse super::*;\n{globs}{reference}{mk}\
             pub fn run(e: usize, arg: &str) -> String {{ format!(\"{{:?}}\", reference(value(e))) }}\n}}\n"
        );
        let mut inputs: Vec<(usize, String)> = vec![];
        for k in 0..vals.len() {
            inputs.push((0, k.to_string()));
            inputs.push((1, k.to_string()));
        }
        inputs.push((0, (0..vals.len()).map(|k| k.to_string()).collect::<Vec<_>>().join(" ")));
        let mut labels = vec![format!("token type: {}", ["enum", "struct", "tuple", "other"][kind])];
        let multi = caps.iter().filter(|c| c.len() > 1).count();
        if multi > 0 {
            labels.push("several captures".into());
        }
        if pats.iter().any(|p| p.deep() >= 3) {
            labels.push("three levels of nesting".into());
        }
        let readable = format!("{}{}{}{}", w.decls(), alias, g, mk);
        if caps.iter().any(|c| c.len() > 12) {
            labels.push("more than twelve captures".into());
        }
        let shown = vals.clone();
        let ins = inputs.clone();
        let judge = move |rs: &[Res]| {
            let mut j = TJudged::default();
            match (&rs[0].comp, &rs[1].comp) {
                (Comp::Unknown(_), _) | (_, Comp::Unknown(_)) => return j,
                (Comp::Rejected { .. }, Comp::Rejected { msg, .. }) => {
                    j.labels.push(format!("reference does not compile: {}", super::lang::short(msg)));
                    return j;
                }
                (Comp::Rejected { msg, .. }, Comp::Ok) => {
                    j.fail = Some(format!(
                        "these patterns are fine in a Rust match, but the grammar does not compile: {}",
                        super::lang::short(msg)
                    ));
                    return j;
                }
                (Comp::Ok, Comp::Rejected { msg, .. }) => {
                    j.broken = Some(format!("the reference alone does not compile: {}", msg));
                    return j;
                }
                _ => {}
            }
            for (k, (e, arg)) in ins.iter().enumerate() {
                let show = || -> String {
                    let v: Vec<&str> = arg.split_whitespace().map(|x| shown[x.parse::<usize>().unwrap()].as_str()).collect();
                    format!("[{}]", v.join(", "))
                };
                match rs[0].outs.get(k) {
                    Some(RawOut::Line(l)) => {
                        let f: Vec<&str> = l.split('\u{1f}').collect();
                        if f.len() != 3 || f[1] != f[2] {
                            j.fail = Some(format!(
                                "{} on {}:\n  parser:     {}\n  Rust match: {}",
                                if *e == 0 { "parsing the tokens" } else { "the error" },
                                show(),
                                f.get(1).unwrap_or(&"?"),
                                f.get(2).unwrap_or(&"?")
                            ));
                            return j;
                        }
                        let overlap = f[0].trim_matches(|c| c == '[' || c == ']').split(", ").any(|n| n != "1");
                        let captured = !f[1].contains(" ()\"");
                        if overlap || captured {
                            j.nontrivial.push(hash_of(&(e, arg)));
                        }
                        if overlap && *e == 1 {
                            j.labels.push("value matched by several patterns".into());
                        }
                    }
                    Some(RawOut::Crash(c)) => {
                        j.fail = Some(format!("the parser dies on {}: {}", show(), c));
                        return j;
                    }
                    _ => {}
                }
            }
            j
        };
        Some(TCase {
            progs: vec![
                Prog {
                    src: full,
                    inputs,
                    weight: 2,
                },
                Prog {
                    src: alone,
                    inputs: vec![],
                    weight: 1,
                },
            ],
            labels,
            readable,
            judge: Box::new(judge),
        })
    }
}

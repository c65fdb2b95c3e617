//! C19: what actions mean. Random typed Rust expressions as actions; the oracle is the same
//! expression as the body of a plain function with the binders as parameters, in the same scope.
//! Results, panics and the sequence of effects are compared.

use crate::gcheck::hash_of;
use crate::pipe::*;
use crate::src::*;
use crate::tape::*;
use std::fmt::Write;

pub struct Actions;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ty {
    U,
    B,
    S,
    St,
    V,
    O,
    P,
    En,
    T2,
    Un,
    Sl,
    Fp,
    Dy,
    Rs,
    D,
}
use Ty::*;

const TYPES: [Ty; 15] = [U, B, S, St, V, O, P, En, T2, Un, Sl, Fp, Dy, Rs, D];
/// those tokens carry
const PAYLOADS: [Ty; 8] = [U, B, S, St, V, O, P, T2];

fn name(t: Ty) -> &'static str {
    match t {
        U => "u32",
        B => "bool",
        S => "String",
        St => "&'static str",
        V => "Vec<u32>",
        O => "Option<u32>",
        P => "P",
        En => "En",
        T2 => "(u32, String)",
        Un => "()",
        Sl => "&'static [u32]",
        Fp => "fn(u32) -> u32",
        Dy => "Box<dyn Sho>",
        Rs => "Result<u32, String>",
        D => "d::D<u32>",
    }
}

fn copy(t: Ty) -> bool {
    matches!(t, U | B | St | O | Un | Sl | Fp)
}

fn cloneable(t: Ty) -> bool {
    !matches!(t, Dy | D)
}

const PRELUDE: &str = r#"
thread_local! { static LOG: std::cell::RefCell<(u32, Vec<String>, Vec<String>)> = Default::default(); }
pub fn note<T: std::fmt::Debug>(x: T) -> T { LOG.with(|l| l.borrow_mut().1.push(format!("{:?}", x))); x }
pub fn tick() -> u32 { LOG.with(|l| { let mut l = l.borrow_mut(); l.0 += 1; l.0 }) }
fn taken() -> String { LOG.with(|l| { let mut l = l.borrow_mut(); l.2.sort(); let r = format!("{}; dropped {}", l.1.join(" "), l.2.join(" ")); *l = Default::default(); r }) }
pub fn dropped<T: std::fmt::Debug>(x: T) { LOG.with(|l| l.borrow_mut().2.push(format!("{:?}", x))) }
#[derive(Debug, Clone, Default, PartialEq)] pub struct P { pub a: u32, pub b: String }
#[derive(Debug, Clone, PartialEq)] pub enum En { One, Two(u32), Three { x: u32, y: String } }
pub trait Sho: std::fmt::Debug { fn sho(&self) -> String { format!("{:?}", self) } }
impl Sho for u32 {}
impl Sho for String {}
impl Sho for P {}
pub trait Ext: Sized { fn dbl(self) -> u32; }
impl Ext for u32 { fn dbl(self) -> u32 { self % 1000 * 2 } }
impl Ext for bool { fn dbl(self) -> u32 { self as u32 + 10 } }
pub mod d {
    /// a value whose end shows (but not when it came)
    #[derive(Debug)] pub struct D<T: std::fmt::Debug>(pub T);
    impl<T: std::fmt::Debug> Drop for D<T> { fn drop(&mut self) { super::dropped(&self.0); } }
    pub fn inc(x: u32) -> u32 { x.wrapping_add(1) }
}
pub const K: u32 = 17;
pub static ST: &str = "static";
pub static ARR: [u32; 4] = [4, 3, 2, 1];
pub fn id<T>(x: T) -> T { x }
pub fn both<A, B>(a: A, b: B) -> (A, B) { (a, b) }
pub unsafe fn risky(x: u32) -> u32 { x ^ 5 }
impl P { pub const Z: u32 = 3; pub fn new(a: u32) -> Self { P { a, b: String::new() } } }
impl std::ops::Add<u32> for P { type Output = P; fn add(mut self, x: u32) -> P { self.a = self.a.wrapping_add(x); self } }
macro_rules! twice { ($e:expr) => { $e.wrapping_mul(2) }; ($e:expr, $f:expr) => { $e ^ $f } }
macro_rules! arms { ($($k:expr => $v:expr),* $(,)?) => { { let mut z = 0u32; $(if $k { z = z.wrapping_add($v); })* z } } }
"#;

struct Var {
    name: String,
    ty: Ty,
    mutable: bool,
    gone: bool,
}

struct Ex<'s> {
    s: &'s mut Src,
    vars: Vec<Var>,
    /// no moves inside loops, closures and branches
    still: usize,
    fresh: usize,
    size: usize,
    /// the context says which type is meant
    typed: bool,
    labels: Vec<&'static str>,
}

impl<'s> Ex<'s> {
    fn fresh(&mut self) -> String {
        self.fresh += 1;
        let pool = ["q", "w", "tmp", "acc", "state", "token", "input", "f0", "x", "value_stack"];
        format!("{}{}", self.s.pick(&pool), self.fresh)
    }

    fn note(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    fn var(&mut self, t: Ty) -> Option<String> {
        let ok: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i].ty == t && !self.vars[*i].gone).collect();
        if ok.is_empty() {
            return None;
        }
        let i = *self.s.pick(&ok);
        let n = self.vars[i].name.clone();
        if copy(t) {
            return Some(n);
        }
        if self.still == 0 && (!cloneable(t) || self.s.chance(1, 2)) {
            self.vars[i].gone = true;
            return Some(n);
        }
        if cloneable(t) {
            return Some(format!("{}.clone()", n));
        }
        None
    }

    fn scoped<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let n = self.vars.len();
        let r = f(self);
        self.vars.truncate(n);
        r
    }

    fn held<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        self.still += 1;
        let r = f(self);
        self.still -= 1;
        r
    }

    /// a branch: nothing in it runs for sure
    fn branch(&mut self, t: Ty, d: usize) -> String {
        self.held(|x| x.scoped(|x| x.ex(t, d)))
    }

    fn ubranch(&mut self, t: Ty, d: usize) -> String {
        self.held(|x| x.scoped(|x| x.un(t, d)))
    }

    /// where the type follows from the context
    fn kn(&mut self, t: Ty, d: usize) -> String {
        let was = std::mem::replace(&mut self.typed, true);
        let e = self.ex(t, d);
        self.typed = was;
        e
    }

    /// where it does not
    fn un(&mut self, t: Ty, d: usize) -> String {
        let was = std::mem::replace(&mut self.typed, false);
        let e = self.ex(t, d);
        self.typed = was;
        e
    }

    /// an operand: `un` with whatever parentheses it needs
    fn op(&mut self, t: Ty, d: usize) -> String {
        let e = self.un(t, d);
        let simple = e.chars().all(|c| c.is_alphanumeric() || c == '_');
        if simple {
            e
        } else {
            format!("({})", e)
        }
    }

    fn lit(&mut self, t: Ty) -> String {
        let u = ["7", "0x1F", "1_000u32", "0b101", "b'a' as u32", "'c' as u32", "0", "12u8.into()", "K", "P::Z", "ARR[2]", "u32::MAX", "0o17"];
        let st = ["\"lit\"", "r#\"raw \"quoted\" \"#", "\"esc \\n \\\" \\u{e9}\"", "ST", "concat!(\"a\", 1, 'b')", "\"\"", "r\"=> , ; }\""];
        if !self.typed {
            return match t {
                U => self.s.pick(&["7u32", "0x1F_u32", "K", "P::Z", "ARR[2]", "b'a' as u32", "u32::MAX", "u32::from(12u8)"]).to_string(),
                V => self.s.pick(&["vec![1u32, 2, 3]", "Vec::<u32>::new()", "vec![K; 2]", "(0..4u32).collect::<Vec<_>>()", "ARR.to_vec()"]).to_string(),
                O => self.s.pick(&["None::<u32>", "Some(3u32)", "Option::<u32>::None", "\"12\".parse::<u32>().ok()", "ARR.first().copied()"]).to_string(),
                T2 => self.s.pick(&["(1u32, \"t\".to_string())", "both(2u32, String::new())"]).to_string(),
                Sl => self.s.pick(&["&ARR[..]", "&ARR[1..3]", "ARR.split_at(2).0"]).to_string(),
                Fp => self.s.pick(&["(d::inc as fn(u32) -> u32)", "(u32::dbl as fn(u32) -> u32)", "{ let f: fn(u32) -> u32 = |x| x / 2; f }"]).to_string(),
                Dy => self.s.pick(&["(Box::new(4u32) as Box<dyn Sho>)", "(Box::new(P::new(3)) as Box<dyn Sho>)"]).to_string(),
                Rs => self.s.pick(&["Ok::<u32, String>(1)", "Err::<u32, _>(\"no\".to_string())"]).to_string(),
                D => self.s.pick(&["d::D(tick())", "d::D(5u32)", "d::D(K)"]).to_string(),
                P => self.s.pick(&["P { a: 1, b: String::from(\"p\") }", "P::new(4)", "P::default()", "<P>::new(5)"]).to_string(),
                _ => {
                    self.typed = true;
                    let e = self.lit(t);
                    self.typed = false;
                    e
                }
            };
        }
        match t {
            U => self.s.pick(&u).to_string(),
            B => self.s.pick(&["true", "false", "!true", "K > 3", "1 < 2 && 'a' < 'b'"]).to_string(),
            St => self.s.pick(&st).to_string(),
            S => format!("{}.to_string()", self.s.pick(&st)),
            V => self.s.pick(&["vec![1, 2, 3]", "Vec::new()", "vec![K; 2]", "(0..4).collect()", "ARR.to_vec()", "<Vec<u32>>::with_capacity(3)", "Default::default()"]).to_string(),
            O => self.s.pick(&["None", "Some(3)", "Option::<u32>::None", "\"12\".parse().ok()", "ARR.first().copied()"]).to_string(),
            P => self.s.pick(&["P { a: 1, b: String::from(\"p\") }", "P::new(4)", "P { b: \"q\".into(), ..Default::default() }", "P::default()", "<P>::new(5)"]).to_string(),
            En => self.s.pick(&["En::One", "En::Two(5)", "En::Three { x: 1, y: \"t\".into() }", "self::En::One"]).to_string(),
            T2 => self.s.pick(&["(1, \"t\".into())", "both(2, String::new())", "both::<u32, String>(3, \"c\".to_string())"]).to_string(),
            Un => self.s.pick(&["()", "{}", "drop(3)", "{ note('u'); }", "if K > 3 { note(1); }"]).to_string(),
            Sl => self.s.pick(&["&[1, 2, 3]", "&ARR", "&ARR[1..3]", "&[]", "ARR.split_at(2).0"]).to_string(),
            Fp => self.s.pick(&["|x| x.wrapping_add(1)", "d::inc", "u32::dbl", "|x: u32| -> u32 { x / 2 }", "id", "u32::swap_bytes"]).to_string(),
            Dy => self.s.pick(&["Box::new(4)", "Box::new(P::new(3))", "Box::new(String::from(\"dyn\"))"]).to_string(),
            Rs => self.s.pick(&["Ok(1)", "Err(\"no\".into())", "\"7\".parse().map_err(|e: std::num::ParseIntError| e.to_string())", "Ok(K)"]).to_string(),
            D => self.s.pick(&["d::D(tick())", "d::D(5)", "d::D(K)"]).to_string(),
        }
    }

    fn leaf(&mut self, t: Ty) -> String {
        match self.var(t) {
            Some(v) if !self.s.chance(1, 6) => v,
            _ => self.lit(t),
        }
    }

    fn ex(&mut self, t: Ty, d: usize) -> String {
        self.size += 1;
        if d == 0 || self.size > 40 {
            return self.leaf(t);
        }
        let d = d - 1;
        if self.s.chance(1, 3) {
            return self.any(t, d);
        }
        if self.s.chance(1, 5) {
            let ok: Vec<(String, Ty)> = self.vars.iter().filter(|v| v.mutable && !v.gone && matches!(v.ty, U | B | S | V | O | P | T2)).map(|v| (v.name.clone(), v.ty)).collect();
            if !ok.is_empty() {
                self.note("a mut binder or local is changed");
                let (v, u) = self.s.pick(&ok).clone();
                let st = match u {
                    U => format!("{v} = {v}.wrapping_add({});", self.kn(U, d)),
                    B => format!("{v} ^= {};", self.kn(B, d)),
                    S => format!("{v}.push_str({});", self.kn(St, d)),
                    V => format!("{v}.push({});", self.kn(U, d)),
                    O => format!("note({v}.replace({}));", self.kn(U, d)),
                    P => format!("{v}.a = {};", self.kn(U, d)),
                    _ => format!("std::mem::swap(&mut {v}.0, &mut {});", self.op(U, d)),
                };
                return format!("{{ {} {} }}", st, self.ex(t, d));
            }
        }
        if t != Fp && self.s.chance(1, 12) {
            self.note("effects in order");
            return format!("note({})", self.un(t, d));
        }
        // forms that rely on the context
        if !self.typed && matches!(t, Dy | Sl | Fp | Rs | O) {
            return match (t, self.s.below(3)) {
                (Dy, 0) => format!("(Box::new({}) as Box<dyn Sho>)", self.un(S, d)),
                (Dy, 1) => format!("(Box::new({}) as Box<dyn Sho>)", self.un(P, d)),
                (Rs, 0) => format!("Ok::<u32, String>({})", self.kn(U, d)),
                (Rs, 1) => format!("Err::<u32, String>({})", self.kn(S, d)),
                (O, 0) => format!("Some::<u32>({})", self.kn(U, d)),
                (O, 1) => format!("{}.first().copied()", self.op(V, d)),
                _ => self.leaf(t),
            };
        }
        match t {
            U => self.num(d),
            B => match self.s.below(9) {
                0 => format!("{} < {}", self.op(U, d), self.op(U, d)),
                1 => format!("{} == {} || {}", self.op(U, d), self.op(U, d), self.op(B, d)),
                2 => format!("!{} & {}", self.op(B, d), self.op(B, d)),
                3 => format!("matches!({}, Some(1 | 2..=9) | None)", self.un(O, d)),
                4 => format!("{}.is_empty()", self.op(V, d)),
                5 => format!("(3..=40).contains(&{})", self.op(U, d)),
                6 => format!("{} && {} ^ {}", self.op(B, d), self.op(B, d), self.op(B, d)),
                7 => format!("{} as usize as u8 > {}.len() as u8", self.op(U, d), self.op(St, d)),
                _ => self.leaf(t),
            },
            S => match self.s.below(9) {
                0 => {
                    let v = self.vars.iter().filter(|v| !v.gone && !matches!(v.ty, Un | Fp) && !v.name.starts_with("r#")).map(|v| v.name.clone()).collect::<Vec<_>>();
                    if v.is_empty() {
                        return self.leaf(t);
                    }
                    let v = self.s.pick(&v).clone();
                    self.note("binder captured by a format string");
                    let e = self.op(U, d);
                    if self.s.chance(1, 2) { format!("format!(\"{{{}:?}}\")", v) } else { format!("format!(\"{{{}:?}} and {{:>5}}, {{0:#x}}\", {})", v, e) }
                }
                1 => format!("{} + {}", self.op(S, d), self.op(St, d)),
                2 => format!("{}.to_uppercase()", self.op(St, d)),
                3 => format!("format!(\"{{}}-{{0:?}}{{a}}\", {}, a = {})", self.un(U, d), self.un(U, d)),
                4 => format!("[{}, {}.into()].concat()", self.un(S, d), self.op(St, d)),
                5 => format!("{}.1", self.op(T2, d)),
                6 => format!("{}.b", self.op(P, d)),
                7 => format!("{}.sho()", self.op(Dy, d)),
                _ => format!("{}.repeat(({} % 3) as usize)", self.op(St, d), self.op(U, d)),
            },
            St => match self.s.below(4) {
                0 => format!("if {} {{ {} }} else {{ {} }}", self.un(B, d), self.ubranch(St, d), self.ubranch(St, d)),
                1 => format!("&{}[..]", self.op(St, d)),
                2 => format!("&*Box::leak({}.into_boxed_str())", self.op(S, d)),
                _ => self.leaf(t),
            },
            V => match self.s.below(7) {
                0 => format!("vec![{}, {}]", self.un(U, d), self.un(U, d)),
                1 => format!("{}.into_iter().map(|v| v % 7 + 1).filter(|&v| v > 2).collect{}()", self.op(V, d), if self.typed { "" } else { "::<Vec<u32>>" }),
                2 => {
                    let q = self.fresh();
                    let v = self.un(V, d);
                    let e = self.un(U, d);
                    format!("{{ let mut {q} = {v}; {q}.push({e}); {q} }}")
                }
                3 => format!("[{}, vec![{}; 2]].concat()", self.un(V, d), self.un(U, d)),
                4 => format!("{}.bytes().map(u32::from).collect::<Vec<_>>()", self.op(St, d)),
                5 => format!("(0..{} % 4).rev().collect::<Vec<u32>>()", self.op(U, d)),
                _ => format!("{}.iter().chain({}.iter()).copied().collect::<Vec<u32>>()", self.op(Sl, d), self.op(Sl, d)),
            },
            O => match self.s.below(6) {
                0 => format!("Some({})", self.ex(U, d)),
                1 => format!("{}.pop()", self.mutable(V, d)),
                2 => format!("{}.map(|v| v / 2).or({})", self.op(O, d), self.un(O, d)),
                3 => format!("{}.first().copied()", self.op(V, d)),
                4 => format!("{}.then(|| {})", self.op(B, d), self.ubranch(U, d)),
                _ => format!("{}.ok()", self.op(Rs, d)),
            },
            P => match self.s.below(5) {
                0 => format!("P {{ a: {}, b: {} }}", self.kn(U, d), self.kn(S, d)),
                1 => format!("P {{ a: {}, ..{} }}", self.kn(U, d), self.kn(P, d)),
                2 => format!("{} + {}", self.op(P, d), self.op(U, d)),
                3 => format!("{{ let mut z = {}; z.a = {}; z }}", self.un(P, d), self.un(U, d)),
                _ => format!("{{ let b = {}; let a = {}; P {{ a, b, }} }}", self.un(S, d), self.un(U, d)),
            },
            En => match self.s.below(3) {
                0 => format!("En::Two({})", self.kn(U, d)),
                1 => format!("En::Three {{ y: {}, x: {} }}", self.kn(S, d), self.kn(U, d)),
                _ => format!("{{ use En::*; if {} {{ One }} else {{ Two(1) }} }}", self.un(B, d)),
            },
            T2 => match self.s.below(3) {
                0 => format!("({}, {})", self.ex(U, d), self.ex(S, d)),
                1 => format!("both::<u32, String>({}, {})", self.kn(U, d), self.kn(S, d)),
                _ => format!("({}, {}.{}(),)", self.un(U, d), self.op(St, d), if self.typed { "into" } else { "to_string" }),
            },
            Un => match self.s.below(4) {
                0 => format!("drop({})", self.un(U, d)),
                1 => format!("{{ note({}); }}", self.un(U, d)),
                2 => format!("for i in 0..{} % 3 {{ note(i); }}", self.op(U, d)),
                _ => format!("if {} {{ note({}); }}", self.un(B, d), self.ubranch(U, d)),
            },
            Sl => match self.s.below(3) {
                0 => format!("Box::leak({}.into_boxed_slice())", self.op(V, d)),
                1 => format!("&{}[..1]", self.op(Sl, d)),
                _ => self.leaf(t),
            },
            Fp => match self.s.below(3) {
                0 => format!("match {} {{ true => |x| x, false => d::inc }}", self.un(B, d)),
                1 => format!("{{ fn local(x: u32) -> u32 {{ x.wrapping_mul(3) }} note({}); local }}", self.un(U, d)),
                _ => self.leaf(t),
            },
            Dy => match self.s.below(4) {
                0 => format!("Box::new({})", self.un(P, d)),
                1 => format!("Box::new({})", self.un(S, d)),
                2 => format!("if {} {{ Box::new({}) }} else {{ Box::new(K) }}", self.un(B, d), self.ubranch(S, d)),
                _ => self.leaf(t),
            },
            Rs => match self.s.below(4) {
                0 => format!("Ok({})", self.ex(U, d)),
                1 => format!("Err({})", self.ex(S, d)),
                2 => format!("{}.ok_or({})", self.op(O, d), self.un(S, d)),
                _ => {
                    // `?` inside a closure
                    self.note("? inside a closure");
                    let a = self.ubranch(Rs, d);
                    let b = paren(&self.ubranch(U, d));
                    format!("(|| {{ let y: u32 = ({a})?; if y > 100 {{ return Err(String::from(\"big\")); }} Ok(y ^ {b}) }})()")
                }
            },
            D => {
                self.note("values whose drop is an effect");
                match self.s.below(3) {
                    0 => format!("d::D({})", self.un(U, d)),
                    1 => {
                        let q = self.fresh();
                        let (a, b) = (self.un(D, d), self.un(U, d));
                        format!("{{ let {q} = {a}; d::D({b}.wrapping_add({q}.0)) }}", b = paren(&b))
                    }
                    _ => self.leaf(t),
                }
            }
        }
    }

    /// a place that can be changed
    fn mutable(&mut self, t: Ty, d: usize) -> String {
        let ok: Vec<String> = self.vars.iter().filter(|v| v.ty == t && v.mutable && !v.gone).map(|v| v.name.clone()).collect();
        if !ok.is_empty() {
            self.note("a mut binder or local is changed");
            return self.s.pick(&ok).clone();
        }
        format!("{{ {} }}", self.ex(t, d))
    }

    fn num(&mut self, d: usize) -> String {
        match self.s.below(30) {
            0 => format!("{} % 89 + {} % 97 * 3 ^ {} & 6 | 1 << 2", self.op(U, d), self.op(U, d), self.op(U, d)),
            1 => format!("{} % 50 * {} - 0", self.op(U, d), self.s.below(40)),
            2 => format!("{} as u8 as u32 >> 1", self.op(U, d)),
            3 => format!("({} < {}) as u32", self.op(U, d), self.op(U, d)),
            4 => format!("{}.wrapping_add({})", self.op(U, d), self.kn(U, d)),
            5 => format!("match {} {{ Some(v) if v > 3 => v, Some(0 | 1) => {}, _ => {}, }}", self.op(O, d), self.ubranch(U, d), self.ubranch(U, d)),
            6 => format!("if let Some(v) = {} {{ v }} else if {} {{ {} }} else {{ {} }}", self.op(O, d), self.ubranch(B, d), self.ubranch(U, d), self.ubranch(U, d)),
            7 => format!("{}.iter().map(|v| v % 3).sum::<u32>()", self.op(V, d)),
            8 => format!("{}.into_iter().fold({}, |x: u32, y| x ^ y)", self.op(V, d), self.kn(U, d)),
            9 => format!("{{ fn helper<T: Into<u64>>(a: T) -> u32 {{ (a.into() % 1000) as u32 }} helper::<u32>({}) }}", self.kn(U, d)),
            10 => format!("{{ struct Q(u32, #[allow(dead_code)] u8); let Q(w, ..) = Q({}, 1); w }}", self.kn(U, d)),
            11 => format!("unsafe {{ risky({}) }}", self.kn(U, d)),
            12 => format!("<u32 as Ext>::dbl({})", self.kn(U, d)),
            13 => format!("{}.dbl()", self.op(B, d)),
            14 => format!("{}.len() as u32", self.op(V, d)),
            15 => format!("ARR[{} as usize % 4]", self.op(U, d)),
            16 => format!("{}.0", self.op(T2, d)),
            17 => format!("{}.a", self.op(P, d)),
            18 => format!("match {} {{ En::One => 1, En::Two(n) => n, En::Three {{ x, y: _ }} => x }}", self.op(En, d)),
            19 => {
                self.note("own macro");
                match self.s.below(4) {
                    0 => format!("twice!({})", self.un(U, d)),
                    1 => format!("twice![{}, {}]", self.un(U, d), self.un(U, d)),
                    2 => format!("arms! {{ {} => {}, {} => 4, }}", self.ubranch(B, d), self.ubranch(U, d), self.ubranch(B, d)),
                    _ => format!("arms!({} => {})", self.ubranch(B, d), self.ubranch(U, d)),
                }
            }
            20 => {
                let q = self.fresh();
                let n = self.un(U, d);
                let e = self.held(|x| x.scoped(|x| { x.vars.push(Var { name: q.clone(), ty: U, mutable: false, gone: false }); x.un(U, d) }));
                format!("{{ let mut z = 0u32; for {q} in 0..{n} % 5 {{ if {q} == 3 {{ continue; }} z = z.wrapping_add({e}); }} z }}", n = paren(&n), e = e)
            }
            21 => format!("'l: loop {{ loop {{ break 'l {}; }} }}", paren(&self.ubranch(U, d))),
            22 => format!("{{ let mut n = {} % 6; while n > 2 {{ n -= 1; note(n); }} n }}", self.op(U, d)),
            23 => {
                let q = self.fresh();
                let e = self.held(|x| x.scoped(|x| { x.vars.push(Var { name: q.clone(), ty: U, mutable: false, gone: false }); x.un(U, d) }));
                format!("(|{q}: u32| -> u32 {{ {e} }})({})", self.un(U, d))
            }
            24 => {
                self.note("effects in order");
                format!("note({})", self.un(U, d))
            }
            25 => {
                self.note("effects in order");
                "tick()".into()
            }
            26 => format!("{}({})", self.op(Fp, d), self.kn(U, d)),
            27 => format!("{}.unwrap_or_default()", self.op(O, d)),
            28 => format!("u32::from({}) + self::K", self.op(B, d)),
            _ if self.typed => match self.s.below(6) {
                0 => {
                    self.note("diverges");
                    "panic!(\"boom\")".into()
                }
                1 => format!("{{ let Some(v) = ({}) else {{ panic!(\"none {{}}\", 1) }}; v }}", self.un(O, d)),
                2 => format!("{}.unwrap()", self.op(Rs, d)),
                3 => format!("10 / ({} % 3)", self.op(U, d)),
                4 => format!("{{ assert!({}, \"assertion {{}}\", 2); 3 }}", self.un(B, d)),
                _ => format!("{{ let f = async {{ {} }}; drop(f); 2 }}", self.ubranch(U, d)),
            },
            _ => format!("{}.unwrap()", self.op(O, d)),
        }
    }

    /// forms that exist for every type
    fn any(&mut self, t: Ty, d: usize) -> String {
        match self.s.below(14) {
            0 => format!("if {} {{ {} }} else {{ {} }}", self.un(B, d), self.branch(t, d), self.branch(t, d)),
            1 | 2 => {
                // a block with statements; the local may shadow a binder
                let u = *self.s.pick(&[U, S, V, O, P]);
                let e = self.ex(u, d);
                let shadow = self.vars.iter().filter(|v| v.ty == u).map(|v| v.name.clone()).collect::<Vec<_>>();
                let q = if !shadow.is_empty() && self.s.chance(1, 2) { self.s.pick(&shadow).clone() } else { self.fresh() };
                let m = self.s.chance(1, 2);
                let hidden: Vec<usize> = (0..self.vars.len()).filter(|i| self.vars[*i].name == q && !self.vars[*i].gone).collect();
                for i in &hidden {
                    self.vars[*i].gone = true;
                }
                let (stmt, body) = self.scoped(|x| {
                    x.vars.push(Var { name: q.clone(), ty: u, mutable: m, gone: false });
                    let st = match (m, u) {
                        (true, U) => format!("{} ^= {};", q, x.un(U, d)),
                        (true, S) => format!("{}.push_str({});", q, x.un(St, d)),
                        (true, V) => format!("{}.retain(|v| v % 2 == 1);", q),
                        (true, O) => format!("{}.take();", q),
                        (true, _) => format!("{}.a += 1;", q),
                        _ => String::new(),
                    };
                    (st, x.ex(t, d))
                });
                for i in hidden {
                    self.vars[i].gone = false;
                    if self.still == 0 && !copy(self.vars[i].ty) {
                        self.vars[i].gone = true;
                    }
                }
                format!("{{ let {}{} = {}; {} {} }}", if m { "mut " } else { "" }, q, e, stmt, body)
            }
            3 => format!("id::<{}>({})", name(t), self.kn(t, d)),
            4 => format!("({})", self.ex(t, d)),
            5 => format!("match ({}, {}) {{ (true, x) if x > 2 => {}, (_, 0..=9) => {}, _ => {} }}", self.un(B, d), self.un(U, d), self.branch(t, d), self.branch(t, d), self.branch(t, d)),
            6 => format!("{{ note({}); {} }}", self.un(U, d), self.ex(t, d)),
            7 => {
                self.note("attributes in the action");
                let g = *self.s.pick(&["any()", "all()", "not(any())", "debug_assertions", "not(debug_assertions)"]);
                let (a, b) = (self.held(|x| x.scoped(|x| x.kn(t, d))), if cloneable(t) { self.kn(t, d) } else { self.ex(t, d) });
                if cloneable(t) {
                    format!("{{ #[allow(unused)] let z: {ty} = {b}; #[cfg({g})] #[allow(unused)] let z: {ty} = {a}; z }}", ty = name(t))
                } else {
                    format!("{{ #[cfg({g})] note(\"cfg\"); {b} }}")
                }
            }
            8 => format!("'b: {{ if {} {{ break 'b {}; }} {} }}", self.un(B, d), paren(&self.branch(t, d)), self.branch(t, d)),
            9 => format!("both({}, {}).1", self.un(U, d), self.un(t, d)),
            10 => format!("{{ const C: u32 = 3 + K; type X = {}; let z: X = {}; note(C); z }}", name(t), self.kn(t, d)),
            11 => format!("loop {{ break {}; }}", paren(&self.branch(t, d))),
            12 if self.typed && self.s.chance(1, 6) => {
                self.note("diverges");
                self.s.pick(&["panic!(\"any {}\", 3)", "unreachable!()", "todo!()", "{ panic!(\"block\") }", "loop { panic!(\"loop\") }"]).to_string()
            }
            _ => format!("std::convert::identity({})", self.ex(t, d)),
        }
    }
}

fn paren(e: &str) -> String {
    format!("({})", e)
}

struct Sym {
    /// token type (as payload index) or 1000 + non-terminal
    id: usize,
    /// binder: name, mut
    bind: Option<(String, bool)>,
}

struct Prod {
    rhs: Vec<Sym>,
    action: String,
}

struct Nt {
    ty: Ty,
    public: bool,
    /// its productions begin with a token of their own
    keyed: bool,
    prods: Vec<Prod>,
}

/// A derivation: production, children in order
struct Tree {
    nt: usize,
    p: usize,
    kids: Vec<Kid>,
}

enum Kid {
    Tok(usize, String),
    Sub(Tree),
}

impl TProp for Actions {
    fn tape_len(&self) -> usize {
        700
    }

    fn build(&self, s: &mut Src) -> Option<TCase> {
        let site = s.weighted(&[4, 3, 3, 2, 4]);
        let n = s.range(1, 4);
        let mut nts: Vec<Nt> = vec![];
        let mut labels: Vec<String> = vec![];
        let binders = ["x", "y", "value", "lhs", "state", "token", "input", "r#type", "node", "z", "_v", "K2", "token_", "f0"];
        for i in 0..n {
            // an empty production, for its effects, or one that needs no token of its own
            let marker = i + 1 < n && s.chance(1, 3);
            let ty = if marker && s.chance(1, 2) { Un } else { *s.pick(&TYPES) };
            let mut prods = vec![];
            let count = if marker { 1 } else { s.range(1, 3) };
            let keyed = !marker && (count > 1 || s.chance(2, 3));
            for _ in 0..count {
                let len = if marker { 0 } else { s.weighted(&[1, 4, 5, 3, 1]) };
                let mut rhs = vec![];
                let mut vars = vec![];
                let mut names: Vec<&str> = binders.to_vec();
                for _ in 0..len {
                    let id = if i > 0 && s.chance(1, 2) { 1000 + s.below(i) } else { s.below(PAYLOADS.len()) };
                    let t = if id >= 1000 { nts[id - 1000].ty } else { PAYLOADS[id] };
                    let bind = if s.chance(5, 6) {
                        let k = s.below(names.len());
                        let nm = names.remove(k).to_string();
                        let m = s.chance(1, 3);
                        vars.push(Var { name: nm.clone(), ty: t, mutable: m, gone: false });
                        Some((nm, m))
                    } else {
                        None
                    };
                    rhs.push(Sym { id, bind });
                }
                let depth = s.range(0, 4);
                let mut x = Ex { s, vars, still: 0, fresh: 0, size: 0, typed: true, labels: vec![] };
                let mut action = x.ex(ty, depth);
                if marker {
                    x.note("an empty production with an effect");
                    action = match x.s.below(3) {
                        0 => format!("{{ note({}); {} }}", i + 50, action),
                        1 if ty == Un => format!("drop(note({}))", i + 50),
                        _ => format!("if note({}) > 9 {{ {} }} else {{ unreachable!() }}", i + 50, action),
                    };
                }
                labels.extend(x.labels.iter().map(|l| l.to_string()));
                prods.push(Prod { rhs, action });
            }
            nts.push(Nt { ty, public: i + 1 == n || s.chance(1, 2), keyed, prods });
        }
        // productions begin with a token of their own, unless they are their non-terminal's only one
        let mut keys = 0;
        let key: Vec<Vec<usize>> = nts.iter().map(|n| n.prods.iter().map(|_| { keys += 1; keys - 1 }).collect()).collect();
        // ---- the grammar and the plain functions
        let mut g = String::from("enum Tok {\n");
        for k in 0..keys {
            writeln!(g, "    \"k{}\" => Tok::K({}),", k, k).unwrap();
        }
        for (k, t) in PAYLOADS.iter().enumerate() {
            writeln!(g, "    \"v{}\" => Tok::V{}(<{}>),", k, k, name(*t)).unwrap();
        }
        g.push_str("    \"other\" => _,\n}\n");
        let mut plain = String::new();
        // as fragments of a macro: binders, actions and types
        let mut frag_pats: Vec<String> = vec![];
        let mut frag_args: Vec<String> = vec![];
        for (i, n) in nts.iter().enumerate() {
            let ty = if site == 4 {
                frag_pats.push(format!("$t{}:ty", i));
                frag_args.push(name(n.ty).to_string());
                format!("$t{}", i)
            } else {
                name(n.ty).to_string()
            };
            write!(g, "{}N{}: {} = {{\n", if n.public { "pub " } else { "" }, i, ty).unwrap();
            for (j, p) in n.prods.iter().enumerate() {
                if n.keyed {
                    write!(g, "    \"k{}\"", key[i][j]).unwrap();
                }
                let mut params = vec![];
                for (k, y) in p.rhs.iter().enumerate() {
                    let (sym, t) = if y.id >= 1000 {
                        (format!("N{}", y.id - 1000), nts[y.id - 1000].ty)
                    } else {
                        (format!("\"v{}\"", y.id), PAYLOADS[y.id])
                    };
                    match &y.bind {
                        Some((b, m)) => {
                            let m = if *m { "mut " } else { "" };
                            let b = if site == 4 {
                                let f = format!("b{}_{}_{}", i, j, k);
                                frag_pats.push(format!("${}:ident", f));
                                frag_args.push(b.clone());
                                format!("${}", f)
                            } else {
                                b.clone()
                            };
                            write!(g, " <{}{}: {}>", m, b, sym).unwrap();
                            params.push(format!("{}{}: {}", m, b, name(t)));
                        }
                        None => write!(g, " {}", sym).unwrap(),
                    }
                }
                let action = if site == 4 {
                    let f = format!("a{}_{}", i, j);
                    frag_pats.push(format!("${}:expr", f));
                    frag_args.push(p.action.clone());
                    format!("${}", f)
                } else {
                    p.action.clone()
                };
                writeln!(g, " => {},", action).unwrap();
                writeln!(plain, "fn want{}_{}({}) -> {} {{ {} }}", i, j, params.join(", "), ty, action).unwrap();
            }
            g.push_str("};\n");
        }
        // ---- calls
        fn derive(s: &mut Src, nts: &[Nt], nt: usize, size: &mut usize) -> Tree {
            *size += 1;
            let p = s.below(nts[nt].prods.len());
            let mut kids = vec![];
            for y in &nts[nt].prods[p].rhs {
                if y.id >= 1000 {
                    kids.push(Kid::Sub(derive(s, nts, y.id - 1000, size)));
                } else {
                    let v: &[&str] = match PAYLOADS[y.id] {
                        U => &["5", "0", "77", "4000000000"],
                        B => &["true", "false"],
                        S => &["String::from(\"payload\")", "String::new()"],
                        St => &["\"tok\"", "\"\""],
                        V => &["vec![9, 8, 7]", "vec![]", "vec![2]"],
                        O => &["Some(6)", "None", "Some(1)"],
                        P => &["P::new(8)", "P { a: 2, b: \"bb\".into() }"],
                        _ => &["(3, String::from(\"pair\"))", "(0, String::new())"],
                    };
                    kids.push(Kid::Tok(y.id, s.pick(v).to_string()));
                }
            }
            Tree { nt, p, kids }
        }
        fn words(t: &Tree, nts: &[Nt], key: &[Vec<usize>], out: &mut String) {
            if nts[t.nt].keyed {
                write!(out, "Tok::K({}), ", key[t.nt][t.p]).unwrap();
            }
            for k in &t.kids {
                match k {
                    Kid::Tok(i, v) => write!(out, "Tok::V{}({}), ", i, v).unwrap(),
                    Kid::Sub(x) => words(x, nts, key, out),
                }
            }
        }
        /// statements that evaluate the tree as `e{n}`; unbound values are dropped, last first
        fn plain_eval(t: &Tree, nts: &[Nt], out: &mut String, n: &mut usize) -> usize {
            let mut vals = vec![];
            for k in &t.kids {
                match k {
                    Kid::Tok(_, v) => vals.push(paren(v)),
                    Kid::Sub(x) => vals.push(format!("e{}", plain_eval(x, nts, out, n))),
                }
            }
            let mut args = vec![];
            for (k, y) in nts[t.nt].prods[t.p].rhs.iter().enumerate() {
                match y.bind {
                    Some(_) => args.push(vals[k].clone()),
                    None => {}
                }
            }
            for (k, y) in nts[t.nt].prods[t.p].rhs.iter().enumerate().rev() {
                if y.bind.is_none() {
                    let t = if y.id >= 1000 { nts[y.id - 1000].ty } else { PAYLOADS[y.id] };
                    writeln!(out, "drop::<{}>({});", name(t), vals[k]).unwrap();
                }
            }
            *n += 1;
            writeln!(out, "let e{} = want{}_{}({});", n, t.nt, t.p, args.join(", ")).unwrap();
            *n
        }
        let shown = |t: Ty| match t {
            Fp => "format!(\"{}\", r(5))",
            Dy => "r.sho()",
            D => "format!(\"{:?}\", &r.0)",
            _ => "format!(\"{:?}\", r)",
        };
        let mut parse = String::from("fn parsed(e: usize) -> String { match e {\n");
        let mut want = String::from("fn expected(e: usize) -> String { match e {\n");
        let mut inputs = vec![];
        let mut nodes = vec![];
        for (i, n) in nts.iter().enumerate() {
            if !n.public {
                continue;
            }
            for _ in 0..s.range(2, 5) {
                let mut size = 0;
                let t = derive(s, &nts, i, &mut size);
                if size > 40 {
                    continue;
                }
                let e = inputs.len();
                let mut w = String::new();
                words(&t, &nts, &key, &mut w);
                writeln!(
                    parse,
                    "{e} => match N{i}::parse::<u8>(vec![{w}].into_iter().map(Ok)) {{ Ok(r) => {}, Err(x) => format!(\"error {{:?}}\", x) }},",
                    shown(n.ty)
                )
                .unwrap();
                let mut body = String::new();
                let k = plain_eval(&t, &nts, &mut body, &mut 0);
                writeln!(want, "{e} => {{ {body} let r = e{k}; {} }}", shown(n.ty)).unwrap();
                inputs.push((e, String::new()));
                nodes.push(size);
            }
        }
        if inputs.is_empty() {
            return None;
        }
        parse.push_str("_ => unreachable!() } }\n");
        want.push_str("_ => unreachable!() } }\n");
        let go = "pub fn go(e: usize) -> String {\n\
             fn show(r: std::thread::Result<String>) -> String { let s = match r { Ok(s) => s, Err(e) => match (e.downcast_ref::<String>(), e.downcast_ref::<&'static str>()) { (Some(s), _) => format!(\"panic {}\", s), (_, Some(s)) => format!(\"panic {}\", s), _ => \"panic?\".to_string() } }; format!(\"{:?}\", (s, taken())) }\n\
             let a = PARSED; let b = show(std::panic::catch_unwind(|| expected(e)));\n\
             format!(\"{}\\u{1f}{}\", a, b) }\n";
        let decl_toks: String = PAYLOADS.iter().enumerate().map(|(k, t)| format!("V{}({}), ", k, name(*t))).collect();
        let tok = format!("#[derive(Debug)] pub enum Tok {{ K(usize), {} }}\n", decl_toks);
        let place = |with: bool| {
            let mac = if with { format!("use parsegen::parser;\nparser! {{\n{}}}\n{}", g, parse) } else { String::new() };
            let go = go.replace("PARSED", if with { "show(std::panic::catch_unwind(|| parsed(e)))" } else { "String::new()" });
            match site {
                0 => format!("{PRELUDE}{tok}{mac}{plain}{want}{go}pub fn run(e: usize, _: &str) -> String {{ go(e) }}\n"),
                1 => format!("{PRELUDE}{tok}pub fn run(e: usize, _: &str) -> String {{\n{mac}{plain}{want}{go}go(e) }}\n"),
                2 => format!("{PRELUDE}{tok}mod inner {{ use super::*;\npub mod deep {{ use super::super::*;\n{mac}{plain}{want}{go}}} }}\npub fn run(e: usize, _: &str) -> String {{ inner::deep::go(e) }}\n"),
                3 => format!("{PRELUDE}{tok}macro_rules! place {{ ($($t:tt)*) => {{ $($t)* }} }}\nplace! {{\n{mac}{plain}{want}{go}}}\npub fn run(e: usize, _: &str) -> String {{ go(e) }}\n"),
                _ => {
                    let mac = if with { format!("use parsegen::parser;\nparser! {{\n{}}}\n", g) } else { String::new() };
                    format!(
                        "{PRELUDE}{tok}macro_rules! place {{ ({}) => {{\n{mac}{plain}}} }}\nplace!({});\n{}{want}{go}pub fn run(e: usize, _: &str) -> String {{ go(e) }}\n",
                        frag_pats.join("; "),
                        frag_args.join("; "),
                        if with { parse.as_str() } else { "" },
                    )
                }
            }
            .replace("self::En::One", if site == 1 { "En::One" } else { "self::En::One" })
            .replace("self::K", if site == 1 { "K" } else { "self::K" })
        };
        // a `Result` of the program's own
        let own = s.chance(1, 3);
        let ours = |text: String| {
            if own {
                format!("pub type Result<T> = std::result::Result<T, String>;\n{}", text.replace("Result<u32, String>", "Result<u32>"))
            } else {
                text
            }
        };
        let full = ours(place(true));
        let alone = ours(place(false));
        if own {
            labels.push("the program has a Result of its own".into());
        }
        labels.push(format!("site:{}", ["module", "function", "inner module", "macro tokens", "macro fragments"][site]));
        labels.extend(nts.iter().map(|n| format!("type:{}", name(n.ty))));
        let readable = full.replace(PRELUDE, "");
        let ins = inputs.clone();
        let long = nts.iter().any(|n| n.prods.iter().any(|p| p.action.len() > 12 && !p.rhs.is_empty()));
        let judge = move |rs: &[Res]| {
            let mut j = TJudged::default();
            match (&rs[0].comp, &rs[1].comp) {
                (Comp::Unknown(_), _) | (_, Comp::Unknown(_)) => return j,
                (Comp::Rejected { .. }, Comp::Rejected { msg, .. }) => {
                    j.labels.push(format!("reference does not compile: {}", super::lang::short(msg)));
                    return j;
                }
                (Comp::Rejected { msg, .. }, Comp::Ok) => {
                    j.fail = Some(format!(
                        "the actions compile as bodies of plain functions, but the grammar does not: {}",
                        super::lang::short(msg)
                    ));
                    return j;
                }
                (Comp::Ok, Comp::Rejected { msg, .. }) => {
                    j.labels.push(format!("only the reference does not compile: {}", super::lang::short(msg)));
                    return j;
                }
                _ => {}
            }
            for (k, (e, _)) in ins.iter().enumerate() {
                match rs[0].outs.get(k) {
                    Some(RawOut::Line(l)) => {
                        let (a, b) = l.split_once('\u{1f}').unwrap_or((l, "?"));
                        if a != b {
                            j.fail = Some(format!("call {}: result and effects\n  parser:          {}\n  plain functions: {}", e, a, b));
                            return j;
                        }
                        if long && nodes[k] > 0 {
                            j.nontrivial.push(hash_of(e));
                        }
                    }
                    Some(RawOut::Crash(c)) => {
                        j.fail = Some(format!("call {}: the parser dies: {}", e, c));
                        return j;
                    }
                    _ => {}
                }
            }
            j
        };
        Some(TCase {
            progs: vec![
                Prog { src: full, inputs, weight: 2 },
                Prog { src: alone, inputs: vec![], weight: 1 },
            ],
            labels,
            readable,
            judge: Box::new(judge),
        })
    }
}

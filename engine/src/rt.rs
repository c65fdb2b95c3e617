// Runtime of the generated test programs. Compiled once per check as a library, linked into every
// batch program. Not a module of the engine.
#![allow(warnings)]
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::Write as _;

pub const ID0: u32 = 1_000_000;

/// State of the call being observed in this thread.
#[derive(Default)]
struct Ctx {
    log: String,
    next: u32,
    fuel: u64,
    quiet: bool,
    polls: u64,
    acts: u64,
    hook: Option<Hook>,
    /// tracked values: live count, and which serials have been dropped
    live: i64,
    dropped: Vec<bool>,
    double: u32,
    returned: Option<(i64, usize)>,
    /// tracked values alive at each poll
    lives: Vec<i64>,
    nested: Vec<String>,
}

struct Hook {
    /// 'a': after the at-th action starts; 'p': at the at-th poll
    kind: char,
    at: u64,
    what: What,
}

#[derive(Clone)]
enum What {
    Panic,
    Call(fn(usize, &[Item]) -> Out, usize, Vec<Item>),
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> Option<T> {
    off(|| CTX.try_with(|c| c.try_borrow_mut().ok().map(|mut c| f(&mut c))).ok().flatten())
}

/// Counts the bytes allocated by this thread, but for the runtime's own bookkeeping.
struct Count;
thread_local! {
    /// in use, most in use, allocated in total
    static HEAP: Cell<(i64, i64, i64)> = const { Cell::new((0, 0, 0)) };
    static OFF: Cell<u32> = const { Cell::new(0) };
}
fn off<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back { fn drop(&mut self) { let _ = OFF.try_with(|o| o.set(o.get() - 1)); } }
    let _ = OFF.try_with(|o| o.set(o.get() + 1));
    let _b = Back;
    f()
}
extern "C" { fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32; }
/// Microseconds of processor time this thread has used.
fn cpu() -> i64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] * 1_000_000 + t[1] / 1000
}
fn heap(n: i64) {
    let _ = OFF.try_with(|o| if o.get() == 0 {
        let _ = HEAP.try_with(|h| { let (live, peak, all) = h.get(); h.set((live + n, peak.max(live + n), all + n.max(0))); });
    });
}
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { heap(l.size() as i64); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { heap(-(l.size() as i64)); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { heap(n as i64 - l.size() as i64); std::alloc::System.realloc(p, l, n) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { heap(l.size() as i64); std::alloc::System.alloc_zeroed(l) }
}
#[global_allocator]
static COUNT: Count = Count;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Item { Tok(u16), Err(u32) }

fn burn() {
    let out = with(|c| { if c.fuel == 0 { true } else { c.fuel -= 1; false } }).unwrap_or(false);
    if out { panic!("FUEL: far more actions and polls than the input can need"); }
}

fn fire(kind: char, count: u64) {
    let what = with(|c| match &c.hook {
        Some(h) if h.kind == kind && h.at == count => {
            let w = h.what.clone();
            c.hook = None;
            Some(w)
        }
        _ => None,
    }).flatten();
    match what {
        None => {}
        Some(What::Panic) => panic!("ABORT"),
        Some(What::Call(f, e, items)) => {
            // an independent call while this one is under way
            let outer = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
            let line = observe_call(f, e, &items, None);
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                *c = outer;
                c.nested.push(line);
            });
        }
    }
}

/// Called by every action of a generated grammar.
pub fn act(nt: u32, p: u32, ids: &[u32]) -> u32 {
    burn();
    let (id, count) = with(|c| {
        if !c.quiet {
            let _ = write!(c.log, "r{}.{}(", nt, p);
            for (i, x) in ids.iter().enumerate() {
                if i > 0 { c.log.push(','); }
                let _ = write!(c.log, "{}", x);
            }
            c.log.push_str(") ");
        }
        let v = c.next;
        c.next += 1;
        c.acts += 1;
        (ID0 + v, c.acts - 1)
    }).unwrap();
    fire('a', count);
    id
}

/// A value whose drops are counted.
#[derive(Debug)]
pub struct Tracked { serial: usize }
impl Tracked {
    pub fn new() -> Self {
        let serial = with(|c| { c.live += 1; c.dropped.push(false); c.dropped.len() - 1 }).unwrap_or(0);
        Tracked { serial }
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let s = self.serial;
        with(|c| {
            c.live -= 1;
            match c.dropped.get_mut(s) {
                Some(d) if !*d => *d = true,
                _ => c.double += 1,
            }
        });
    }
}

/// Value types: they all transport one id.
pub trait Val { fn mk(id: u32) -> Self; fn id(&self) -> u32; }

#[derive(Debug)]
pub struct W0(pub u32, pub Tracked);
#[derive(Debug)]
pub struct W1 { pub v: u32, pub t: Tracked }
/// as many different types as one likes
#[derive(Debug)]
pub struct Wk<const K: usize>(pub u32);

const BAD: u32 = 0xBAD_0000;
fn same(a: u32, b: u32) -> u32 { if a == b { a } else { BAD } }

impl Val for W0 { fn mk(i: u32) -> Self { W0(i, Tracked::new()) } fn id(&self) -> u32 { self.0 } }
impl Val for W1 { fn mk(i: u32) -> Self { W1 { v: i, t: Tracked::new() } } fn id(&self) -> u32 { self.v } }
impl<const K: usize> Val for Wk<K> { fn mk(i: u32) -> Self { Wk(i) } fn id(&self) -> u32 { self.0 } }
impl Val for u32 { fn mk(i: u32) -> Self { i } fn id(&self) -> u32 { *self } }
impl Val for () { fn mk(_: u32) -> Self { } fn id(&self) -> u32 { 0 } }
impl Val for String { fn mk(i: u32) -> Self { i.to_string() } fn id(&self) -> u32 { self.parse().unwrap_or(BAD) } }
impl Val for &'static str {
    fn mk(i: u32) -> Self { off(|| -> &'static str { Box::leak(i.to_string().into_boxed_str()) }) }
    fn id(&self) -> u32 { self.parse().unwrap_or(BAD) }
}
impl<T: Val> Val for Vec<T> {
    fn mk(i: u32) -> Self { vec![T::mk(i), T::mk(i)] }
    fn id(&self) -> u32 { if self.len() == 2 { same(self[0].id(), self[1].id()) } else { BAD } }
}
impl<T: Val> Val for Option<T> {
    fn mk(i: u32) -> Self { Some(T::mk(i)) }
    fn id(&self) -> u32 { match self { Some(x) => x.id(), None => BAD } }
}
impl<T: Val> Val for Box<T> { fn mk(i: u32) -> Self { Box::new(T::mk(i)) } fn id(&self) -> u32 { (**self).id() } }
impl<T: Val> Val for std::rc::Rc<T> { fn mk(i: u32) -> Self { std::rc::Rc::new(T::mk(i)) } fn id(&self) -> u32 { (**self).id() } }
impl<A: Val, B: Val> Val for (A, B) {
    fn mk(i: u32) -> Self { (A::mk(i), B::mk(i)) }
    fn id(&self) -> u32 { same(self.0.id(), self.1.id()) }
}
impl<A: Val> Val for (A,) { fn mk(i: u32) -> Self { (A::mk(i),) } fn id(&self) -> u32 { self.0.id() } }
impl<T: Val> Val for [T; 2] {
    fn mk(i: u32) -> Self { [T::mk(i), T::mk(i)] }
    fn id(&self) -> u32 { same(self[0].id(), self[1].id()) }
}
impl<T: Val, E> Val for Result<T, E> {
    fn mk(i: u32) -> Self { Ok(T::mk(i)) }
    fn id(&self) -> u32 { match self { Ok(x) => x.id(), Err(_) => BAD } }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LexErr(pub u32);

/// The input iterator. Logs every poll; after None it keeps returning tokens, and after an error it
/// goes on with the remaining items and with more errors and tokens, so a parser that polls again
/// does not get away with it.
pub struct Stream<'i, T> { items: &'i [Item], mk: fn(u16, u32) -> T, pub pos: usize, done: bool, over: bool, sum: usize, more: usize }

impl<'i, T> Stream<'i, T> {
    pub fn new(items: &'i [Item], mk: fn(u16, u32) -> T) -> Self {
        let sum = items.len() + items.iter().map(|i| match i { Item::Tok(t) => *t as usize, Item::Err(e) => *e as usize }).sum::<usize>();
        let more = match items.last() { Some(Item::Err(_)) => sum / 4 % 4, _ => 0 };
        Stream { items, mk, pos: 0, done: false, over: false, sum, more }
    }
}

fn log_poll(late: bool) {
    burn();
    let count = with(|c| {
        if !c.quiet {
            c.log.push_str(if late { "P " } else { "p " });
            c.lives.push(c.live);
        }
        c.polls += 1;
        c.polls - 1
    }).unwrap();
    fire('p', count);
}

impl<'i, T> Iterator for Stream<'i, T> {
    type Item = Result<T, LexErr>;
    /// Some streams know how long they are.
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = (self.items.len() + self.more).saturating_sub(self.pos);
        match self.sum % 4 {
            0 => (0, None),
            1 => (0, Some(left)),
            _ => (left, Some(left)),
        }
    }
    fn next(&mut self) -> Option<Self::Item> {
        log_poll(self.done);
        if self.over {
            // not fused: misbehave on purpose
            return Some(Ok((self.mk)(0, 999_999)));
        }
        let i = self.pos;
        self.pos += 1;
        match self.items.get(i).copied() {
            Some(Item::Err(e)) => { self.done = true; Some(Err(LexErr(e))) }
            Some(Item::Tok(t)) => Some(Ok((self.mk)(t, self.pos as u32))),
            None if i < self.items.len() + self.more => {
                // what comes after an error at the end
                if (self.sum / 16 + i) % 3 == 0 { Some(Ok((self.mk)(0, 999_999))) } else { Some(Err(LexErr(900_000 + i as u32))) }
            }
            None => { self.done = true; self.over = true; None }
        }
    }
}

/// Called when `parse` has returned and its result is still held.
pub fn returned(pos: usize) {
    with(|c| c.returned = Some((c.live, pos)));
}

/// Printable form of an outcome.
#[derive(Debug)]
pub enum Out { Ok(u32), Lex(u32), Err(&'static str, &'static str) }

pub fn parse_items(s: &str) -> Vec<Item> {
    s.split_whitespace().map(|w| match w.strip_prefix('E') {
        Some(e) => Item::Err(e.parse().unwrap()),
        None => Item::Tok(w.parse().unwrap()),
    }).collect()
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else if let Some(s) = e.downcast_ref::<&'static str>() { s.to_string() }
    else { "?".into() }
}

fn fmt_out(r: std::thread::Result<Out>) -> String {
    match r {
        Ok(Out::Ok(i)) => format!("ok {}", i),
        Ok(Out::Lex(e)) => format!("lex {}", e),
        Ok(Out::Err(f, x)) => format!("err {:?} {:?}", f, x),
        Err(e) => format!("panic {:?}", panic_text(e)),
    }
}

type Call = fn(usize, &[Item]) -> Out;

fn observe_call(f: Call, e: usize, items: &[Item], hook: Option<Hook>) -> String {
    CTX.with(|c| *c.borrow_mut() = Ctx { fuel: 5000 + 400 * items.len() as u64, hook, ..Ctx::default() });
    let r = std::panic::catch_unwind(|| f(e, items));
    let out = fmt_out(r);
    CTX.with(|c| {
        let c = std::mem::take(&mut *c.borrow_mut());
        let (held, pos) = c.returned.unwrap_or((-1, 0));
        let mut s = format!("{}|{}|{} {} {} {} ", c.log.trim_end(), out, held, c.live, pos, c.double);
        for (i, l) in c.lives.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, l);
        }
        for n in c.nested { s.push_str(" ## "); s.push_str(&n); }
        s
    })
}

/// What `run` of a generated module does.
pub fn entry(e: usize, arg: &str, f: Call) -> String {
    match arg.as_bytes().first() {
        Some(b'L') => long(e, &arg[1..], f),
        Some(b'H') => history(&arg[1..], f),
        _ => observe_call(f, e, &parse_items(arg), None),
    }
}

/// Pumped inputs: segments `count:items`, separated by `;`. Runs on a small stack, counts only.
fn long(e: usize, arg: &str, f: Call) -> String {
    let mut items = vec![];
    for seg in arg.split(';') {
        if seg.trim().is_empty() { continue; }
        let (k, w) = seg.split_once(':').unwrap();
        let w = parse_items(w);
        for _ in 0..k.trim().parse::<usize>().unwrap() { items.extend_from_slice(&w); }
    }
    std::thread::Builder::new().stack_size(192 * 1024).spawn(move || {
        CTX.with(|c| *c.borrow_mut() = Ctx { fuel: 5000 + 400 * items.len() as u64, quiet: true, ..Ctx::default() });
        HEAP.with(|h| h.set((0, 0, 0)));
        let t = cpu();
        let r = std::panic::catch_unwind(|| f(e, &items));
        let t = cpu() - t;
        let (_, peak, all) = HEAP.with(|h| h.get());
        let out = fmt_out(r);
        CTX.with(|c| {
            let c = c.borrow();
            let (held, pos) = c.returned.unwrap_or((-1, 0));
            format!("{} {} {} {} {}|{}|{} {} {} {}", c.acts, c.polls, peak, all, t, out, held, c.live, pos, c.double)
        })
    }).unwrap().join().unwrap_or_else(|_| "0 0 0 0 0|panic \"thread\"|0 0 0 0".into())
}

/// A history of calls, separated by `;`:
///   c e items              one call
///   a k e items / e items  the second call is made inside the k-th action of the first
///   p k e items / e items  the second call is made inside the k-th poll of the first
///   x k e items            the k-th action panics
///   y k e items            the k-th poll panics
///   t n e items / ...      all calls at once, each in its own thread, n times
/// The observations are joined by ` ## `.
fn history(arg: &str, f: Call) -> String {
    fn call(s: &str) -> (usize, Vec<Item>) {
        let s = s.trim();
        let (e, w) = s.split_once(' ').unwrap_or((s, ""));
        (e.parse().unwrap(), parse_items(w))
    }
    let mut out: Vec<String> = vec![];
    for op in arg.split(';') {
        let op = op.trim();
        if op.is_empty() { continue; }
        let (kind, rest) = op.split_once(' ').unwrap();
        if kind == "c" {
            let (e, w) = call(rest);
            out.push(observe_call(f, e, &w, None));
            continue;
        }
        let (k, rest) = rest.split_once(' ').unwrap();
        let k: u64 = k.parse().unwrap();
        let calls: Vec<(usize, Vec<Item>)> = rest.split('/').map(call).collect();
        match kind {
            "a" | "p" => {
                let (e2, w2) = calls[1].clone();
                let hook = Hook { kind: kind.chars().next().unwrap(), at: k, what: What::Call(f, e2, w2) };
                out.push(observe_call(f, calls[0].0, &calls[0].1, Some(hook)));
            }
            "x" | "y" => {
                let hook = Hook { kind: if kind == "x" { 'a' } else { 'p' }, at: k, what: What::Panic };
                out.push(observe_call(f, calls[0].0, &calls[0].1, Some(hook)));
            }
            "t" => {
                let barrier = std::sync::Arc::new(std::sync::Barrier::new(calls.len()));
                let hs: Vec<_> = calls.into_iter().map(|(e, w)| {
                    let barrier = barrier.clone();
                    std::thread::spawn(move || {
                        barrier.wait();
                        let first = observe_call(f, e, &w, None);
                        for _ in 1..k {
                            let again = observe_call(f, e, &w, None);
                            if again != first { return again; }
                        }
                        first
                    })
                }).collect();
                for h in hs { out.push(h.join().unwrap_or_else(|_| "|panic \"thread\"|0 0 0 0".into())); }
            }
            _ => unreachable!(),
        }
    }
    out.join(" ## ")
}

/// Reads `grammar entry argument` lines from the file given as the first argument and prints one
/// line for each.
pub fn main_loop(f: fn(usize, usize, &str) -> String) {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).unwrap();
    let text = std::fs::read_to_string(path).unwrap();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in text.lines() {
        let mut it = line.splitn(3, ' ');
        let g: usize = it.next().unwrap().parse().unwrap();
        let e: usize = it.next().unwrap().parse().unwrap();
        let s = f(g, e, it.next().unwrap_or(""));
        let _ = writeln!(out, "{}", s);
        let _ = out.flush();
    }
}

/// Shows values, and the addresses of borrowed ones.
pub trait Show { fn show(&self) -> String; }
macro_rules! show_debug { ($($t:ty),*) => { $(impl Show for $t { fn show(&self) -> String { format!("{:?}", self) } })* } }
show_debug!(u8, u16, u32, char, bool, (), String, f64);
impl Show for str { fn show(&self) -> String { format!("{:p}+{}", self.as_ptr(), self.len()) } }
impl<'a, T: Show + ?Sized> Show for &'a T { fn show(&self) -> String { format!("&{}", (**self).show()) } }
impl<'a, T: Show + ?Sized> Show for &'a mut T { fn show(&self) -> String { format!("&mut {}", (**self).show()) } }
impl<T: Show> Show for [T] { fn show(&self) -> String { format!("[{}]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")) } }
impl<T: Show, const N: usize> Show for [T; N] { fn show(&self) -> String { self[..].show() } }
impl<T: Show> Show for Vec<T> { fn show(&self) -> String { self[..].show() } }
impl<T: Show> Show for Option<T> { fn show(&self) -> String { match self { Some(x) => format!("Some {}", x.show()), None => "None".into() } } }
impl<T: Show, E: Show> Show for Result<T, E> { fn show(&self) -> String { match self { Ok(x) => format!("Ok {}", x.show()), Err(x) => format!("Err {}", x.show()) } } }
impl<T: Show + ?Sized> Show for Box<T> { fn show(&self) -> String { format!("box {}", (**self).show()) } }
impl Show for std::rc::Rc<str> { fn show(&self) -> String { format!("{:?}", self) } }
impl<T: Show> Show for std::rc::Rc<T> { fn show(&self) -> String { format!("rc {}", (**self).show()) } }
impl<'a> Show for std::borrow::Cow<'a, str> { fn show(&self) -> String { (**self).show() } }
impl<T: Show + Copy> Show for Cell<T> { fn show(&self) -> String { format!("cell {}", self.get().show()) } }
impl<T: ?Sized> Show for std::marker::PhantomData<T> { fn show(&self) -> String { "phantom".into() } }
impl<K: Show, V: Show> Show for std::collections::BTreeMap<K, V> {
    fn show(&self) -> String { self.iter().map(|(k, v)| format!("{}:{} ", k.show(), v.show())).collect() }
}
impl Show for fn(u8) -> u16 { fn show(&self) -> String { format!("f {}", self(3)) } }
impl Show for fn(u16) -> u8 { fn show(&self) -> String { format!("f {}", self(3)) } }
impl Show for fn(u8) -> u8 { fn show(&self) -> String { format!("f {}", self(3)) } }
impl Show for for<'x> fn(&'x str) -> usize { fn show(&self) -> String { format!("f {}", self("abc")) } }
macro_rules! show_tuple { ($($n:ident),*) => {
    impl<$($n: Show),*> Show for ($($n,)*) {
        #[allow(non_snake_case)]
        fn show(&self) -> String { let ($($n,)*) = self; format!("({})", vec![$($n.show()),*].join(",")) }
    }
} }
show_tuple!(A1);
show_tuple!(A1, A2);
show_tuple!(A1, A2, A3);
show_tuple!(A1, A2, A3, A4);

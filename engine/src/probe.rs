//! Wide search in front of the compiled programs: the macro runs inside helper processes
//! (/verif/probe) on very many grammars, and the tables it puts out are compared with the reference
//! automaton by walking both at once. A difference is a hint, nothing more. Each hint becomes an
//! ordinary case (grammar and inputs that go through the differing state) which the property's own
//! judge decides on the compiled program. Where the helper cannot be built, or the output has
//! another shape, the search finds nothing and says so in the evidence.

use crate::cover::Cover;
use crate::gcheck::*;
use crate::gen::*;
use crate::gram::*;
use crate::lr::*;
use crate::pipe::*;
use crate::report::*;
use crate::src::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::Duration;

const HELPER: &str = include_str!("../../probe/main.rs");
const LIMIT: Duration = Duration::from_secs(20);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SAct {
    Error,
    Shift(usize),
    Reduce { nt: usize, len: usize, act: usize },
    Accept,
}

#[derive(Clone, Debug)]
pub struct SState {
    act: Vec<SAct>,
    goto: Vec<Option<usize>>,
    expected: String,
}

#[derive(Clone, Debug, Default)]
pub struct Sut {
    states: Vec<SState>,
    tags: Vec<Option<(usize, usize)>>,
    entries: Vec<(String, usize)>,
}

#[derive(Clone, Debug)]
pub enum Reply {
    Panic,
    Unknown(String),
    /// the helper died or hung on this grammar
    Dead(String),
    Ok(Sut),
}

/// Builds the helper from the working tree. None: not possible for this tree.
pub fn build(env: &Env) -> Option<PathBuf> {
    let dir = env.root.join("build/probe-src");
    let repo = Path::new("/repo");
    let _ = std::fs::remove_dir_all(&dir);
    copy_src(&repo.join("src"), &dir.join("src")).ok()?;
    let cargo = std::fs::read_to_string(repo.join("Cargo.toml")).ok()?;
    let mut deps = String::new();
    let mut on = false;
    for l in cargo.lines() {
        if l.trim_start().starts_with('[') {
            on = l.trim() == "[dependencies]" || l.trim().starts_with("[dependencies.");
        }
        if on {
            deps.push_str(l);
            deps.push('\n');
        }
    }
    let edition = cargo
        .lines()
        .find(|l| l.trim_start().starts_with("edition"))
        .unwrap_or("edition = \"2021\"")
        .to_string();
    let toml = format!(
        "[package]\nname = \"parsegen_probe\"\nversion = \"0.0.0\"\n{}\n[lib]\npath = \"src/lib.rs\"\n[[bin]]\nname = \"probe\"\npath = \"helper.rs\"\n{}\n[workspace]\n[profile.release]\nopt-level = 3\ndebug = 0\noverflow-checks = true\ndebug-assertions = true\n",
        edition, deps
    );
    std::fs::write(dir.join("Cargo.toml"), toml).ok()?;
    std::fs::write(dir.join("helper.rs"), HELPER).ok()?;
    let lock = repo.join("Cargo.lock");
    if lock.exists() {
        std::fs::copy(lock, dir.join("Cargo.lock")).ok()?;
    }
    let lib = dir.join("src/lib.rs");
    let text = std::fs::read_to_string(&lib).ok()?;
    let text = text
        .replace("#[proc_macro]", "")
        .replace("syn::parse_macro_input!", "pg_parse_macro_input!")
        .replace(" parse_macro_input!", " pg_parse_macro_input!");
    let mac = "macro_rules! pg_parse_macro_input { ($i:ident as $t:ty) => { syn::parse2::<$t>($i).unwrap_or_else(|e| panic!(\"{}\", e)) }; ($i:ident) => { syn::parse2($i).unwrap_or_else(|e| panic!(\"{}\", e)) }; }\n";
    std::fs::write(&lib, format!("{}{}", mac, text)).ok()?;
    patch_paths(&dir.join("src"))?;
    let target = env.root.join("build/probe");
    if let Ok(rd) = std::fs::read_dir(target.join("release/.fingerprint")) {
        for d in rd.flatten() {
            if d.file_name().to_string_lossy().starts_with("parsegen_probe-") {
                let _ = std::fs::remove_dir_all(d.path());
            }
        }
    }
    let mut c = tool("cargo");
    c.args(["build", "--release", "--offline", "--quiet", "--bin", "probe"])
        .arg("--manifest-path")
        .arg(dir.join("Cargo.toml"))
        .arg("--target-dir")
        .arg(&target)
        .env("CARGO_TERM_COLOR", "never")
        .current_dir(&dir);
    let o = c.output().ok()?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        eprintln!(
            "pgcheck: no in-process search for this tree: {}",
            e.lines().find(|l| l.starts_with("error")).unwrap_or("")
        );
        return None;
    }
    let bin = env.scratch.join("probe-bin");
    std::fs::copy(target.join("release/probe"), &bin).ok()?;
    Some(bin)
}

fn copy_src(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        if e.file_type()?.is_dir() {
            copy_src(&e.path(), &to.join(e.file_name()))?;
        } else {
            std::fs::copy(e.path(), to.join(e.file_name()))?;
        }
    }
    Ok(())
}

/// `proc_macro::` as a path -> `proc_macro2::`
fn patch_paths(dir: &Path) -> Option<()> {
    for e in std::fs::read_dir(dir).ok()? {
        let e = e.ok()?;
        let p = e.path();
        if p.is_dir() {
            patch_paths(&p)?;
        } else if p.extension().map_or(false, |x| x == "rs") {
            let t = std::fs::read_to_string(&p).ok()?;
            let mut out = String::new();
            let mut rest = &t[..];
            while let Some(i) = rest.find("proc_macro::") {
                out.push_str(&rest[..i]);
                out.push_str("proc_macro2::");
                rest = &rest[i + "proc_macro::".len()..];
            }
            out.push_str(rest);
            std::fs::write(&p, out.replace("extern crate proc_macro;", "")).ok()?;
        }
    }
    Some(())
}

/// One helper process.
pub struct Helper {
    bin: PathBuf,
    live: Option<(Child, ChildStdin, mpsc::Receiver<Vec<String>>)>,
}

impl Helper {
    pub fn new(bin: &Path) -> Helper {
        Helper {
            bin: bin.to_path_buf(),
            live: None,
        }
    }

    fn start(&mut self) -> Option<()> {
        let mut c = limited(&std::process::Command::new(&self.bin), 6 << 20);
        let mut ch = c
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let inp = ch.stdin.take()?;
        let out = ch.stdout.take()?;
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let mut block = vec![];
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if l == "END" {
                    if tx.send(std::mem::take(&mut block)).is_err() {
                        break;
                    }
                } else {
                    block.push(l);
                }
            }
        });
        self.live = Some((ch, inp, rx));
        Some(())
    }

    pub fn stop(&mut self) {
        if let Some((mut ch, inp, _)) = self.live.take() {
            drop(inp);
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }

    pub fn ask(&mut self, text: &str) -> Reply {
        match self.send("", text) {
            Ok(b) => parse(&b),
            Err(m) => Reply::Dead(m.into()),
        }
    }

    /// Identifies the output of the macro, or the message it panics with
    pub fn hash(&mut self, text: &str) -> Option<String> {
        let b = self.send("h ", text).ok()?;
        b.into_iter().next().filter(|l| l.starts_with("H "))
    }

    fn send(&mut self, how: &str, text: &str) -> Result<Vec<String>, &'static str> {
        if self.live.is_none() && self.start().is_none() {
            return Err("cannot be started");
        }
        let (_, inp, rx) = self.live.as_mut().unwrap();
        let sent = inp
            .write_all(format!("{}{}\n{}", how, text.len(), text).as_bytes())
            .and_then(|_| inp.flush())
            .is_ok();
        if !sent {
            self.stop();
            return Err("died");
        }
        match rx.recv_timeout(LIMIT) {
            Ok(b) => Ok(b),
            Err(e) => {
                self.stop();
                Err(if e == mpsc::RecvTimeoutError::Timeout { "hangs" } else { "died" })
            }
        }
    }
}

impl Drop for Helper {
    fn drop(&mut self) {
        self.stop();
    }
}

fn parse(b: &[String]) -> Reply {
    match b.first().map(|s| s.as_str()) {
        Some("PANIC") => return Reply::Panic,
        Some(s) if s.starts_with("OK") => {}
        Some(s) => return Reply::Unknown(s.trim_start_matches("UNKNOWN ").split(' ').next().unwrap_or("").into()),
        None => return Reply::Unknown("empty".into()),
    }
    match tables(&b[1..]) {
        Some(t) => Reply::Ok(t),
        None => Reply::Unknown("unreadable".into()),
    }
}

fn tables(b: &[String]) -> Option<Sut> {
    let mut out = Sut::default();
    for l in b {
        if let Some(r) = l.strip_prefix("s ") {
            let mut it = r.splitn(3, '|');
            let mut act = vec![];
            for x in it.next()?.split(',').filter(|x| !x.is_empty()) {
                act.push(match x {
                    "." => SAct::Error,
                    "a" => SAct::Accept,
                    _ if x.starts_with('s') => SAct::Shift(x[1..].parse().ok()?),
                    _ => {
                        let mut f = x.strip_prefix('r')?.split(':');
                        SAct::Reduce {
                            nt: f.next()?.parse().ok()?,
                            len: f.next()?.parse().ok()?,
                            act: f.next()?.parse().ok()?,
                        }
                    }
                });
            }
            let mut goto = vec![];
            for x in it.next()?.split(',').filter(|x| !x.is_empty()) {
                goto.push(if x == "." { None } else { Some(x.parse().ok()?) });
            }
            out.states.push(SState {
                act,
                goto,
                expected: undebug(it.next()?)?,
            });
        } else if let Some(r) = l.strip_prefix('t') {
            for x in r.split_whitespace() {
                out.tags.push(match x.split_once('.') {
                    Some((n, p)) => Some((n.parse().ok()?, p.parse().ok()?)),
                    None => None,
                });
            }
        } else if let Some(r) = l.strip_prefix("e ") {
            let (n, s) = r.rsplit_once(' ')?;
            out.entries.push((n.to_string(), s.parse().ok()?));
        }
    }
    Some(out)
}

/// Where the two automata part: symbols that lead there, and the terminals to try next.
#[derive(Clone, Debug)]
pub struct Diff {
    pub entry: usize,
    pub path: Vec<Sym>,
    pub terms: Vec<usize>,
    pub what: String,
}

/// Walks the reference automaton and the tables together.
pub fn compare(a: &Analysed, sut: &Sut, max: usize) -> Result<Vec<Diff>, String> {
    let g = &a.g;
    let eof = g.terms.len();
    let mut col: HashMap<usize, usize> = HashMap::new();
    let mut diffs: Vec<Diff> = vec![];
    for s in &sut.states {
        if s.act.len() != eof + 1 {
            return Err("width".into());
        }
        for x in &s.act {
            if let SAct::Reduce { nt, act, .. } = x {
                if let Some(Some((n, _))) = sut.tags.get(*act) {
                    col.entry(*n).or_insert(*nt);
                }
            }
        }
    }
    for (entry, tab) in &a.tabs {
        let name = &g.nts[*entry].name;
        let Some((_, init)) = sut.entries.iter().find(|e| &e.0 == name) else {
            return Err("no entry point".into());
        };
        let mut seen: HashSet<(usize, usize)> = HashSet::from([(0, *init)]);
        let mut q: VecDeque<(usize, usize, Vec<Sym>)> = VecDeque::from([(0, *init, vec![])]);
        let mut note = |path: &[Sym], terms: Vec<usize>, what: String| {
            diffs.push(Diff {
                entry: *entry,
                path: path.to_vec(),
                terms,
                what,
            });
            diffs.len() >= max
        };
        while let Some((r, s, path)) = q.pop_front() {
            let Some(st) = sut.states.get(s) else {
                if note(&path, vec![], format!("state {} does not exist", s)) {
                    return Ok(diffs);
                }
                continue;
            };
            let acts = &tab.action[r];
            let mut bad = vec![];
            for t in 0..=eof {
                let want = acts.get(&t).map(|v| *v.iter().find(|x| matches!(x, Act::Shift(_))).unwrap_or(&v[0]));
                let same = match (want, st.act[t]) {
                    (None, SAct::Error) => true,
                    (Some(Act::Shift(to)), SAct::Shift(x)) => {
                        if seen.insert((to, x)) {
                            let mut p = path.clone();
                            p.push(Sym::T(t));
                            q.push_back((to, x, p));
                        }
                        true
                    }
                    (Some(Act::Reduce(n, p)), SAct::Reduce { nt, len, act }) => {
                        sut.tags.get(act) == Some(&Some((n, p)))
                            && len == g.nts[n].prods[p].len()
                            && col.get(&n) == Some(&nt)
                    }
                    (Some(Act::Accept), SAct::Accept) => true,
                    _ => false,
                };
                if !same {
                    bad.push(t);
                }
            }
            if !bad.is_empty() {
                let what = format!("{} of {} entries of an action row", bad.len(), eof + 1);
                if note(&path, bad, what) {
                    return Ok(diffs);
                }
            }
            if st.expected != expected_text(g, |t| acts.contains_key(&t)) {
                let terms = (0..=eof).filter(|t| !acts.contains_key(t)).collect();
                if note(&path, terms, "expected terminals".into()) {
                    return Ok(diffs);
                }
            }
            let mut gs: Vec<(usize, usize)> = tab.goto[r].iter().map(|(n, to)| (*n, *to)).collect();
            gs.sort();
            for (n, to) in gs {
                let Some(c) = col.get(&n) else { continue };
                let mut p = path.clone();
                p.push(Sym::N(n));
                match st.goto.get(*c).copied().flatten() {
                    Some(x) => {
                        if seen.insert((to, x)) {
                            q.push_back((to, x, p));
                        }
                    }
                    None => {
                        let next = tab.action[to].keys().copied().collect();
                        if note(&p, next, "no goto".into()) {
                            return Ok(diffs);
                        }
                    }
                }
            }
        }
    }
    Ok(diffs)
}

/// Runs the tables the way the generated driver does; prints what the runtime would print.
pub fn simulate(g: &Gram, sut: &Sut, entry: usize, input: &[Item]) -> RawOut {
    let eof = g.terms.len();
    let Some((_, init)) = sut.entries.iter().find(|e| e.0 == g.nts[entry].name) else {
        return RawOut::Unknown("entry".into());
    };
    let mut trace = String::from("p ");
    let mut states = vec![*init];
    let mut values: Vec<u32> = vec![];
    let mut pos = 0;
    let mut acts = 0u32;
    let mut fuel = 300 + 200 * input.len() * (1 + g.nts.len());
    let out = loop {
        fuel -= 1;
        if fuel == 0 {
            return RawOut::Crash("does not end".into());
        }
        let la = match input.get(pos) {
            None => eof,
            Some(Item::Err(e)) => break format!("lex {}", e),
            Some(Item::Tok(t)) => *t,
        };
        let st = match states.last().and_then(|s| sut.states.get(*s)) {
            Some(s) => s,
            None => break format!("panic {:?}", "stack"),
        };
        match st.act[la] {
            SAct::Error => {
                let found = found_text(g, if la == eof { None } else { Some(la) });
                break format!("err {:?} {:?}", found, st.expected);
            }
            SAct::Shift(to) => {
                states.push(to);
                if la != eof {
                    values.push(tok_id(g, la, pos));
                }
                pos += 1;
                trace.push_str("p ");
            }
            SAct::Reduce { nt, len, act } => {
                let Some((n, p)) = sut.tags.get(act).copied().flatten() else {
                    return RawOut::Unknown("tag".into());
                };
                let Some(rhs) = g.nts.get(n).and_then(|x| x.prods.get(p)) else {
                    return RawOut::Unknown("tag".into());
                };
                if values.len() < rhs.len() || states.len() <= len {
                    break format!("panic {:?}", "stack");
                }
                let base = values.len() - rhs.len();
                let args: Vec<String> = rhs
                    .iter()
                    .zip(&values[base..])
                    .filter(|(b, _)| b.bind != Bind::No)
                    .map(|(_, v)| v.to_string())
                    .collect();
                trace.push_str(&format!("r{}.{}({}) ", n, p, args.join(",")));
                values.truncate(base);
                values.push(nt_id(g, n, ID0 + acts));
                acts += 1;
                states.truncate(states.len() - len);
                match states.last().and_then(|s| sut.states.get(*s)).and_then(|s| s.goto.get(nt)).copied().flatten() {
                    Some(to) => states.push(to),
                    None => break format!("panic {:?}", "Stuck"),
                }
            }
            SAct::Accept => match values.pop() {
                Some(v) => break format!("ok {}", v),
                None => break format!("panic {:?}", "stack"),
            },
        }
    };
    RawOut::Line(format!("{}|{}|0 0 {} 0", trace, out, pos.min(input.len())))
}

/// What the wide search needs to know about a property.
pub trait Wide: GProp {
    /// The grammars to expand for a candidate; the first one is the case's
    fn family(&self, a: Analysed, src: &mut Src) -> Vec<Analysed>;
    /// The judge needs nothing but one program's outputs, so the tables can stand in for it
    fn simulated(&self) -> bool {
        true
    }
    /// A full case for a grammar, with these words among the inputs
    fn case_for(&self, a: &Analysed, words: Vec<(usize, Vec<usize>)>, src: &mut Src) -> GCase;
}

/// A tape from a seed and a number.
fn spread(seed: u64, n: u64) -> Vec<u32> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ n.wrapping_mul(0xD134_2543_DE82_EF95);
    (0..64)
        .map(|_| {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            (z >> 16) as u32
        })
        .collect()
}

pub struct WPlan {
    /// every grammar with one, two, three non-terminals up to these sizes
    pub tiny: (usize, usize, usize),
    pub chunks: usize,
    pub per_chunk: usize,
}

/// Hints that are tried on compiled programs
const TRY: usize = 48;

pub fn campaign<P: Wide>(
    env: &Env,
    bin: &Path,
    prop: &P,
    id: &str,
    seed: u64,
    plan: WPlan,
    ev: &mut Evidence,
) -> Option<Failure> {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let nhints = AtomicUsize::new(0);
    // part and number -> hints (visible in simulation first)
    let hints: Mutex<BTreeMap<(usize, usize), Vec<(bool, GCase, String)>>> = Mutex::new(BTreeMap::new());
    let counts: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
    let look = |raw: Raw, cap: usize, src: &mut Src, helper: &mut Helper, local: &mut BTreeMap<String, usize>| {
        let g = decorate(&raw, src);
        let a = analysed(g, raw.family, cap)?;
        // actions that name their production: that is how the tables are read
        let mut all = prop.family(a, src);
        for a in all.iter_mut() {
            a.g.acts = 0;
        }
        for a in &all {
            let mut count = |s: &str| *local.entry(s.to_string()).or_default() += 1;
            let r = helper.ask(&crate::emit::grammar_text(&a.g, &Default::default()));
            count("grammars expanded");
            count(&format!("family {}", a.family));
            count(&format!("class {:?}", a.class));
            if let Some(hint) = examine(prop, &all[0], a, r, src, &mut count) {
                if nhints.fetch_add(1, Ordering::Relaxed) >= 400 {
                    stop.store(true, Ordering::Relaxed);
                }
                return Some(hint);
            }
        }
        None
    };
    let report = |key: (usize, usize), found: Vec<(bool, GCase, String)>, local: BTreeMap<String, usize>| {
        if !found.is_empty() {
            hints.lock().unwrap().insert(key, found);
        }
        let mut c = counts.lock().unwrap();
        for (k, v) in local {
            *c.entry(k).or_default() += v;
        }
    };
    // every small grammar, shared out by number
    std::thread::scope(|s| {
        for w in 0..env.threads {
            let (look, report, stop) = (&look, &report, &stop);
            s.spawn(move || {
                let mut helper = Helper::new(bin);
                let mut n = 0;
                for size in 1..=plan.tiny.0.max(plan.tiny.1).max(plan.tiny.2) {
                    for nts in 1..=3 {
                        if size > [plan.tiny.0, plan.tiny.1, plan.tiny.2][nts - 1] {
                            continue;
                        }
                        let mut local: BTreeMap<String, usize> = BTreeMap::new();
                        let mut found = vec![];
                        tiny(size, nts, &mut |raw| {
                            n += 1;
                            if n / 32 % env.threads == w {
                                *local.entry("every small grammar".into()).or_default() += 1;
                                let mut src = Src::new(spread(seed, n as u64));
                                found.extend(look(raw, 400, &mut src, &mut helper, &mut local));
                            }
                            !stop.load(Ordering::Relaxed) && !env.late()
                        });
                        report((0, (size * 4 + nts) * env.threads + w), found, local);
                    }
                }
                helper.stop();
            });
        }
    });
    std::thread::scope(|s| {
        for _ in 0..env.threads {
            s.spawn(|| {
                let mut helper = Helper::new(bin);
                loop {
                    let ch = next.fetch_add(1, Ordering::Relaxed);
                    if ch >= plan.chunks || env.late() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let mut gen = Gen::new(seed, &format!("wide/{}/{}", id, ch));
                    let mut local: BTreeMap<String, usize> = BTreeMap::new();
                    let mut found = vec![];
                    for _ in 0..plan.per_chunk {
                        let mut src = gen.src(300);
                        let cap = if src.chance(1, 12) { 400 } else { 120 };
                        let raw = wide_candidate(&mut src);
                        found.extend(look(raw, cap, &mut src, &mut helper, &mut local));
                    }
                    helper.stop();
                    report((1, ch), found, local);
                }
            });
        }
    });
    let mut all: Vec<(bool, GCase, String)> = hints.into_inner().unwrap().into_values().flatten().collect();
    all.sort_by_key(|h| (!h.0, h.1.g.size()));
    all.truncate(TRY);
    let mut counts = counts.into_inner().unwrap();
    counts.insert("hints".into(), nhints.load(Ordering::Relaxed));
    counts.insert("hints tried on compiled programs".into(), all.len());
    eprintln!("pgcheck: wide search {:?}", counts);
    ev.extra.insert("wide_search".into(), serde_json::json!(counts));
    if all.is_empty() {
        return None;
    }
    eprintln!("pgcheck: {} hints, e.g. {}: {}", all.len(), all[0].2, all[0].1.g.bnf());
    let cases: Vec<GCase> = all.iter().map(|h| h.1.clone()).collect();
    let rs = eval_cases(env, prop, &cases);
    let (k, (m, i)) = rs.into_iter().enumerate().find_map(|(k, r)| r.map(|r| (k, r)))?;
    let (c, m) = shrink(env, prop, cases[k].clone(), m, i);
    Some(failure(c, m))
}

/// A hint, if the macro's output for the grammar is not what the reference says.
fn examine<P: Wide>(
    prop: &P,
    main: &Analysed,
    a: &Analysed,
    r: Reply,
    src: &mut Src,
    count: &mut dyn FnMut(&str),
) -> Option<(bool, GCase, String)> {
    match r {
        Reply::Unknown(w) => {
            count(&format!("output not understood: {}", w));
            None
        }
        Reply::Dead(m) => {
            count("helper died");
            Some((false, prop.case_for(main, vec![], src), format!("the macro {}", m)))
        }
        Reply::Panic => {
            if a.class == Class::Clean {
                count("LR(1), macro panics");
                return Some((true, prop.case_for(main, vec![], src), "the macro panics".into()));
            }
            count("conflict, macro panics");
            None
        }
        Reply::Ok(sut) => {
            if a.class == Class::ReduceReduce {
                count("conflict, macro does not panic");
                return Some((true, prop.case_for(main, vec![], src), "no panic".into()));
            }
            let diffs = match compare(a, &sut, 4) {
                Ok(d) => d,
                Err(e) => {
                    count(&format!("output not understood: {}", e));
                    return None;
                }
            };
            if diffs.is_empty() {
                count("tables equal");
                return None;
            }
            count("tables differ");
            let mut words: Vec<(usize, Vec<usize>)> = vec![];
            for d in &diffs {
                let tab = &a.tabs.iter().find(|t| t.0 == d.entry).unwrap().1;
                let cov = Cover::new(&a.g, tab, d.entry);
                let mut ws = vec![];
                if d.terms.is_empty() {
                    cov.through(&d.path, None, src, &mut ws);
                }
                for t in d.terms.iter().take(4) {
                    cov.through(&d.path, Some(*t).filter(|t| *t < a.g.terms.len()), src, &mut ws);
                }
                words.extend(ws.into_iter().map(|w| (d.entry, w)));
            }
            let c = prop.case_for(main, words, src);
            if !prop.simulated() {
                return Some((true, c, diffs[0].what.clone()));
            }
            let (prep, _) = prop.prepare(&c)?;
            let outs = c.inputs.iter().map(|(e, w)| simulate(&a.g, &sut, *e, w)).collect();
            let j = prop.judge(&c, &prep, &[Res { comp: Comp::Ok, outs }]);
            if j.fail.is_some() {
                count("difference visible");
            } else {
                count("difference not visible");
            }
            Some((j.fail.is_some(), c, diffs[0].what.clone()))
        }
    }
}

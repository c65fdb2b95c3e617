//! Builds the code under test from /repo, compiles generated programs against it and runs them.

use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Env {
    pub root: PathBuf,
    pub scratch: PathBuf,
    so: PathBuf,
    rt: PathBuf,
    rustc: PathBuf,
    pub threads: usize,
    counter: AtomicUsize,
    pub troubles: Mutex<Vec<String>>,
    pub compiled: AtomicUsize,
    pub rejected: AtomicUsize,
    pub executed: AtomicUsize,
    /// no new work is started after this
    pub deadline: Option<Instant>,
    pub cut: std::sync::atomic::AtomicBool,
}

/// One generated module and the lines to run it on.
#[derive(Clone, Debug)]
pub struct Prog {
    /// defines `pub fn run(e: usize, arg: &str) -> String`
    pub src: String,
    /// (entry, argument)
    pub inputs: Vec<(usize, String)>,
    /// rough cost, 1 = an ordinary small grammar
    pub weight: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Comp {
    Ok,
    /// does not compile. `expansion`: the macro itself failed.
    Rejected { msg: String, expansion: bool },
    /// no answer (time-out or a failure of the tool chain)
    Unknown(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum RawOut {
    Line(String),
    Crash(String),
    Unknown(String),
}

#[derive(Clone, Debug)]
pub struct Res {
    pub comp: Comp,
    pub outs: Vec<RawOut>,
}

const RT_SRC: &str = include_str!("rt.rs");
pub const RUSTC_LIMIT: Duration = Duration::from_secs(100);
/// one ordinary program alone
const LONE_RUSTC_LIMIT: Duration = Duration::from_secs(60);
const RUN_LIMIT: Duration = Duration::from_secs(30);
/// one call alone
const LONE_RUN_LIMIT: Duration = Duration::from_secs(20);

/// A command with an address space limit (in KiB), so that runaway programs fail instead of
/// exhausting the machine.
pub fn limited(c: &Command, kib: u64) -> Command {
    let mut d = Command::new("/bin/sh");
    d.arg("-c").arg(format!("ulimit -v {}; ulimit -c 0; exec \"$@\"", kib)).arg("sh").arg(c.get_program());
    d.args(c.get_args());
    for (k, v) in c.get_envs() {
        match v {
            Some(v) => d.env(k, v),
            None => d.env_remove(k),
        };
    }
    if let Some(dir) = c.get_current_dir() {
        d.current_dir(dir);
    }
    d
}

pub fn tool(name: &str) -> Command {
    let mut c = Command::new(name);
    let path = std::env::var("PATH").unwrap_or_default();
    c.env("PATH", format!("{}:/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", path))
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_ENCODED_RUSTFLAGS")
        .env_remove("CARGO_BUILD_TARGET")
        .env_remove("CARGO_TARGET_DIR")
        .env_remove("RUSTC_WRAPPER");
    if std::env::var_os("HOME").is_none() {
        c.env("HOME", "/root");
    }
    c
}

impl Env {
    pub fn new(root: &Path, id: &str) -> Result<Env, String> {
        let build = root.join("build");
        let target = build.join("host");
        std::fs::create_dir_all(&build).map_err(|e| e.to_string())?;
        // cargo decides by time stamps: forget what it built from an earlier working tree
        if let Ok(rd) = std::fs::read_dir(target.join("release/.fingerprint")) {
            for d in rd.flatten() {
                if d.file_name().to_string_lossy().starts_with("parsegen-") {
                    let _ = std::fs::remove_dir_all(d.path());
                }
            }
        }
        let scratch = build.join(format!("scratch-{}-{}", id, std::process::id()));
        std::fs::create_dir_all(&scratch).map_err(|e| e.to_string())?;
        let out = tool("cargo")
            .args(["build", "--release", "--offline", "--quiet", "--message-format=json"])
            .arg("--manifest-path")
            .arg(root.join("host/Cargo.toml"))
            .arg("--target-dir")
            .arg(&target)
            .current_dir(root.join("host"))
            .output()
            .map_err(|e| format!("cargo: {}", e))?;
        if !out.status.success() {
            return Err(format!(
                "the code under test does not build: {}{}",
                String::from_utf8_lossy(&out.stderr),
                String::from_utf8_lossy(&out.stdout)
            ));
        }
        let mut so = None;
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
            if v["reason"] == "compiler-artifact" && v["target"]["name"] == "parsegen" {
                for f in v["filenames"].as_array().into_iter().flatten() {
                    if f.as_str().unwrap_or("").ends_with(".so") {
                        so = f.as_str().map(PathBuf::from);
                    }
                }
            }
        }
        let so = so.ok_or("no macro library in cargo's output")?;
        let so2 = scratch.join("libparsegen.so");
        std::fs::copy(&so, &so2).map_err(|e| e.to_string())?;
        let sysroot = tool("rustc")
            .arg("--print=sysroot")
            .output()
            .map_err(|e| format!("rustc: {}", e))?;
        let rustc = PathBuf::from(String::from_utf8_lossy(&sysroot.stdout).trim()).join("bin/rustc");
        let rt_src = scratch.join("rt.rs");
        std::fs::write(&rt_src, RT_SRC).map_err(|e| e.to_string())?;
        let rt = scratch.join("librt.rlib");
        let out = tool(rustc.to_str().unwrap())
            .args(["--edition", "2021", "--crate-type", "rlib", "--crate-name", "rt", "-O"])
            .arg("-o")
            .arg(&rt)
            .arg(&rt_src)
            .output()
            .map_err(|e| format!("rustc: {}", e))?;
        if !out.status.success() {
            return Err(format!("runtime: {}", String::from_utf8_lossy(&out.stderr)));
        }
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
        Ok(Env {
            root: root.to_path_buf(),
            scratch,
            so: so2,
            rt,
            rustc,
            threads,
            counter: AtomicUsize::new(0),
            troubles: Mutex::new(vec![]),
            compiled: AtomicUsize::new(0),
            rejected: AtomicUsize::new(0),
            executed: AtomicUsize::new(0),
            deadline: None,
            cut: Default::default(),
        })
    }

    /// On a slow machine the quick tier ends with less work done rather than not at all.
    pub fn late(&self) -> bool {
        let late = self.deadline.map_or(false, |d| Instant::now() > d);
        if late && !self.cut.swap(true, Ordering::Relaxed) {
            eprintln!("pgcheck: out of time, the rest is left out");
        }
        late
    }

    pub fn trouble(&self, s: String) {
        let mut t = self.troubles.lock().unwrap();
        if t.len() < 20 {
            eprintln!("pgcheck: trouble: {}", s);
        }
        t.push(s);
    }

    pub fn fresh_dir(&self, what: &str) -> PathBuf {
        let n = self.counter.fetch_add(1, Ordering::Relaxed);
        let d = self.scratch.join(format!("{}{}", what, n));
        std::fs::create_dir_all(&d).unwrap();
        d
    }

    pub fn rustc(&self) -> Command {
        self.rustc_for("2021")
    }

    fn rustc_for(&self, edition: &str) -> Command {
        let mut c = tool(self.rustc.to_str().unwrap());
        c.args(["--edition", edition, "-Awarnings"])
            .arg("--extern")
            .arg(format!("parsegen={}", self.so.display()))
            .arg("--extern")
            .arg(format!("rt={}", self.rt.display()))
            .arg("-L")
            .arg(format!("dependency={}", self.scratch.display()));
        c
    }

    /// Compiles and runs all programs, in parallel, results in order.
    pub fn process(&self, progs: &[Prog]) -> Vec<Res> {
        self.process_by(progs, &|ps| self.batch(ps))
    }

    pub fn process_by(&self, progs: &[Prog], exec: &(dyn Fn(&[&Prog]) -> Vec<Res> + Sync)) -> Vec<Res> {
        // batches by weight
        let total: usize = progs.iter().map(|p| p.weight.max(1)).sum();
        let per = (total / (self.threads * 2)).clamp(1, 48);
        let mut batches: Vec<Vec<usize>> = vec![];
        let mut cur = vec![];
        let mut w = 0;
        for (i, p) in progs.iter().enumerate() {
            if !cur.is_empty() && w + p.weight.max(1) > per {
                batches.push(std::mem::take(&mut cur));
                w = 0;
            }
            cur.push(i);
            w += p.weight.max(1);
        }
        if !cur.is_empty() {
            batches.push(cur);
        }
        let next = AtomicUsize::new(0);
        let results: Mutex<BTreeMap<usize, Res>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(batches.len()) {
                s.spawn(|| loop {
                    let b = next.fetch_add(1, Ordering::Relaxed);
                    let Some(ids) = batches.get(b) else { break };
                    let ps: Vec<&Prog> = ids.iter().map(|i| &progs[*i]).collect();
                    let rs = exec(&ps);
                    let mut all = results.lock().unwrap();
                    for (i, r) in ids.iter().zip(rs) {
                        all.insert(*i, r);
                    }
                });
            }
        });
        results.into_inner().unwrap().into_values().collect()
    }

    pub fn batch(&self, ps: &[&Prog]) -> Vec<Res> {
        let dir = self.fresh_dir("b");
        let comps = self.compile(&dir, ps);
        let mut res: Vec<Res> = comps.into_iter().map(|comp| Res { comp, outs: vec![] }).collect();
        for r in &res {
            match r.comp {
                Comp::Ok => &self.compiled,
                _ => &self.rejected,
            }
            .fetch_add(1, Ordering::Relaxed);
        }
        let mut lines: Vec<(usize, String)> = vec![];
        for (k, p) in ps.iter().enumerate() {
            if res[k].comp == Comp::Ok {
                for (e, arg) in &p.inputs {
                    lines.push((k, format!("{} {} {}", k, e, arg)));
                }
            }
        }
        self.executed.fetch_add(lines.len(), Ordering::Relaxed);
        let outs = self.run_lines(&dir, &lines);
        for ((k, _), o) in lines.iter().zip(outs) {
            res[*k].outs.push(o);
        }
        let _ = std::fs::remove_dir_all(&dir);
        res
    }

    fn compile(&self, dir: &Path, ps: &[&Prog]) -> Vec<Comp> {
        let mut comps: Vec<Option<Comp>> = vec![None; ps.len()];
        for (k, p) in ps.iter().enumerate() {
            // programs may name themselves
            let text = p.src.replace("__SELF__", &format!("g{}", k));
            let text = match split_lib(&text) {
                Some((ed, lib, user)) => {
                    std::fs::write(dir.join(format!("l{}.rs", k)), lib).unwrap();
                    user.replace("__LIB__", &format!("plib{}::l{}", ed, k))
                }
                None => text,
            };
            std::fs::write(dir.join(format!("g{}.rs", k)), text).unwrap();
        }
        let slow = 5 * ps.iter().map(|p| p.weight as u64).max().unwrap_or(1);
        for _round in 0..12 {
            let live: Vec<usize> = (0..ps.len()).filter(|k| comps[*k].is_none()).collect();
            if live.is_empty() {
                return comps.into_iter().map(|c| c.unwrap()).collect();
            }
            match self.rustc_once(dir, ps, &live, slow) {
                Attempt::Good => {
                    for k in live {
                        comps[k] = Some(Comp::Ok);
                    }
                    return comps.into_iter().map(|c| c.unwrap()).collect();
                }
                Attempt::Errors(map) => {
                    for (k, c) in map {
                        comps[k] = Some(c);
                    }
                }
                Attempt::Broken(why) => {
                    if live.len() == 1 {
                        comps[live[0]] = Some(why);
                    } else {
                        // find the culprits one by one, then link the good ones together
                        for k in live {
                            match self.rustc_once(dir, ps, &[k], slow) {
                                Attempt::Good => {}
                                Attempt::Errors(map) => {
                                    for (k, c) in map {
                                        comps[k] = Some(c);
                                    }
                                }
                                Attempt::Broken(why) => comps[k] = Some(why),
                            }
                        }
                    }
                }
            }
        }
        comps
            .into_iter()
            .map(|c| {
                c.unwrap_or_else(|| {
                    self.trouble("compilation of a batch did not settle".into());
                    Comp::Unknown("did not settle".into())
                })
            })
            .collect()
    }

    fn rustc_once(&self, dir: &Path, ps: &[&Prog], live: &[usize], slow: u64) -> Attempt {
        // libraries first
        let mut editions: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
        for k in live {
            if let Some((ed, _, _)) = split_lib(&ps[*k].src) {
                editions.entry(ed).or_default().push(*k);
            }
        }
        let mut externs: Vec<(String, PathBuf)> = vec![];
        for (ed, ks) in editions {
            let mut text = String::from("#![allow(warnings)]\n");
            for k in &ks {
                text.push_str(&format!("pub mod l{};\n", k));
            }
            let name = format!("plib{}", ed);
            let src = dir.join(format!("{}.rs", name));
            std::fs::write(&src, text).unwrap();
            let out = dir.join(format!("lib{}.rlib", name));
            let mut c = self.rustc_for(ed);
            c.args(["--crate-type", "rlib", "--crate-name", &name]);
            match self.one_rustc(c, &src, &out, &ks, slow) {
                Attempt::Good => externs.push((name, out)),
                // the other editions are looked at in the next round
                bad => return bad.among(live, &ks),
            }
        }
        let mut main = String::from("#![allow(warnings)]\n");
        for k in live {
            main.push_str(&format!("mod g{};\n", k));
        }
        main.push_str("fn dispatch(g: usize, e: usize, arg: &str) -> String { match g {\n");
        for k in live {
            main.push_str(&format!("{} => g{}::run(e, arg),\n", k, k));
        }
        main.push_str("_ => unreachable!() } }\nfn main() { rt::main_loop(dispatch) }\n");
        let main_rs = dir.join("main.rs");
        std::fs::write(&main_rs, main).unwrap();
        let mut c = self.rustc();
        for (n, p) in &externs {
            c.arg("--extern").arg(format!("{}={}", n, p.display()));
        }
        self.one_rustc(c, &main_rs, &dir.join("prog"), live, slow)
    }

    fn one_rustc(&self, mut c: Command, src: &Path, out: &Path, live: &[usize], slow: u64) -> Attempt {
        c.args([
            "-Cdebuginfo=0",
            "-Copt-level=0",
            "-Coverflow-checks=on",
            "-Cdebug-assertions=on",
            "-Ccodegen-units=4",
            "--error-format=json",
            "-o",
        ])
        .arg(out)
        .arg(src);
        let limit = match live.len() {
            1 => LONE_RUSTC_LIMIT + Duration::from_secs(slow),
            _ => RUSTC_LIMIT + Duration::from_secs(slow),
        };
        let out = match timed(limited(&c, 8 << 20), limit) {
            Timed::Done(status, _, err) => (status, err),
            Timed::Late(_) => {
                // a batch is taken apart; one ordinary program needs about a second
                return Attempt::Broken(Comp::Rejected {
                    msg: format!("the compiler does not finish within {} s", limit.as_secs()),
                    expansion: true,
                });
            }
            Timed::Failed(e) => {
                self.trouble(format!("cannot run rustc: {}", e));
                return Attempt::Broken(Comp::Unknown(e));
            }
        };
        if out.0.success() {
            return Attempt::Good;
        }
        let mut map: BTreeMap<usize, Comp> = BTreeMap::new();
        let mut other = String::new();
        for line in String::from_utf8_lossy(&out.1).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else {
                other.push_str(line);
                continue;
            };
            if v["level"] != "error" && v["level"] != "error: internal compiler error" {
                continue;
            }
            let mut files = BTreeSet::new();
            for s in v["spans"].as_array().into_iter().flatten() {
                span_files(s, &mut files, 0);
            }
            let msg = v["message"].as_str().unwrap_or("").to_string();
            if files.is_empty() {
                other.push_str(&msg);
                other.push('\n');
                continue;
            }
            let mut text = msg.clone();
            for ch in v["children"].as_array().into_iter().flatten() {
                if let Some(m) = ch["message"].as_str() {
                    text.push_str(" / ");
                    text.push_str(m);
                }
            }
            let expansion = msg.contains("proc macro panicked")
                || v["code"].is_null() && !msg.contains("cannot find");
            for k in files {
                if live.contains(&k) {
                    map.entry(k).or_insert(Comp::Rejected {
                        msg: text.clone(),
                        expansion,
                    });
                }
            }
        }
        if !map.is_empty() {
            return Attempt::Errors(map);
        }
        let why = if let Some(sig) = out.0.signal() {
            if sig == 9 || sig == 15 {
                self.trouble(format!("rustc was ended by signal {}", sig));
                Comp::Unknown(format!("signal {}", sig))
            } else {
                Comp::Rejected {
                    msg: format!("rustc died from signal {} while expanding", sig),
                    expansion: true,
                }
            }
        } else if live.len() == 1 && !other.contains("linking") && !other.contains("No space left") {
            Comp::Rejected {
                msg: other.chars().take(300).collect(),
                expansion: false,
            }
        } else {
            if live.len() == 1 {
                self.trouble(format!("rustc: {}", other.chars().take(400).collect::<String>()));
            }
            Comp::Unknown(other.chars().take(300).collect())
        };
        Attempt::Broken(why)
    }

    fn run_lines(&self, dir: &Path, lines: &[(usize, String)]) -> Vec<RawOut> {
        let mut outs = vec![];
        let mut rounds = 0;
        let mut lone = false;
        while outs.len() < lines.len() {
            rounds += 1;
            let mut rest = &lines[outs.len()..];
            if lone {
                rest = &rest[..1];
            }
            let file = dir.join("lines");
            let text: String = rest.iter().map(|l| l.1.as_str()).collect::<Vec<_>>().join("\n");
            std::fs::write(&file, text).unwrap();
            let mut c = Command::new(dir.join("prog"));
            c.arg(&file).env("RUST_BACKTRACE", "0");
            match timed(limited(&c, 6 << 20), if lone { LONE_RUN_LIMIT } else { RUN_LIMIT }) {
                Timed::Done(status, out, err) => {
                    lone = false;
                    let text = String::from_utf8_lossy(&out).into_owned();
                    let mut got: Vec<&str> = text.split('\n').collect();
                    got.pop(); // after the last newline
                    for l in got.iter().take(rest.len()) {
                        outs.push(RawOut::Line(l.to_string()));
                    }
                    if got.len() < rest.len() {
                        let why = match status.signal() {
                            Some(s) => format!("signal {}", s),
                            None => format!("exit status {:?}", status.code()),
                        };
                        let first = String::from_utf8_lossy(&err);
                        let first = first.trim().lines().next().unwrap_or("").to_string();
                        if matches!(status.signal(), Some(9) | Some(15)) {
                            self.trouble(format!("a test program was ended by {}", why));
                            outs.push(RawOut::Unknown(why));
                        } else {
                            outs.push(RawOut::Crash(format!("{}: {}", why, first)));
                        }
                    }
                }
                Timed::Late(out) => {
                    let text = String::from_utf8_lossy(&out).into_owned();
                    let mut got: Vec<&str> = text.split('\n').collect();
                    got.pop();
                    for l in got.iter().take(rest.len()) {
                        outs.push(RawOut::Line(l.to_string()));
                    }
                    if lone && outs.len() < lines.len() && got.is_empty() {
                        // alone, far more time than any input can need
                        outs.push(RawOut::Crash(format!(
                            "does not return within {} s",
                            LONE_RUN_LIMIT.as_secs()
                        )));
                        while outs.len() < lines.len() {
                            outs.push(RawOut::Unknown("not run, an earlier call did not return".into()));
                        }
                    }
                    lone = true;
                }
                Timed::Failed(e) => {
                    self.trouble(format!("cannot run a test program: {}", e));
                    while outs.len() < lines.len() {
                        outs.push(RawOut::Unknown(e.clone()));
                    }
                }
            }
            if rounds > 40 {
                while outs.len() < lines.len() {
                    outs.push(RawOut::Unknown("too many crashes".into()));
                }
            }
        }
        outs
    }

    pub fn cleanup(&self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
    }
}

enum Attempt {
    Good,
    Errors(BTreeMap<usize, Comp>),
    Broken(Comp),
}

impl Attempt {
    /// What an attempt on `part` means for `all`.
    fn among(self, all: &[usize], part: &[usize]) -> Attempt {
        match self {
            // one library alone is the culprit
            Attempt::Broken(why) if part.len() == 1 && all.len() > 1 => Attempt::Errors([(part[0], why)].into()),
            a => a,
        }
    }
}

/// A program may have a part that goes into a library of its own, with the given edition:
/// `//@lib EDITION`, that part, `//@user`, the part that uses it as `__LIB__`.
fn split_lib(src: &str) -> Option<(&str, &str, &str)> {
    let (ed, rest) = src.strip_prefix("//@lib ")?.split_once('\n')?;
    let (lib, user) = rest.split_once("//@user\n")?;
    Some((ed, lib, user))
}

pub fn span_files(s: &serde_json::Value, files: &mut BTreeSet<usize>, depth: usize) {
    if depth > 8 {
        return;
    }
    if let Some(f) = s["file_name"].as_str() {
        let base = f.rsplit('/').next().unwrap_or("");
        if let Some(n) = base.strip_prefix(['g', 'l']).and_then(|x| x.strip_suffix(".rs")) {
            if let Ok(k) = n.parse() {
                files.insert(k);
            }
        }
    }
    let e = &s["expansion"];
    if !e.is_null() {
        span_files(&e["span"], files, depth + 1);
    }
}

pub enum Timed {
    Done(std::process::ExitStatus, Vec<u8>, Vec<u8>),
    /// with the output so far
    Late(Vec<u8>),
    Failed(String),
}

pub fn timed(mut c: Command, limit: Duration) -> Timed {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => return Timed::Failed(e.to_string()),
    };
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let t2 = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let start = Instant::now();
    let mut nap = Duration::from_millis(1);
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(nap);
        nap = (nap * 2).min(Duration::from_millis(20));
    };
    let out = t1.join().unwrap_or_default();
    let err = t2.join().unwrap_or_default();
    match status {
        Some(s) => Timed::Done(s, out, err),
        None => Timed::Late(out),
    }
}

mod cover;
mod derive;
mod earley;
mod emit;
mod gcheck;
mod gen;
mod gram;
mod inputs;
mod lr;
mod obs;
mod pipe;
mod probe;
mod props;
mod report;
mod src;
mod tape;

use report::*;
use std::path::PathBuf;
use std::time::Instant;

pub struct Ctx {
    pub env: pipe::Env,
    pub seed: u64,
    pub thorough: bool,
}

fn usage() -> ! {
    eprintln!("usage: pgcheck check <property> | replay <file>");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("PGROOT").unwrap_or_else(|_| "/verif".into()));
    if args.len() < 3 {
        usage();
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let start = Instant::now();
    let (id, replay) = match args[1].as_str() {
        "check" => (args[2].clone(), None),
        "replay" => {
            let text = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| {
                eprintln!("{}: {}", args[2], e);
                std::process::exit(2)
            });
            let id = text
                .lines()
                .find_map(|l| l.strip_prefix("property "))
                .unwrap_or_else(|| usage())
                .to_string();
            (id, Some(text))
        }
        _ => usage(),
    };
    let env = match pipe::Env::new(&root, &id) {
        Ok(mut e) => {
            if !thorough && replay.is_none() {
                e.deadline = Some(start + std::time::Duration::from_secs(450));
            }
            e
        }
        Err(e) => {
            eprintln!("pgcheck: {}", e);
            std::process::exit(2);
        }
    };
    let ctx = Ctx { env, seed, thorough };
    if let Some(text) = replay {
        let case = text.split_once("--- case\n").map(|x| x.1).unwrap_or("");
        let case = case.split("--- readable\n").next().unwrap();
        let r = props::replay(&ctx, &id, case);
        ctx.env.cleanup();
        match r {
            Ok(Some(m)) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", id, args[2]);
                std::process::exit(1);
            }
            Ok(None) => {
                println!("holds on this case");
                std::process::exit(if ctx.env.troubles.lock().unwrap().is_empty() { 0 } else { 2 });
            }
            Err(e) => {
                eprintln!("pgcheck: {}", e);
                std::process::exit(2);
            }
        }
    }
    let mut ev = Evidence::default();
    (ev.rule, ev.assumptions) = props::about::about(&id);
    eprintln!("pgcheck: code under test built, {:.1} s", start.elapsed().as_secs_f64());
    let fail = props::check(&ctx, &id, &mut ev);
    use std::sync::atomic::Ordering::Relaxed;
    ev.extra.insert(
        "pipeline".into(),
        serde_json::json!({
            "programs_compiled": ctx.env.compiled.load(Relaxed),
            "programs_not_compiling": ctx.env.rejected.load(Relaxed),
            "calls_executed": ctx.env.executed.load(Relaxed),
            "cut_short": ctx.env.cut.load(Relaxed),
            "no_answer": ctx.env.troubles.lock().unwrap().len(),
        }),
    );
    ctx.env.cleanup();
    let fail = match fail {
        Ok(f) => f,
        Err(e) => {
            eprintln!("pgcheck: {}", e);
            std::process::exit(2);
        }
    };
    ev.write(
        &root,
        &id,
        tier,
        seed,
        start.elapsed().as_secs_f64(),
        fail.is_some() as usize,
    );
    println!(
        "{} {}: {} programs, {} evaluations, {} distinct non-trivial, {:.1} s",
        id,
        tier,
        ev.cases,
        ev.evaluations,
        ev.distinct_nontrivial,
        start.elapsed().as_secs_f64()
    );
    if let Some(f) = fail {
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}.txt", id, seed));
        let text = format!(
            "property {}\nseed {}\n--- message\n{}\n--- case\n{}--- readable\n{}\n",
            id, seed, f.message, f.case, f.readable
        );
        let _ = std::fs::write(&path, text);
        println!("{}", f.message);
        println!("VIOLATION property={} replay={}", id, path.display());
        std::process::exit(1);
    }
    let t = ctx.env.troubles.lock().unwrap();
    if !t.is_empty() {
        eprintln!("pgcheck: {} cases gave no answer: {}", t.len(), t[0]);
        std::process::exit(2);
    }
}

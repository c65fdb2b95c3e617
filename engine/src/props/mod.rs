pub mod about;
pub mod actions;
pub mod big;
pub mod determ;
pub mod equiv;
pub mod hist;
pub mod lang;
pub mod long;
pub mod mistakes;
pub mod syntax;
pub mod tokens;
pub mod types;
pub mod uses;

use crate::gcheck::{campaign, replay as greplay, Plan};
use crate::inputs;
use crate::report::*;
use crate::tape;
use crate::Ctx;
use lang::{Kind, Lang};

fn lang(id: &str) -> Option<Lang> {
    let base = inputs::Plan {
        prefixes: 40,
        sentences: 14,
        mutants: 14,
        errors: false,
        max: 160,
    };
    let (kind, plan) = match id {
        "C01" => (Kind::Language, base),
        "C02" => (
            Kind::Values,
            inputs::Plan {
                prefixes: 30,
                sentences: 40,
                mutants: 0,
                ..base
            },
        ),
        "C03" => (Kind::SyntaxErrors, base),
        "C04" => (
            Kind::LexerErrors,
            inputs::Plan {
                prefixes: 25,
                max: 110,
                errors: true,
                ..base
            },
        ),
        "C05" => (
            Kind::Streaming,
            inputs::Plan {
                prefixes: 25,
                max: 110,
                errors: true,
                ..base
            },
        ),
        "C06" => (Kind::Conflicts, base),
        "C13" => (Kind::Total, base),
        "C14" => (
            Kind::Memory,
            inputs::Plan {
                prefixes: 25,
                max: 110,
                errors: true,
                ..base
            },
        ),
        _ => return None,
    };
    Some(Lang { kind, plan, cap: 160 })
}

pub fn check(ctx: &Ctx, id: &str, ev: &mut Evidence) -> Result<Option<Failure>, String> {
    if let Some(l) = lang(id) {
        let plan = Plan {
            chunks: if ctx.thorough { 800 } else if id == "C13" { 48 } else { 96 },
            per_chunk: 48,
            batch: 48,
            quota: 8,
            cap: l.cap,
        };
        let wide = ["C01", "C02", "C03", "C04", "C05", "C06", "C13"].contains(&id);
        let (bin, r) = beside(ctx, wide, || campaign(&ctx.env, &l, id, ctx.seed, plan, ev));
        if let Some(f) = r {
            return Ok(Some(f));
        }
        if let Some(bin) = &bin {
            let w = crate::probe::WPlan {
                tiny: tiny(ctx, id),
                chunks: if ctx.thorough { 16000 } else if id == "C06" { 400 } else { 800 },
                per_chunk: 250,
            };
            if let Some(f) = crate::probe::campaign(&ctx.env, bin, &l, id, ctx.seed, w, ev) {
                return Ok(Some(f));
            }
        } else if wide {
            no_search(ev);
        }
        if id == "C13" {
            let plan = tape::TPlan {
                chunks: if ctx.thorough { 400 } else { 48 },
                per_chunk: 20,
                batch: 40,
            };
            return Ok(tape::campaign(&ctx.env, &long::Long { max: 40000 }, id, ctx.seed, plan, ev));
        }
        if id == "C06" {
            let plan = tape::TPlan {
                chunks: if ctx.thorough { 300 } else { 16 },
                per_chunk: 4,
                batch: 2,
            };
            let p = big::Big { expand_only: true };
            if let Some(f) = tape::campaign(&ctx.env, &p, id, ctx.seed, plan, ev) {
                return Ok(Some(f));
            }
            if let Some(bin) = &bin {
                let n = if ctx.thorough { 4000 } else { 120 };
                return Ok(tape::wide(&ctx.env, bin, &p, id, ctx.seed, n, 8, ev));
            }
            return Ok(None);
        }
        return Ok(None);
    }
    if id == "C07" {
        let p = equiv::Entries {
            plan: inputs::Plan {
                prefixes: 15,
                sentences: 8,
                mutants: 6,
                errors: true,
                max: 40,
            },
            cap: 160,
        };
        let plan = Plan {
            chunks: if ctx.thorough { 600 } else { 72 },
            per_chunk: 16,
            batch: 48,
            quota: 4,
            cap: 160,
        };
        let (bin, r) = beside(ctx, true, || campaign(&ctx.env, &p, id, ctx.seed, plan, ev));
        if r.is_some() {
            return Ok(r);
        }
        let Some(bin) = bin else {
            no_search(ev);
            return Ok(None);
        };
        let w = crate::probe::WPlan {
            tiny: tiny(ctx, id),
            chunks: if ctx.thorough { 16000 } else { 400 },
            per_chunk: 250,
        };
        return Ok(crate::probe::campaign(&ctx.env, &bin, &p, id, ctx.seed, w, ev));
    }
    if id == "C10" {
        let p = renderings();
        let plan = Plan {
            chunks: if ctx.thorough { 600 } else { 72 },
            per_chunk: 16,
            batch: 48,
            quota: 4,
            cap: 160,
        };
        return Ok(campaign(&ctx.env, &p, id, ctx.seed, plan, ev));
    }
    if id == "C19" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 800 } else { 96 },
            per_chunk: 20,
            batch: 40,
        };
        return Ok(tape::campaign(&ctx.env, &actions::Actions, id, ctx.seed, plan, ev));
    }
    if id == "C08" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 700 } else { 80 },
            per_chunk: 20,
            batch: 40,
        };
        return Ok(tape::campaign(&ctx.env, &tokens::Tokens, id, ctx.seed, plan, ev));
    }
    if id == "C09" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 700 } else { 80 },
            per_chunk: 20,
            batch: 40,
        };
        return Ok(tape::campaign(&ctx.env, &types::Types, id, ctx.seed, plan, ev));
    }
    if id == "C16" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 600 } else { 60 },
            per_chunk: 4,
            batch: 2,
        };
        let p = big::Big { expand_only: false };
        return Ok(then_wide(ctx, id, &p, plan, if ctx.thorough { (4000, 8) } else { (240, 8) }, ev));
    }
    if id == "C15" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 800 } else { 80 },
            per_chunk: 20,
            batch: 40,
        };
        return Ok(tape::campaign(&ctx.env, &hist::Hist, id, ctx.seed, plan, ev));
    }
    if id == "C17" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 800 } else { 80 },
            per_chunk: 10,
            batch: 30,
        };
        return Ok(tape::campaign(&ctx.env, &uses::Uses, id, ctx.seed, plan, ev));
    }
    if id == "C12" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 2000 } else { 160 },
            per_chunk: 24,
            batch: 24,
        };
        return Ok(then_wide(ctx, id, &determ::Determ, plan, if ctx.thorough { (8000, 100) } else { (400, 100) }, ev));
    }
    if id == "C11" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 800 } else { 80 },
            per_chunk: 24,
            batch: 60,
        };
        return Ok(then_wide(ctx, id, &mistakes::Mistakes, plan, if ctx.thorough { (8000, 100) } else { (400, 100) }, ev));
    }
    if id == "C18" {
        let plan = tape::TPlan {
            chunks: if ctx.thorough { 800 } else { 80 },
            per_chunk: 10,
            batch: 60,
        };
        return Ok(then_wide(ctx, id, &syntax::Syntax, plan, if ctx.thorough { (16000, 100) } else { (800, 100) }, ev));
    }
    Err(format!("no check for {}", id))
}

/// Up to which size all grammars with one, two, three non-terminals are tried
fn tiny(ctx: &Ctx, id: &str) -> (usize, usize, usize) {
    match id {
        _ if ctx.thorough => (10, 9, 9),
        "C01" | "C06" => (8, 7, 7),
        _ => (7, 6, 6),
    }
}

/// Builds the helper of the wide search while the campaign runs.
fn beside<T>(ctx: &Ctx, wide: bool, run: impl FnOnce() -> T) -> (Option<std::path::PathBuf>, T) {
    std::thread::scope(|s| {
        let b = s.spawn(|| if wide { crate::probe::build(&ctx.env) } else { None });
        let r = run();
        (b.join().unwrap(), r)
    })
}

fn no_search(ev: &mut Evidence) {
    ev.extra.insert("wide_search".into(), serde_json::json!("not possible for this tree"));
}

fn then_wide<P: tape::TProp>(ctx: &Ctx, id: &str, p: &P, plan: tape::TPlan, n: (usize, usize), ev: &mut Evidence) -> Option<Failure> {
    let (bin, r) = beside(ctx, true, || tape::campaign(&ctx.env, p, id, ctx.seed, plan, ev));
    if r.is_some() {
        return r;
    }
    match bin {
        Some(bin) => tape::wide(&ctx.env, &bin, p, id, ctx.seed, n.0, n.1, ev),
        None => {
            no_search(ev);
            None
        }
    }
}

fn renderings() -> equiv::Renderings {
    equiv::Renderings {
        plan: inputs::Plan {
            prefixes: 15,
            sentences: 10,
            mutants: 6,
            errors: false,
            max: 40,
        },
        cap: 120,
        variants: 3,
    }
}

pub fn replay(ctx: &Ctx, id: &str, case: &str) -> Result<Option<String>, String> {
    if id == "C06" && case.starts_with("tape") {
        return tape::replay(&ctx.env, &big::Big { expand_only: true }, case);
    }
    if id == "C13" && case.starts_with("tape") {
        return tape::replay(&ctx.env, &long::Long { max: 40000 }, case);
    }
    if let Some(l) = lang(id) {
        return greplay(&ctx.env, &l, case);
    }
    if id == "C07" {
        let p = equiv::Entries {
            plan: renderings().plan,
            cap: 160,
        };
        return greplay(&ctx.env, &p, case);
    }
    if id == "C09" {
        return tape::replay(&ctx.env, &types::Types, case);
    }
    if id == "C19" {
        return tape::replay(&ctx.env, &actions::Actions, case);
    }
    if id == "C08" {
        return tape::replay(&ctx.env, &tokens::Tokens, case);
    }
    if id == "C16" {
        return tape::replay(&ctx.env, &big::Big { expand_only: false }, case);
    }
    if id == "C15" {
        return tape::replay(&ctx.env, &hist::Hist, case);
    }
    if id == "C17" {
        return tape::replay(&ctx.env, &uses::Uses, case);
    }
    if id == "C18" {
        return tape::replay(&ctx.env, &syntax::Syntax, case);
    }
    if id == "C12" {
        return tape::replay(&ctx.env, &determ::Determ, case);
    }
    if id == "C11" {
        return tape::replay(&ctx.env, &mistakes::Mistakes, case);
    }
    if id == "C10" {
        return greplay(&ctx.env, &renderings(), case);
    }
    Err(format!("no check for {}", id))
}

//! What goes into the evidence besides counts: how cases are made, what counts as non-trivial, and
//! what a check takes for granted.

const GRAMMARS: &str = "Grammars come from eleven random families (flat random, LL-like, nullable chains, expression \
levels, shared contexts (LR(1) but not LALR(1)), lists, statements, small, shared symbols before differing suffixes, runs of optional parts, chains), some widened by dozens of terminals, mutations and compositions of them, decorated at random with \
value types, token shapes, bound/unbound/mut symbols and pub non-terminals, classified by the engine's own canonical LR(1) \
construction, and drawn so that every structural feature gets its quota. Inputs per entry point: viable prefixes enumerated \
exhaustively shortest first (each also followed by impossible tokens), random derivations, inputs through sampled (state, next token) pairs of the reference automaton, mutated sentences.";

pub fn about(id: &str) -> (String, Vec<String>) {
    let rule = match id {
        "C01" => format!("{} Non-trivial: a non-empty input of a grammar without conflicts whose verdict was compared with Earley recognition.", GRAMMARS),
        "C02" => format!("{} Non-trivial: a sentence whose parse runs at least two actions, one of them with bound arguments, compared action by action with the reference evaluation.", GRAMMARS),
        "C03" => format!("{} Non-trivial: an input outside the language whose offending token is not the first one.", GRAMMARS),
        "C04" => format!("{} Error items are put at every kind of position (in and after sentences, after syntax errors, several of them). Non-trivial: an input with an error item that is not first, or with a syntax error before it.", GRAMMARS),
        "C05" => format!("{} Non-trivial: an input with at least four observed events (polls and actions), whose whole trace was compared with the reference machine's.", GRAMMARS),
        "C06" => format!("{} 40 % conflict-free, 25 % shift/reduce only, 35 % with reductions in conflict; then large grammars, half of them with an injected duplicate production. Non-trivial: each conflicting or large grammar's verdict, each sentence accepted by a parser with resolved conflicts.", GRAMMARS),
        "C07" => format!("{} Each grammar is rendered with several sets of pub non-terminals; one input is run on all renderings that have its entry point. Non-trivial: an input whose parser was compared with its lone version, of a grammar with several pub non-terminals, non-empty or of a pub non-terminal used inside productions.", GRAMMARS),
        "C10" => format!("{} Each grammar is rendered several times under random compositions of the rewrites; all renderings are compared with each other. Non-trivial: a non-empty input compared with a rendering that differs from the plain one.", GRAMMARS),
        "C08" => "Random token types (enums, structs, tuples, references, boxes, nested), random lists of overlapping patterns over them \
with captures at random places, and values drawn to hit the patterns and their near misses; the program holds a Rust match with the same \
patterns. Non-trivial: a token value compared with that match that several entries match or that captures something.".into(),
        "C09" => "Random token types with up to three lifetimes, random field and non-terminal types over 44 kinds of type, random grammars \
moving values between them; the program holds the same computation as plain functions. Non-trivial: a parse whose result type is more than a primitive (its spelling is longer than eight characters).".into(),
        "C19" => "Random typed Rust expressions (15 types; literals, operators, control flow, blocks with statements and items, closures, macros, \
patterns, coercions, effects, panics) as actions of random grammars, at five kinds of call site; the program holds the same expressions as bodies of plain functions. Non-trivial: a parse whose result, \
panic and effects were compared with those functions', of a grammar with an action of more than twelve characters and symbols.".into(),
        "C11" => "Random well-formed grammars (each one also compiled as a control), and copies with one mistake from the list in the property at a random place. Non-trivial: an ill-formed copy whose control compiles.".into(),
        "C12" => "Random sources (grammars of all classes, token pattern cases, type cases, ill-formed ones), each expanded in three compiler processes or more with \
different neighbours, order, position, directory and environment variables; expansions are compared as text without white space, rejections by message. Non-trivial: a grammar with at least six states or one from the other kinds.".into(),
        "C13" => format!("{} Also grammars with resolved shift/reduce conflicts and useless non-terminals, and arbitrary token sequences; then pumped inputs of up to 40000 tokens parsed on a thread with 192 KiB of stack. Non-trivial: a short input of a grammar with resolved conflicts or useless non-terminals; a long input of at least 3000 tokens.", GRAMMARS),
        "C14" => format!("{} Payloads and results are counted values that are not Clone. Non-trivial: a call that read at least two tokens and whose drop counts were balanced.", GRAMMARS),
        "C15" => format!("{} Calls are observed alone, in different orders and processes, and inside random histories (repeated, nested in actions and iterators, after panics, on up to 5 threads at once). Non-trivial: a history of at least two operations with a nested, aborted or concurrent call, every call of which was compared with its lone outcome.", GRAMMARS),
        "C16" => "Large grammars from 8 families (menus, productions of hundreds of symbols, random automata with hundreds of non-terminals, item lists, chains, nested blocks, \
operator levels, disjoint unions of dozens of small random grammars); inputs go through up to 160 different productions plus random and mutated sentences. Non-trivial: an input of more than one token of a grammar with more than 60 tokens, non-terminals, productions or symbols in one production or more than 120 states.".into(),
        "C17" => format!("{} For each grammar three to eight uses: an iterator (12 sources, chains of up to three of 22 adaptors), one of 18 error types, one of 9 ways of calling, \
the grammar in a library crate of edition 2018, 2021 or 2024 and the calls in another crate. Non-trivial: a call on a non-empty input through at least one adaptor or with another error type than u32, compared with the plain call.", GRAMMARS),
        "C18" => format!("{} One to three token-level edits (delete, insert, double, swap, replace by any token of the language or of the text, empty, drop, exchange or insert brackets, move over a bracket) of each \
generated grammar; an independent recogniser of the grammar syntax says whether the result still is a grammar, is not one, or cannot be decided without Rust's expression syntax. Non-trivial: a text that is not a grammar by the recogniser, made from one that is.", GRAMMARS),
        _ => String::new(),
    };
    let mut a = vec!["rustc, the standard library and cargo work as documented".to_string()];
    match id {
        "C08" => a.push("the oracle is rustc's own match on the same patterns".into()),
        "C09" => a.push("the oracle is rustc's type checker and the same computation in plain functions".into()),
        "C19" => a.push("the oracle is rustc's meaning of the same expression as the body of a function".into()),
        "C11" | "C12" => {}
        "C18" => a.push("the engine's recogniser of the grammar syntax is right (it also judges every unedited grammar, all of which compile)".into()),
        "C17" => a.push("a stub with the same signatures, compiled against the same calls, says which calls must compile".into()),
        "C10" | "C07" => a.push("the engine's canonical LR(1) construction decides which grammars are in the domain; it is compared with an Earley recogniser on every input".into()),
        _ => a.push("the engine's reference (canonical LR(1) tables and an independent Earley recogniser, compared with each other on inputs of conflict-free grammars) is right".into()),
    }
    if id == "C12" {
        a.push("-Zunpretty=expanded prints every token of the expansion".into());
    }
    let mut rule = rule;
    if id == "C12" {
        rule.push_str(" wide_search counts further sources expanded repeatedly in one helper process, after others that resemble them, and in a new one; every difference is judged again on compiler processes.");
    }
    if ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C13", "C16", "C18"].contains(&id) {
        rule.push_str(" wide_search counts (beginning, for the grammar properties, with every grammar up to some total size, family tiny) further generated cases for which the macro ran inside a helper process: there its tables are walked in step with \
the reference automaton (or its rejection compared with the expected verdict); every difference is judged again on a compiled program, and none of these counts as a case above.");
    }
    (rule, a)
}

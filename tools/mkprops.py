#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the long lines stay reviewable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

TESTS = ("The 24 tests run about twelve hand-written grammars on a few dozen accepted token sequences")

p("C01", "Generated parsers accept exactly the language of the grammar",
  "For every LR(1) grammar (including ones with empty productions, chains of nullable non-terminals, left, right and mutual recursion, unreachable or unproductive non-terminals) and every `pub` non-terminal X, `X::parse` returns Ok on a finite token sequence if and only if X derives that sequence. The result depends only on the productions, never on the order in which non-terminals or productions are written.",
  ["programs", "inputs"], "every LR(1) grammar x every pub non-terminal x every finite token sequence",
  TESTS + "; no test checks that anything is rejected, and none has a nullable non-terminal in a lookahead position followed by more symbols.",
  ["src/first.rs", "src/lr1.rs", "src/lr_common.rs", "src/lr_codegen.rs", "src/lower.rs"],
  [("FIRST set fixpoint", "src/first.rs generate_first_table"), ("LR(1) closure, goto, canonical collection", "src/lr1.rs"), ("action/goto tables", "src/lr1.rs build_lr1_table, src/lr_common.rs"), ("table driven parser loop", "src/lr_codegen.rs parse_generic")],
  ["X::parse(iter).is_ok()"],
  [dict(name="FIRST table", meaning="terminals that can start a non-terminal, and nullability", where="src/first.rs"), dict(name="LR(1) states", meaning="canonical collection of item sets", where="src/lr1.rs")])

p("C02", "Results are the bottom-up evaluation of the input's parse tree",
  "When a parse succeeds, the actions that ran are exactly those of the productions in the input's unique derivation tree, each once, children before parents and left to right, and the result is the value of the root's action. Each binder receives the value of the symbol it is attached to (a token's captured payload, or the value that symbol's own subtree produced), whatever mixture of bound, unbound and `mut` symbols and of value types the production uses.",
  ["programs", "inputs"], "every LR(1) grammar with bound and unbound symbols x every sentence of it",
  TESTS + "; most actions there return () or combine one or two values, so swapped, skipped or doubled values in longer productions would go unnoticed.",
  ["src/codegen.rs", "src/lr_codegen.rs", "src/lower.rs"],
  [("semantic action functions popping the value stack in reverse", "src/codegen.rs generate_semantic_action_table"), ("per-type value variants and extraction methods", "src/codegen.rs semantic_action_result_type"), ("reduce step", "src/lr_codegen.rs parse_generic"), ("entry point production", "src/lower.rs")],
  ["value returned by X::parse", "sequence of action calls and their arguments"],
  [dict(name="value stack", meaning="values of the symbols on the LR stack", where="src/lr_codegen.rs parse_generic")])

p("C03", "Syntax errors name the offending token and exactly what could follow",
  "For an LR(1) grammar whose non-terminals all derive something, a token sequence outside the language yields a parser error about the first token that no continuation can make valid: `found` is that token's declared name, or \"end-of-input\" when the input is a proper prefix of a sentence. `expected` is the comma-separated list, in declaration order, of exactly those declared tokens that could have come at that point (end of input is not listed).",
  ["programs", "inputs"], "every such grammar x every token sequence that is not a sentence",
  "No test inspects an error result at all.",
  ["src/codegen.rs", "src/lr_codegen.rs", "src/lr1.rs"],
  [("expected token strings per state", "src/codegen.rs generate_expected_state_tokens"), ("token names", "src/codegen.rs generate_token_to_text"), ("error return", "src/lr_codegen.rs parse_generic")],
  ["ParseError::ParserError { found, expected }"])

p("C04", "Lexer errors are passed through at the position they occur",
  "For an LR(1) grammar whose non-terminals all derive something: if the input iterator yields an error after a token prefix that can still be extended to a sentence, parsing returns that very error as a lexer error, even if the prefix already is a complete sentence. If the tokens before it already contain a syntax error, that syntax error is reported instead, exactly as if the lexer error were not there, and the iterator's error is never mistaken for a token or for end of input.",
  ["programs", "inputs", "fault_sequences"], "every such grammar x every sequence of tokens and errors",
  "No test ever feeds an Err item to a parser.",
  ["src/lr_codegen.rs"],
  [("lexer error check before the action lookup", "src/lr_codegen.rs parse_generic")],
  ["ParseError::LexerError(e)"])

p("C05", "Streaming: one token of lookahead, no action past an error",
  "For an LR(1) grammar whose non-terminals all derive something, a generated parser asks the iterator for one item at a time and never reads more than one token beyond those it has consumed; an action runs after the token following its last symbol was read and before any further token is read. After an error item, an offending token or the end of the input it never polls the iterator again, and once an offending token or lexer error has been read no further action runs.",
  ["programs", "inputs", "schedules"], "every such grammar x every token sequence: the interleaving of polls and actions",
  "Tests only look at the final value of a few successful parses from collected iterators; no test observes when the iterator is polled or when actions run.",
  ["src/lr_codegen.rs", "src/lr1.rs"],
  [("lookahead token variable", "src/lr_codegen.rs parse_generic"), ("canonical LR(1) lookaheads (no default reductions)", "src/lr1.rs")],
  ["trace of Iterator::next calls and action calls"])

p("C06", "Conflicts are detected at expansion; LR(1) grammars always expand",
  "A grammar with no LR(1) conflict is never rejected, and a grammar in which two different reductions (or a reduction and accepting the input) are possible in the same state on the same lookahead is always rejected at compile time, so an ambiguity between reductions is never resolved silently. A grammar whose only conflicts are shift/reduce is either rejected or compiled to a parser that shifts on every such conflict; that parser accepts only sentences of the grammar.",
  ["programs"], "every context-free grammar, classified by its canonical LR(1) conflicts",
  "No test contains a conflicting grammar; that a rejection happens is a compile-time failure which the test suite cannot express.",
  ["src/lr_common.rs", "src/lr1.rs"],
  [("conflict panics when an action cell is overwritten", "src/lr_common.rs add_shift, add_reduce, add_accept")],
  ["whether parser! expands", "behaviour of the parser it expands to"])

p("C07", "Every pub non-terminal is an independent entry point",
  "Each `pub` non-terminal gets a parser for its own language whose verdicts, values and errors are the same as if it were the only `pub` one, provided the grammar stays LR(1) from it; making another non-terminal `pub`, or using a `pub` non-terminal inside other productions (including its own), changes nothing. Non-terminals that are not `pub` get no parser.",
  ["programs", "inputs"], "every grammar x every subset of its non-terminals made pub x every token sequence",
  "One test has four entry points and tries each on one accepted input.",
  ["src/lower.rs", "src/lr1.rs", "src/lr_codegen.rs"],
  [("entry non-terminal added for each pub one", "src/lower.rs"), ("one initial state per entry point", "src/lr1.rs generate_lr1_automaton"), ("parser structs", "src/lr_codegen.rs")],
  ["X::parse for every pub X"])

p("C08", "Tokens are matched in declaration order and captures delivered intact",
  "Every token value is treated as the first entry of the token declaration whose pattern matches it, for any nesting of enum, struct, tuple, path, literal, `_`, `..` and `<Type>` patterns, with the same meaning those patterns have in a Rust `match`. The value of such a token symbol is the captured field for one `<Type>`, the tuple of captured fields in the order they are written in the pattern for several, and () for none.",
  ["programs", "inputs"], "every token type, every pattern list over it and every token value",
  "One test orders two overlapping patterns; captures are tested only as the single field of a tuple variant.",
  ["src/codegen.rs", "src/ast.rs"],
  [("pattern parser", "src/ast.rs Pattern"), ("classification match", "src/codegen.rs token_terminal_idx_fn, pattern_ignore"), ("capture match", "src/codegen.rs token_value_fn"), ("value variants", "src/codegen.rs semantic_action_result_type")],
  ["value of <x:\"token\"> in an action", "found in errors"])

p("C09", "Any value types and token lifetimes work, and values arrive unchanged",
  "For any assignment of Debug types to tokens' captures and non-terminals (generic, tuple, reference, boxed, unit, borrowed with any of the token type's lifetimes, the same type in several places or all different), a well-typed grammar expands to code that compiles - the token type itself, and what no pattern captures, need not implement any trait - and values reach the caller with the type the entry point declares. Borrowed captures keep pointing into the original input and may outlive the tokens and the parse call, and declaring a lifetime that no capture uses is fine.",
  ["programs"], "every assignment of types and lifetimes to a grammar",
  "Tests use at most one lifetime and at most three value types per grammar, all with every declared lifetime captured.",
  ["src/codegen.rs", "src/lr_codegen.rs", "src/ast.rs"],
  [("value enum: one variant per token and per distinct non-terminal type", "src/codegen.rs semantic_action_result_type"), ("lifetime parameters threaded through generated items", "src/codegen.rs, src/lr_codegen.rs")],
  ["that the expansion compiles", "value and address of the result"])

p("C10", "Equivalent ways of writing a grammar give equivalent parsers",
  "Reordering items (token declaration, non-terminals) or productions, writing a single production without braces, adding or dropping optional commas, renaming non-terminals or binders (to any name a local variable can have), marking binders `mut`, changing token names, spelling string literals differently (raw strings, escapes), and invoking the macro at module level, inside a function or through another macro do not change which inputs an LR(1) grammar's parser accepts or the values it returns. Error messages change only by the renaming and reordering of the declared token names.",
  ["programs", "inputs"], "every LR(1) grammar x every composition of these rewrites x every token sequence",
  "Each test grammar is written one way only, so a dependence on layout, order or names cannot show.",
  ["src/ast.rs", "src/lower.rs", "src/lr1.rs", "src/lr_codegen.rs"],
  [("grammar syntax", "src/ast.rs"), ("name resolution", "src/lower.rs"), ("hygiene of generated names", "src/codegen.rs, src/lr_codegen.rs")],
  ["behaviour of two renderings of one grammar"])

p("C11", "Ill-formed grammars are rejected at compile time",
  "A grammar that uses an undefined non-terminal or token, declares a token name or a non-terminal twice, has no token declaration or several, declares the state type twice or an unknown `type`, or uses a construct that is reserved but not implemented (repetition `+` `*` `?`, fallible `=>?` actions) never compiles: the mistake is reported at expansion instead of being silently ignored or reinterpreted.",
  ["programs"], "every valid grammar x every such mistake at every place in it",
  "No test contains an ill-formed grammar; a failing expansion cannot be expressed in the test suite.",
  ["src/lib.rs", "src/lower.rs", "src/ast.rs"],
  [("duplicate and missing declaration checks", "src/lib.rs parser, src/lower.rs lower"), ("symbol resolution", "src/lower.rs add_symbol"), ("grammar syntax", "src/ast.rs")],
  ["whether parser! expands"])

p("C12", "Expansion is deterministic",
  "Expanding the same grammar always produces the same code or the same rejection: in different compiler processes, at different places in a program, and whatever other grammars were expanded before it.",
  ["programs", "histories"], "every grammar x every sequence of earlier expansions x every compiler process",
  "Each test grammar is expanded once per build and the expansion is never looked at.",
  ["src/collections.rs", "src/lr1.rs", "src/lr_common.rs", "src/lr_codegen.rs"],
  [("hash maps with a fixed hasher", "src/collections.rs"), ("ordered item sets and index order", "src/lr1.rs")],
  ["token stream of the expansion", "expansion errors"])

p("C13", "Generated parsers are total, linear and not bounded by the call stack",
  "For any grammar that compiles (also one with resolved shift/reduce conflicts or useless non-terminals) and any token sequence, parsing returns: it never panics, never loops, and the actions it runs, the polls it makes, the memory it allocates in total and the time it takes are linear in the length of the input. Nesting depth and input length are limited only by heap memory, not by the call stack. The memory in use at any time grows with the number of symbols waiting on the parse stack, not with the input: a left-recursive list of any length is parsed in constant memory.",
  ["programs", "inputs"], "every grammar that expands x every token sequence, including very long and very deep ones",
  "Test inputs have at most seven tokens and all of them are accepted.",
  ["src/lr_codegen.rs", "src/lr1.rs"],
  [("explicit state and value stacks", "src/lr_codegen.rs parse_generic"), ("goto table lookup", "src/lr_codegen.rs parse_generic")],
  ["return of X::parse", "number of action calls"])

p("C14", "No value is lost, duplicated or kept",
  "Token payloads and action results need not be Clone: each is moved to at most one action, and every one that is not part of the result has been dropped exactly once by the time parsing returns, whether it succeeds, fails or hits a lexer error. While a parse runs it keeps only the values of symbols that are not reduced yet and of the tokens just read: whenever it asks for the next item, everything else has been dropped. Values of unbound symbols are dropped without running anything else, and tokens never read from the iterator are left in it.",
  ["programs", "inputs", "fault_sequences"], "every LR(1) grammar x every sequence of tokens and errors",
  "No test counts drops, resumes the iterator or fails half way through a parse.",
  ["src/lr_codegen.rs", "src/codegen.rs"],
  [("token moved out of the lookahead on shift", "src/lr_codegen.rs parse_generic"), ("unbound symbols popped", "src/codegen.rs generate_semantic_action_table")],
  ["drop counts per payload and per result", "values alive at each poll", "items left in the iterator"])

p("C15", "Parse calls are independent of each other",
  "A parse call's outcome depends only on its own input: repeating calls, running parsers of the same grammar on several threads at once, calling a parser again from inside an action or from inside the iterator, and abandoning parses half way by a panic in an action or in the iterator leave every other call's outcome unchanged; the values of an abandoned parse are dropped, each once.",
  ["histories", "schedules"], "every LR(1) grammar x every history of sequential, nested, concurrent and aborted parse calls",
  "Every test makes single, sequential, complete calls.",
  ["src/lr_codegen.rs", "src/codegen.rs"],
  [("per-call stacks, immutable static tables", "src/lr_codegen.rs")],
  ["result of each call in the history"])

p("C16", "Large grammars are handled exactly",
  "Correctness does not depend on size: grammars with hundreds of tokens, non-terminals, productions, LR states or symbols per production either fail to compile or give parsers with exactly the same guarantees (language, values, error reports) as small ones.",
  ["programs", "inputs"], "every LR(1) grammar well above 256 in one or more of its dimensions x token sequences that exercise the high-numbered parts",
  "The largest test grammar has five tokens, five non-terminals and about thirty states.",
  ["src/lr_codegen.rs", "src/grammar.rs", "src/codegen.rs", "src/lr1.rs"],
  [("index types and checked narrowing", "src/lr_codegen.rs generate_action_array, src/codegen.rs SemanticActionIdx"), ("state numbering", "src/lr1.rs")],
  ["X::parse on a large grammar"])

p("C17", "Parsers take any token source and error type, from anywhere",
  "`X::parse` takes any iterator over `Result<Token, E>` - by value or by mutable reference, boxed, a trait object, borrowing from locals, neither Send nor 'static nor fused, whatever its size hint - and any Clone type E, which need not be Debug, comparable, Send or 'static, and the outcome depends only on the items it yields. A parser can be called from other modules and crates, from generic and async code, and the grammar's crate may be of any edition from 2018 on; errors can be cloned, compared and printed whenever the lexer's error type can.",
  ["programs", "inputs"], "every LR(1) grammar x every type of iterator and of lexer error x every calling context x every sequence of tokens and errors",
  "Every test passes the same kind of iterator with one error type, in the module of the grammar, and never looks at an error.",
  ["src/lr_codegen.rs"],
  [("signature of parse and parse_generic", "src/lr_codegen.rs generate_lr1_parser"), ("ParseError and its derives", "src/lr_codegen.rs generate_lr1_parser"), ("visibility and paths of generated items", "src/lr_codegen.rs, src/codegen.rs")],
  ["whether a call of X::parse compiles", "its outcome"])

p("C18", "Texts that are not grammars are rejected",
  "A `parser!` text that does not follow the grammar syntax - a missing, surplus, misplaced, misspelt or wrongly bracketed token anywhere outside action expressions and types - is rejected at compile time: nothing in it is skipped or ignored. Only the tokens that are documented or used as optional (trailing commas, commas between productions in braces) may be left out.",
  ["programs"], "every well-formed grammar x every sequence of token insertions, deletions, replacements, swaps and bracket changes",
  "A failing expansion cannot be expressed in the test suite, and each test's text is well formed.",
  ["src/ast.rs"],
  [("grammar syntax", "src/ast.rs, every impl Parse"), ("symbols", "src/ast.rs symbol0"), ("end of the text and of each bracket", "src/ast.rs")],
  ["whether parser! expands and the result compiles"])

p("C19", "Actions are ordinary Rust expressions",
  "An action may be any Rust expression - operators, control flow, blocks with statements and items, closures, macro calls, values that take their type or a coercion from the declared type - and means what it means as the body of a function written where `parser!` is invoked, with the production's binders as parameters (`mut` ones mutable) and the non-terminal's type as its return type: it sees the constants, functions, macros, traits and types in scope there (also a `Result` of the program's own), and its result, its panics and the order of its effects are that function's. Each reduction evaluates its own production's action exactly once. (A `return` or `?` that would leave the action is not supported.)",
  ["programs", "inputs"], "every well-typed action expression x every production x every place of invocation x every sentence",
  "The tests' actions are arithmetic on two numbers, constructor calls and a push onto a vector.",
  ["src/codegen.rs", "src/ast.rs", "src/lower.rs"],
  [("action functions", "src/codegen.rs generate_semantic_action_table"), ("action syntax", "src/ast.rs impl Parse for Action"), ("binders", "src/lower.rs")],
  ["whether the grammar compiles", "values, panics and effects of actions, compared with functions of the same bodies"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

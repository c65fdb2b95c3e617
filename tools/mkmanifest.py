#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
REF = "independent reference (canonical LR(1) machine cross-checked with an Earley recogniser)"
TECH = {
 "C01": "property-based testing: generated grammars and inputs, differential against an Earley recogniser",
 "C02": "property-based testing: generated grammars and sentences, differential against bottom-up evaluation of the derivation tree",
 "C03": "property-based testing: generated grammars and non-sentences, oracle = viable prefixes by Earley",
 "C04": "property-based testing with injected lexer errors, oracle = viable prefixes by Earley",
 "C05": "property-based testing of poll/action traces against a reference model",
 "C06": "property-based testing: generated grammars of all conflict classes, oracle = independent canonical LR(1) construction",
 "C07": "metamorphic property-based testing: same grammar with different pub sets",
 "C08": "property-based testing: generated token types and pattern lists, differential against rustc's match",
 "C09": "property-based testing: generated types and lifetimes, differential against plain functions",
 "C10": "metamorphic property-based testing: equivalent renderings of generated grammars",
 "C11": "property-based testing: mistakes injected into generated grammars, with controls",
 "C12": "property-based testing: repeated expansion of generated sources across processes and contexts",
 "C13": "property-based testing: generated grammars, arbitrary and pumped long inputs on a small stack",
 "C14": "property-based testing with drop-counted values and injected lexer errors",
 "C15": "stateful property-based testing: random histories of nested, aborted and concurrent parse calls",
 "C16": "property-based testing: generated large grammars, differential against a reference parser",
 "C18": "property-based testing: token-level mutations of generated grammars, oracle = independent recogniser of the grammar syntax",
 "C19": "property-based testing: generated typed expressions as actions, differential against functions with the same bodies",
 "C17": "metamorphic property-based testing: generated iterators, error types, calling contexts and editions against the plain call",
}
NOTE = {
 "C12": "Random exploration with shrinking; sees only differences that show in text or message within the handful of expansions of each source.",
 "C11": "Random exploration with shrinking; trusts that the control (the same grammar without the mistake) compiles for the right reasons.",
 "C08": "Random exploration with shrinking; trusts rustc's match as the meaning of a pattern.",
 "C09": "Random exploration with shrinking; trusts rustc's type checker and plain functions as the meaning of well-typedness.",
}
NOTE["C17"] = "Random exploration with shrinking; a call is asked to compile only if it does against a stub with the declared signature."
NOTE["C19"] = "Random exploration with shrinking; trusts rustc on the same expression as the body of a function. The order in which binders are dropped is not compared."
NOTE["C18"] = "Random exploration with shrinking; what depends on where a Rust expression or type ends is left undecided."
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="./run.sh check %s" % i,
        thorough_cmd="VERIF_TIER=thorough ./run.sh check %s" % i,
        technique=TECH[i], level="exploration",
        level_note=NOTE.get(i, "Random exploration with shrinking of the real macro through rustc; no proof. Trusts rustc and the engine's " + REF + ".")))
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=[],
    notes="Black box: every check expands the real parser! macro built from /repo's working tree and runs what it expands to; /repo has no hooks. known_findings.txt lists the defects found and fixed.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

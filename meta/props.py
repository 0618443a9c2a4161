#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 meta/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, text, why, files, mech, observe, technique, note, over=("inputs",)):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, over=list(over)))

EXPL = "Exploration by generated inputs, not proof: a change that needs a grammar or history outside the stated bounds would be missed. "

p("C01", "A maximum RHS length holds for every rule and splitting preserves the language",
  "While a maximum right-hand-side length (2 or more) is set on a grammar, no stored rule ever exceeds it, whichever operation added the rule (adding rules, builders, extending from another grammar, sequences, precedenced rules, wrapping the input). Splitting a longer rule uses fresh helper symbols only, so that the words derived from every symbol the user knows stay exactly those of the rules as they were added, and the roots are untouched. Setting the same limit again changes nothing, and adding a rule reports how many rules were stored for it.",
  "all histories of building operations, limits >= 2 and right-hand-side lengths",
  "The tests binarize a few fixed grammars; none interleaves changes of the limit with other ways of adding rules, or compares languages before and after.",
  ["cfg-grammar/src/cfg.rs", "cfg-grammar/src/rule_builder.rs"],
  [("Cfg::limit_rhs_len, ensure_rhs_len, maybe_process_rule, add_rule", "cfg-grammar/src/cfg.rs"), ("Cfg::extend", "cfg-grammar/src/cfg.rs")],
  ["Cfg::rules", "Cfg::add_rule", "Cfg::limit_rhs_len", "Cfg::extend", "Cfg::num_syms", "Cfg::roots"],
  "stateful model-based testing against a list-of-rules model, bounded-language differential",
  "Random histories of 2-14 operations with rules of up to 300 symbols; oracle: inlining helpers gives the added rules, or else equal bounded languages of every user symbol.", ("inputs", "histories", "configurations"))

p("C02", "Binarizing and eliminating nulling rules preserves all non-empty words",
  "After binarizing and eliminating nulling rules, every rule has one or two right-hand-side symbols and every symbol of the original grammar derives exactly the non-empty words over the original terminals which it derived before; symbols that derive nothing but the empty word have no rules left. The grammar that is returned derives the empty string from exactly the symbols which derived it before. Roots are unchanged, and repeating the operation changes nothing.",
  "all grammars, nullable symbols in any position, recursion, repeated use",
  "Tests compare rule lists for three fixed grammars; nullable recursion, repeated nullable symbols and repetition of the operation are not sampled.",
  ["cfg-grammar/src/cfg.rs"],
  [("Cfg::binarize_and_eliminate_nulling_rules", "cfg-grammar/src/cfg.rs")],
  ["Cfg::binarize_and_eliminate_nulling_rules", "Cfg::rules"],
  "property-based differential testing of bounded languages against a reference fixpoint",
  "Random grammars of up to 5 nonterminals and 12 rules; oracle: textbook nullability and bounded languages (up to 12 symbols, as far as a work limit allows) of every symbol.", ("inputs", "histories"))

p("C03", "Usefulness analysis is exact and removal of useless rules keeps the language",
  "The usefulness analysis reports a symbol as productive exactly when it derives a string of terminals, and a rule as useful exactly when its left-hand side is reachable from the roots and all of its right-hand side is productive; the useless-rule listing and the all-productive/reachable/useful summaries agree with that. Removing useless rules keeps exactly the rules reported useful. Making a grammar proper leaves exactly the rules which take part in some complete derivation from a root, in their order, keeps the language of every root, and returns whether everything was useful to begin with.",
  "all grammars, all sets of roots (none, several, terminals as explicit roots)",
  "Tests have a handful of fixed grammars; none combines unproductive symbols with rules which become unreachable once those are removed.",
  ["cfg-classify/src/useful.rs", "cfg-grammar/src/cfg.rs", "cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs"],
  [("Usefulness", "cfg-classify/src/useful.rs"), ("CfgClassifyExt::make_proper", "cfg-classify/src/lib.rs")],
  ["CfgClassifyExt::usefulness", "usefulness_with_roots", "make_proper", "Usefulness::*"],
  "property-based testing against a reference reachability/productivity fixpoint",
  "Random grammars of up to 7 nonterminals with symbols spread over several machine words.")

p("C04", "Unit-rule cycles are found exactly; removing or rewriting them is sound",
  "A rule is reported as taking part in a cycle exactly when it is a unit rule whose right-hand side derives its left-hand side through one or more further unit rules between different symbols (a rule X ::= X alone is not a cycle). Removing cycles drops exactly the reported rules. Rewriting cycles leaves a cycle-free grammar in which every root (translated where its symbol was merged) and every symbol on no cycle derives the same words as before, and leaves cycle-free grammars alone.",
  "all grammars, any number and overlap of cycles, cycles through roots and wrapped roots",
  "Tests have two fixed cyclic grammars and check rule counts, not languages or roots.",
  ["cfg-classify/src/cyclical.rs"],
  [("Cycles::classify, cycle_participants, remove_cycles, rewrite_cycles", "cfg-classify/src/cyclical.rs")],
  ["Cycles::*", "Cfg::roots"],
  "property-based testing: reference unit-derivation closure and bounded-language differential",
  "Random grammars of up to 6 nonterminals with up to 3 planted cycles of any length and order.")

p("C05", "FIRST and LAST sets are exact",
  "For every nonterminal the FIRST set lists, without repetition, exactly the terminals which can begin a string derived from it, and says it derives the empty string exactly when it does; sets exist for exactly the nonterminals. LAST sets are the same for the ends of strings. The FIRST set of a string of symbols is exact in the same sense.",
  "all grammars, including nullable, left-recursive and unproductive symbols, and all strings of symbols",
  "One fixed arithmetic grammar is tested; it has no nullable symbols.",
  ["cfg-predict-sets/src/first.rs", "cfg-predict-sets/src/last.rs", "cfg-predict-sets/src/sets.rs"],
  [("FirstSets", "cfg-predict-sets/src/first.rs"), ("LastSets", "cfg-predict-sets/src/last.rs")],
  ["CfgSetsExt::first_sets", "LastSets::new", "FirstSets::first_set_for_string", "PerSymbolSets"],
  "property-based testing against a reference fixpoint",
  "Random grammars of up to 7 nonterminals, 5 terminals, 16 rules. As in the code, a first symbol counts even if the rest of the rule is unproductive.")

p("C06", "FOLLOW sets are exact, including the end of input",
  "For every nonterminal the FOLLOW set lists, without repetition, exactly the terminals which can come right after it in a string derived from some rule, and contains the end of input exactly when the nonterminal is a root or can end a string derived from one that has it. The result is the same whether or not FIRST sets are supplied.",
  "all grammars and all sets of roots",
  "One fixed grammar is tested.",
  ["cfg-predict-sets/src/follow.rs"],
  [("FollowSets::new", "cfg-predict-sets/src/follow.rs")],
  ["CfgSetsExt::follow_sets", "CfgSetsExt::follow_sets_with_first"],
  "property-based testing against a reference fixpoint",
  "Random grammars of up to 7 nonterminals, 5 terminals, 16 rules, no to several roots.")

p("C07", "LL(1) classification agrees with the definition of LL(1)",
  "A nonterminal is classified as LL(1) exactly when neither it nor any nonterminal it reaches has two rules sharing a lookahead (terminal or end of input), lookaheads being FIRST of the rule plus FOLLOW of the left-hand side if the rule is nullable; otherwise it is classified as context-free. Terminals get no class, and every nonterminal with a lookahead gets one.",
  "all grammars and all sets of roots",
  "One fixed grammar is tested, with no nullable rules or end-of-input conflicts.",
  ["cfg-classify/src/ll.rs", "cfg-predict-sets/src/first.rs", "cfg-predict-sets/src/follow.rs"],
  [("LlParseTable, LlClassification", "cfg-classify/src/ll.rs")],
  ["CfgClassifyExt::ll_parse_table", "LlClassification::classes"],
  "property-based testing against a reference table built from reference FIRST/FOLLOW",
  "Random grammars of up to 6 nonterminals, 6 terminals, 11 rules.")

p("C08", "Minimal distances are true minima in every direction",
  "For any set of target dot positions, the forward distance of a dot position is the least number of terminals that must be passed from there to a target, moving across symbols, into the rules of the next symbol and out of a finished rule to any place its left-hand side occurs; positions which cannot reach a target have no distance. Backward distances are the mirror image and symmetric ones the lesser of both. The propagation of values from right-hand sides to left-hand sides finds the least cost for every symbol. Numbers beyond 32 bits count as the greatest 32-bit number.",
  "all grammars including recursive, nullable and unproductive ones, all sets of targets, all three directions",
  "Tests have one tiny grammar in each direction.",
  ["cfg-predict-distance/src/lib.rs", "cfg-grammar/src/cfg.rs"],
  [("MinimalDistance::minimal_distances", "cfg-predict-distance/src/lib.rs"), ("Cfg::rhs_closure_with_values", "cfg-grammar/src/cfg.rs")],
  ["MinimalDistance::minimal_distances", "Cfg::rhs_closure_with_values"],
  "property-based testing against a reference shortest-distance fixpoint",
  "Random grammars of up to 6 nonterminals and 10 rules, some of hundreds of symbols and rules and with shortest sentences beyond 2^32 symbols, 1-3 targets. A fresh MinimalDistance per query.")

p("C09", "Recursive rules are found and classified exactly, with their distances",
  "Exactly the rules whose left-hand side can be derived again from some right-hand-side symbol are reported as recursive, in grammar order, with left, middle and right recursion told apart by which positions lead back. The distance report lists the same rules with the minimal distances of their first and last dot positions to a recursive position, and a sentinel where there is none.",
  "all grammars, direct and indirect recursion, nullable and unproductive symbols",
  "One fixed grammar with two rules is tested.",
  ["cfg-classify/src/recursive.rs", "cfg-predict-distance/src/lib.rs"],
  [("RecursiveRules", "cfg-classify/src/recursive.rs")],
  ["CfgClassifyExt::recursion", "recursive_rules", "minimal_distances"],
  "property-based testing against a reference derivability closure and distances",
  "Random grammars of up to 7 nonterminals with right-hand sides of up to 6 symbols.")

p("C10", "Derivation relations, symbol sets and closures computed from rules are exact",
  "The direct-derivation, reachability, reflexive and unit-derivation matrices relate exactly the symbols which their definitions relate, for every pair of symbols. The sets of terminal, nulling, used, unused and rule-bearing symbols are exact. Closing a set of symbols under \"some right-hand-side symbol is in it\" or \"all are\" gives exactly the least fixpoint.",
  "all grammars, symbol numbers across machine-word boundaries, all seeds (for \"all\", including the empty rules' left-hand sides)",
  "Tests look at a few small grammars whose symbols fit one machine word.",
  ["cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs", "cfg-grammar/src/symbol_bit_set.rs", "cfg-grammar/src/cfg.rs", "cfg-grammar/src/occurence_map.rs"],
  [("SymbolBitMatrix", "cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs"), ("Cfg::rhs_closure", "cfg-grammar/src/cfg.rs")],
  ["CfgSymbolBitMatrixExt", "SymbolBitSet", "Cfg::rhs_closure*"],
  "property-based testing against reference transitive closures",
  "Random grammars of up to 7 (sometimes 60) nonterminals, with up to 128 further symbols in between.")

p("C11", "LR(0) closures, transitions and machines match the textbook construction",
  "The closure of an item set adds exactly the initial items of every rule that can be expected next, and advancing over a symbol gives the closure of exactly the items moved over it, or nothing if there is none. The machine built from a start symbol has as nodes exactly the distinct item sets reachable over terminals from the closure of the augmenting rule (first), each linked to the right node for each terminal. The grammar keeps its rules and gets one augmenting rule with a fresh left-hand side per machine.",
  "all grammars and start symbols, as long as no item set holds the same rule at two dot positions (see the known finding)",
  "One fixed grammar is tested.",
  ["cfg-classify/src/lr.rs"],
  [("Lr0ClosureBuilder, Lr0FsmBuilder", "cfg-classify/src/lr.rs")],
  ["Lr0ClosureBuilder::closure", "Lr0ClosureBuilder::advance", "Lr0FsmBuilder::make_lr0_fsm"],
  "property-based testing against a reference LR(0) construction",
  "Random grammars of up to 5 nonterminals and 9 rules, random item sets; grammars needing one rule at two dots in one set are out of scope (known finding).")

p("C12", "Sequence rules derive exactly the repetitions they specify",
  "A sequence rule makes its left-hand side derive exactly the repetitions of its element whose number lies within the given bounds, with separators placed as specified: none, between elements, after every element, or either of the last two. This holds for any bounds (including zero, exact, large and unbounded ones), in whatever way the range is expressed and through whichever builder the sequence is added. Only fresh helper symbols are introduced, and a set length limit is kept.",
  "all ranges, separator kinds, elements (nonterminals, nullable ones), and several sequences in one grammar sharing helpers",
  "Tests check rule counts for few ranges; no test checks the derived words, shared helper symbols or large counts.",
  ["cfg-sequence/src/rewrite.rs", "cfg-sequence/src/lib.rs", "cfg-sequence/src/builder.rs", "cfg-sequence/src/ext.rs", "cfg-sequence/src/destination.rs"],
  [("SequencesToProductions::rewrite", "cfg-sequence/src/rewrite.rs"), ("SequenceRuleBuilder", "cfg-sequence/src/builder.rs")],
  ["CfgSequenceExt::sequence", "SequenceRuleBuilder", "SequencesToProductions", "Cfg::rules"],
  "property-based differential testing of bounded languages against unrolled sequences, interval arithmetic for large counts",
  "Bounds up to 7 with whole languages, up to 130 with sets of lengths and recognition of boundary words, up to 2^30 with exact count intervals; `X ::= e+` with other rules for X is a known finding.", ("inputs", "configurations"))

p("C13", "Precedenced rules enforce levels and associativity",
  "The rules made from a precedenced definition derive exactly the words, and give each word exactly as many parse trees, as the definition allows: within an alternative of one level, an operand is taken from the next tighter level, except that a left-associative alternative allows its own level in the leftmost operand, a right-associative one in the rightmost, and a grouping one starts over at the loosest level in every operand. Words of other symbols are not affected, and a length limit is kept.",
  "all numbers of levels, alternatives, associativities and operand positions, also with several definitions and further plain rules in one grammar",
  "Tests compare the rule list for one arithmetic grammar.",
  ["cfg-grammar/src/precedenced_rule.rs", "cfg-grammar/src/rule_builder.rs"],
  [("PrecedencedRuleBuilder", "cfg-grammar/src/precedenced_rule.rs")],
  ["Cfg::precedenced_rule", "PrecedencedRuleBuilder", "Cfg::rules"],
  "property-based testing: bounded languages and derivation-tree counts against a reference stratified grammar",
  "1-4 levels, up to 3 alternatives each, up to 2 definitions. Alternatives which consist of the left-hand side alone are not generated; the tightest level's own operands stay at that level.", ("inputs", "configurations"))

p("C14", "Renumbering symbols is a consistent bijection on the whole grammar",
  "Reordering symbols, removing unused symbols or remapping symbols translates every rule (with its history), the roots, the wrapped roots and the symbol names by one and the same bijection on the symbols kept, and the returned mapping states that bijection in both directions, also when operations are composed. Reordering satisfies the given ordering; removal keeps exactly the used symbols. Symbols generated afterwards are fresh.",
  "all grammars whose roots are used, all total orderings, and all compositions of the operations",
  "Tests remap one or two small grammars and look at few entries.",
  ["cfg-symbol-bit-matrix/src/remap_symbols.rs", "cfg-grammar/src/cfg.rs", "cfg-symbol/src/source.rs"],
  [("Remap, Mapping", "cfg-symbol-bit-matrix/src/remap_symbols.rs"), ("Cfg::map_symbols, sym_source remap", "cfg-grammar/src/cfg.rs")],
  ["CfgRemapSymbolsExt::remap", "Mapping", "Cfg::rules", "Cfg::roots", "Cfg::wrapped_roots", "SymbolSource::original_name_of"],
  "property-based testing: bijection invariants and translated-grammar oracle",
  "Random grammars of up to 6 nonterminals with unused symbols in between, compositions of up to 3 operations. Stability among equal symbols is not claimed.", ("inputs", "histories"))

p("C15", "Symbol sources hand out fresh consecutive symbols and keep names straight",
  "Every symbol handed out is different from all symbols in existence and numbered consecutively from zero, whichever way it is produced, and a symbol type with too few values fails instead of repeating a symbol. Each symbol keeps the name it was given (or is called g followed by its number), across truncation, renumbering and cloning; names of removed symbols never reappear, and the name map leads from each name to a symbol which has it.",
  "all histories of producing, naming, truncating, renumbering and cloning; 8-, 16- and 32-bit symbol types",
  "Tests produce a few symbols.",
  ["cfg-symbol/src/source.rs", "cfg-symbol/src/symbol.rs", "cfg-symbol/src/intern.rs", "cfg-grammar/src/cfg.rs"],
  [("SymbolSource", "cfg-symbol/src/source.rs"), ("Symbol", "cfg-symbol/src/symbol.rs")],
  ["SymbolSource::*", "Symbol::usize", "Cfg::next_sym", "Cfg::lexeme", "Cfg::sym"],
  "stateful model-based testing against a list of names",
  "Histories of up to 12 operations and up to a few hundred symbols; 8- and 16-bit symbol spaces up to exhaustion.", ("histories",))

p("C16", "Random generation yields only sentences and keeps its limits",
  "A word generated from a start symbol consists of terminals and is derivable from that symbol, with the text spelled by its symbols; where a negative rule's symbol was passed, the text from there on does not begin with the forbidden string. No more terminals than the limit are produced, and generation within the limit is unaffected by it; a limit error is returned otherwise, and an attempts error once more than the allowed number of attempts at negative rules failed, never earlier. The same source of randomness gives the same result.",
  "all productive grammars, weights, negative rules, limits and sources of randomness",
  "Tests generate from two fixed grammars with one seed and check one word.",
  ["cfg-generate/src/weighted/random.rs", "cfg-generate/src/weighted/mod.rs"],
  [("Random::random", "cfg-generate/src/weighted")],
  ["Random::random", "Random::with_thread_rng", "Limits", "NegativeRule", "GenRange"],
  "property-based testing: generated words checked by a reference recognizer, scripted randomness",
  "Grammars of up to 4 nonterminals and 8 rules, up to 2 negative rules, terminal limits 0-200; cases in which generation draws more than 12000 numbers are inconclusive.", ("inputs", "configurations"))

p("C17", "Random generation picks alternatives in proportion to their weights",
  "An alternative of a symbol is chosen with probability its weight over the sum of the weights of that symbol's alternatives, an unweighted rule counting as weight one, duplicates adding up, and weight zero meaning never. This holds for the weighted table with any weight type and for generation from a grammar with weights in rule histories, also after long rules were split. The provided sources of randomness only produce numbers within the requested range.",
  "all weights and numbers of alternatives with a positive sum",
  "Tests check one grammar's output for one seed.",
  ["cfg-generate/src/weighted"],
  [("WeightedRhsByLhs, Weight", "cfg-generate/src/weighted")],
  ["WeightedRhsByLhs::pick_rhs", "Random::random", "ByteSource", "GenRange"],
  "property-based testing with equally spaced choices (exact shares, no statistics)",
  "Up to 6 alternatives, weights 0-1000000; shares are measured on 499-1009 equally spaced choices, to within two per alternative (grammar weights are kept to 3 decimals).", ("inputs", "configurations"))

exec(open(os.path.join(HERE, "meta", "props2.py")).read()) if os.path.exists(os.path.join(HERE, "meta", "props2.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                         observe_at=q["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=q["id"], quick_cmd=f"./check.sh {q['id']} quick", thorough_cmd=f"./check.sh {q['id']} thorough",
        evidence_file=f"evidence/{q['id']}.json", technique=q["technique"], level="exploration",
        level_note=EXPL + q["note"]) for q in P],
    not_applicable=[],
    notes="No hooks: every property is observed through the public API. One harness binary (harness/), one subcommand per property; see DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")

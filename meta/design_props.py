# (id, oracle and generator, bounds and limits, why tests do not settle it)
D = [
("C01", "Histories of up to 14 operations (add_rule, builder, limits set, raised and dropped, extend, wrap_input, reverse, sort, new symbols, sequences, precedenced rules) on one grammar, against a model list of the rules as added. After every operation: no stored rule longer than the limit; the stored rules unfold (helpers inlined) to the model as a multiset, or else have the same bounded language for every user symbol; roots as set; `limit_rhs_len` twice equals once; `add_rule` returns the number of rules stored.",
 "Rules of up to 300 symbols. A limit below 2 never terminates and is outside the property. Rules made by sequences and precedence are checked for length here and for language in C12 and C13.",
 "The tests split one rule once."),
("C02", "Generated grammars, sometimes limited before, sometimes changed and eliminated again; bounded language of every symbol before and after, minus the empty word; nullability in the returned grammar against the least fixpoint; lengths 1–2; roots; a second call changes nothing; the limit stays in force.",
 "Word length by budget (mean ≈ 6). The relation with binarization order is not prescribed.", "Tests compare two fixed grammars."),
("C03", "Usefulness, rule by rule and symbol by symbol, against reachability and productivity fixpoints, with explicit and own roots, with and without declared roots; `make_proper` against iterated removal, its return value, and bounded languages of the roots.",
 "None beyond grammar size.", "Tests have a handful of grammars; useless rules arise from combinations (unproductive after unreachable)."),
("C04", "Cycle membership of every rule by graph search over unit rules; removal as list equality; after rewriting: no cycles left, bounded languages of roots (through wrapped or merged names) and of symbols on no cycle.",
 "Symbols which were merged away keep no meaning of their own, except as roots.", "Unit cycles sharing symbols, roots on cycles, cycles with duplicates."),
("C05", "FIRST and LAST of every nonterminal, and FIRST of random strings, against the least fixpoint on the definition (which is itself tested against bounded languages); duplicates, presence of sets.", "None beyond grammar size.", "One test grammar."),
("C06", "FOLLOW against the least fixpoint, with roots drawn at random, with and without given FIRST sets.", "None beyond grammar size.", "One test grammar without end-of-input cases."),
("C07", "Class of every symbol against LL(1) conflicts computed from reference FIRST/FOLLOW and reachability.", "A symbol without any lookahead (all rules unproductive) may be missing.", "One grammar."),
("C08", "All dot positions: 0-1 shortest paths on the explicit graph of moves (Dijkstra), forward, backward, both; random target sets; `rhs_closure_with_values` against Bellman–Ford-like iteration.", "A fresh `MinimalDistance` per query, as the library's callers do.", "Two fixed grammars."),
("C09", "Recursive rules, kinds and distances against reachability and C08's reference.", "None beyond grammar size.", "Two fixed grammars."),
("C10", "Every entry of every relation matrix and symbol set, closures seeded at random under any/all.", "The seed of an `all` closure must contain left-hand sides of empty rules, as the callers ensure.", "No test covers most of the matrices."),
("C11", "Item sets as maps rule → dot; closure, advance and the complete machine against the textbook construction restricted to what the representation can hold; machine compared by walking both from the start; several machines on one grammar.", "Known finding: sets with one rule at two dots; the reference detects when the construction meets such a set and then stops comparing there, counting the case.", "One machine in the tests."),
("C12", "Three generators: small grammars with up to three sequences, compared with the unrolled rules by bounded language; single sequences with bounds up to 260, compared by the exact set of lengths and by recognition of words with wrong separators; huge bounds (up to 2^32−1), compared by exact interval sets of counts. All builders, all ways of stating a range, limits, elements and separators that are nonterminals, nullable, or the same symbol.",
 "Known finding: `{1,}` left-recurses through a left-hand side that has other rules. Sequences with an empty range are not generated.", "Tests have a table of small bounds."),
("C13", "Up to two precedenced definitions of up to four levels plus plain rules; reference grammar written from the definition (no unit chains); bounded language of all symbols, and number of derivation trees of sampled words (longest included).",
 "At the tightest level 'tighter' is that level itself, as the code and its tests have it; the alternative `X ::= X` alone is excluded.", "One arithmetic grammar."),
("C14", "Histories of reorder / remove-unused / remap on grammars with names, wrapped roots, several roots, rule histories; every part of the grammar translated by the returned mapping and compared; mapping checked to be a bijection both ways and to compose; the order holds for all pairs. One case in twelve composes mappings alone, without a grammar.",
 "Roots must be used; symbols inside histories (left-out nullable symbols) are not translated by the library and not claimed.", "Fixed small grammars without names or wrapped roots."),
("C15", "Histories on symbol sources (all ways to get symbols; truncate, clone, remap; 8, 16 and 32-bit symbols up to exhaustion) against a list of names.", "Truncating to more symbols than there are is misuse. The name map may keep any one of several symbols with one name.", "No exhaustion, no truncation with names in the tests."),
("C16", "Productive grammars with negative rules, generated with several sources; the result recognized by an Earley recognizer that knows negative symbols; text against the characters; limits by metamorphic relations (larger limit or more attempts: same result; limit at the exact length), determinism.",
 "Cases whose random walk exceeds a number of draws are inconclusive and counted. How well randomness is used is C17's subject.", "A few seeds."),
("C17", "Weighted tables and grammars with weights; pick counted over an even grid of the random range, so that the shares are exact up to one grid step per alternative instead of being a statistical test; every source's numbers lie in range and cover it.",
 "Weights have a granularity of 0.001; a total of zero panics by design.", "Distribution is not tested at all."),
("C18", "Texts printed from a generated syntax tree with random layout, comments, quoting, repeated names, keyword-like names; result compared rule by rule, helper symbols by bounded language.", "None known.", "One text."),
("C19", "Grammars with named, unnamed, weirdly named and duplicate-looking symbols printed, loaded, compared, printed again.", "Names that the format cannot express are not generated.", "Not tested."),
("C20", "Valid texts with tokens or characters deleted, inserted, replaced or swapped, truncated texts, and soup; verdict and position of the first error against a reference lexer and an LL recognizer of both formats.",
 "Positions of unterminated strings and of premature ends are not claimed. Look-around in regular expressions is a known finding.", "Two error tests."),
("C21", "Rich-format texts from syntax trees (lexer blocks, strings, actions, regular expressions, repetitions); rules compared one by one, strings and regular expressions by language through the character map, lexemes, names, actions.",
 "Names `__lexN` are reserved by the loader.", "One text."),
("C22", "Regular expressions from syntax trees (literals, classes, ranges, Unicode classes, repetition, alternation, flags) and byte/char classes; words over sampled characters and borders of classes matched by an own matcher and by regex-automata, against derivation through the character map; `LexerMap::get` on borders of all ranges.",
 "Look-around is a known finding. `get` before `compute` panics by design.", "A few ASCII expressions."),
("C23", "Round trips of all serializable types through miniserde, serde_json and nanoserde (binary, JSON, RON) and corruptions: numbers out of range, truncations, changed bytes, malformed texts; result must be an error or a value that reads the same.",
 "`SymbolSource` has no usable miniserde form (its derive asks for a bound that never holds); nanoserde's own allocation on forged vector lengths is not this code's.", "Not tested."),
("C24", "Histories of set operations on several sets of different sizes against `BTreeSet`s.", "None known.", "Not tested."),
("C25", "Rules with distinct origins and weights through limits, builders, precedence, sequences and elimination; histories compared with what the reference derives for each resulting rule (part that completes, left-out side, origins of eliminated rules).",
 "Dots and helper origins of rules split under limits other than 2 are not claimed, nor dots of sequences (`SequenceRhs` nodes compute dots and drop them).", "One test on dots."),
("C26", "Grammars wrapped once, twice, after limits and with several roots; rules, roots, list of wrapped roots, names; bounded language between markers.", "`is_empty` of wrapped grammars under a limit below 3 is not claimed.", "Not tested."),
("C27", "Histories of container operations on a grammar, its clones and a second grammar, against lists of (rule, origin); equivalence against list equality on unrelated and slightly changed grammars; columns, text, named rules.", "Stability of sorting is not claimed.", "A few operations."),
("C28", "Pipelines of 2–6 rewriting steps (nine kinds) on random grammars with sequences and precedence; the bounded language of every root is compared with that of the rules as they were, letters followed through renumbering by the returned mappings.", "Grammars with more than 15 letters are not compared; removal of symbols is skipped while a root is unused.", "Steps are tested alone."),
]

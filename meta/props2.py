p("C18", "Loading BNF text gives exactly the grammar that was written",
  "Loading a valid BNF text gives one rule per alternative, in the order of the text, with exactly the symbols written there; equal names are the same symbol, different names different ones, and each symbol keeps its name. An element marked + or * becomes a fresh unnamed symbol which derives exactly one or more, or zero or more, of that element. The first left-hand side is the only root, and rules are numbered in their histories from 1 on.",
  "all valid texts: any names, layout and white space, alternations, empty alternatives, repetitions",
  "Two fixed texts are tested.",
  ["cfg-load/src/basic.rs", "cfg-load/src/string_interner.rs", "cfg-sequence/src/rewrite.rs"],
  [("tokenize, Parser", "cfg-load/src/basic.rs"), ("StringInterner", "cfg-load/src/string_interner.rs")],
  ["CfgLoadExt::load", "Cfg::rules", "Cfg::roots", "SymbolSource::original_name_of"],
  "grammar-based generation of texts from a syntax tree, compared with the loaded grammar",
  "Up to 7 names, 6 rules, 3 alternatives, 9 elements; layouts are random. Repetitions are compared by the numbers of elements they derive, up to 5.")

p("C19", "Printing a grammar as BNF and loading it again gives the same grammar",
  "The BNF text printed for a grammar has one line per rule, is accepted by the loader, and gives back the same rules in the same order, symbol for symbol by name (unnamed symbols get the name under which they were printed). The left-hand side of the first rule becomes the root. Printing the loaded grammar gives the same text again.",
  "all grammars with at least one rule in which no two symbols have the same name, with names which are identifiers; split rules and sequences included",
  "One fixed grammar is printed in the tests.",
  ["cfg-load/src/basic.rs", "cfg-symbol/src/source.rs"],
  [("CfgLoadExt::to_bnf", "cfg-load/src/basic.rs"), ("CfgLoadExt::load", "cfg-load/src/basic.rs")],
  ["CfgLoadExt::to_bnf", "CfgLoadExt::load", "Cfg::rules"],
  "round-trip property-based testing",
  "Random grammars of up to 5 nonterminals, named, unnamed or mixed.")

p("C20", "Loaders accept exactly the valid texts and locate the first error",
  "Both loaders accept a text exactly when it conforms to their grammar of rules (and for the richer format, to its rules on lexer blocks, function names and regular expressions), and otherwise return an error; they never panic. The error for an unexpected token or character has the line and column where that token or character starts, and in the richer format the token itself.",
  "all strings, valid or not, including control and non-ASCII characters",
  "Only valid texts are tested.",
  ["cfg-load/src/basic.rs", "cfg-load/src/advanced.rs", "cfg-load/src/lib.rs"],
  [("tokenize, Parser", "cfg-load/src/basic.rs"), ("tokenize, Parser", "cfg-load/src/advanced.rs")],
  ["CfgLoadExt::load", "CfgLoadAdvancedExt::load_advanced", "LoadError"],
  "fuzzing with structured mutation, against a reference tokenizer and syntax automaton",
  "Texts of up to some 60 tokens with up to 3 changes, and token soup. Positions of unterminated strings and of premature ends are not claimed; regular expressions with look-around are a known finding.")

p("C21", "Loading the richer grammar format gives what was written",
  "Loading a valid text of the richer format gives one rule per alternative (those outside lexer blocks first), with the symbols, strings, repetitions and regular expressions written there, the action names by rule number, and the symbol map by name. Equal strings share a symbol which derives exactly the characters of the string, and a regular expression in a rule derives exactly the texts it matches, both through the character map. The strings and the left-hand sides in lexer blocks are reported as lexemes, and the first left-hand side is the root.",
  "all valid texts: any number and place of lexer blocks, strings, actions, repetitions, regular expressions without look-around",
  "Two fixed texts are tested.",
  ["cfg-load/src/advanced.rs", "cfg-regexp-logic/src/lib.rs"],
  [("load_advanced", "cfg-load/src/advanced.rs"), ("LexerMap", "cfg-regexp-logic/src/lib.rs")],
  ["CfgLoadAdvancedExt::load_advanced", "AdvancedGrammar", "LexerMap::get"],
  "grammar-based generation of texts; recognition of characters compared with a regular-expression engine",
  "Up to 8 names, 5 blocks, regular expressions up to depth 2, strings of up to 4 characters from a set which covers all UTF-8 lengths. Names starting with __lex are reserved.")

p("C22", "Grammars made from regular expressions match exactly the same texts",
  "The grammar made from a regular expression derives, with each character replaced by the symbols the character map gives for it, exactly the texts which the whole expression matches. The character map gives for a character exactly the symbols of the classes which contain it, whether built from single characters, bytes, Unicode or byte ranges.",
  "all regular expressions without look-around (greediness and groups do not matter), all texts, all sets of character classes",
  "One fixed expression is tested.",
  ["cfg-regexp-logic/src/lib.rs", "cfg-regexp-logic/src/ext.rs"],
  [("CfgRegexpExt, Translator", "cfg-regexp-logic/src/lib.rs"), ("LexerMap::compute, get", "cfg-regexp-logic/src/lib.rs")],
  ["CfgRegexpExt::from_regexp", "LexerMap::compute", "LexerMap::get"],
  "differential property-based testing against regex-automata; interval-set model for character maps",
  "Expressions up to depth 4, repetition counts up to 6, texts sampled from the expression and changed; up to 6 classes of up to 4 ranges with edges at every encoding boundary.")

p("C23", "Serialized values come back unchanged, and bad input is an error",
  "Every symbol (8, 16 or 32 bits), symbol name, mapping, symbol set and rule-history identifier which is written with miniserde, serde or nanoserde (where supported) is read back equal. Numbers which are no symbol (zero in binary, out of range otherwise), truncated bytes and malformed texts give an error, not a panic or another symbol.",
  "all values of these types, all formats, all corrupted inputs",
  "Tests serialize a handful of symbols.",
  ["cfg-symbol/src/symbol.rs", "cfg-symbol/src/source.rs", "cfg-symbol/src/intern.rs", "cfg-grammar/src/symbol_bit_set.rs", "cfg-history/src/earley/mod.rs"],
  [("miniserde_impls", "cfg-symbol/src/symbol.rs"), ("DeBin/SerBin for Symbol", "cfg-symbol/src/symbol.rs")],
  ["miniserde::json", "serde_json", "nanoserde::SerBin/DeBin"],
  "round-trip property-based testing and fuzzing of corrupted inputs",
  "Numbers over the full ranges, names with all kinds of characters, sets of up to 130 symbols. A whole SymbolSource cannot be serialized (its derived bounds are never met), so it is not covered.")

p("C24", "Symbol sets behave as sets under every operation",
  "After any history of operations a symbol set contains exactly the symbols which those operations imply, for membership, iteration (ascending), emptiness, fullness, space and the underlying bits alike. Sets computed from a grammar (used, unused, terminal, nulling, rule-bearing symbols, and their subtraction) follow its current rules. Copies are independent.",
  "all histories of set operations (unions of sets of equal space), grammars growing in between, sizes across machine words",
  "Tests use few sets in passing.",
  ["cfg-grammar/src/symbol_bit_set.rs"],
  [("SymbolBitSet", "cfg-grammar/src/symbol_bit_set.rs")],
  ["SymbolBitSet::*", "Cfg::terminal_symbols", "Cfg::nulling_symbols", "Cfg::unused_symbols"],
  "stateful model-based testing against a vector of booleans",
  "Histories of up to 12 operations on up to 3 sets of up to 200 symbols.", ("histories", "inputs"))

p("C25", "Rules keep their origin, weight and history through all rewriting",
  "Every rule that results from splitting, precedence, sequences or extension carries the origin and weight given to the rule it was made from; when a rule is split under the limit 2 its origin stays with the part that completes it and helper rules have none, and the dots of the parts trace every position of the dot in the rule exactly once, each in its place. After elimination of nulling rules each rule tells, by its history, which binarized rule it was and which nullable symbol was left out on which side, and the eliminated rules keep their origin. A history given to a builder applies to the next alternative only, and otherwise the default history is used.",
  "all grammars, limits, orders of operations, and builder call sequences",
  "Tests look at few origins of fixed grammars.",
  ["cfg-history/src/earley/mod.rs", "cfg-history/src/lib.rs", "cfg-grammar/src/cfg.rs", "cfg-grammar/src/rule_builder.rs", "cfg-grammar/src/precedenced_rule.rs", "cfg-sequence/src/rewrite.rs"],
  [("History, process_linked", "cfg-history/src/earley/mod.rs"), ("Cfg::add_rule", "cfg-grammar/src/cfg.rs")],
  ["CfgRule::history", "History::origin", "History::nullable", "History::weight"],
  "property-based testing: rules traced back by unique origins",
  "Random grammars with rules of up to 7 symbols and unique origins.", ("inputs", "histories"))

p("C26", "Wrapping the input surrounds every root with fresh markers",
  "Wrapping the input adds for every root one rule, from a fresh root to a fresh start marker, the old root and a fresh end marker (named root, start_of_input and end_of_input), and makes the fresh symbols the roots, so that they derive exactly the old words between the markers. The list of wrapped roots states exactly that, also after wrapping again, and all other rules and names stay as they are. A grammar with no rules other than the wrapping ones counts as empty.",
  "all grammars and sets of roots (none, several), wrapping several times, with and without a length limit",
  "Tests wrap one root once.",
  ["cfg-grammar/src/cfg.rs"],
  [("Cfg::wrap_input, is_empty", "cfg-grammar/src/cfg.rs")],
  ["Cfg::wrap_input", "Cfg::wrapped_roots", "Cfg::roots", "Cfg::is_empty"],
  "model-based property-based testing, bounded-language comparison",
  "Random grammars, up to 3 wrappings. Emptiness is not claimed under a length limit.", ("inputs", "histories"))

p("C27", "A grammar keeps its rules as a list under all container operations",
  "Retaining, sorting, removing consecutive duplicates, extending, reversing, clearing and adding change the list of rules exactly as their names say, with the rules' histories moving along, and leave symbols, roots and copies alone. Two grammars are equivalent exactly when they have the same rules in the same order, whatever their histories. Columns of dots, the printed text, named rules and emptiness show exactly the current rules.",
  "all histories of these operations",
  "Tests use these operations in passing, on fixed grammars.",
  ["cfg-grammar/src/cfg.rs", "cfg-grammar/src/compare.rs"],
  [("Cfg container methods", "cfg-grammar/src/cfg.rs"), ("Cfg::equivalent", "cfg-grammar/src/compare.rs")],
  ["Cfg::rules", "Cfg::column", "Cfg::stringify_to_bnf", "Cfg::equivalent", "NamedCfgRule"],
  "stateful model-based testing against a list of rules",
  "Histories of up to 6 operations on grammars of up to some 30 rules. Stability of sorting is not claimed.", ("histories", "inputs"))

p("C28", "Rewriting steps in any order keep the words of the roots",
  "A grammar made with plain rules, sequences and precedence can be taken through limiting of rule lengths, binarization with elimination of nulling rules, removal of useless rules, rewriting of cycles, renumbering with or without removal of unused symbols, wrapping, reversal, sorting and removal of duplicates, in any order and any number of times: after every step every root derives exactly the words it derived before, letter for letter (reversed by a reversal, surrounded by the markers after wrapping, and without the empty input once nulling rules are eliminated), and the last length limit set holds.",
  "all grammars and all orders of the steps",
  "Tests run single steps, or one fixed order, on fixed grammars.",
  ["cfg-grammar/src/cfg.rs", "cfg-classify/src/cyclical.rs", "cfg-classify/src/lib.rs", "cfg-symbol-bit-matrix/src/remap_symbols.rs", "cfg-sequence/src/rewrite.rs"],
  [("Cfg", "cfg-grammar/src/cfg.rs"), ("Cycles::rewrite_cycles", "cfg-classify/src/cyclical.rs"), ("Remap", "cfg-symbol-bit-matrix/src/remap_symbols.rs")],
  ["Cfg::rules", "Cfg::roots", "Cfg::wrapped_roots", "Mapping"],
  "stateful metamorphic testing, bounded-language comparison after every step",
  "Histories of 2 to 6 steps on grammars with up to 4 nonterminals and 9 rules; words up to a length bound found per grammar. Roots (and markers) have to be in use when symbols are removed.", ("histories", "inputs"))

SEEDS += [
("b58-escaped-newline","C20",[("cfg-load/src/advanced.rs","""                            if let Some(ch) = self.peek() {
                                result.push(ch);
                                self.advance();
                            } else {
                                break;
                            }
""","""                            // Take the escaped character as it is.
                            if let Some(ch) = self.chars.next() {
                                result.push(ch);
                                self.col_no += 1;
                            } else {
                                break;
                            }
""")],
 "a string with an escaped newline, and an error after it","the error is reported on an earlier line",
 r'''
use cfg_load::CfgLoadAdvancedExt;
fn main() {
    let e = Cfg::load_advanced("S ::= \"a\\\nb\" ~;").err().unwrap();
    assert_eq!((e.line, e.col), (2, 5));
}
'''),
("b59-intern-prefix","C18",[("cfg-load/src/string_interner.rs","""        self.set.insert_full(value.as_ref().to_string()).0
""","""        // Names are told apart by what fits into a table.
        let key: String = value.as_ref().chars().take(48).collect();
        self.set.insert_full(key).0
""")],
 "two names which begin with the same 48 characters","they become the same symbol",
 r'''
use cfg_load::CfgLoadExt;
fn main() {
    let long = "a".repeat(48);
    let g = Cfg::load(&format!("S ::= {long}1 {long}2;")).unwrap();
    assert_eq!(g.num_syms(), 3);
}
'''),
("b60-limit-attempts","C16",[("cfg-generate/src/weighted/random.rs","""                result.push(sym);
                if let Some(ch) = to_char(sym, rng) {
                    string.push(ch);
                }
                if let Some(our_limits) = limit {
                    if result.len() as u64 > our_limits.terminals {
""","""                result.push(sym);
                produced += 1;
                if let Some(ch) = to_char(sym, rng) {
                    string.push(ch);
                }
                if let Some(our_limits) = limit {
                    if produced > our_limits.terminals {
"""),("cfg-generate/src/weighted/random.rs","""        let mut string = vec![];
        let mut terminal_set""","""        let mut string = vec![];
        let mut produced = 0;
        let mut terminal_set""")],
 "a negative rule which fails once, and a limit little above the length of the result","the terminals which were taken back count against the limit",
 r'''
use cfg_generate::weighted::random::{ByteSource, Limits, NegativeRule, Random};
fn main() {
    let mut g = Cfg::new();
    let [s, n, t, a, b] = g.sym();
    g.rule(s).rhs([n, t]);
    g.rule(t).rhs([a]).rhs([b]);
    g.rule(n).rhs([]);
    let mut some = false;
    for byte in 0..=255u8 {
        let neg = [NegativeRule { sym: n, chars: "a" }];
        let limit = Limits { terminals: 1, negative_rule_attempts: 100_000 };
        let chars = |sym: Symbol, _: &mut _| Some(if sym == a { 'a' } else { 'b' });
        let mut rng = ByteSource::new([byte; 4096].into_iter());
        let free = g.random(s, None, &mut rng.clone(), &neg, &chars);
        if free.is_ok() {
            some = true;
            assert_eq!(g.random(s, Some(limit), &mut rng, &neg, &chars), free);
        }
    }
    assert!(some);
}
'''),
("b61-closure-last","C11",[("cfg-classify/src/lr.rs","""    queue: VecDeque<Lr0Item>,
    terminal_set: SymbolBitSet,
}
""","""    queue: VecDeque<Lr0Item>,
    /// The nonterminal which was predicted last.
    predicted: Option<Symbol>,
    terminal_set: SymbolBitSet,
}
"""),("cfg-classify/src/lr.rs","""            queue: VecDeque::new(),
            terminal_set: grammar.terminal_symbols(),
""","""            queue: VecDeque::new(),
            predicted: None,
            terminal_set: grammar.terminal_symbols(),
"""),("cfg-classify/src/lr.rs","""            if let Some(nonterminal_postdot) = self.nonterminal_postdot(&item) {
""","""            if let Some(nonterminal_postdot) = self.nonterminal_postdot(&item) {
                if item.dot == 0 && self.predicted == Some(nonterminal_postdot) {
                    // Already there.
                    continue;
                }
                self.predicted = Some(nonterminal_postdot);
""")],
 "two closures by the same builder, the second of which first needs the nonterminal predicted last in the first","its rules are missing in the second closure",
 r'''
use cfg_classify::lr::{Lr0ClosureBuilder, Lr0Item, Lr0Items};
fn main() {
    let mut g = Cfg::new();
    let [s, a, x] = g.sym();
    g.rule(s).rhs([a]);
    g.rule(a).rhs([x]);
    let mut builder = Lr0ClosureBuilder::new(&mut g);
    for _ in 0..2 {
        let mut items = Lr0Items { map: [(0, Lr0Item { rhs: vec![a], dot: 0 })].into_iter().collect() };
        builder.closure(&mut items);
        assert_eq!(items.map.len(), 2);
    }
}
'''),
("b62-assoc-level","C13",[("cfg-grammar/src/precedenced_rule.rs","""        // Reset to default associativity and no history.
        self.assoc = DEFAULT_ASSOC;
        self.history = None;
        self
""","""        // Reset to no history.
        self.history = None;
        self
"""),("cfg-grammar/src/precedenced_rule.rs","""        self.looseness += 1;

""","""        self.looseness += 1;
        // Reset to default associativity.
        self.assoc = DEFAULT_ASSOC;

""")],
 "an alternative without associativity after one with it, on the same level","it takes on the associativity of the one before",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [e, p, m, x] = g.sym();
    g.precedenced_rule(e)
        .rhs([x])
        .lower_precedence()
        .associativity(cfg_grammar::precedenced_rule::Associativity::Right)
        .rhs([e, p, e])
        .rhs([e, m, e])
        .finalize();
    let r = g.rules().find(|r| r.rhs.len() == 3 && r.rhs[1] == m).unwrap();
    assert_eq!(r.rhs[0], r.lhs);
    assert_ne!(r.rhs[2], r.lhs);
}
'''),
("b63-reset-space","C24",[("cfg-grammar/src/symbol_bit_set.rs","""        self.bit_vec = BitVec::new();
        self.bit_vec
            .extend(iter::repeat(false).take(symbol_source.num_syms()));
""","""        self.bit_vec.clear();
        self.reserve(symbol_source.num_syms());
""")],
 "a set used for a grammar with many symbols, then for one with fewer","it keeps space for symbols which do not exist, and is not full when it has all symbols",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [_a, _b, _c] = g.sym();
    let mut h = Cfg::new();
    let [_a] = h.sym();
    let mut s = SymbolBitSet::new();
    s.reset(g.sym_source());
    s.reset(h.sym_source());
    assert_eq!(s.space(), 1);
}
'''),
("b65-generate-names","C15",[("cfg-symbol/src/source.rs","""        Some(self.source.next_sym(None))
""","""        // No name needs to be recorded.
        let sym = self.source.next_symbol;
        advance(&mut self.source.next_symbol);
        Some(sym)
""")],
 "symbols from the iterator, then a symbol with a name","the name goes to another symbol",
 r'''
fn main() {
    let mut s: cfg_symbol::SymbolSource = cfg_symbol::SymbolSource::new();
    let _ = s.generate().next();
    let named = s.next_sym(Some("x".into()));
    assert_eq!(s.name_of(named), "x");
}
'''),
("b66-follow-list","C06",[("cfg-predict-sets/src/follow.rs","""                        let prev_cardinality = followed.len();
""","""                        let prev_cardinality = followed.list.len();
"""),("cfg-predict-sets/src/follow.rs","""                        changed |= prev_cardinality != followed.len();
""","""                        changed |= prev_cardinality != followed.list.len();
""")],
 "a nonterminal at the end of a rule which comes before the rule of the root, where the last pass only brings the end of input","the end of input is missing in its FOLLOW set",
 r'''
use cfg_predict_sets::{CfgSetsExt, PredictSets};
fn main() {
    let mut g = Cfg::new();
    let [s, a, b, x] = g.sym();
    g.rule(b).rhs([x]);
    g.rule(a).rhs([b]);
    g.rule(s).rhs([a]);
    g.set_roots([s]);
    let f = g.follow_sets();
    assert!(f.predict_sets()[&b].has_none());
}
'''),
("b67-bnf-wrapped","C19",[("cfg-load/src/basic.rs","""        for rule in self.rules() {
            let mut rhs = String::new();
            for &sym in &rule.rhs[..] {
""","""        for rule in self.rules() {
            let mut rhs = String::new();
            // Markers are no part of the text.
            let markers = self.wrapped_roots();
            let is_marker = |sym| markers.iter().any(|w| w.end_of_input == sym && rule.lhs == w.root);
            for &sym in rule.rhs.iter().filter(|&&sym| !is_marker(sym)) {
""")],
 "printing a grammar whose input is wrapped","the end marker is missing",
 r'''
use cfg_load::CfgLoadExt;
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b]);
    g.set_roots([a]);
    g.wrap_input();
    assert!(g.to_bnf().contains("end_of_input"));
}
'''),
]

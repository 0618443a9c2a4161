SEEDS += [
("b78-occurence-index","C10",[("cfg-grammar/src/occurence_map.rs","type RuleIndex = usize;","type RuleIndex = u16;"),
 ("cfg-grammar/src/occurence_map.rs","""        for (i, rule) in rules.enumerate() {
""","""        for (i, rule) in rules.enumerate() {
            let i = i as RuleIndex;
"""),
 ("cfg-grammar/src/cfg.rs","""                let rule = &self.rules[rule_id];
                let mut rhs_iter""","""                let rule = &self.rules[rule_id as usize];
                let mut rhs_iter"""),
 ("cfg-grammar/src/cfg.rs",""".map(|&rule_id| &self.rules[rule_id]);""",""".map(|&rule_id| &self.rules[rule_id as usize]);""")],
 "more than 65536 rules","closures take a wrong rule",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [a, b, x, y] = g.sym();
    for _ in 0..65536 {
        g.rule(a).rhs([y]);
    }
    g.rule(b).rhs([x]);
    let mut s = SymbolBitSet::from_elem(&g, false);
    s.set(x, true);
    g.rhs_closure_for_any(&mut s);
    assert!(s[b] && !s[a]);
}
'''),
("b79-separator-element","C12",[("cfg-sequence/src/rewrite.rs","""            (Trailing(sep), _, _) => {
                let sym""","""            (Proper(sep), start, end) if sep == rhs && end == Some(start) => {
                // Separators are elements.
                let num = start * 2 - 1;
                let sym = self.recurse(&sequence.separator(Separator::Null).range(num..=num));
                self.rhs([sym]);
            }
            (Proper(sep), start, end) if sep == rhs => {
                let end = end.map(|end| end * 2 - 1);
                let sequence = sequence.separator(Separator::Null);
                let sym = self.recurse(&sequence.inclusive(start * 2 - 1, end));
                self.rhs([sym]);
            }
            (Trailing(sep), _, _) => {
                let sym""")],
 "a span of repetitions separated by the element itself","even numbers of the element are derived",
 r'''
use cfg_sequence::CfgSequenceExt;
use cfg_generate::weighted::random::{ByteSource, Random};
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    g.sequence(a).inclusive(1, Some(3)).intersperse(x).rhs(x);
    for byte in 0..=255u8 {
        for byte2 in [0, 100, 200] {
            let mut rng = ByteSource::new([byte, byte2, byte ^ byte2, byte2].into_iter());
            let (w, _) = g.random(a, None, &mut rng, &[], |_, _| Some('x')).unwrap();
            assert_eq!(w.len() % 2, 1);
        }
    }
}
'''),
("b80-chained-map","C12",[("cfg-sequence/src/rewrite.rs","""        self.stack.clear();
        self.map.clear();
        let prev""","""        self.stack.clear();
        // Sequences over other symbols have nothing in common with this one.
        self.map.retain(|partial, _| partial.rhs == top.rhs);
        self.map.insert(top.into(), top.lhs);
        let prev""")],
 "two sequences over one symbol by one builder, the second made of the first, whose left-hand side has another rule","the second sequence derives what the other rule says",
 r'''
use cfg_sequence::CfgSequenceExt;
use cfg_generate::weighted::random::{ByteSource, Random};
fn main() {
    let mut g = Cfg::new();
    let [a, b, x, y] = g.sym();
    g.rule(a).rhs([y]);
    g.sequence(a).inclusive(1, Some(1)).rhs(x).sequence(b).inclusive(0, Some(1)).rhs(x);
    for byte in 0..=255u8 {
        for byte2 in [0, 100, 200, 255] {
            let mut rng = ByteSource::new([byte, byte2].into_iter());
            let (w, _) = g.random(b, None, &mut rng, &[], |_, _| None).unwrap();
            assert!(!w.contains(&y));
        }
    }
}
'''),
("b81-empty-level","C13",[("cfg-grammar/src/precedenced_rule.rs","""        self.looseness += 1;

        self.tighter_lhs""","""        self.looseness += 1;

        if !self.grammar.rules().any(|rule| rule.lhs == self.current_lhs) {
            // The level is empty.
            self.tighter_lhs = self.current_lhs;
            return self;
        }

        self.tighter_lhs""")],
 "a level without alternatives, or only with grouping ones","the next level is not separated from it",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [e, x, p, l, r] = g.sym();
    g.precedenced_rule(e)
        .associativity(Associativity::Group)
        .rhs([l, e, r])
        .lower_precedence()
        .rhs([x])
        .rhs([e, p, e])
        .finalize();
    // e p e with the second operand of the tighter level, which is ( e ) only.
    let plus: Vec<CfgRule> = g.rules().filter(|r| r.rhs.len() == 3 && r.rhs[1] == p).cloned().collect();
    let tight = plus[0].rhs[2];
    assert!(g.rules().all(|r| r.lhs != tight || r.rhs[0] == l));
}
'''),
("b82-remap-short-names","C14",[("cfg-symbol/src/source.rs","""            let new_sym = map(sym).usize();
            new_names""","""            let new_sym = map(sym).usize();
            if name.is_none() {
                continue;
            }
            new_names""")],
 "renumbering which puts a symbol without a name last, then a new symbol with a name","another symbol gets the name",
 r'''
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
fn main() {
    let mut g = Cfg::new();
    let a = g.next_sym(Some("a".into()));
    let [b] = g.sym();
    g.rule(a).rhs([b]);
    g.remap().reorder_symbols(|x, y| x.cmp(&y));
    let c = g.next_sym(Some("c".into()));
    assert_eq!(g.sym_source().name_of(c), "c");
    assert_eq!(g.sym_source().original_name_of(b), None);
}
'''),
("b83-no-terminals","C03",[("cfg-classify/src/useful.rs","""    productive_syms.nulling(grammar);
    grammar.rhs_closure_for_all(&mut productive_syms);
""","""    if productive_syms.is_empty() {
        // There is nothing to derive.
        return productive_syms;
    }
    productive_syms.nulling(grammar);
    grammar.rhs_closure_for_all(&mut productive_syms);
""")],
 "a grammar without terminals","symbols which derive the empty word are unproductive",
 r'''
use cfg_classify::CfgClassifyExt;
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b, b]);
    g.rule(b).rhs([]);
    g.set_roots([a]);
    assert!(g.usefulness().all_productive());
}
'''),
("b84-empty-name","C15",[("cfg-symbol/src/source.rs","""            Some(Some(name)) => Cow::Borrowed(&name.name[..]),
            Some(None) | None =>""","""            Some(Some(name)) if !name.is_empty() => Cow::Borrowed(&name.name[..]),
            Some(_) | None =>""")],
 "a symbol with an empty name","it is called like an unnamed one",
 r'''
fn main() {
    let mut g = Cfg::new();
    let a = g.next_sym(Some("".into()));
    assert_eq!(g.sym_source().name_of(a), "");
}
'''),
("b85-float-sum","C17",[("cfg-generate/src/weighted/weighted_rhs_by_lhs.rs","""        let mut weighted = WeightedRhsByLhs::new();
        for rule in self.rules() {
            let weight = rule.history.weight.unwrap_or(1000) as f64 / 1000f64;
            weighted.add_weight(weight, rule.lhs, &rule.rhs[..]);
        }
        weighted""","""        let mut weighted = WeightedRhsByLhs::<f32>::new();
        for rule in self.rules() {
            let weight = rule.history.weight.unwrap_or(1000) as f32;
            weighted.add_weight(weight, rule.lhs, &rule.rhs[..]);
        }
        let weights = weighted.weights.into_iter().map(|(lhs, list)| {
            let list = WeightedRhsList {
                total_weight: list.total_weight as f64 / 1000f64,
                rhs_list: list
                    .rhs_list
                    .into_iter()
                    .map(|WeightedRhs { weight, rhs }| WeightedRhs {
                        weight: weight as f64 / 1000f64,
                        rhs,
                    })
                    .collect(),
            };
            (lhs, list)
        });
        WeightedRhsByLhs {
            weights: weights.collect(),
        }""")],
 "a weight of more than 16777 before a small one","the small one is lost",
 r'''
use cfg_generate::weighted::random::{GenRange, Random};
#[derive(Clone)]
struct Top;
impl GenRange for Top {
    fn generate(&mut self, limit: f64) -> f64 {
        limit - 0.0005
    }
    fn mutate_start(&mut self, _: u64) {}
}
fn main() {
    let mut g = Cfg::new();
    let [a, x, y] = g.sym();
    let h: History = RootHistoryNode::NoOp.into();
    g.rule(a)
        .rhs_with_history([x], History { weight: Some(1 << 25), ..h })
        .rhs_with_history([y], History { weight: Some(1), ..h });
    assert_eq!(g.random(a, None, &mut Top, &[], |_, _| None).unwrap().0, [y]);
}
'''),
("b86-keyword-case","C20",[("cfg-load/src/advanced.rs","""                if result == "lexer" {""","""                if result.eq_ignore_ascii_case("lexer") {""")],
 "a symbol called Lexer","the text is rejected",
 r'''
use cfg_load::CfgLoadAdvancedExt;
fn main() {
    assert!(Cfg::load_advanced("Lexer ::= a ~ LEXER;").is_ok());
}
'''),
("b87-string-space","C21",[("cfg-load/src/advanced.rs","""                            let id = lex_string_intern.get_or_intern(&string[..]);
""","""                            let id = lex_string_intern.get_or_intern(string.trim_end());
""")],
 "two strings which differ only in spaces at the end","they share a symbol",
 r'''
use cfg_load::CfgLoadAdvancedExt;
fn main() {
    let g = Cfg::load_advanced("S ::= \"a\" | \"a \";").unwrap();
    assert!(g.sym_map.contains_key("__lex1"));
}
'''),
("b88-empty-unsorted","C26",[("cfg-grammar/src/cfg.rs","""            let mut roots = self.roots.clone();
            roots.sort();
            self.rules()""","""            let roots = &self.roots;
            self.rules()""")],
 "two wrapped roots in descending order","a grammar with nothing but wrapping rules is not empty",
 r'''
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
fn main() {
    let mut g = Cfg::new();
    let [a, b, c] = g.sym();
    g.set_roots([a, b, c]);
    g.wrap_input();
    assert!(g.is_empty());
    g.remap().reorder_symbols(|x, y| y.cmp(&x));
    assert!(g.is_empty());
}
'''),
("b89-extend-limited","C01",[("cfg-grammar/src/cfg.rs","""        for rule in &other.rules {
            self.add_rule(rule.clone());
        }
    }

    /// Ensures""","""        if other.rhs_len_invariant.is_some() {
            // These rules are limited already.
            self.rules.extend_from_slice(&other.rules);
            return;
        }
        for rule in &other.rules {
            self.add_rule(rule.clone());
        }
    }

    /// Ensures""")],
 "extending from a grammar with a limit greater than one's own","the limit is broken",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    g.limit_rhs_len(Some(2));
    let mut h = Cfg::with_sym_source(g.sym_source().clone());
    h.limit_rhs_len(Some(5));
    h.rule(a).rhs([x; 5]);
    g.extend(&h);
    assert!(g.rules().all(|r| r.rhs.len() <= 2));
}
'''),
]

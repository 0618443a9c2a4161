SEEDS += [
("b92-remap-nothing","C14",[("cfg-symbol-bit-matrix/src/remap_symbols.rs","""        for rule in added_rules {
            self.grammar.add_rule(rule);
        }
""","""        if added_rules.is_empty() {
            // Nothing was renamed.
            return;
        }
        for rule in added_rules {
            self.grammar.add_rule(rule);
        }
""")],
 "renumbering which moves only symbols without rules or uses","the roots and names keep their old numbers",
 r'''
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    let p = g.next_sym(Some("p".into()));
    let q = g.next_sym(Some("q".into()));
    g.rule(a).rhs([x]);
    g.remap().reorder_symbols(|s, t| {
        let key = |s: Symbol| if s == p { 4 } else { s.usize() };
        key(s).cmp(&key(t))
    });
    assert_eq!(g.sym_source().name_of(p), "q");
    assert_eq!(g.sym_source().name_of(q), "p");
}
'''),
("b93-thread-negative","C16",[("cfg-generate/src/weighted/random.rs","""        self.random(start, limit, &mut thread_rng, negative_rules, to_char)""",
"""        let limit_attempts = limit.is_some_and(|limits| limits.negative_rule_attempts > 0);
        let negative_rules = if limit_attempts { negative_rules } else { &[] };
        self.random(start, limit, &mut thread_rng, negative_rules, to_char)""")],
 "with_thread_rng without limits, and a negative rule","negative rules are ignored",
 r'''
use cfg_generate::weighted::NegativeRule;
use cfg_generate::weighted::random::Random;
fn main() {
    let mut h = Cfg::new();
    let [s, n, t, a, b] = h.sym();
    h.rule(s).rhs([n, t]);
    h.rule(n).rhs([]);
    h.rule(t).rhs([a]).rhs([b]);
    for _ in 0..100 {
        let r = h.with_thread_rng(s, None, &[NegativeRule { sym: n, chars: "a" }], |x, _| Some(if x == a { 'a' } else { 'b' }));
        assert_eq!(r.unwrap().1, ['b']);
    }
}
'''),
("b95-lexer-blocks","C21",[("cfg-load/src/advanced.rs","""            (2, Value::Start(rules, Some(mut lex)), Value::Lex(lex2), ..) => {
                lex.0.extend(lex2.0);
                Value::Start(rules, Some(lex))""","""            (2, Value::Start(rules, Some(lex)), Value::Lex(mut lex2), ..) => {
                lex2.0.extend(lex.0);
                Value::Start(rules, Some(lex2))""")],
 "two lexer blocks","the rules of the second one are numbered before those of the first",
 r'''
use cfg_load::advanced::CfgLoadAdvancedExt;
fn main() {
    let g = Cfg::load_advanced("S ::= A ~ B; lexer { A ::= \"a\" > one; } lexer { B ::= \"b\" > two; }").unwrap();
    assert_eq!(g.actions[&2].as_deref(), Some("one"));
    assert_eq!(g.actions[&3].as_deref(), Some("two"));
}
'''),
("b96-surrogate","C22",[("cfg-regexp-logic/src/lib.rs","""    (ch..=char::MAX).nth(1)""","""    char::from_u32(ch as u32 + 1)""")],
 "a class which ends just before the surrogates","the class never ends",
 r'''
use cfg_regexp_logic::CfgRegexpExt;
fn main() {
    let (_, mut map) = Cfg::from_regexp("[\u{D000}-\u{D7FF}]").unwrap();
    map.compute();
    assert_eq!(map.get('\u{D7FF}').len(), 1);
    assert_eq!(map.get('\u{E000}').len(), 0);
}
'''),
("b98-limit-kept","C02",[("cfg-grammar/src/cfg.rs","""        self.limit_rhs_len(Some(2));

        let mut result""","""        if self.rhs_len_invariant.is_none() {
            self.limit_rhs_len(Some(2));
        }

        let mut result""")],
 "a limit of more than two set before binarization","longer rules are left, or it panics",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    g.limit_rhs_len(Some(3));
    g.rule(a).rhs([x, x, x]);
    g.binarize_and_eliminate_nulling_rules();
    assert!(g.rules().all(|r| r.rhs.len() <= 2));
}
'''),
("b101-cycle-row-stale","C04",[("cfg-classify/src/cyclical.rs","""                            row.set(s, lhs_derives && unit_derivation[(s, rule.lhs)])""",
"""                            if lhs_derives && unit_derivation[(s, rule.lhs)] {
                                row.set(s, true);
                            }""")],
 "two separate cycles","they become one symbol",
 r'''
use cfg_classify::cyclical::Cycles;
fn main() {
    let mut g = Cfg::new();
    let [a, b, c, d, x, y] = g.sym();
    g.rule(a).rhs([b]).rhs([x]);
    g.rule(b).rhs([a]);
    g.rule(c).rhs([d]).rhs([y]);
    g.rule(d).rhs([c]);
    Cycles::new(&mut g).rewrite_cycles();
    let lhs: std::collections::BTreeSet<_> = g.rules().map(|r| r.lhs).collect();
    assert_eq!(lhs.len(), 2);
}
'''),
("b102-line-u16","C20",[("cfg-load/src/advanced.rs","""                    reason: "parse failed".to_string(),
                    line: line as u32,""","""                    reason: "parse failed".to_string(),
                    line: line as u16 as u32,""")],
 "an error behind line 65535","its line is wrong",
 r'''
use cfg_load::CfgLoadAdvancedExt;
fn main() {
    let e = Cfg::load_advanced(&format!("S ::= a;{}|", "\n".repeat(70000))).err().unwrap();
    assert_eq!(e.line, 70001);
}
'''),
("b103-dot-u8","C25",[("cfg-history/src/earley/mod.rs","""        RuleDot::new(self.origin.id, n as u32)""","""        RuleDot::new(self.origin.id, n as u8 as u32)""")],
 "a rule of more than 255 symbols split under the limit 2","its dots are numbered modulo 256",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    g.limit_rhs_len(Some(2));
    g.rule(a).history(RootHistoryNode::Origin { origin: 3 }.into()).rhs(vec![x; 300]);
    let last = g.rules().last().unwrap();
    assert_eq!(last.history.dot(2), cfg_history::earley::rule_dot::RuleDot::new(3, 300));
}
'''),
("b104-follow-passes","C06",[("cfg-predict-sets/src/follow.rs","""        let mut changed = true;
        while changed {
            changed = false;""","""        let mut changed = true;
        for _ in 0..32 {
            if !changed {
                break;
            }
            changed = false;""")],
 "a chain of more than 32 rules whose ends follow each other against the order of the rules","FOLLOW sets are too small",
 r'''
use cfg_predict_sets::{CfgSetsExt, PredictSets};
fn main() {
    let mut g = Cfg::new();
    let s: Vec<Symbol> = (0..50).map(|_| g.next_sym(None)).collect();
    g.set_roots([s[49]]);
    g.rule(s[1]).rhs([s[0]]);
    for i in 1..49 {
        g.rule(s[i]).rhs([s[0], s[i]]).rhs([s[i]]);
    }
    let mut h = Cfg::new();
    let s: Vec<Symbol> = (0..50).map(|_| h.next_sym(None)).collect();
    h.set_roots([s[49]]);
    for i in 1..50 {
        h.rule(s[i]).rhs([s[0], s[i - 1]]);
    }
    let first = h.first_sets();
    let follow = h.follow_sets_with_first(&first);
    assert!(follow.predict_sets()[&s[1]].has_none());
}
'''),
("b105-lr-rule-u16","C11",[("cfg-classify/src/lr.rs","""type RuleId = u32;""","""type RuleId = u16;""")],
 "more than 65536 rules","rules are confused with others",
 r'''
use cfg_classify::lr::{Lr0ClosureBuilder, Lr0FsmBuilder};
fn main() {
    let mut g = Cfg::new();
    let [s, u, x, y] = g.sym();
    g.rule(s).rhs([x]);
    for _ in 0..65535 {
        g.rule(u).rhs([y]);
    }
    g.rule(s).rhs([y]);
    let m = Lr0FsmBuilder::new(&mut g).make_lr0_fsm(s);
    assert_eq!(m[0].items.map.len(), 3);
}
'''),
("b106-reserve","C24",[("cfg-grammar/src/symbol_bit_set.rs","""            .extend(iter::repeat(false).take(len.saturating_sub(self.bit_vec.len())));""",
"""            .extend(iter::repeat(false).take(len.saturating_sub(self.bit_vec.capacity())));""")],
 "reserving space within the blocks that are allocated already","there is no space",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [_a] = g.sym();
    let mut s = SymbolBitSet::from_elem(&g, false);
    s.reserve(5);
    assert_eq!(s.space(), 5);
}
'''),
("b107-pick-single","C17",[("cfg-generate/src/weighted/weighted_rhs_by_lhs.rs","""            if weighted_rhs_list.rhs_list.len() == 1 {""","""            if weighted_rhs_list.rhs_list.iter().all(|w| w.rhs == weighted_rhs_list.rhs_list[0].rhs || w.rhs.is_empty()) {""")],
 "a symbol with one alternative and empty ones after it","the empty alternatives are never chosen",
 r'''
use cfg_generate::weighted::random::{ByteSource, Random};
fn main() {
    let mut g = Cfg::new();
    let [s, x] = g.sym();
    g.rule(s).rhs([x]).rhs([]);
    let mut n = 0;
    for b in 0..=255u8 {
        let r = g.random(s, None, &mut ByteSource::new(std::iter::repeat(b)), &[], |_, _| None).unwrap();
        n += r.0.len();
    }
    assert!(n > 120 && n < 136, "{n}");
}
'''),
]

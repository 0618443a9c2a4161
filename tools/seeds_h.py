SEEDS += [
("b109-nulling-unit","C02",[("cfg-grammar/src/cfg.rs","""                    result
                        .rule(rule.lhs)
                        .history(history)
                        .rhs(&rule.rhs[which.as_range()]);""","""                    if num != 1 || rule.rhs[0] < rule.lhs {
                        result
                            .rule(rule.lhs)
                            .history(history)
                            .rhs(&rule.rhs[which.as_range()]);
                    }""")],
 "a symbol which derives the empty word only through a unit rule to a newer symbol","the nulling grammar lacks it",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [a, b, x] = g.sym();
    g.rule(a).rhs([b]).rhs([x]);
    g.rule(b).rhs([]);
    let n = g.binarize_and_eliminate_nulling_rules();
    assert!(n.rules().any(|r| r.lhs == a));
}
'''),
("b110-length-overflow","C08",[("cfg-grammar/src/cfg.rs","""                        value[elem.usize()].map(|val| acc.saturating_add(val))""","""                        value[elem.usize()].map(|val| acc.wrapping_add(val))""")],
 "a symbol whose shortest sentence has 2^32 terminals or more","it counts as short",
 r'''
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
fn main() {
    let mut g = Cfg::new();
    let s: Vec<Symbol> = (0..40).map(|_| g.next_sym(None)).collect();
    for i in 0..38 {
        g.rule(s[i]).rhs([s[i + 1], s[i + 1]]);
    }
    g.rule(s[38]).rhs([s[39]]);
    let m = MinimalDistance::new(&g).minimal_distances(&[(0, 2)], DistanceDirection::Forward).to_vec();
    assert!(m[0][0].is_none_or(|d| d == u32::MAX), "{:?}", m[0]);
}
'''),
("b111-dedup-histories","C27",[("cfg-grammar/src/cfg.rs","""        self.rules.dedup_by_key(|rule| (rule.lhs, rule.rhs.clone()));""","""        self.rules.dedup_by(|rule, last| {
            rule.lhs == last.lhs && rule.rhs == last.rhs && rule.history.weight == last.history.weight
        });""")],
 "neighbouring equal rules with different weights","both stay",
 r'''
use cfg_history::LinkedHistoryNode;
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    let mut h: History = RootHistoryNode::Origin { origin: 1 }.into();
    g.rule(a).rhs_with_history([x], h);
    h.weight = Some(3);
    g.rule(a).rhs_with_history([x], h);
    g.dedup();
    assert_eq!(g.rules().count(), 1);
}
'''),
("b112-cycle-roots","C04",[("cfg-classify/src/cyclical.rs","""            let roots: Vec<_> = grammar.roots().iter().copied().map(translate).collect();
            grammar.set_roots(&roots[..]);""","""            let mut roots: Vec<_> = grammar.roots().iter().copied().map(translate).collect();
            if let [_, rest @ ..] = &mut roots[..] {
                let n = rest.len();
                rest.copy_from_slice(&grammar.roots()[1..1 + n]);
            }
            grammar.set_roots(&roots[..]);""")],
 "a second root in a cycle","it derives nothing afterwards",
 r'''
use cfg_classify::cyclical::Cycles;
fn main() {
    let mut g = Cfg::new();
    let [a, b, c, x] = g.sym();
    g.set_roots([a, c]);
    g.rule(a).rhs([x]);
    g.rule(b).rhs([c]).rhs([x]);
    g.rule(c).rhs([b]);
    Cycles::new(&mut g).rewrite_cycles();
    assert_eq!(g.roots()[1], b);
}
'''),
("b113-last-sets-wrapped","C05",[("cfg-predict-sets/src/last.rs","""        reversed_grammar.reverse();""","""        reversed_grammar.dedup();
        reversed_grammar.reverse();
        reversed_grammar.retain(|rule| rule.rhs.len() != 1 || rule.rhs[0] != rule.lhs);""")],
 "a symbol with no rule but X ::= X","it has no LAST set",
 r'''
use cfg_predict_sets::{CfgSetsExt, PredictSets};
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b]);
    g.rule(b).rhs([b]);
    assert!(cfg_predict_sets::LastSets::new(&g).predict_sets().contains_key(&b));
}
'''),
("b115-ll-closure","C07",[("cfg-classify/src/ll.rs","""                property.set(nonterminal, true);
            }
        }
        self.grammar.rhs_closure_for_any(&mut property);""","""                property.set(nonterminal, true);
            }
        }
        for rule in self.grammar.rules().collect::<Vec<_>>().into_iter().rev() {
            if rule.rhs.iter().any(|&sym| property[sym]) {
                property.set(rule.lhs, true);
            }
        }""")],
 "an ambiguous symbol whose rules come before those of the symbol that reaches it through another","the latter is classified as LL(1)",
 r'''
use cfg_classify::CfgClassifyExt;
use cfg_classify::ll::LlNonterminalClass;
fn main() {
    let mut g = Cfg::new();
    let [a, b, c, x, y] = g.sym();
    g.set_roots([c]);
    g.rule(c).rhs([y, b]);
    g.rule(b).rhs([y, a]);
    g.rule(a).rhs([x]).rhs([x, y]);
    assert_eq!(g.ll_parse_table().classify().classes()[&c], LlNonterminalClass::ContextFree);
    let mut g = Cfg::new();
    let [a, b, c, x, y] = g.sym();
    g.set_roots([c]);
    g.rule(a).rhs([x]).rhs([x, y]);
    g.rule(b).rhs([y, a]);
    g.rule(c).rhs([y, b]);
    assert_eq!(g.ll_parse_table().classify().classes()[&c], LlNonterminalClass::ContextFree);
}
'''),
]

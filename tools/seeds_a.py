G='cfg-grammar/src/cfg.rs'
SEEDS += [
("b01-wrap-past-limit","C01",[(G,"""            self.add_rule(CfgRule {
                lhs: root,
                rhs: [start_of_input, inner_root, end_of_input].into(),""","""            self.rules.push(CfgRule {
                lhs: root,
                rhs: [start_of_input, inner_root, end_of_input].into(),""")],
 "a length limit of 2 set before wrap_input","the rule added by wrap_input has three symbols in spite of the limit",
 """
fn main() {
    let mut g = Cfg::new();
    let [s, a] = g.sym();
    g.rule(s).rhs([a, a, a]);
    g.set_roots([s]);
    g.limit_rhs_len(Some(2));
    g.wrap_input();
    assert!(g.rules().all(|r| r.rhs.len() <= 2));
}
"""),
("b02-nulling-square","C02",[(G,"""                    if num == 2 {
                        rewritten_work
                            .rule(rule.lhs)
                            .history(history)
                            .rhs(&rule.rhs[0..1]);
                        rewritten_work
                            .rule(rule.lhs)
                            .history(history)
                            .rhs(&rule.rhs[1..2]);""","""                    if num == 2 {
                        if rule.rhs[1] != rule.lhs {
                            rewritten_work
                                .rule(rule.lhs)
                                .history(history)
                                .rhs(&rule.rhs[0..1]);
                        }
                        rewritten_work
                            .rule(rule.lhs)
                            .history(history)
                            .rhs(&rule.rhs[1..2]);""")],
 "a nullable rule which is right-recursive, with both symbols nullable","elimination loses X ::= Y from X ::= Y X where both are nullable, so that words are lost",
 """
fn main() {
    let mut g = Cfg::new();
    let [x, y, t] = g.sym();
    g.rule(x).rhs([y, x]).rhs([]);
    g.rule(y).rhs([t]).rhs([]);
    g.set_roots([x]);
    g.binarize_and_eliminate_nulling_rules();
    // x must still derive t: some rule x ::= y (or x ::= t) must be there
    assert!(g.rules().any(|r| r.lhs == x && (r.rhs[..] == [y] || r.rhs[..] == [t])));
}
"""),
("b03-usefulness-lhs","C03",[("cfg-classify/src/useful.rs","""        let productive = rule.rhs.iter().all(|&sym| self.productivity[sym]);
        let reachable = self.reachable_syms[rule.lhs];
        UsefulnessForRule {""","""        let productive = self.productivity[rule.lhs];
        let reachable = self.reachable_syms[rule.lhs];
        UsefulnessForRule {""")],
 "a symbol with one productive and one unproductive rule","an unproductive rule of a productive symbol is reported useful",
 """
use cfg_classify::CfgClassifyExt;
fn main() {
    let mut g = Cfg::new();
    let [s, a, u] = g.sym();
    g.rule(s).rhs([a]).rhs([u]);
    g.rule(u).rhs([u]);
    g.set_roots([s]);
    let us = g.usefulness();
    assert_eq!(us.useless_rules(&g).filter(|r| r.rule().lhs == s).count(), 1);
}
"""),
("b04-cycle-row","C04",[("cfg-classify/src/cyclical.rs","row.set(s, lhs_derives && unit_derivation[(s, rule.lhs)])","""row.set(
                                s,
                                lhs_derives && unit_derivation[(s, s)],
                            )""")],
 "two separate unit cycles of which one derives the other by a unit rule","rewriting merges symbols of two different cycles, which changes the language",
 """
use cfg_classify::cyclical::Cycles;
fn main() {
    let mut g = Cfg::new();
    let [a, b, c, d, x, y] = g.sym();
    g.rule(a).rhs([b]).rhs([c]).rhs([x]);
    g.rule(b).rhs([a]);
    g.rule(c).rhs([d]);
    g.rule(d).rhs([c]).rhs([y]);
    g.set_roots([a, c]);
    Cycles::new(&mut g).rewrite_cycles();
    let roots = g.roots().to_vec();
    assert_ne!(roots[0], roots[1]);
}
"""),
("b05-first-changed","C05",[("cfg-predict-sets/src/first.rs","""        let prev_cardinality = first_set.len();""","""        let prev_cardinality = first_set.list.len();"""),
  ("cfg-predict-sets/src/first.rs","""        prev_cardinality != first_set.len()""","""        prev_cardinality != first_set.list.len()""")],
 "nullability which must travel against the order of the rules in a round that adds no terminal","FIRST sets stop growing too early",
 """
use cfg_predict_sets::{CfgSetsExt, PredictSets};
fn main() {
    let mut g = Cfg::new();
    let [s, a, b, t] = g.sym();
    g.rule(s).rhs([a, t]);
    g.rule(a).rhs([b]);
    g.rule(b).rhs([]);
    let first = g.first_sets();
    assert!(first.predict_sets()[&s].list.contains(&t));
}
"""),
("b06-follow-roots","C06",[("cfg-predict-sets/src/follow.rs","""        roots.sort();
""","""        roots.dedup();
""")],
 "several roots which are not in ascending order","a root gets no end of input in its FOLLOW set",
 """
use cfg_predict_sets::{CfgSetsExt, PredictSets};
fn main() {
    let mut g = Cfg::new();
    let [a, b, c, t] = g.sym();
    g.rule(a).rhs([t]);
    g.rule(b).rhs([t]);
    g.rule(c).rhs([t]);
    g.set_roots([c, b, a]);
    let follow = g.follow_sets();
    for s in [a, b, c] {
        assert!(follow.predict_sets()[&s].has_none);
    }
}
"""),
("b07-ll-first-key","C07",[("cfg-classify/src/ll.rs","""                result
                    .classes
                    .insert(key.nonterminal, LlNonterminalClass::ContextFree);""","""                result
                    .classes
                    .entry(key.nonterminal)
                    .or_insert(LlNonterminalClass::ContextFree);""")],
 "a nonterminal with a conflict on a lookahead that is not its least one","a conflicting nonterminal is classified as LL(1)",
 """
use cfg_classify::CfgClassifyExt;
use cfg_classify::ll::LlNonterminalClass;
fn main() {
    let mut g = Cfg::new();
    let [s, t, u] = g.sym();
    g.rule(s).rhs([t]).rhs([u]).rhs([u, t]);
    g.set_roots([s]);
    let table = g.ll_parse_table();
    let classes = table.classify();
    assert!(classes.classes()[&s] == LlNonterminalClass::ContextFree);
}
"""),
("b08-values-once","C08",[(G,"""                    value[rule.lhs.usize()] = Some(work_value);
                    tmp_stack.push(rule.lhs);""","""                    if value[rule.lhs.usize()].replace(work_value).is_none() {
                        tmp_stack.push(rule.lhs);
                    }""")],
 "a symbol whose value improves after it was already passed on to another symbol","the values found for symbols (minimal lengths, and with them distances) are not minimal",
 """
fn main() {
    let mut g = Cfg::new();
    let [u, b, a, s, t] = g.sym();
    g.rule(a).rhs([t, t, t]).rhs([b]);
    g.rule(b).rhs([u]);
    g.rule(s).rhs([a]);
    let mut value = vec![Some(1), None, None, None, Some(1)];
    g.rhs_closure_with_values(&mut value);
    assert_eq!(value, vec![Some(1), Some(1), Some(1), Some(1), Some(1)]);
}
"""),
("b09-middle-recursion","C09",[("cfg-classify/src/recursive.rs",".take(rule.rhs.len().saturating_sub(2))",".take((rule.rhs.len() - 1) / 2)")],
 "recursion in the third position of a rule of four or more symbols","middle recursion past the first half of the rule is missed",
 """
use cfg_classify::CfgClassifyExt;
fn main() {
    let mut g = Cfg::new();
    let [s, t] = g.sym();
    g.rule(s).rhs([t, t, s, t]).rhs([t]);
    let rec = g.recursion();
    let kinds: Vec<_> = rec.recursive_rules().map(|r| r.recursion.middle).collect();
    assert_eq!(kinds, vec![true]);
}
"""),
("b10-unused-nulling","C10",[("cfg-grammar/src/symbol_bit_set.rs","""        self.set_all(grammar.sym_source());
        for rule in grammar.rules() {
            self.set(rule.lhs, false);
            for &sym in &rule.rhs[..] {
                self.set(sym, false);""","""        self.set_all(grammar.sym_source());
        for rule in grammar.rules() {
            for &sym in rule.rhs.iter() {
                self.set(rule.lhs, false);
                self.set(sym, false);""")],
 "a symbol that has only empty rules and occurs nowhere else","the left-hand side of an empty rule is reported as unused",
 """
fn main() {
    let mut g = Cfg::new();
    let [a, b, t] = g.sym();
    g.rule(a).rhs([t]);
    g.rule(b).rhs([]);
    let unused = g.unused_symbols();
    assert!(!unused[b]);
}
"""),
("b11-fsm-cache","C11",[("cfg-classify/src/lr.rs","""        self.cached_sets.clear();
        self.sets_queue.clear();
""","""        self.sets_queue.clear();
""")],
 "two machines made by one builder","the second machine refers to nodes of the first",
 """
use cfg_classify::lr::Lr0FsmBuilder;
fn main() {
    let mut g = Cfg::new();
    let [s, t, u] = g.sym();
    g.rule(s).rhs([t, u]);
    let mut b = Lr0FsmBuilder::new(&mut g);
    let m1 = b.make_lr0_fsm(s);
    let m2 = b.make_lr0_fsm(s);
    assert_eq!(m1.len(), m2.len());
    for n in &m2 {
        for (_, &id) in &n.link {
            assert!((id as usize) < m2.len());
        }
    }
}
"""),
("b12-separator-leak","C12",[("cfg-sequence/src/builder.rs","""        self.lhs = Some(lhs);
        self.separator = Separator::Null;
        self""","""        self.lhs = Some(lhs);
        self""")],
 "a second sequence started from the builder of a separated one","the separator of one sequence applies to the next sequence too",
 """
use cfg_sequence::CfgSequenceExt;
fn main() {
    let mut g = Cfg::new();
    let [a, b, t, sep] = g.sym();
    g.sequence(a).intersperse(sep).inclusive(1, None).rhs(t).sequence(b).inclusive(1, None).rhs(t);
    assert!(g.rules().filter(|r| r.lhs == b).all(|r| !r.rhs.contains(&sep)));
}
"""),
("b13-right-inner","C13",[("cfg-grammar/src/precedenced_rule.rs","""                // Symbols equal to the LHS symbol.
""","""                let ends_in_operand = syms.last() == Some(&lhs);
                // Symbols equal to the LHS symbol.
"""),("cfg-grammar/src/precedenced_rule.rs","""                    // Rightmost one.
                    iter.next_back()
""","""                    // Rightmost one.
                    if ends_in_operand {
                        iter.next_back()
                    } else {
                        None
                    }
""")],
 "a right-associative alternative which does not end in an operand","the rightmost operand of such an alternative cannot be of its own level",
 """
fn main() {
    let mut g = Cfg::new();
    let [e, op, end, num] = g.sym();
    g.precedenced_rule(e)
        .rhs([num])
        .lower_precedence()
        .associativity(Associativity::Right)
        .rhs([e, op, e, end])
        .finalize();
    let r = g.rules().find(|r| r.rhs.len() == 4).unwrap();
    assert_eq!(r.rhs[2], r.lhs);
}
"""),
("b14-wrapped-end","C14",[("cfg-symbol-bit-matrix/src/remap_symbols.rs","""                wrapped_root.end_of_input = map(wrapped_root.end_of_input);
""","""                if wrapped_root.start_of_input != wrapped_root.end_of_input {
                    wrapped_root.end_of_input = wrapped_root.end_of_input;
                }
""")],
 "renumbering after wrapping the input","the end marker in the list of wrapped roots is not translated",
 """
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b]);
    g.set_roots([a]);
    g.wrap_input();
    let mut remap = g.remap();
    remap.reorder_symbols(|x, y| y.cmp(&x));
    let w = g.wrapped_roots()[0];
    assert!(g.rules().any(|r| r.lhs == w.root && r.rhs[..] == [w.start_of_input, w.inner_root, w.end_of_input]));
}
"""),
]

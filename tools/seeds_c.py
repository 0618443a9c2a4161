SEEDS += [
("b29-proper-wrapped","C28",[("cfg-classify/src/lib.rs","""        let mut usefulness = useful::Usefulness::new(self);
        let roots = self.roots();
        usefulness.reachable(roots);
        usefulness
    }
""","""        let mut usefulness = useful::Usefulness::new(self);
        // The wrapped roots stand for the roots they wrap.
        let mut roots = self.roots().to_vec();
        for wrapped in self.wrapped_roots() {
            roots.retain(|&root| root != wrapped.root);
            roots.push(wrapped.inner_root);
        }
        usefulness.reachable(roots);
        usefulness
    }
""")],
 "make_proper after wrap_input","the rules of the wrapped roots are removed as unreachable",
 """
use cfg_classify::CfgClassifyExt;
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b]);
    g.set_roots([a]);
    g.wrap_input();
    g.make_proper();
    assert_eq!(g.rules().count(), 2);
}
"""),
("b30-nullable-before-split","C02",[("cfg-grammar/src/cfg.rs","""        self.limit_rhs_len(Some(2));

        let mut result = Cfg::with_sym_source(self.sym_source.clone());

        // Grab the set of nullable symbols. We will eliminate them
        // on the RHS of every rule.
        let mut nullable = self.nulling_symbols();
        // If all symbols on the RHS are nullable, the LHS is also nullable,
        // hence we use `rhs_closure_for_all`.
        self.rhs_closure_for_all(&mut nullable);
""","""        // Grab the set of nullable symbols. We will eliminate them
        // on the RHS of every rule.
        let mut nullable = self.nulling_symbols();
        // If all symbols on the RHS are nullable, the LHS is also nullable,
        // hence we use `rhs_closure_for_all`.
        self.rhs_closure_for_all(&mut nullable);

        self.limit_rhs_len(Some(2));
        nullable.reserve(self.num_syms());

        let mut result = Cfg::with_sym_source(self.sym_source.clone());

""")],
 "a rule with at least three symbols, the last two of which are nullable","the fresh symbols made by splitting count as not nullable, so words are lost",
 """
fn main() {
    let mut g = Cfg::new();
    let [s, a, b, c, x] = g.sym();
    g.rule(s).rhs([a, b, c]);
    g.rule(a).rhs([x]).rhs([]);
    g.rule(b).rhs([x]).rhs([]);
    g.rule(c).rhs([x]).rhs([]);
    g.set_roots([s]);
    g.binarize_and_eliminate_nulling_rules();
    // is the word `x` derivable? closure of single symbols from s
    let mut set = vec![s];
    let mut i = 0;
    while i < set.len() {
        for r in g.rules() {
            if r.lhs == set[i] && r.rhs.len() == 1 && !set.contains(&r.rhs[0]) {
                set.push(r.rhs[0]);
            }
        }
        i += 1;
    }
    assert!(set.contains(&a) && set.contains(&b) && set.contains(&c) && set.contains(&x));
}
"""),
("b31-cycle-first-use","C04",[("cfg-classify/src/cyclical.rs","""                let mut rhs = new_rule.rhs.to_vec();
                for sym in &mut rhs {
                    if let Some(&Some(new_sym)) = translation.get(sym) {
                        *sym = new_sym;
                        changed = true;
                    }
                }
""","""                let mut rhs = new_rule.rhs.to_vec();
                let translated = rhs.iter().enumerate().find_map(|(i, sym)| {
                    translation.get(sym).copied().flatten().map(|new| (i, new))
                });
                if let Some((i, new_sym)) = translated {
                    rhs[i] = new_sym;
                    changed = true;
                }
""")],
 "a rule which uses symbols of a cycle twice","the second symbol of the cycle in a RHS is left without rules",
 """
use cfg_classify::cyclical::Cycles;
fn main() {
    let mut g = Cfg::new();
    let [s, a, b, x, y] = g.sym();
    g.rule(s).rhs([b, x, b]);
    g.rule(a).rhs([b]);
    g.rule(b).rhs([a]).rhs([y]);
    g.set_roots([s]);
    Cycles::new(&mut g).rewrite_cycles();
    let terminals = g.terminal_symbols();
    let r = g.rules().find(|r| r.lhs == s).unwrap();
    assert!(!terminals[r.rhs[0]] && !terminals[r.rhs[2]]);
}
"""),
("b32-first-left-recursion","C05",[("cfg-predict-sets/src/first.rs","""            for rule in grammar.rules() {
                let set_changed = self.process_rule(rule.lhs, &rule.rhs[..]);
""","""            for rule in grammar.rules() {
                // Left recursion begins with what the symbol itself begins with.
                let rhs = match rule.rhs.split_first() {
                    Some((&first, _)) if first == rule.lhs => &rule.rhs[..1],
                    _ => &rule.rhs[..],
                };
                let set_changed = self.process_rule(rule.lhs, rhs);
""")],
 "a left-recursive rule of a nullable symbol","the symbols after the left-recursive occurrence are missing from FIRST",
 """
use cfg_predict_sets::{CfgSetsExt, PredictSets};
fn main() {
    let mut g = Cfg::new();
    let [s, x] = g.sym();
    g.rule(s).rhs([]).rhs([s, x]);
    let first = g.first_sets();
    assert_eq!(first.predict_sets()[&s].list, vec![x]);
    assert!(first.predict_sets()[&s].has_none());
}
"""),
("b33-follow-end-kept","C06",[("cfg-predict-sets/src/follow.rs","""                        if !first_set.has_none {
                            follow_set.clear();
                        }
""","""                        if !first_set.has_none {
                            follow_set.list.clear();
                        }
""")],
 "a non-nullable nonterminal between another one and the end of input","end of input follows symbols it cannot follow",
 """
use cfg_predict_sets::{CfgSetsExt, PredictSets};
fn main() {
    let mut g = Cfg::new();
    let [s, a, b, x, y] = g.sym();
    g.rule(s).rhs([a, b]);
    g.rule(a).rhs([x]);
    g.rule(b).rhs([y]);
    g.set_roots([s]);
    let follow = g.follow_sets();
    assert!(!follow.predict_sets()[&a].has_none());
    assert!(follow.predict_sets()[&b].has_none());
}
"""),
("b34-ll-nullable","C07",[("cfg-classify/src/ll.rs","            if rhs_first_set.has_none() {\n","            if rule.rhs.iter().all(|&sym| nulling[sym]) {\n"),
 ("cfg-classify/src/ll.rs","        for (rule_idx, rule) in grammar.rules().enumerate() {\n            let rhs_first_set","        let nulling = grammar.nulling_symbols();\n        for (rule_idx, rule) in grammar.rules().enumerate() {\n            let rhs_first_set")],
 "a rule which derives the empty word only indirectly, in conflict with what follows","such a rule is not entered for the symbols of FOLLOW",
 """
use cfg_classify::ll::{LlNonterminalClass, LlParseTable};
fn main() {
    let mut g = Cfg::new();
    let [s, a, b, c, x] = g.sym();
    g.rule(s).rhs([a, x]);
    g.rule(a).rhs([b]).rhs([x]);
    g.rule(b).rhs([c]);
    g.rule(c).rhs([]);
    g.set_roots([s]);
    let t = LlParseTable::new(&g).classify();
    assert_eq!(t.classes()[&a], LlNonterminalClass::ContextFree);
}
"""),
("b35-distance-first-recursion","C09",[("cfg-classify/src/recursive.rs","""            let recursive_dot_pos = rule
                .rhs
                .iter()
                .enumerate()
                .filter(|&(_dot_pos, &rhs_sym)| self.derivation[(rhs_sym, rule.lhs)]);
            for (dot_pos, _rhs_sym) in recursive_dot_pos {
                dots.push((idx, dot_pos));
            }
""","""            let recursive_dot_pos = rule
                .rhs
                .iter()
                .position(|&rhs_sym| self.derivation[(rhs_sym, rule.lhs)]);
            dots.extend(recursive_dot_pos.map(|dot_pos| (idx, dot_pos)));
""")],
 "a rule with two recursive positions, the second of which is nearer to its end","the distance from the end of such a rule is too large",
 """
use cfg_classify::recursive::Recursion;
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    g.rule(a).rhs([a, x, a]).rhs([]);
    let r = Recursion::new(&g);
    let d: Vec<_> = r.minimal_distances().map(|r| r.distances).collect();
    assert_eq!(d, [Some((0, 0))]);
}
"""),
("b36-lr-dot","C11",[("cfg-classify/src/lr.rs","type Dot = u32;","type Dot = u8;")],
 "a rule with more than 255 symbols","the dot of an item cannot pass the 255th symbol (overflow)",
 """
use cfg_classify::lr::Lr0FsmBuilder;
fn main() {
    let mut g = Cfg::new();
    let [s, x] = g.sym();
    g.rule(s).rhs(vec![x; 300]);
    let fsm = Lr0FsmBuilder::new(&mut g).make_lr0_fsm(s);
    assert_eq!(fsm.len(), 301);
}
"""),
("b37-group-two","C13",[("cfg-grammar/src/precedenced_rule.rs","""            let rhs: Rc<[Symbol]> = rule
                .rhs
                .iter()
                .map(|&sym| if sym == self.lhs { loosest_lhs } else { sym })
                .collect();
            self.grammar.add_rule(CfgRule { rhs, ..rule });
""","""            let mut rhs = rule.rhs.to_vec();
            if let Some(sym) = rhs.iter_mut().find(|sym| **sym == self.lhs) {
                *sym = loosest_lhs;
            }
            let rhs: Rc<[Symbol]> = rhs.into();
            self.grammar.add_rule(CfgRule { rhs, ..rule });
""")],
 "a grouping alternative which mentions the LHS twice, called with further rules for the LHS","a second occurrence refers to the outer symbol, not to the loosest level",
 """
fn main() {
    let mut g = Cfg::new();
    let [e, l, r, m, n] = g.sym();
    g.precedenced_rule(e)
        .associativity(Associativity::Group)
        .rhs([l, e, m, e, r])
        .rhs([n])
        .finalize();
    let loosest = g.rules().find(|r| r.lhs == e).unwrap().rhs[0];
    let group = g.rules().find(|r| r.rhs.len() == 5).unwrap();
    assert_eq!(&group.rhs[..], &[l, loosest, m, loosest, r]);
}
"""),
("b38-translate-external","C14",[("cfg-symbol/src/intern.rs","""        // For mapping to external.
        let remapped = other
            .to_external
            .iter()
            .map(|middle| self.to_external[middle.usize()])
            .collect();
        self.to_external = remapped;
""","""        // For mapping to external: follow the mapping to internal backwards.
        let mut remapped = other.to_external.clone();
        for (external, internal) in self.to_internal.iter().enumerate() {
            if let Some(internal) = internal {
                if external < self.to_external.len() && internal.usize() < external {
                    remapped[internal.usize()] = self.to_external[external];
                }
            }
        }
        self.to_external = remapped;
""")],
 "two reorderings of the same grammar","the mapping to external symbols is wrong after the second reordering",
 """
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
fn main() {
    let mut g = Cfg::new();
    let [a, b, c, d] = g.sym();
    g.rule(a).rhs([b, c, d]);
    let mut remap = g.remap();
    remap.reorder_symbols(|x, y| y.cmp(&x));
    remap.reorder_symbols(|x, y| (x.usize() % 2).cmp(&(y.usize() % 2)));
    let m = remap.get_mapping();
    for i in 0..4 {
        let internal = m.to_internal[i].unwrap();
        assert_eq!(m.to_external[internal.usize()].usize(), i);
    }
}
"""),
("b39-truncate-trim","C15",[("cfg-symbol/src/source.rs","""        self.names.truncate(new_len);
""","""        self.names.truncate(new_len);
        // Symbols past the end of the list have no name.
        while let Some(None) = self.names.last() {
            self.names.pop();
        }
""")],
 "truncating to a length where the last symbol has no name, then adding a named symbol","the next name is given to an earlier symbol",
 """
fn main() {
    let mut s: SymbolSource = SymbolSource::new();
    let [_a, b, _c] = s.sym();
    s.truncate(2);
    let d = s.next_sym(Some("d".into()));
    assert_eq!(s.name_of(d), "d");
    assert_eq!(s.original_name_of(b), None);
}
"""),
("b40-last-forbidden","C16",[("cfg-generate/src/weighted/random.rs","""                    for state in back.iter_mut() {
                        if string.ends_with(state.forbidden) {
""","""                    if let Some(state) = back.last() {
                        if string.ends_with(state.forbidden) {
"""),("cfg-generate/src/weighted/random.rs","""                            restored = Some(state.serial);
                            break;
                        }
""","""                            restored = Some(state.serial);
                        }
""")],
 "two negative rules whose forbidden texts end at the same place","only the innermost negative rule is obeyed",
 """
use cfg_generate::weighted::random::{ByteSource, Limits, Random};
use cfg_generate::weighted::NegativeRule;
fn main() {
    let mut g = Cfg::new();
    let [s, n0, n1, x, a, b] = g.sym();
    g.rule(s).rhs([n0, n1, x]);
    g.rule(n0).rhs([]);
    g.rule(n1).rhs([]);
    g.rule(x).rhs([a]).rhs([b]);
    let negs = [NegativeRule { sym: n0, chars: "a" }, NegativeRule { sym: n1, chars: "c" }];
    for seed in 0..=255u8 {
        let mut rng = ByteSource::new((0..100u8).map(move |i| i.wrapping_mul(97).wrapping_add(seed)));
        let r = g.random(s, Some(Limits { terminals: 9, negative_rule_attempts: 50 }), &mut rng, &negs,
            |sym, _| if sym == a { Some('a') } else if sym == b { Some('b') } else { None });
        if let Ok((_, text)) = r {
            assert_eq!(text, vec!['b']);
        }
    }
}
"""),
("b41-equal-alternatives","C17",[("cfg-generate/src/weighted/weighted_rhs_by_lhs.rs","""        let weighted_rhs_list = self.weights.entry(lhs).or_default();
""","""        let weighted_rhs_list = self.weights.entry(lhs).or_default();
        // The same alternative is not listed twice in a row.
        if weighted_rhs_list.rhs_list.last().is_some_and(|last| last.rhs == rhs) {
            return;
        }
""")],
 "an alternative given twice","its second weight is ignored",
 """
use cfg_generate::weighted::random::ByteSource;
use cfg_generate::weighted::WeightedRhsByLhs;
fn main() {
    let mut g = Cfg::new();
    let [s, a, b] = g.sym();
    let mut w = WeightedRhsByLhs::<f64>::new();
    w.add_weight(1.0, s, &[a]);
    w.add_weight(2.0, s, &[a]);
    w.add_weight(1.0, s, &[b]);
    let mut na = 0;
    for byte in 0..=255u8 {
        if w.pick_rhs(s, &mut ByteSource::new(vec![byte].into_iter())) == &[a] {
            na += 1;
        }
    }
    assert!(na > 180, "{na}");
}
"""),
("b43-unproductive-root","C03",[("cfg-classify/src/useful.rs","""        for &sym in syms.as_ref() {
            for derived""","""        // Symbols without derivations lead nowhere.
        let productivity = &self.productivity;
        for &sym in syms.as_ref().iter().filter(|&&sym| productivity[sym]) {
            for derived""")],
 "an unproductive root","the symbols reached from it are taken for unreachable",
 """
use cfg_classify::useful::Usefulness;
fn main() {
    let mut g = Cfg::new();
    let [s, t, a, b] = g.sym();
    g.rule(s).rhs([a, t]);
    g.rule(t).rhs([t, a]);
    g.rule(a).rhs([b]);
    let mut u = Usefulness::new(&g);
    u.reachable([s]);
    assert!(u.all_reachable());
}
"""),
("b44-distance-passes","C08",[("cfg-predict-distance/src/lib.rs","""        let mut changed = true;
        while changed {
            // Keep going for as long as any completion distances were lowered in the last pass.
            changed = false;
""","""        let mut changed = true;
        let mut passes = 0;
        while changed && passes < 20 {
            // Keep going for as long as any completion distances were lowered in the last pass.
            changed = false;
            passes += 1;
""")],
 "a dot behind the ends of more than twenty rules, each of which comes before the one it ends","distances within the first of the rules are missing",
 """
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
fn main() {
    let mut g = Cfg::new();
    let v: Vec<Symbol> = (0..40).map(|_| g.next_sym(None)).collect();
    let [x] = g.sym();
    g.rule(v[39]).rhs([x, x]);
    for w in v.windows(2).rev() {
        g.rule(w[0]).rhs([x, w[1]]);
    }
    let [s] = g.sym();
    g.rule(s).rhs([v[0], x, x]);
    let mut m = MinimalDistance::new(&g);
    let d = m.minimal_distances(&[(40, 2)], DistanceDirection::Forward);
    for rule in &d[..40] {
        assert_eq!(rule[2], Some(1));
    }
}
"""),
("b45-closure-order","C10",[("cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs","""        self.transitive_closure();
        ReachabilityMatrix(self.into())
""","""        let (size, _) = self.size();
        let steps = size.clamp(1, 32);
        // Every pass at least doubles the length of the paths taken into account.
        for _ in 0..steps.ilog2() {
            let old = self.bit_matrix.clone();
            for from in 0..size {
                for mid in 0..size {
                    if old[(from, mid)] {
                        for to in 0..size {
                            if old[(mid, to)] {
                                self.bit_matrix.set(from, to, true);
                            }
                        }
                    }
                }
            }
        }
        ReachabilityMatrix(self.into())
""")],
 "chains of derivations of more than 32 steps","some indirect derivations are missing",
 """
use cfg_symbol_bit_matrix::CfgSymbolBitMatrixExt;
fn main() {
    let mut g = Cfg::new();
    let v: Vec<Symbol> = (0..40).map(|_| g.next_sym(None)).collect();
    for w in v.windows(2) {
        g.rule(w[0]).rhs([w[1], w[1]]);
    }
    let m = g.reachability_matrix();
    for i in 0..40 {
        for j in 0..40 {
            assert_eq!(m[(v[i], v[j])], i < j);
        }
    }
}
"""),
("b46-excluded-start","C12",[("cfg-sequence/src/builder.rs","""            to_option(range.start_bound().cloned(), 1).unwrap_or(0),
""","""            to_option(range.start_bound().cloned(), 0).unwrap_or(0),
""")],
 "a range whose start is excluded","one repetition too few is allowed",
 """
use cfg_sequence::CfgSequenceExt;
use std::ops::Bound;
fn main() {
    let mut g = Cfg::new();
    let [s, x] = g.sym();
    g.sequence(s).range((Bound::Excluded(0), Bound::Included(1))).rhs(x);
    assert!(g.rules().all(|r| !r.rhs.is_empty()));
}
"""),
("b47-rep-cache","C18",[("cfg-load/src/basic.rs","""                            Rep::ZeroOrMore => {
                                let [new_sym] = cfg.sym();
                                cfg.sequence(new_sym).inclusive(0, None).rhs(rhs_sym);
                                new_sym
                            }
                            Rep::OneOrMore => {
                                let [new_sym] = cfg.sym();
                                cfg.sequence(new_sym).range(1..).rhs(rhs_sym);
                                new_sym
                            }
""","""                            Rep::ZeroOrMore => *repeated.entry(id).or_insert_with(|| {
                                let [new_sym] = cfg.sym();
                                cfg.sequence(new_sym).inclusive(0, None).rhs(rhs_sym);
                                new_sym
                            }),
                            Rep::OneOrMore => *repeated.entry(id).or_insert_with(|| {
                                let [new_sym] = cfg.sym();
                                cfg.sequence(new_sym).range(1..).rhs(rhs_sym);
                                new_sym
                            }),
"""),("cfg-load/src/basic.rs","            let mut intern_empty = true;\n","            let mut intern_empty = true;\n            let mut repeated = HashMap::new();\n")],
 "a symbol repeated both with * and with + in one text","the second kind of repetition means what the first one does",
 """
use cfg_load::CfgLoadExt;
fn main() {
    let g = Cfg::load("S ::= A* B A+; A ::= x; B ::= y;").unwrap();
    let r = g.rules().find(|r| r.rhs.len() == 3).unwrap();
    assert_ne!(r.rhs[0], r.rhs[2]);
}
"""),
("b48-print-repeat","C19",[("cfg-load/src/basic.rs","""        let mut result = String::new();
        for rule in self.rules() {
            let mut rhs = String::new();
""","""        let mut result = String::new();
        let mut prev = None;
        for rule in self.rules() {
            if prev.replace(rule).is_some_and(|prev| prev.lhs == rule.lhs && prev.rhs == rule.rhs) {
                continue;
            }
            let mut rhs = String::new();
""")],
 "the same rule twice in a row","it is printed once",
 """
use cfg_load::CfgLoadExt;
fn main() {
    let mut g = Cfg::new();
    let [s, x] = g.sym();
    g.rule(s).rhs([x]).rhs([x]).rhs([]);
    assert_eq!(Cfg::load(&g.to_bnf()).unwrap().rules().count(), 3);
}
"""),
("b49-loose-operator","C20",[("cfg-load/src/basic.rs","                if self.chars.as_str().starts_with(\"::=\") {\n","                if self.chars.as_str().starts_with(\"::\") {\n")],
 "a text with `::` not followed by `=`","an invalid text is accepted",
 """
use cfg_load::CfgLoadExt;
fn main() {
    assert!(Cfg::load("S :: x;").is_err());
    assert!(Cfg::load("S ::: x;").is_err());
}
"""),
("b50-rules-after-lexer","C21",[("cfg-load/src/advanced.rs","""            (2, Value::Start(mut rules, lex), Value::Rules(rule), ..) => {
                rules.extend(rule);
                Value::Start(rules, lex)
            }
""","""            (2, Value::Start(rules, lex), Value::Rules(mut rule), ..) => {
                // After the lexer, only rules with new left-hand sides are added.
                rule.retain(|r| lex.is_none() || !rules.iter().any(|old: &Rule| old.lhs == r.lhs));
                let rules = [rules, rule].concat();
                Value::Start(rules, lex)
            }
""")],
 "a lexer block, then another rule for a left-hand side from before it","the later rule is lost",
 """
use cfg_load::CfgLoadAdvancedExt;
fn main() {
    let g = Cfg::load_advanced(r#"S ::= A; lexer { A ::= "a"; } S ::= A ~ A;"#).unwrap();
    let s = g.sym_map["S"];
    assert_eq!(g.cfg.rules().filter(|r| r.lhs == s).count(), 2);
}
"""),
("b51-large-max","C22",[("cfg-regexp-logic/src/lib.rs","""                self.cfg.sequence(lhs).inclusive(rep.min, rep.max).rhs(rhs);
""","""                // A large upper bound is as good as none.
                let max = rep.max.filter(|&max| max < 256);
                self.cfg.sequence(lhs).inclusive(rep.min, max).rhs(rhs);
""")],
 "a repetition with an upper bound of at least 256","longer texts match as well",
 """
use cfg_regexp_logic::CfgRegexpExt;
fn main() {
    let (g, _) = Cfg::from_regexp("a{0,300}").unwrap();
    // no symbol derives itself: the grammar is finite
    use cfg_classify::CfgClassifyExt;
    assert_eq!(g.recursion().recursive_rules().count(), 0);
}
"""),
("b52-shared-markers","C26",[("cfg-grammar/src/cfg.rs","""        for inner_root in roots {
            let [root, start_of_input, end_of_input] = self.sym_source.with_names([
                Some("root"),
                Some("start_of_input"),
                Some("end_of_input"),
            ]);
""","""        let [start_of_input, end_of_input] = self
            .sym_source
            .with_names([Some("start_of_input"), Some("end_of_input")]);
        for inner_root in roots {
            let [root] = self.sym_source.with_names([Some("root")]);
""")],
 "two roots, or none","the roots share their markers",
 """
fn main() {
    let mut g = Cfg::new();
    let [a, b, x] = g.sym();
    g.rule(a).rhs([x]);
    g.rule(b).rhs([x]);
    g.set_roots([a, b]);
    g.wrap_input();
    let w = g.wrapped_roots();
    assert_ne!(w[0].start_of_input, w[1].start_of_input);
    assert_ne!(w[0].end_of_input, w[1].end_of_input);
}
"""),
("b53-dedup-rhs","C27",[("cfg-grammar/src/cfg.rs","        self.rules.dedup_by_key(|rule| (rule.lhs, rule.rhs.clone()));","        self.rules.dedup_by(|a, b| a.rhs == b.rhs && (a.lhs == b.lhs || a.history == b.history));")],
 "neighbouring rules of different symbols with equal right-hand sides and equal histories","one of them is lost by dedup",
 """
fn main() {
    let mut g = Cfg::new();
    let [a, b, x] = g.sym();
    g.rule(a).rhs([x]);
    g.rule(b).rhs([x]);
    g.dedup();
    assert_eq!(g.rules().count(), 2);
}
"""),
("b54-productive-space","C24",[("cfg-grammar/src/symbol_bit_set.rs","""    pub fn productive(&mut self, grammar: &Cfg) {
        if self.space() == 0 {
""","""    pub fn productive(&mut self, grammar: &Cfg) {
        if self.space() != grammar.num_syms() {
""")],
 "a set with room for more symbols than the grammar has","the symbols it had are lost",
 """
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b]);
    let mut set = SymbolBitSet::new();
    set.reserve(64);
    set.set(b, true);
    set.productive(&g);
    assert!(set[a] && set[b]);
}
"""),
("b55-reuse-split","C28",[("cfg-grammar/src/cfg.rs","""                lhs = self.next_sym(None);
                rhs_rev.push(lhs);
""","""                // The same part may have been split off before.
                let same = self.rules.iter().find(|other| {
                    other.rhs[..] == tail[..] && other.lhs > rule.lhs && other.lhs.usize() + 1 == self.num_syms()
                });
                if let Some(other) = same {
                    rhs_rev.push(other.lhs);
                    tail.clear();
                    parts += 1;
                    continue;
                }
                lhs = self.next_sym(None);
                rhs_rev.push(lhs);
""")],
 "a rule to be split whose first symbols are the right-hand side of a rule of the newest symbol, which has another alternative","the split rule derives words it did not derive",
 """
fn main() {
    let mut g = Cfg::new();
    let [s, x, y, z, a] = g.sym();
    g.rule(a).rhs([x, y]);
    g.rule(a).rhs([]);
    g.rule(s).rhs([x, y, z]);
    g.limit_rhs_len(Some(2));
    assert!(g.rules().filter(|r| r.lhs == s).all(|r| !r.rhs.contains(&a)));
}
"""),
("b56-nulling-weight","C25",[("cfg-history/src/earley/mod.rs","""                nullable: Some((sym, BinarizedRhsRange::Right == subset)),
                ..self.clone()
""","""                origin: self.origin,
                dots: self.dots,
                nullable: Some((sym, BinarizedRhsRange::Right == subset)),
                ..History::default()
""")],
 "a rule with a weight and a nullable symbol, after elimination of nulling rules","the rule made without the nullable symbol has lost its weight",
 """
fn main() {
    let mut g = Cfg::new();
    let [s, n, x] = g.sym();
    g.rule(s).rhs_with_linked_history([n, x], cfg_history::LinkedHistoryNode::Weight { weight: 3.0 });
    g.rule(n).rhs([]).rhs([x]);
    g.set_roots([s]);
    g.binarize_and_eliminate_nulling_rules();
    assert_eq!(g.rules().filter(|r| r.lhs == s).count(), 2);
    assert!(g.rules().filter(|r| r.lhs == s).all(|r| r.history.weight == Some(3000)));
}
"""),
("b57-name-trimmed","C23",[("cfg-symbol/src/source.rs","""            self.out = Some(SymbolName { name: Rc::from(s) });
""","""            let name = s.trim_end_matches(char::is_control);
            self.out = Some(SymbolName { name: Rc::from(name) });
""")],
 "a name which ends with a control character","the name comes back shorter",
 """
fn main() {
    let n: cfg_symbol::SymbolName = "a\\n".into();
    let t = miniserde::json::to_string(&n);
    let m: cfg_symbol::SymbolName = miniserde::json::from_str(&t).unwrap();
    assert_eq!(&m[..], "a\\n");
}
"""),
]

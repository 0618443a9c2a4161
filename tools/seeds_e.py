SEEDS += [
("b68-first-saturated","C05",[("cfg-predict-sets/src/first.rs","""            for rule in grammar.rules() {
                let set_changed""","""            let num_terminals = self.terminal_set.iter().count();
            for rule in grammar.rules() {
                // Nothing can be added to a full set.
                let is_full = self
                    .map
                    .get(&rule.lhs)
                    .is_some_and(|set| set.list.len() == num_terminals);
                if is_full && !rule.rhs.is_empty() {
                    continue;
                }
                let set_changed""")],
 "a nonterminal whose FIRST set has all terminals before it is found to be nullable through other nonterminals","it is not reported nullable",
 r'''
use cfg_predict_sets::{CfgSetsExt, PredictSets};
fn main() {
    let mut g = Cfg::new();
    let [a, b, x] = g.sym();
    g.rule(a).rhs([x]).rhs([b]);
    g.rule(b).rhs([]);
    let f = g.first_sets();
    assert!(f.predict_sets()[&a].has_none());
}
'''),
("b69-ll-same-rhs","C07",[("cfg-classify/src/ll.rs","""                let entry = this.map.entry(key).or_default();
                entry.push(rule_idx);
            }
            if rhs""","""                let entry = this.map.entry(key).or_default();
                // The same alternative is no conflict.
                let rules: Vec<_> = grammar.rules().collect();
                if !entry.iter().any(|&other| rules[other].rhs == rule.rhs) {
                    entry.push(rule_idx);
                }
            }
            if rhs""")],
 "the same rule twice","the ambiguous nonterminal is classified LL(1)",
 r'''
use cfg_classify::CfgClassifyExt;
use cfg_classify::ll::LlNonterminalClass;
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    g.rule(a).rhs([x]).rhs([x]);
    let c = g.ll_parse_table().classify();
    assert_eq!(c.classes()[&a], LlNonterminalClass::ContextFree);
}
'''),
("b70-sequence-key","C12",[("cfg-sequence/src/rewrite.rs","""    rhs: Symbol,
    start: u32,
    end: Option<u32>,
    separator: Separator,
}

impl<'a> Seq""","""    rhs: Symbol,
    start: u16,
    end: Option<u16>,
    separator: Separator,
}

impl<'a> Seq"""),("cfg-sequence/src/rewrite.rs","""            start: value.start,
            end: value.end,
            separator""","""            start: value.start as u16,
            end: value.end.map(|end| end as u16),
            separator""")],
 "a number of repetitions from 196608 on which is made of two powers of two of at least 65536","another number of repetitions is derived",
 r'''
use cfg_sequence::CfgSequenceExt;
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    g.sequence(a).inclusive(196608, Some(196608)).rhs(x);
    let mut v: Vec<Option<u32>> = vec![None; g.num_syms()];
    v[x.usize()] = Some(1);
    g.rhs_closure_with_values(&mut v);
    assert_eq!(v[a.usize()], Some(196608));
}
'''),
("b71-column-bytes","C20",[("cfg-load/src/advanced.rs","""            Some(_) => {
                self.col_no += 1;
            }
            None => {}""","""            Some(ch) => {
                self.col_no += ch.len_utf8();
            }
            None => {}""")],
 "an error behind a string with a character outside ASCII on the same line","the column counts bytes",
 r'''
use cfg_load::CfgLoadAdvancedExt;
fn main() {
    let e = Cfg::load_advanced("S ::= \"\u{e9}\" ::= a;").err().unwrap();
    assert_eq!((e.line, e.col), (1, 11));
}
'''),
("b72-closure-stack","C10",[("cfg-grammar/src/cfg.rs","""        while let Some(work_sym) = tmp_stack.pop() {
            for &rule_id in occurence_map.get(work_sym).rhs() {
                let rule = &self.rules[rule_id];
""","""        while let Some(work_sym) = tmp_stack.pop() {
            if property.all() {
                // Nothing to add.
                return;
            }
            for &rule_id in occurence_map.get(work_sym).rhs() {
                let rule = &self.rules[rule_id];
"""),("cfg-grammar/src/cfg.rs","""                    RhsPropertyMode::Any => rhs_iter.any(get_property),
""","""                    // The rule has the symbol we are at.
                    RhsPropertyMode::Any => true,
""")],
 "a closure which comes to include all symbols, then one of another set on the same grammar","symbols are left from the first closure",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [a, b, x, y, z] = g.sym();
    g.rule(a).rhs([x]);
    g.rule(b).rhs([y, z]);
    let mut s = SymbolBitSet::from_elem(&g, true);
    g.rhs_closure_for_any(&mut s);
    let mut s = SymbolBitSet::from_elem(&g, false);
    s.set(x, true);
    g.rhs_closure_for_any(&mut s);
    assert_eq!(s.iter().collect::<Vec<_>>(), [a, x]);
}
'''),
("b73-marker-by-name","C26",[("cfg-grammar/src/cfg.rs","""            let [root, start_of_input, end_of_input] = self.sym_source.with_names([
                Some("root"),
                Some("start_of_input"),
                Some("end_of_input"),
            ]);
""","""            let [root, start_of_input] = self
                .sym_source
                .with_names([Some("root"), Some("start_of_input")]);
            // The marker may have been made already.
            let name = "end_of_input";
            let end_of_input = match self.sym_source.name_map().get(name) {
                Some(&marker) if self.wrapped_roots.is_empty() => marker,
                _ => self.sym_source.next_sym(Some(name.into())),
            };
""")],
 "a grammar which has a symbol named end_of_input, or is wrapped a second time","the end marker is not fresh",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [s] = g.sym();
    let e = g.next_sym(Some("end_of_input".into()));
    g.rule(s).rhs([e]);
    g.set_roots([s]);
    g.wrap_input();
    assert_ne!(g.wrapped_roots()[0].end_of_input, e);
}
'''),
("b75-reverse-history","C25",[("cfg-grammar/src/cfg.rs","""            let history;
            if parts == 0 && rhs_rev.is_empty() || self.rule_rhs_len_allowed_range().end != 2 {
                history = rule.history;
""","""            let history;
            if parts == 0 && rhs_rev.is_empty() {
                history = rule.history;
            } else if self.rule_rhs_len_allowed_range().end != 2 {
                // Helper rules are not weighted.
                history = History {
                    weight: rule.history.weight.filter(|_| rhs_rev.is_empty()),
                    ..rule.history
                };
""")],
 "a weighted rule split under a limit above 2","its helper rules lose the weight",
 r'''
fn main() {
    let mut g = Cfg::new();
    let [a, x] = g.sym();
    let h: cfg_history::earley::History = cfg_history::RootHistoryNode::NoOp.into();
    g.limit_rhs_len(Some(3));
    g.rule(a).rhs_with_history([x, x, x, x, x], cfg_history::earley::History { weight: Some(7), ..h });
    assert!(g.rules().all(|r| r.history.weight == Some(7)));
}
'''),
("b76-sort-stable-len","C27",[("cfg-grammar/src/cfg.rs","""        self.rules.sort_by_key(|rule| (rule.lhs, rule.rhs.clone()));
""","""        // Compare the packed beginnings first, which is faster.
        let prefix = |rule: &CfgRule| {
            let mut syms = rule.rhs.iter().map(|sym| sym.usize() as u16 as u64 + 1);
            (0..4).fold(0u64, |acc, _| acc << 16 | syms.next().unwrap_or(0))
        };
        self.rules
            .sort_by(|a, b| (a.lhs, prefix(a), &a.rhs).cmp(&(b.lhs, prefix(b), &b.rhs)));
""")],
 "symbols from 65536 on","rules are not sorted",
 r'''
fn main() {
    let mut g = Cfg::new();
    let syms: Vec<Symbol> = (0..65537).map(|_| g.next_sym(None)).collect();
    g.rule(syms[0]).rhs([syms[65536]]).rhs([syms[1]]);
    g.sort();
    assert_eq!(g.rules().next().unwrap().rhs[0], syms[1]);
}
'''),
("b77-negative-cached","C16",[("cfg-generate/src/weighted/random.rs","""                let mut restored = None;
                if let Some(back) = backtracking.get_mut(&string.len()) {
""","""                let mut restored = None;
                // Texts that were finished are not looked at again.
                if string.len() > longest {
                    backtracking = backtracking.split_off(&longest);
                    longest = string.len();
                }
                if let Some(back) = backtracking.get_mut(&string.len()) {
"""),("cfg-generate/src/weighted/random.rs","""        let mut next_serial = 0;
""","""        let mut next_serial = 0;
        let mut longest = 0;
""")],
 "a negative rule, then one which forbids a longer text that ends at least two terminals further, and fails","the text which the first one forbids is generated afterwards",
 r'''
use cfg_generate::weighted::random::{ByteSource, Limits, NegativeRule, Random};
fn main() {
    let mut g = Cfg::new();
    let [s, n, m, u, a, b] = g.sym();
    g.rule(s).rhs([m, u, n, u, u, u]);
    g.rule(u).rhs([a]).rhs([b]);
    g.rule(n).rhs([]);
    g.rule(m).rhs([]);
    let chars = |sym: Symbol, _: &mut _| Some(if sym == a { 'a' } else { 'b' });
    let neg = [NegativeRule { sym: m, chars: "ab" }, NegativeRule { sym: n, chars: "aaa" }];
    let mut x = 12345u32;
    for _ in 0..2000 {
        let bytes: Vec<u8> = (0..64).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
        let mut rng = ByteSource::new(bytes.into_iter());
        let limit = Limits { terminals: 100, negative_rule_attempts: 1000 };
        if let Ok((_, w)) = g.random(s, Some(limit), &mut rng, &neg, chars) {
            let w: String = w.into_iter().collect();
            assert!(!w.starts_with("ab") && !w[1..].starts_with("aaa"), "{w}");
        }
    }
}
'''),
]

SEEDS += [
("b15-truncate-next","C15",[("cfg-symbol/src/source.rs","""        self.names.truncate(new_len);
""","""        if new_len < self.num_syms() {
            self.names.retain(|name| name.is_some());
            self.names.resize(new_len, None);
        }
""")],
 "truncation of a source with named symbols after unnamed ones","names move to other symbols",
 """
fn main() {
    let mut s: SymbolSource = SymbolSource::new();
    let _a = s.next_sym(None);
    let b = s.next_sym(Some("b".into()));
    let _c = s.next_sym(None);
    s.truncate(2);
    assert_eq!(s.name_of(b), "b");
}
"""),
("b16-limit-by-text","C16",[("cfg-generate/src/weighted/random.rs","if result.len() as u64 > our_limits.terminals {","if string.len() as u64 > our_limits.terminals {")],
 "terminals which spell no character","the limit on terminals does not count terminals without a character",
 """
use cfg_generate::weighted::random::{Limits, Random, ByteSource};
fn main() {
    let mut g = Cfg::new();
    let [s, t] = g.sym();
    g.rule(s).rhs([t, t, t]);
    let mut rng = ByteSource::new(vec![1u8, 2, 3].into_iter());
    let r = g.random(s, Some(Limits { terminals: 2, negative_rule_attempts: 0 }), &mut rng, &[], |_, _| None);
    assert!(r.is_err());
}
"""),
("b17-backtrack-result","C16",[("cfg-generate/src/weighted/random.rs","result.truncate(state.result_len);","result.truncate(string.len());")],
 "a negative rule that fails after a terminal without a character","the terminals before the negative rule are lost when it backtracks",
 """
use cfg_generate::weighted::random::{Limits, Random};
use cfg_generate::weighted::NegativeRule;
#[derive(Clone)]
struct Counter(u64);
impl cfg_generate::weighted::random::GenRange for Counter {
    fn generate(&mut self, limit: f64) -> f64 {
        self.0 += 1;
        if self.0 % 2 == 1 { 0.0 } else { limit * 0.9 }
    }
    fn mutate_start(&mut self, _: u64) {
        self.0 += 1;
    }
}
fn main() {
    let mut g = Cfg::new();
    let [s, quiet, neg, x, a, b] = g.sym();
    g.rule(s).rhs([quiet, neg, x]);
    g.rule(neg).rhs([]);
    g.rule(x).rhs([a]).rhs([b]);
    let negs = [NegativeRule { sym: neg, chars: "a" }];
    let mut rng = Counter(0);
    let r = g.random(s, Some(Limits { terminals: 10, negative_rule_attempts: 50 }), &mut rng, &negs,
        |sym, _| if sym == a { Some('a') } else if sym == b { Some('b') } else { None });
    let (syms, text) = r.unwrap();
    assert_eq!(syms, vec![quiet, b]);
    assert_eq!(text, vec!['b']);
}
"""),
("b18-weight-split","C17",[("cfg-history/src/earley/mod.rs","""        History {
            origin,
            dots,
            ..self.clone()
        }""","""        History {
            origin,
            dots,
            nullable: self.nullable,
            sequence: self.sequence,
            ..History::default()
        }""")],
 "a weighted rule which is split under a limit of 2","a rule loses its weight when it is split",
 """
use cfg_history::HistoryNodeWeight;
fn main() {
    let mut g = Cfg::new();
    let [s, t] = g.sym();
    let h: History = HistoryNodeWeight { prev: RootHistoryNode::NoOp.into(), weight: 3.0 }.into();
    g.rule(s).history(h).rhs([t, t, t]);
    g.limit_rhs_len(Some(2));
    assert!(g.rules().any(|r| r.lhs == s && r.history.weight == Some(3000)));
}
"""),
("b19-rep-shared","C18",[("cfg-load/src/basic.rs","""            let mut intern_empty = true;
""","""            let mut intern_empty = true;
            let mut reps: HashMap<usize, cfg_symbol::Symbol> = HashMap::new();
"""),("cfg-load/src/basic.rs","""                            Rep::OneOrMore => {
                                let [new_sym] = cfg.sym();
                                cfg.sequence(new_sym).range(1..).rhs(rhs_sym);
                                new_sym
                            }""","""                            Rep::OneOrMore => *reps.entry(id).or_insert_with(|| {
                                let [new_sym] = cfg.sym();
                                cfg.sequence(new_sym).range(1..).rhs(rhs_sym);
                                new_sym
                            }),"""),("cfg-load/src/basic.rs","""                                let [new_sym] = cfg.sym();
                                cfg.sequence(new_sym).inclusive(0, None).rhs(rhs_sym);
                                new_sym""","""                                let [new_sym] = cfg.sym();
                                cfg.sequence(new_sym).inclusive(0, None).rhs(rhs_sym);
                                reps.insert(id, new_sym);
                                new_sym""")],
 "the same name with * and later with + in one text","x+ derives the empty string where x* came before it",
 """
use cfg_load::CfgLoadExt;
fn main() {
    let g = Cfg::load("s ::= x* y x+;").unwrap();
    let root = g.roots()[0];
    let r = g.rules().find(|r| r.lhs == root).unwrap().clone();
    assert_ne!(r.rhs[0], r.rhs[2]);
}
"""),
("b20-col-tab","C20",[("cfg-load/src/advanced.rs","""            Some('\\n') => {
                self.line_no += 1;
                self.col_no = 1;
            }""","""            Some('\\n') => {
                if self.col_no != 1 || !self.chars.as_str().starts_with('\\n') {
                    self.line_no += 1;
                }
                self.col_no = 1;
            }""")],
 "an error after two blank lines in a row","the line of an error is wrong after blank lines",
 """
use cfg_load::CfgLoadAdvancedExt;
fn main() {
    let err = match Cfg::load_advanced("a ::= b;\\n\\n\\n\\n;") { Ok(_) => panic!(), Err(e) => e };
    assert_eq!((err.line, err.col), (5, 1));
}
"""),
("b21-lex-string-escape","C21",[("cfg-load/src/advanced.rs","""                            let child: Vec<_> = string
                                .chars()""","""                            let child: Vec<_> = string
                                .bytes()
                                .map(|byte| byte as char)""")],
 "a string with a character outside ASCII","the symbol of a string derives its bytes instead of its characters",
 """
use cfg_load::CfgLoadAdvancedExt;
fn main() {
    let mut r = Cfg::load_advanced("a ::= \\"\\u{e9}\\";").unwrap();
    r.lexer_map.compute();
    let lex = r.sym_map["__lex0"];
    let rule = r.cfg.rules().find(|r| r.lhs == lex).unwrap();
    assert_eq!(rule.rhs.len(), 1);
    assert_eq!(r.lexer_map.get('\\u{e9}'), &rule.rhs[..]);
}
"""),
("b22-latin1","C22",[("cfg-regexp-logic/src/lib.rs","""        if ch.is_ascii() {
            &self.ascii""","""        if (ch as usize) < self.ascii.len() {
            &self.ascii""")],
 "a class of characters between U+0080 and U+00FF","the character map misses Latin-1 characters",
 """
use cfg_regexp_logic::CfgRegexpExt;
fn main() {
    let (_g, mut m) = Cfg::from_regexp("[\\u{e0}-\\u{ff}]").unwrap();
    m.compute();
    assert_eq!(m.get('\\u{e9}').len(), 1);
}
"""),
("b23-miniserde-wrap","C23",[("cfg-symbol/src/symbol.rs","""            if n < T::MAX as u64 {""","""            if n as u32 as u64 <= T::MAX as u64 {""")],
 "a number of 2^32 or more","a number which is no symbol is read as some other symbol",
 """
fn main() {
    let r: Result<Symbol, _> = miniserde::json::from_str("4294967301");
    assert!(r.is_err());
}
"""),
("b24-subtract-empty","C24",[("cfg-grammar/src/symbol_bit_set.rs","""        if self.space() == 0 {
            self.set_all(grammar.sym_source());
        }""","""        if self.bit_vec.none() {
            self.set_all(grammar.sym_source());
        }""")],
 "subtraction from a set that has space but no symbol in it","subtracting from an empty set fills it",
 """
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b]);
    let mut s = SymbolBitSet::from_elem(&g, false);
    s.subtract_productive(&g);
    assert!(!s[b]);
}
"""),
("b25-history-sticks","C25",[("cfg-grammar/src/precedenced_rule.rs","""            .history
            .take()
            .unwrap_or_else""","""            .history
            .unwrap_or_else"""),("cfg-grammar/src/precedenced_rule.rs","""    pub fn rhs<S>(mut self, syms: S) -> Self""","""    pub fn rhs<S>(self, syms: S) -> Self"""),("cfg-grammar/src/precedenced_rule.rs","""        self.assoc = DEFAULT_ASSOC;
        self.history = None;
""","""        if self.assoc != Group {
            self.history = None;
        }
        self.assoc = DEFAULT_ASSOC;
""")],
 "an alternative after a grouping one with a history of its own","a history given for a grouping alternative applies to the following one as well",
 """
fn main() {
    let mut g = Cfg::new();
    let [a, b, c] = g.sym();
    let _ = g
        .precedenced_rule(a)
        .associativity(Associativity::Group)
        .history(RootHistoryNode::Origin { origin: 7 }.into())
        .rhs([b])
        .rhs([c])
        .finalize();
    let o: Vec<u32> = g.rules().filter(|r| r.rhs[0] == c).map(|r| r.history.origin().id).collect();
    assert_eq!(o, vec![0]);
}
"""),
("b26-wrap-twice","C26",[("cfg-grammar/src/cfg.rs","""        self.wrapped_roots.clear();
        let roots_len""","""        let roots_len""")],
 "wrapping the input twice","the list of wrapped roots keeps those of the first wrapping",
 """
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b]);
    g.set_roots([a]);
    g.wrap_input();
    g.wrap_input();
    assert_eq!(g.wrapped_roots().len(), 1);
}
"""),
("b27-column-zero","C27",[("cfg-grammar/src/cfg.rs","""rule.rhs.get(col.wrapping_sub(1)).copied()""","""rule.rhs.get(col.saturating_sub(1)).copied()""")],
 "column 0","column 0 shows a symbol before the dot",
 """
fn main() {
    let mut g = Cfg::new();
    let [a, b] = g.sym();
    g.rule(a).rhs([b]);
    assert!(g.column(0).all(|d| d.predot.is_none()));
}
"""),
("b28-bnf-gensym","C19",[("cfg-load/src/basic.rs","""                write!(rhs, "{} ", self.sym_source().name_of(sym)).unwrap();""","""                let name = match self.sym_source().original_name_of(sym) {
                    Some(name) => name.to_string(),
                    None => format!("g{}", sym.usize() % 100),
                };
                write!(rhs, "{} ", name).unwrap();""")],
 "an unnamed symbol with a number of 100 or more","two unnamed symbols are printed under one name",
 """
use cfg_load::CfgLoadExt;
fn main() {
    let mut g = Cfg::new();
    let syms: [Symbol; 103] = g.sym();
    g.rule(syms[0]).rhs([syms[1], syms[101]]);
    let text = g.to_bnf();
    let h = Cfg::load(&text).unwrap();
    let r = h.rules().next().unwrap();
    assert_ne!(r.rhs[0], r.rhs[1]);
}
"""),
]

//! C21: rich grammar texts are loaded faithfully.
use crate::engine::*;
use crate::ensure;
use crate::refg::*;
use crate::text::*;
use cfg_grammar::Cfg;
use cfg_load::CfgLoadAdvancedExt;
use cfg_load::advanced::LexerMap;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub static PROP: Prop = Prop {
    id: "C21",
    rule: "the text has a lexer block and a string or regular expression",
    run,
    quick: 250_000,
    thorough: 2_700_000,
    probes: &[],
};

#[derive(Clone, Debug)]
pub enum Block {
    Rule(Decl),
    Lexer(Vec<Decl>),
}

pub fn string(src: &mut Src) -> String {
    let mut k = src.weighted(&[20, 120, 80, 40, 20, 1]);
    if k == 5 {
        k = src.range(5, 300);
    }
    (0..k).map(|_| if src.chance(3, 4) { *src.pick(&CHARS[..8]) } else { *src.pick(CHARS) }).collect()
}

pub struct Regexps(pub HashMap<String, Re>);

fn decl(src: &mut Src, lhs: &[String], names: &[String], res: &mut Regexps, lexical: bool) -> Decl {
    let lhs = src.pick(lhs).clone();
    let action = |src: &mut Src| src.chance(1, 4).then(|| src.pick(names).clone());
    if src.chance(1, 10) {
        let action = action(src);
        return Decl { lhs, alts: vec![Alt { frags: vec![], action }] };
    }
    let n = src.weighted(&[5, 3, 1]) + 1;
    let alts = (0..n)
        .map(|_| {
            let m = src.range(1, 4);
            let frags = (0..m)
                .map(|_| match src.weighted(&[if lexical { 3 } else { 8 }, 1, 1, 4, if lexical { 4 } else { 1 }]) {
                    0 => Frag::Id(src.pick(names).clone(), Rep::One),
                    1 => Frag::Id(src.pick(names).clone(), Rep::Star),
                    2 => Frag::Id(src.pick(names).clone(), Rep::Plus),
                    3 => Frag::Str(string(src)),
                    _ => {
                        let d = src.usize(3);
                        let re = regex(src, d);
                        let p = pattern(&re, &mut 0, 0);
                        res.0.insert(p.clone(), re);
                        Frag::Call("Regexp".into(), p)
                    }
                })
                .collect();
            Alt { frags, action: action(src) }
        })
        .collect();
    Decl { lhs, alts }
}

pub fn blocks(src: &mut Src, res: &mut Regexps) -> Vec<Block> {
    let huge = src.chance(1, 1500);
    let k = if huge { src.range(20, 300) } else { src.range(2, 8) };
    let all = names(src, k);
    let cut = src.range(1, k - 1);
    let (pn, ln) = all.split_at(cut);
    let n = if huge { src.range(20, 150) } else { src.range(1, 5) };
    (0..n)
        .map(|_| {
            if src.chance(1, 3) {
                let m = src.range(1, 3);
                Block::Lexer((0..m).map(|_| decl(src, ln, &all, res, true)).collect())
            } else {
                Block::Rule(decl(src, pn, &all, res, false))
            }
        })
        .collect()
}

pub fn block_tokens(bs: &[Block]) -> Vec<Tok> {
    let mut toks = vec![];
    for b in bs {
        match b {
            Block::Rule(d) => decl_tokens(d, true, &mut toks),
            Block::Lexer(ds) => {
                toks.extend([Tok::Lexer, Tok::LBrace]);
                for d in ds {
                    decl_tokens(d, true, &mut toks);
                }
                toks.push(Tok::RBrace);
            }
        }
    }
    toks
}

/// Recognizer for words of characters: a class symbol derives its characters.
pub struct CharGrammar {
    n: usize,
    rules: Vec<(S, Vec<S>)>,
    chars: BTreeMap<char, S>,
}

impl CharGrammar {
    pub fn new(g: &RG, map: &LexerMap, alphabet: impl IntoIterator<Item = char>) -> Result<Self, String> {
        let mut rules = g.rules.clone();
        let mut n = g.n;
        let mut chars = BTreeMap::new();
        for c in alphabet.into_iter().collect::<BTreeSet<_>>() {
            let t = n;
            n += 1;
            chars.insert(c, t);
            let got = map.get(c);
            let set: HashSet<S> = got.iter().map(|s| s.usize()).collect();
            ensure!(set.len() == got.len(), "the symbols of {c:?} repeat: {got:?}");
            for s in set {
                ensure!(s < g.n, "{c:?} maps to symbol {s}, which does not exist");
                ensure!(g.rules.iter().all(|r| r.0 != s), "{c:?} maps to symbol {s}, which has rules");
                rules.push((s, vec![t]));
            }
        }
        Ok(CharGrammar { n, rules, chars })
    }
    pub fn recognize(&self, root: S, w: &[char]) -> bool {
        let mut term = vec![false; self.n];
        for t in self.chars.values() {
            term[*t] = true;
        }
        let w: Vec<S> = w.iter().map(|c| self.chars[c]).collect();
        recognize(self.n, &self.rules, &term, root, &w)
    }
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let mut res = Regexps(HashMap::new());
    let bs = blocks(src, &mut res);
    let toks = block_tokens(&bs);
    let (text, _) = render(src, &toks);
    case.input = text.clone();
    // parser rules come first, then lexer rules, each in the order of the text
    let mut rules: Vec<(&Decl, &Alt, bool)> = vec![];
    for b in &bs {
        if let Block::Rule(d) = b {
            rules.extend(d.alts.iter().map(|a| (d, a, false)));
        }
    }
    for b in &bs {
        if let Block::Lexer(ds) = b {
            rules.extend(ds.iter().flat_map(|d| d.alts.iter().map(move |a| (d, a, true))));
        }
    }
    let lexers = bs.iter().filter(|b| matches!(b, Block::Lexer(_))).count();
    case.class_if(lexers > 1, "several lexer blocks");
    case.class_if(matches!(bs[0], Block::Lexer(_)), "lexer block first");
    let strings = toks.iter().any(|t| matches!(t, Tok::Str(_)));
    case.class_if(!res.0.is_empty(), "regular expression");
    case.nontrivial = lexers > 0 && strings;
    let mut loaded = Cfg::load_advanced(&text).map_err(|e| format!("a valid text is rejected: {e}"))?;
    loaded.lexer_map.compute();
    let cfg = &loaded.cfg;
    let g = from_cfg(cfg);
    ensure!(g.n == cfg.num_syms(), "rules use symbols the source never produced");
    let ss = cfg.sym_source();
    let named = |s: S| ss.original_name_of(sy(s)).is_some();
    // names
    let mut by_name: BTreeMap<String, S> = BTreeMap::new();
    for s in 0..cfg.num_syms() {
        if let Some(n) = ss.original_name_of(sy(s)) {
            ensure!(by_name.insert(n.to_string(), s).is_none(), "two symbols are called {n}");
        }
    }
    let sym_map: BTreeMap<String, S> = loaded.sym_map.iter().map(|(k, v)| (k.clone(), v.usize())).collect();
    ensure!(sym_map == by_name, "sym_map {sym_map:?}, named symbols {by_name:?}");
    // numbers of strings: distinct ones, in rule order
    let mut strs: Vec<&String> = vec![];
    let mut expected: BTreeSet<String> = BTreeSet::new();
    for (d, a, _) in &rules {
        expected.insert(d.lhs.clone());
        for f in &a.frags {
            match f {
                Frag::Id(s, _) => {
                    expected.insert(s.clone());
                }
                Frag::Str(s) if !strs.contains(&s) => strs.push(s),
                _ => {}
            }
        }
    }
    for i in 0..strs.len() {
        expected.insert(format!("__lex{i}"));
    }
    let have: BTreeSet<String> = by_name.keys().cloned().collect();
    ensure!(have == expected, "symbol names {have:?}, expected {expected:?}");
    let lex_syms: HashMap<&String, S> = strs.iter().enumerate().map(|(i, s)| (*s, by_name[&format!("__lex{i}")])).collect();
    // strings spell their characters
    let mut around: BTreeSet<char> = CHARS.iter().copied().collect();
    for s in &strs {
        for c in s.chars() {
            around.insert(c);
            around.extend(char::from_u32(c as u32 + 1));
            around.extend((c as u32).checked_sub(1).and_then(char::from_u32));
        }
    }
    for s in &strs {
        let l = lex_syms[s];
        let mut any = false;
        for r in g.rules.iter().filter(|r| r.0 == l) {
            any = true;
            let cs: Vec<char> = s.chars().collect();
            ensure!(r.1.len() == cs.len(), "string {s:?} has the rule {r:?}");
            for (x, c) in r.1.iter().zip(cs) {
                for d in &around {
                    let is = loaded.lexer_map.get(*d).contains(&sy(*x));
                    ensure!(
                        is == (*d == c),
                        "character {c:?} of string {s:?} is symbol {x}; {d:?} maps to {:?}",
                        loaded.lexer_map.get(*d)
                    );
                }
            }
        }
        ensure!(any, "string {s:?} has no rule");
    }
    // rules
    let lex_set: HashSet<S> = lex_syms.values().copied().collect();
    let own: Vec<_> = cfg.rules().filter(|r| named(r.lhs.usize()) && !lex_set.contains(&r.lhs.usize())).collect();
    ensure!(own.len() == rules.len(), "{} rules for {} alternatives", own.len(), rules.len());
    let mut checked: HashSet<(S, String)> = HashSet::new();
    for (i, (r, (d, a, _))) in own.iter().zip(&rules).enumerate() {
        ensure!(r.lhs.usize() == by_name[&d.lhs], "rule {i}: LHS is {}", ss.name_of(r.lhs));
        ensure!(r.history.origin().id as usize == i + 1, "rule {i} has origin {:?}", r.history.origin());
        ensure!(r.rhs.len() == a.frags.len(), "rule {i} has {} symbols, expected {}", r.rhs.len(), a.frags.len());
        for (x, f) in r.rhs.iter().zip(&a.frags) {
            let x = x.usize();
            match f {
                Frag::Id(n, Rep::One) => ensure!(x == by_name[n], "rule {i}: symbol {x} in place of {n}"),
                Frag::Id(n, Rep::Star) => super::c18::check_repetition(&g, &named, x, by_name[n], 0)?,
                Frag::Id(n, Rep::Plus) => super::c18::check_repetition(&g, &named, x, by_name[n], 1)?,
                Frag::Str(s) => ensure!(x == lex_syms[s], "rule {i}: symbol {x} in place of {s:?}"),
                Frag::Call(_, p) => {
                    ensure!(!named(x), "rule {i}: a regular expression is symbol {}", ss.name_of(sy(x)));
                    if !checked.insert((x, p.clone())) {
                        continue;
                    }
                    let Some(m) = Matcher::new(p) else { continue };
                    let re = &res.0[p];
                    let ws = words(src, re, 5);
                    let cg = CharGrammar::new(&g, &loaded.lexer_map, ws.iter().flatten().copied())?;
                    for w in &ws {
                        let (got, want) = (cg.recognize(x, w), m.matches(w));
                        ensure!(got == want, "rule {i}, Regexp({p:?}), word {w:?}: derived {got}, matched {want}");
                        case.count("words matched", want as u64);
                    }
                }
                Frag::Unit => unreachable!(),
            }
        }
    }
    // actions
    let actions: BTreeMap<usize, Option<String>> = rules.iter().enumerate().map(|(i, r)| (i + 1, r.1.action.clone())).collect();
    ensure!(loaded.actions == actions, "actions {:?}, expected {actions:?}", loaded.actions);
    // lexemes
    let mut lexemes: BTreeSet<S> = lex_set.iter().copied().collect();
    lexemes.extend(rules.iter().filter(|r| r.2).map(|r| by_name[&r.0.lhs]));
    let got: BTreeSet<S> = loaded.sbs.iter().map(|s| s.usize()).collect();
    ensure!(got == lexemes, "lexemes {got:?}, expected {lexemes:?}");
    ensure!(us(cfg.roots()) == vec![by_name[&rules[0].0.lhs]], "roots are {:?}", cfg.roots());
    Ok(())
}

//! C16: random generation only produces sentences, and keeps its limits.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_generate::weighted::random::{ByteSource, GenRange, Limits, RandomGenError};
use cfg_generate::weighted::{NegativeRule, Random};
use cfg_grammar::Cfg;
use cfg_history::LinkedHistoryNode;
use cfg_symbol::Symbol;
use rand::SeedableRng;
use rand::rngs::SmallRng;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "C16",
    rule: "generation returned a word of at least two terminals, or a limit error",
    run,
    quick: 2_000_000,
    thorough: 15_000_000,
    probes: &[],
};

/// A generator of our own, which bounds the work of a case.
#[derive(Clone)]
pub struct Own {
    pub state: u64,
    pub draws: Rc<Cell<u64>>,
    pub retries: Rc<Cell<u64>>,
}

impl GenRange for Own {
    fn generate(&mut self, limit: f64) -> f64 {
        self.draws.set(self.draws.get() + 1);
        if self.draws.get() > 12_000 {
            panic!("{INCONCLUSIVE}");
        }
        let v = splitmix(&mut self.state) >> 11;
        v as f64 / (1u64 << 53) as f64 * limit
    }
    fn mutate_start(&mut self, attempt_number: u64) {
        self.retries.set(self.retries.get() + 1);
        if self.retries.get() > 3_000 {
            panic!("{INCONCLUSIVE}");
        }
        self.state ^= (attempt_number + 1).wrapping_mul(0xA24BAED4963EE407);
        splitmix(&mut self.state);
    }
}

/// Bounds the work with another source.
#[derive(Clone)]
struct Bounded<R> {
    inner: R,
    draws: Rc<Cell<u64>>,
}

impl<R> Bounded<R> {
    fn new(inner: R) -> Self {
        Bounded { inner, draws: Rc::new(Cell::new(0)) }
    }
    fn tick(&self) {
        self.draws.set(self.draws.get() + 1);
        if self.draws.get() > 12_000 {
            panic!("{INCONCLUSIVE}");
        }
    }
}

impl<R: GenRange> GenRange for Bounded<R> {
    fn generate(&mut self, limit: f64) -> f64 {
        self.tick();
        self.inner.generate(limit)
    }
    fn mutate_start(&mut self, attempt_number: u64) {
        self.tick();
        self.inner.mutate_start(attempt_number)
    }
}

const FORBIDDEN: &[&str] = &["a", "b", "aa", "ab", "ba", "bb", "aab", "aba", "c", "é", "aé", "bca"];
/// What a terminal may be spelled as; with several, the source of randomness decides.
const CHARS: &[&[char]] = &[&['a'], &['b'], &['a'], &['c'], &['é'], &[], &['a', 'b'], &['b', 'c', 'a']];

/// Earley recognition in which `neg` symbols match nothing, provided the text
/// at their place does not start with any of their forbidden strings.
fn derives(
    n: usize,
    rules: &[(S, Vec<S>)],
    term: &[bool],
    neg: &HashMap<S, Vec<Vec<char>>>,
    chars: &BTreeMap<S, Vec<char>>,
    root: S,
    word: &[S],
    text: &[char],
) -> bool {
    let len = word.len();
    // where in the text every position of the word is
    let mut at = vec![0usize; len + 1];
    for i in 0..len {
        at[i + 1] = at[i] + !chars[&word[i]].is_empty() as usize;
    }
    let mut by_lhs: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, (l, _)) in rules.iter().enumerate() {
        by_lhs[*l].push(i);
    }
    if term[root] {
        return word == [root];
    }
    type Item = (usize, usize, usize);
    let mut seen: Vec<HashSet<Item>> = vec![HashSet::new(); len + 1];
    let mut next: Vec<Item> = by_lhs[root].iter().map(|&r| (r, 0, 0)).collect();
    let mut waiting: Vec<HashMap<S, Vec<Item>>> = vec![HashMap::new(); len + 1];
    for pos in 0..=len {
        let mut queue = std::mem::take(&mut next);
        let mut done: HashSet<S> = HashSet::new();
        while let Some(it) = queue.pop() {
            if !seen[pos].insert(it) {
                continue;
            }
            let (r, d, o) = it;
            let rhs = &rules[r].1;
            if d == rhs.len() {
                let l = rules[r].0;
                if o == pos {
                    done.insert(l);
                }
                if let Some(ws) = waiting[o].get(&l) {
                    queue.extend(ws.iter().map(|&(r, d, o)| (r, d + 1, o)));
                }
                continue;
            }
            let x = rhs[d];
            if term[x] {
                if pos < len && word[pos] == x {
                    next.push((r, d + 1, o));
                }
            } else if let Some(f) = neg.get(&x) {
                if !f.iter().any(|f| text[at[pos]..].starts_with(f)) {
                    queue.push((r, d + 1, o));
                }
            } else {
                waiting[pos].entry(x).or_default().push(it);
                queue.extend(by_lhs[x].iter().map(|&r| (r, 0, pos)));
                if done.contains(&x) {
                    queue.push((r, d + 1, o));
                }
            }
        }
    }
    if let Some(f) = neg.get(&root) {
        return len == 0 && !f.iter().any(|f| text.starts_with(f));
    }
    seen[len].iter().any(|&(r, d, o)| rules[r].0 == root && o == 0 && d == rules[r].1.len())
}

fn spell<R: GenRange>(chars: &BTreeMap<S, Vec<char>>, s: Symbol, r: &mut R) -> Option<char> {
    let c = &chars[&s.usize()];
    match c.len() {
        0 => None,
        1 => Some(c[0]),
        n => Some(c[(r.generate(n as f64) as usize).min(n - 1)]),
    }
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[20, 2, 1]) {
        0 => {}
        1 => return attempts(src, case),
        _ => return only_one(src, case),
    }
    let g = grammar(src, case, &GP { max_nt: 4, max_t: 4, max_rules: 8, productive: true, pad: false, ..SMALL });
    let mut rg = g.g.clone();
    let nneg = src.weighted(&[3, 3, 3]);
    let mut neg_rules = vec![];
    let mut negs: Vec<S> = vec![];
    for _ in 0..nneg {
        let s = rg.n;
        rg.n += 1;
        let f = *src.pick(FORBIDDEN);
        neg_rules.push((s, f));
        negs.push(s);
        // several texts may be forbidden at one place
        while src.chance(1, 4) {
            neg_rules.push((s, *src.pick(FORBIDDEN)));
        }
        // put it somewhere
        for _ in 0..src.range(1, 3) {
            // often where another negative rule is
            let near: Vec<(usize, usize)> = (0..rg.rules.len())
                .flat_map(|i| rg.rules[i].1.iter().enumerate().filter(|(_, x)| negs[0] < s && **x == negs[0]).map(move |(d, _)| (i, d)).collect::<Vec<_>>())
                .collect();
            let (i, d) = if !near.is_empty() && src.chance(1, 2) {
                let (i, d) = *src.pick(&near);
                (i, d + src.usize(2))
            } else {
                let i = src.usize(rg.rules.len());
                (i, src.range(0, rg.rules[i].1.len()))
            };
            rg.rules[i].1.insert(d, s);
        }
    }
    for &s in &negs {
        rg.rules.push((s, vec![]));
    }
    let term = rg.terminals();
    // alternatives made of terminals first, and heavy, so that generation ends
    let flat = |r: &(S, Vec<S>)| r.1.iter().all(|&x| term[x] || negs.contains(&x));
    let has_flat: HashSet<S> = rg.rules.iter().filter(|r| flat(r)).map(|r| r.0).collect();
    ensure!(rg.rules.iter().all(|r| has_flat.contains(&r.0)), "HARNESS: no flat rule");
    rg.rules.sort_by_key(|r| !flat(r));
    let weights: Vec<Option<f64>> = rg
        .rules
        .iter()
        .map(|r| if flat(r) { Some(4.0) } else if src.chance(1, 2) { None } else { Some(*src.pick(&[1.0, 0.5, 2.0])) })
        .collect();
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, rg.n);
    let lim = if src.chance(1, 4) { Some(2) } else { None };
    cfg.limit_rhs_len(lim);
    for ((l, r), w) in rg.rules.iter().zip(&weights) {
        match w {
            None => cfg.rule(sy(*l)).rhs(sys(r)),
            Some(w) => cfg.rule(sy(*l)).rhs_with_linked_history(sys(r), LinkedHistoryNode::Weight { weight: *w }),
        };
    }
    let chars: BTreeMap<S, Vec<char>> = (0..rg.n).filter(|&i| term[i]).map(|i| (i, src.pick(CHARS).to_vec())).collect();
    src.shuffle(&mut neg_rules);
    let mut neg: HashMap<S, Vec<Vec<char>>> = HashMap::new();
    for (s, f) in &neg_rules {
        neg.entry(*s).or_default().push(f.chars().collect());
    }
    let negative: Vec<NegativeRule> = neg_rules.iter().map(|(s, f)| NegativeRule { sym: sy(*s), chars: f }).collect();
    let start = if src.chance(1, 10) { src.usize(rg.n) } else { *src.pick(&g.nts) };
    let limits = if src.chance(1, 6) {
        None
    } else {
        Some(Limits {
            terminals: *src.pick(&[200, 0, 1, 3, 10]),
            negative_rule_attempts: *src.pick(&[40, 0, 1, 5]),
        })
    };
    let seed = src.below(u64::MAX);
    let kind = src.weighted(&[5, 2, 1]);
    let own = || Own { state: seed, draws: Rc::new(Cell::new(0)), retries: Rc::new(Cell::new(0)) };
    let bytes: Vec<u8> = if kind == 2 { (0..40).map(|_| src.below(256) as u8).collect() } else { vec![] };
    case.input = format!(
        "{} weights {weights:?} limit_rhs {lim:?} chars {chars:?} negative {neg_rules:?} start {start} limits {:?} seed {seed} source {kind} {bytes:?}",
        rg.show(),
        limits.map(|l| (l.terminals, l.negative_rule_attempts)),
    );
    // without limits, only our own source bounds the work
    let kind = if limits.is_none() { 0 } else { kind };
    let go = |limits: Option<Limits>| match kind {
        0 => cfg.random(sy(start), limits, &mut own(), &negative, |s, r: &mut _| spell(&chars, s, r)),
        1 => cfg.random(sy(start), limits, &mut Bounded::new(SmallRng::seed_from_u64(seed)), &negative, |s, r: &mut _| spell(&chars, s, r)),
        _ => cfg.random(sy(start), limits, &mut Bounded::new(ByteSource::new(bytes.iter().copied())), &negative, |s, r: &mut _| spell(&chars, s, r)),
    };
    let out = go(limits);
    let again = go(limits);
    ensure!(out == again, "the same source of randomness gave {out:?}, then {again:?}");
    case.class_if(kind == 0, "own source");
    case.class_if(kind == 1, "SmallRng");
    case.class_if(kind == 2, "ByteSource");
    case.class_if(nneg > 0, "negative rules");
    case.class_if(neg_rules.len() > nneg, "several texts forbidden at one place");
    match &out {
        Ok((syms, text)) => {
            let word = us(syms);
            ensure!(word.iter().all(|&s| term[s]), "{word:?} has symbols which are not terminals");
            let spelled: Vec<&Vec<char>> = word.iter().map(|s| &chars[s]).filter(|c| !c.is_empty()).collect();
            ensure!(
                text.len() == spelled.len() && text.iter().zip(&spelled).all(|(c, o)| o.contains(c)),
                "the symbols {word:?} spell {spelled:?}, but the text is {text:?}"
            );
            if let Some(l) = limits {
                ensure!(word.len() as u64 <= l.terminals, "{} terminals, the limit is {}", word.len(), l.terminals);
            }
            if word.len().pow(2) * rg.rules.len() > 1_000_000 {
                case.class("word too long to be recognized");
                return Ok(());
            }
            ensure!(
                derives(rg.n, &rg.rules, &term, &neg, &chars, start, &word, text),
                "{word:?} (text {text:?}) is not a sentence under the negative rules"
            );
            case.nontrivial = word.len() >= 2;
            case.count("terminals", word.len() as u64);
            case.class_if(word.len() >= 2 && nneg > 0, "a word under negative rules");
        }
        Err(RandomGenError::LimitExceeded) => {
            ensure!(limits.is_some(), "a limit was exceeded, but none was given");
            case.nontrivial = true;
            case.class("limit exceeded");
        }
        Err(RandomGenError::NegativeRuleAttemptsExceeded) => {
            ensure!(nneg > 0, "attempts at negative rules exceeded, but there are none");
            case.nontrivial = true;
            case.class("attempts exceeded");
        }
    }
    // the limit decides by itself
    if nneg == 0 {
        if let (Some(l), Ok((syms, _))) = (limits, go(Some(Limits { terminals: 400, negative_rule_attempts: 0 }))) {
            let fits = syms.len() as u64 <= l.terminals;
            ensure!(
                out.is_ok() == fits,
                "the word has {} terminals, the limit is {}, and generation returned {:?}",
                syms.len(),
                l.terminals,
                out
            );
            if let Ok((s, _)) = &out {
                ensure!(s == &syms, "the limit changed the output");
            }
        }
    }
    Ok(())
}

/// Chooses the first alternative for the first `bad` attempts, the second one afterwards.
#[derive(Clone)]
struct Script {
    bad: u64,
    retries: Rc<Cell<u64>>,
}

impl GenRange for Script {
    fn generate(&mut self, limit: f64) -> f64 {
        if self.retries.get() < self.bad { limit * 0.25 } else { limit * 0.75 }
    }
    fn mutate_start(&mut self, _: u64) {
        self.retries.set(self.retries.get() + 1);
        if self.retries.get() > 100_000 {
            panic!("{INCONCLUSIVE}");
        }
    }
}

/// `S ::= pre* N X post*; X ::= bad | good`, where N forbids `bad`: as many retries as allowed.
fn attempts(src: &mut Src, case: &mut Case) -> Res {
    let pre = src.range(0, 3);
    let post = src.range(0, 2);
    let allowed = *src.pick(&[0u64, 1, 2, 7, 30, 300]);
    let bad = match src.below(3) {
        0 => src.below(allowed + 1),
        1 => allowed + 1,
        _ => allowed + src.below(40),
    };
    case.input = format!("retries: {pre} before, {post} after, {bad} bad choices, {allowed} allowed");
    case.class("retries");
    case.nontrivial = true;
    let mut cfg = Cfg::new();
    let [s, n, x, t0, t1, t2] = cfg.sym();
    let mut rhs = vec![t0; pre];
    rhs.extend([n, x]);
    rhs.extend(vec![t0; post]);
    cfg.rule(s).rhs(rhs).rule(n).rhs([]).rule(x).rhs([t1]).rhs([t2]);
    let retries = Rc::new(Cell::new(0));
    let mut rng = Script { bad, retries: retries.clone() };
    let out = cfg.random(
        s,
        Some(Limits { terminals: 100, negative_rule_attempts: allowed }),
        &mut rng,
        &[NegativeRule { sym: n, chars: "b" }],
        |t, _: &mut _| Some(if t == t0 { 'a' } else if t == t1 { 'b' } else { 'c' }),
    );
    if bad <= allowed {
        let want: String = "a".repeat(pre) + "c" + &"a".repeat(post);
        let got = out.as_ref().map(|(_, t)| t.iter().collect::<String>());
        ensure!(got == Ok(want.clone()), "{bad} bad choices with {allowed} retries allowed gave {out:?}, expected {want}");
    } else {
        ensure!(
            out == Err(RandomGenError::NegativeRuleAttemptsExceeded),
            "{bad} bad choices with {allowed} retries allowed gave {out:?}"
        );
        ensure!(retries.get() <= allowed + 1, "{} retries, {allowed} allowed", retries.get());
    }
    Ok(())
}

/// Grammars that leave no choice: the outcome is known whatever the source of randomness is.
fn only_one(src: &mut Src, case: &mut Case) -> Res {
    let len = src.range(0, 12);
    let texts: Vec<Option<char>> = (0..len).map(|_| *src.pick(&[Some('a'), Some('b'), Some('c'), None])).collect();
    let at = src.chance(2, 3).then(|| src.range(0, len));
    let f = *src.pick(FORBIDDEN);
    let terminals = *src.pick(&[0u64, 1, 2, 3, 5, 8, 12, 100]);
    let attempts = *src.pick(&[0u64, 1, 3, 20]);
    let limits = if src.chance(1, 6) && at.is_none() { None } else { Some(Limits { terminals, negative_rule_attempts: attempts }) };
    case.input = format!("no choice: {texts:?}, {f:?} forbidden at {at:?}, limits {:?}", limits.map(|l| (l.terminals, l.negative_rule_attempts)));
    case.class("no choice");
    let mut cfg = Cfg::new();
    let start = cfg.next_sym(None);
    let n = cfg.next_sym(None);
    let ts: Vec<Symbol> = texts.iter().map(|_| cfg.next_sym(None)).collect();
    // nested to the right, with a nonterminal now and then
    let mut lhs = start;
    let mut rhs = vec![];
    for i in 0..=len {
        if at == Some(i) {
            rhs.push(n);
        }
        if let Some(&t) = ts.get(i) {
            rhs.push(t);
        }
        if src.chance(1, 3) {
            let x = cfg.next_sym(None);
            rhs.push(x);
            cfg.rule(lhs).rhs(std::mem::take(&mut rhs));
            lhs = x;
        }
    }
    cfg.rule(lhs).rhs(rhs);
    cfg.rule(n).rhs([]);
    let to_char = |s: Symbol| ts.iter().position(|t| *t == s).and_then(|i| texts[i]);
    // number of terminals at which the forbidden string is complete
    let mut complete = None;
    if let Some(at) = at {
        let want: Vec<char> = f.chars().collect();
        let mut have = vec![];
        for i in at..len {
            have.extend(texts[i]);
            if have.len() == want.len() {
                complete = (have == want).then_some(i + 1);
                break;
            }
        }
    }
    let exceeds = limits.is_some_and(|l| complete.unwrap_or(len) as u64 > l.terminals);
    let want = if exceeds {
        Err(RandomGenError::LimitExceeded)
    } else if complete.is_some() {
        Err(RandomGenError::NegativeRuleAttemptsExceeded)
    } else {
        Ok((ts.clone(), texts.iter().flatten().copied().collect()))
    };
    let negative = [NegativeRule { sym: n, chars: f }];
    let seed = src.below(u64::MAX);
    let results = [
        ("thread", cfg.with_thread_rng(start, limits, &negative, |s, _: &mut _| to_char(s))),
        ("small", cfg.random(start, limits, &mut SmallRng::seed_from_u64(seed), &negative, |s, _: &mut _| to_char(s))),
        ("bytes", cfg.random(start, limits, &mut ByteSource::new(seed.to_le_bytes().into_iter()), &negative, |s, _: &mut _| to_char(s))),
    ];
    case.nontrivial = len >= 2;
    for (what, got) in results {
        ensure!(got == want, "there is no choice, source {what} gives {got:?}, expected {want:?}");
    }
    Ok(())
}

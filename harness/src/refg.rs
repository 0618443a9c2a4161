//! Independent reference model: a plain grammar representation and textbook
//! definitions computed by brute-force fixpoints. Nothing here calls the code
//! under test, except the conversions at the bottom.

use crate::engine::{Res, Src};
use crate::ensure;
use cfg_grammar::{Cfg, CfgRule, WrappedRoot};
use cfg_history::{earley::History, RootHistoryNode};
use cfg_symbol::{Symbol, SymbolSource};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write;

pub type S = usize;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RG {
    pub n: usize,
    pub rules: Vec<(S, Vec<S>)>,
    pub roots: Vec<S>,
}

impl RG {
    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "n={} roots={:?};", self.n, self.roots);
        for (l, r) in &self.rules {
            let _ = write!(s, " {l}::=");
            for x in r {
                let _ = write!(s, "{x} ");
            }
            let _ = write!(s, ";");
        }
        s
    }
    /// `true` for symbols which are the LHS of no rule.
    pub fn terminals(&self) -> Vec<bool> {
        let mut t = vec![true; self.n];
        for (l, _) in &self.rules {
            t[*l] = false;
        }
        t
    }
    pub fn used(&self) -> Vec<bool> {
        let mut u = vec![false; self.n];
        for (l, r) in &self.rules {
            u[*l] = true;
            for &x in r {
                u[x] = true;
            }
        }
        u
    }
    /// Least fixpoint of "LHS has it if all RHS symbols have it".
    pub fn closure_all(&self, seed: &[bool]) -> Vec<bool> {
        let mut p = seed.to_vec();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !p[*l] && r.iter().all(|&x| p[x]) {
                    p[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return p;
            }
        }
    }
    pub fn closure_any(&self, seed: &[bool]) -> Vec<bool> {
        let mut p = seed.to_vec();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if !p[*l] && r.iter().any(|&x| p[x]) {
                    p[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return p;
            }
        }
    }
    pub fn nullable(&self) -> Vec<bool> {
        self.closure_all(&vec![false; self.n])
    }
    pub fn productive(&self, term: &[bool]) -> Vec<bool> {
        self.closure_all(term)
    }
    /// Reflexive reachability from the given symbols.
    pub fn reachable(&self, from: &[S]) -> Vec<bool> {
        let mut r = vec![false; self.n];
        let mut stack = from.to_vec();
        let mut by_lhs: Vec<Vec<usize>> = vec![vec![]; self.n];
        for (i, (l, _)) in self.rules.iter().enumerate() {
            by_lhs[*l].push(i);
        }
        while let Some(s) = stack.pop() {
            if r[s] {
                continue;
            }
            r[s] = true;
            for &i in &by_lhs[s] {
                for &x in &self.rules[i].1 {
                    if !r[x] {
                        stack.push(x);
                    }
                }
            }
        }
        r
    }
    /// Non-reflexive reachability: `reach(a)[b]` iff b occurs in a string derived from a in >= 1 steps.
    pub fn reach_plus(&self) -> Vec<Vec<bool>> {
        let mut direct: Vec<BTreeSet<S>> = vec![BTreeSet::new(); self.n];
        for (l, r) in &self.rules {
            direct[*l].extend(r.iter().copied());
        }
        graph_plus(self.n, &direct)
    }
    /// FIRST sets of every symbol (terminal or nonterminal): terminals set.
    pub fn first(&self) -> Vec<BTreeSet<S>> {
        let term = self.terminals();
        let null = self.nullable();
        let mut f: Vec<BTreeSet<S>> = (0..self.n)
            .map(|s| if term[s] { [s].into() } else { BTreeSet::new() })
            .collect();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                for &x in r {
                    let add: Vec<S> = f[x].iter().copied().collect();
                    for t in add {
                        ch |= f[*l].insert(t);
                    }
                    if !null[x] {
                        break;
                    }
                }
            }
            if !ch {
                return f;
            }
        }
    }
    pub fn first_of(&self, f: &[BTreeSet<S>], null: &[bool], string: &[S]) -> (BTreeSet<S>, bool) {
        let mut out = BTreeSet::new();
        for &x in string {
            out.extend(f[x].iter().copied());
            if !null[x] {
                return (out, false);
            }
        }
        (out, true)
    }
    pub fn reversed(&self) -> RG {
        RG {
            n: self.n,
            roots: self.roots.clone(),
            rules: self
                .rules
                .iter()
                .map(|(l, r)| (*l, r.iter().rev().copied().collect()))
                .collect(),
        }
    }
    /// FOLLOW sets: terminals and "end of input".
    pub fn follow(&self) -> Vec<(BTreeSet<S>, bool)> {
        let f = self.first();
        let null = self.nullable();
        let mut fo: Vec<(BTreeSet<S>, bool)> = vec![(BTreeSet::new(), false); self.n];
        for &r in &self.roots {
            fo[r].1 = true;
        }
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                // what can come after the symbol at hand
                let (mut next, mut end) = fo[*l].clone();
                for &x in r.iter().rev() {
                    for &t in &next {
                        ch |= fo[x].0.insert(t);
                    }
                    if end && !fo[x].1 {
                        fo[x].1 = true;
                        ch = true;
                    }
                    if !null[x] {
                        next.clear();
                        end = false;
                    }
                    next.extend(&f[x]);
                }
            }
            if !ch {
                return fo;
            }
        }
    }
    /// Minimal derivation cost: `cost(A) = min(seed, min over rules of sum)`.
    pub fn min_cost(&self, seed: &[Option<u64>]) -> Vec<Option<u64>> {
        let mut v = seed.to_vec();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                let sum = r.iter().try_fold(0u64, |a, &x| v[x].map(|c| a + c));
                if let Some(s) = sum {
                    if v[*l].map_or(true, |c| c > s) {
                        v[*l] = Some(s);
                        ch = true;
                    }
                }
            }
            if !ch {
                return v;
            }
        }
    }
}

pub fn graph_plus(n: usize, direct: &[BTreeSet<S>]) -> Vec<Vec<bool>> {
    let mut out = vec![vec![false; n]; n];
    for a in 0..n {
        let mut stack: Vec<S> = direct[a].iter().copied().collect();
        while let Some(b) = stack.pop() {
            if out[a][b] {
                continue;
            }
            out[a][b] = true;
            stack.extend(direct[b].iter().copied());
        }
    }
    out
}

// ---------------------------------------------------------------------------
// Bounded languages. A word over at most 15 terminals packs into a u128, four
// bits per letter (letter codes 1..=15), so length <= 32.

pub type W = u128;

pub fn wlen(w: W) -> usize {
    (128 - w.leading_zeros() as usize + 3) / 4
}
pub fn wcat(a: W, b: W) -> W {
    a | if b == 0 { 0 } else { b << (4 * wlen(a)) }
}
pub fn wletters(w: W) -> Vec<usize> {
    (0..wlen(w))
        .map(|i| ((w >> (4 * i)) & 15) as usize - 1)
        .collect()
}

/// Set of words up to a length bound, one per symbol.
pub struct Lang {
    pub k: usize,
    pub sets: Vec<HashSet<W>>,
}

/// Computes for every symbol the set of words of length <= k over `letters`
/// (symbol -> letter code), or `None` if some set outgrows `cap`.
/// Symbols which are neither a letter nor have rules derive nothing.
pub fn lang_k(
    n: usize,
    rules: &[(S, Vec<S>)],
    letters: &BTreeMap<S, usize>,
    k: usize,
    cap: usize,
) -> Option<Lang> {
    let mut sets: Vec<HashSet<W>> = vec![HashSet::new(); n];
    for (&s, &c) in letters {
        if k >= 1 && s < n {
            sets[s].insert(c as W + 1);
        }
    }
    let mut work: usize = 0;
    loop {
        let mut ch = false;
        for (l, r) in rules {
            // words of the RHS
            let mut cur: HashSet<W> = HashSet::new();
            cur.insert(0);
            for &x in r {
                if sets[x].is_empty() {
                    cur.clear();
                    break;
                }
                let mut next = HashSet::new();
                for &a in &cur {
                    let la = wlen(a);
                    for &b in &sets[x] {
                        work += 1;
                        if la + wlen(b) <= k {
                            next.insert(wcat(a, b));
                        }
                    }
                    if next.len() > cap || work > 100_000 {
                        return None;
                    }
                }
                cur = next;
                if cur.is_empty() {
                    break;
                }
            }
            let set = &mut sets[*l];
            for w in cur {
                ch |= set.insert(w);
            }
            if set.len() > cap {
                return None;
            }
        }
        if !ch {
            return Some(Lang { k, sets });
        }
    }
}

/// Word-length bounds tried in turn; the last one which fits the work limit counts.
const KS: &[usize] = &[1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, 28, 31];

/// Languages of two grammars at the largest tried bound `<= kmax` both fit.
pub fn lang_pair(
    a: (usize, &[(S, Vec<S>)]),
    b: (usize, &[(S, Vec<S>)]),
    letters: &BTreeMap<S, usize>,
    kmax: usize,
    cap: usize,
) -> Option<(Lang, Lang)> {
    let mut best = None;
    for &k in KS.iter().filter(|&&k| k <= kmax) {
        let Some(la) = lang_k(a.0, a.1, letters, k, cap) else {
            break;
        };
        let Some(lb) = lang_k(b.0, b.1, letters, k, cap.saturating_mul(8)) else {
            break;
        };
        best = Some((la, lb));
    }
    best
}

pub fn lang_best(
    n: usize,
    rules: &[(S, Vec<S>)],
    letters: &BTreeMap<S, usize>,
    kmax: usize,
    cap: usize,
) -> Option<Lang> {
    let mut best = None;
    for &k in KS.iter().filter(|&&k| k <= kmax) {
        match lang_k(n, rules, letters, k, cap) {
            Some(l) => best = Some(l),
            None => break,
        }
    }
    best
}

/// Letter codes for up to 15 symbols.
pub fn letters_of(syms: impl IntoIterator<Item = S>) -> Option<BTreeMap<S, usize>> {
    let m: BTreeMap<S, usize> = syms
        .into_iter()
        .collect::<BTreeSet<_>>()
        .into_iter()
        .enumerate()
        .map(|(i, s)| (s, i))
        .collect();
    if m.len() > 15 { None } else { Some(m) }
}

pub fn show_word(w: W, letters: &BTreeMap<S, usize>) -> String {
    let inv: HashMap<usize, S> = letters.iter().map(|(s, c)| (*c, *s)).collect();
    format!(
        "{:?}",
        wletters(w).iter().map(|c| inv[c]).collect::<Vec<_>>()
    )
}

/// A word in exactly one of the sets.
pub fn diff<'a>(a: &'a HashSet<W>, b: &'a HashSet<W>) -> Option<W> {
    let mut d: Vec<W> = a.symmetric_difference(b).copied().collect();
    d.sort_by_key(|w| (wlen(*w), *w));
    d.first().copied()
}

// ---------------------------------------------------------------------------
// Recognizer (Earley, any grammar) for words too long for the sets above.

pub fn recognize(n: usize, rules: &[(S, Vec<S>)], term: &[bool], root: S, word: &[S]) -> bool {
    let g = RG {
        n,
        rules: rules.to_vec(),
        roots: vec![],
    };
    let null = {
        // nullable, never through terminals
        g.nullable()
    };
    let mut by_lhs: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, (l, _)) in rules.iter().enumerate() {
        by_lhs[*l].push(i);
    }
    if term[root] {
        return word == [root];
    }
    // item: (rule, dot, origin)
    let len = word.len();
    let mut sets: Vec<Vec<(usize, usize, usize)>> = vec![vec![]; len + 1];
    let mut seen: Vec<HashSet<(usize, usize, usize)>> = vec![HashSet::new(); len + 1];
    for &i in &by_lhs[root] {
        if seen[0].insert((i, 0, 0)) {
            sets[0].push((i, 0, 0));
        }
    }
    // waiting[pos][sym]: items in set pos with postdot sym
    let mut waiting: Vec<HashMap<S, Vec<(usize, usize, usize)>>> = vec![HashMap::new(); len + 1];
    for pos in 0..=len {
        let mut q = 0;
        while q < sets[pos].len() {
            let (r, d, o) = sets[pos][q];
            q += 1;
            let rhs = &rules[r].1;
            if d == rhs.len() {
                let l = rules[r].0;
                // completion
                if o != pos {
                    let ws = waiting[o].get(&l).cloned().unwrap_or_default();
                    for (r2, d2, o2) in ws {
                        let it = (r2, d2 + 1, o2);
                        if seen[pos].insert(it) {
                            sets[pos].push(it);
                        }
                    }
                }
                // same-position completions are handled by the nullable advance below
            } else {
                let x = rhs[d];
                if term[x] {
                    if pos < len && word[pos] == x {
                        let it = (r, d + 1, o);
                        if seen[pos + 1].insert(it) {
                            sets[pos + 1].push(it);
                        }
                    }
                } else {
                    waiting[pos].entry(x).or_default().push((r, d, o));
                    for &i in &by_lhs[x] {
                        let it = (i, 0, pos);
                        if seen[pos].insert(it) {
                            sets[pos].push(it);
                        }
                    }
                    if null[x] {
                        let it = (r, d + 1, o);
                        if seen[pos].insert(it) {
                            sets[pos].push(it);
                        }
                    }
                }
            }
        }
    }
    sets[len]
        .iter()
        .any(|&(r, d, o)| rules[r].0 == root && d == rules[r].1.len() && o == 0)
        || (len == 0 && null[root])
}

/// Number of derivation trees of `word` from `root`, or None if cyclic
/// (infinitely many) or over `cap`.
pub struct TreeCounter<'a> {
    rules: &'a [(S, Vec<S>)],
    term: &'a [bool],
    word: &'a [S],
    memo: HashMap<(S, usize, usize), Option<u64>>,
    /// for what is left of long right-hand sides
    tails: HashMap<(usize, usize, usize, usize), Option<u64>>,
    active: HashSet<(S, usize, usize)>,
    by_lhs: HashMap<S, Vec<usize>>,
}

impl<'a> TreeCounter<'a> {
    pub fn new(rules: &'a [(S, Vec<S>)], term: &'a [bool], word: &'a [S]) -> Self {
        let mut by_lhs: HashMap<S, Vec<usize>> = HashMap::new();
        for (i, (l, _)) in rules.iter().enumerate() {
            by_lhs.entry(*l).or_default().push(i);
        }
        TreeCounter {
            rules,
            term,
            word,
            memo: HashMap::new(),
            tails: HashMap::new(),
            active: HashSet::new(),
            by_lhs,
        }
    }
    pub fn count(&mut self, s: S, i: usize, j: usize) -> Option<u64> {
        if self.term[s] {
            return Some((j == i + 1 && self.word[i] == s) as u64);
        }
        if let Some(&v) = self.memo.get(&(s, i, j)) {
            return v;
        }
        if !self.active.insert((s, i, j)) {
            return None;
        }
        let mut total = Some(0u64);
        for ri in self.by_lhs.get(&s).cloned().unwrap_or_default() {
            let c = self.seq(ri, 0, i, j);
            total = match (total, c) {
                (Some(a), Some(b)) => Some(a.saturating_add(b)),
                _ => None,
            };
        }
        self.active.remove(&(s, i, j));
        self.memo.insert((s, i, j), total);
        total
    }
    fn seq(&mut self, ri: usize, d: usize, i: usize, j: usize) -> Option<u64> {
        let rules = self.rules;
        let rhs = &rules[ri].1;
        if d == rhs.len() {
            return Some((i == j) as u64);
        }
        if d + 1 == rhs.len() {
            return self.count(rhs[d], i, j);
        }
        let long = rhs.len() - d > 3;
        if long {
            if let Some(&v) = self.tails.get(&(ri, d, i, j)) {
                return v;
            }
        }
        let v = self.splits(ri, d, i, j);
        if long {
            self.tails.insert((ri, d, i, j), v);
        }
        v
    }
    fn splits(&mut self, ri: usize, d: usize, i: usize, j: usize) -> Option<u64> {
        let rules = self.rules;
        let rhs = &rules[ri].1;
        let mut total = 0u64;
        for m in i..=j {
            if self.term[rhs[d]] && m != i + 1 {
                continue;
            }
            // the terminal first: a zero factor decides, whatever the other one is
            if self.term[rhs[d]] && self.count(rhs[d], i, m) == Some(0) {
                continue;
            }
            let rest = self.seq(ri, d + 1, m, j);
            if rest == Some(0) {
                continue;
            }
            let a = self.count(rhs[d], i, m);
            if a == Some(0) {
                continue;
            }
            total = total.saturating_add(a?.saturating_mul(rest?));
        }
        Some(total)
    }
}

// ---------------------------------------------------------------------------
// Conversions.

thread_local! {
    static SYMS: RefCell<Vec<Symbol>> = const { RefCell::new(vec![]) };
}

/// The symbol with the given number.
pub fn sy(i: S) -> Symbol {
    SYMS.with(|v| {
        let mut v = v.borrow_mut();
        if v.len() <= i {
            let mut src = SymbolSource::new();
            let want = (i + 1).next_power_of_two().max(1024);
            *v = src.generate().take(want).collect();
        }
        v[i]
    })
}

pub fn sys(v: &[S]) -> Vec<Symbol> {
    v.iter().map(|&i| sy(i)).collect()
}

pub fn us(v: &[Symbol]) -> Vec<S> {
    v.iter().map(|s| s.usize()).collect()
}

/// Builds the grammar through the public builder; the symbol with number `i`
/// is the i-th symbol generated.
pub fn to_cfg(g: &RG) -> Cfg {
    let mut cfg = Cfg::new();
    let mut hash = g.rules.iter().fold(g.n as u64 + 77, |h, (l, r)| {
        r.iter().fold(h.wrapping_mul(31) ^ *l as u64, |h, &x| h.wrapping_mul(0x100000001b3) ^ (x as u64 + 1))
    });
    // Names, and a limit which no rule exceeds, make no difference either.
    let naming = mix(&mut hash) % 4;
    for i in 0..g.n {
        let name = match naming {
            0 => Some(format!("n{i}")),
            1 if mix(&mut hash) % 2 == 0 => Some(["a", "b", "root", "g1", "start_of_input"][i % 5].to_string()),
            _ => None,
        };
        cfg.next_sym(name.map(|n| n.into()));
    }
    if mix(&mut hash) % 4 == 0 {
        let longest = g.rules.iter().map(|r| r.1.len()).max().unwrap_or(0);
        cfg.limit_rhs_len(Some(longest.max(2)));
    }
    // No analysis may depend on the histories of rules: half of the grammars have rules
    // with various histories, chosen by the grammar itself.
    let various = mix(&mut hash) % 2 == 0;
    for (l, r) in &g.rules {
        let k = mix(&mut hash);
        if various && k % 4 != 0 {
            cfg.rule(sy(*l)).rhs_with_history(sys(r), some_history(k >> 2, *l));
        } else {
            cfg.rule(sy(*l)).rhs(sys(r));
        }
    }
    cfg.set_roots(sys(&g.roots));
    // Roots which look like wrapped ones are declared so, now and then.
    let wrapped: Option<Vec<WrappedRoot>> = g
        .roots
        .iter()
        .map(|&root| {
            let mut own = g.rules.iter().filter(|r| r.0 == root);
            let terminal = |s: S| g.rules.iter().all(|r| r.0 != s);
            match (own.next().map(|r| &r.1[..]), own.next()) {
                (Some(&[s, x, e]), None) if terminal(s) && terminal(e) && !terminal(x) && s != e => Some(WrappedRoot {
                    root: sy(root),
                    start_of_input: sy(s),
                    inner_root: sy(x),
                    end_of_input: sy(e),
                }),
                _ => None,
            }
        })
        .collect();
    if let Some(wrapped) = wrapped {
        if !wrapped.is_empty() && mix(&mut hash) % 4 != 0 {
            cfg.set_wrapped_roots(&wrapped);
        }
    }
    cfg
}

/// Adds `k` symbols, with names or without: names never make a difference.
pub fn add_syms(src: &mut Src, cfg: &mut Cfg, k: usize) {
    let naming = src.below(4);
    for i in 0..k {
        let name = match naming {
            0 | 1 => None,
            2 => Some(format!("n{i}")),
            _ if src.chance(1, 2) => Some(["a", "b", "root", "g1", "start_of_input"][i % 5].to_string()),
            _ => None,
        };
        cfg.next_sym(name.map(|n| n.into()));
    }
}

fn mix(state: &mut u64) -> u64 {
    *state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *state >> 33
}

/// Histories of every kind.
pub fn some_history(k: u64, lhs: S) -> History {
    let mut h: History = match k % 5 {
        0 => RootHistoryNode::NoOp.into(),
        1 => RootHistoryNode::Rule { lhs: sy(lhs) }.into(),
        2 => RootHistoryNode::Origin { origin: 1 }.into(),
        _ => RootHistoryNode::Origin { origin: (k / 5 % 1000) as usize }.into(),
    };
    if k / 5000 % 4 == 0 {
        h = cfg_history::HistoryNodeWeight { prev: h, weight: (k / 20000 % 3) as f64 }.into();
    }
    if k / 60000 % 8 == 0 {
        h = cfg_history::HistoryNodeRewriteSequence { prev: h, top: k % 2 == 0, rhs: sy(lhs), sep: None }.into();
    }
    h
}

pub fn rule_pair(r: &CfgRule) -> (S, Vec<S>) {
    (r.lhs.usize(), us(&r.rhs))
}

pub fn rules_of(cfg: &Cfg) -> Vec<(S, Vec<S>)> {
    cfg.rules().map(rule_pair).collect()
}

pub fn from_cfg(cfg: &Cfg) -> RG {
    let rules = rules_of(cfg);
    let mut n = cfg.num_syms();
    for (l, r) in &rules {
        n = n.max(l + 1);
        for x in r {
            n = n.max(x + 1);
        }
    }
    RG {
        n,
        rules,
        roots: us(cfg.roots()),
    }
}

pub fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

/// Inlines helper symbols (those with number not satisfying `keep`) which have
/// exactly one rule, until only kept symbols remain. `None` if some helper has
/// not exactly one rule, is recursive, or is unused.
pub fn unfold(rules: &[(S, Vec<S>)], keep: &dyn Fn(S) -> bool) -> Option<Vec<(S, Vec<S>)>> {
    let mut def: HashMap<S, &Vec<S>> = HashMap::new();
    for (l, r) in rules {
        if !keep(*l) && def.insert(*l, r).is_some() {
            return None;
        }
    }
    let mut out = vec![];
    let mut used: HashSet<S> = HashSet::new();
    for (l, r) in rules {
        if !keep(*l) {
            continue;
        }
        let mut flat = vec![];
        // explicit stack, with a step limit against cycles
        let mut stack: Vec<S> = r.iter().rev().copied().collect();
        let mut steps = 0usize;
        while let Some(x) = stack.pop() {
            steps += 1;
            if steps > 2_000_000 {
                return None;
            }
            if keep(x) {
                flat.push(x);
            } else {
                let d = def.get(&x)?;
                used.insert(x);
                stack.extend(d.iter().rev().copied());
            }
        }
        out.push((*l, flat));
    }
    if used.len() != def.len() {
        return None;
    }
    Some(out)
}

/// Whether an iterator gives the expected items in whatever way it is driven.
pub fn iterates<T: PartialEq + std::fmt::Debug, I: Iterator<Item = T>>(src: &mut Src, make: impl Fn() -> I, want: &[T], what: &str) -> Res {
    let n = want.len();
    let k = src.range(0, (n + 1).min(9));
    let mut it = make();
    let (lo, hi) = it.size_hint();
    ensure!(lo <= n && hi.is_none_or(|h| h >= n), "{what}: size_hint() {lo} to {hi:?} for {n} items");
    match src.below(8) {
        0 | 1 => {
            let got: Vec<T> = it.collect();
            ensure!(got == want, "{what}: {got:?}, expected {want:?}");
        }
        2 => {
            let got = it.nth(k);
            ensure!(got.as_ref() == want.get(k), "{what}: nth({k}) is {got:?}, expected {:?}", want.get(k));
            if k < n {
                let rest: Vec<T> = it.collect();
                ensure!(rest == want[k + 1..], "{what}: after nth({k}) {rest:?}, expected {:?}", &want[k + 1..]);
            }
        }
        3 => {
            let got = it.last();
            ensure!(got.as_ref() == want.last(), "{what}: last() is {got:?}, expected {:?}", want.last());
        }
        4 => {
            for _ in 0..k.min(n) {
                it.next();
            }
            let got = it.count();
            ensure!(got == n - k.min(n), "{what}: {got} items after {k} of {n}");
        }
        5 => {
            let got: Vec<T> = it.step_by(k + 1).collect();
            let ok = got.iter().eq(want.iter().step_by(k + 1));
            ensure!(ok, "{what}: every {} are {got:?} of {want:?}", k + 1);
        }
        6 => {
            let mut got = vec![];
            for _ in 0..k.min(n) {
                got.extend(it.next());
            }
            let (lo, hi) = it.size_hint();
            let left = n - k.min(n);
            ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{what}: size_hint() {lo} to {hi:?} for {left} items");
            it.for_each(|x| got.push(x));
            ensure!(got == want, "{what}: {got:?}, expected {want:?}");
        }
        _ => {
            let got: Vec<T> = it.skip(k).collect();
            ensure!(got == want[k.min(n)..], "{what}: after {k} {got:?}, expected {:?}", &want[k.min(n)..]);
        }
    }
    Ok(())
}

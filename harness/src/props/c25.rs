//! C25: rules keep track of where they came from.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_grammar::precedenced_rule::Associativity;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::earley::History;
use cfg_history::earley::rule_dot::RuleDot;
use cfg_history::{HistoryNodeAssignPrecedence, HistoryNodeWeight, LinkedHistoryNode, RootHistoryNode};
use cfg_sequence::{CfgSequenceExt, Separator};
use std::collections::{BTreeMap, HashMap};

pub static PROP: Prop = Prop {
    id: "C25",
    rule: "some rule was split, rewritten or derived from a nullable, precedenced or sequence rule, or has a given history",
    run,
    quick: 3_000_000,
    thorough: 90_000_000,
    probes: &[],
};

const NULL: u32 = !0;

fn history(src: &mut Src, origin: u32) -> History {
    let mut h = History::new(origin);
    if src.chance(1, 2) {
        h.weight = Some(src.below(5000) as u32);
    }
    if src.chance(1, 3) {
        for d in h.dots.iter_mut() {
            *d = if src.chance(1, 4) { RuleDot::none() } else { RuleDot::new(src.below(9) as u32, src.below(5) as u32) };
        }
    }
    h
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[4, 4, 2, 2, 2]) {
        0 => limits(src, case),
        1 => nulling(src, case),
        2 => builder(src, case),
        3 => precedence(src, case),
        _ => sequence(src, case),
    }
}

/// Splitting: the part with the original left-hand side stands for the rule.
fn limits(src: &mut Src, case: &mut Case) -> Res {
    case.class("limits");
    let g = grammar(src, case, &GP { max_rhs: 7, max_rules: 8, huge: 3000, vast: 20000, far: 20000, ..SMALL });
    let n = g.g.n;
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, n);
    let hs: Vec<History> = (0..g.g.rules.len()).map(|i| history(src, i as u32 + 1)).collect();
    let mut limits: Vec<Option<usize>> = vec![];
    let set = |src: &mut Src, cfg: &mut Cfg, limits: &mut Vec<Option<usize>>| {
        let l = *src.pick(&[Some(2), Some(2), Some(3), Some(4), None]);
        cfg.limit_rhs_len(l);
        limits.push(l);
    };
    if src.chance(1, 2) {
        set(src, &mut cfg, &mut limits);
    }
    for (i, (l, r)) in g.g.rules.iter().enumerate() {
        let (l, r, h) = (sy(*l), sys(r), hs[i]);
        match src.below(4) {
            0 => {
                cfg.add_rule(CfgRule::new(l, r, h));
            }
            1 => {
                cfg.rule(l).history(h).rhs(r);
            }
            2 => {
                cfg.rule(l).rhs_with_history(r, h);
            }
            _ => {
                let mut other = Cfg::new();
                for _ in 0..n {
                    other.next_sym(None);
                }
                other.rule(l).history(h).rhs(r);
                cfg.extend(&other);
            }
        }
        if src.chance(1, 8.max(g.g.rules.len() as u64 / 10)) {
            set(src, &mut cfg, &mut limits);
        }
    }
    if src.chance(1, 2) {
        set(src, &mut cfg, &mut limits);
    }
    case.input = format!("{} histories {:?} limits {limits:?}", g.g.show(), hs.iter().map(|h| (h.origin.id, h.weight)).collect::<Vec<_>>());
    let rules: Vec<CfgRule> = cfg.rules().cloned().collect();
    let mut tops: HashMap<u32, &CfgRule> = HashMap::new();
    let mut helper: HashMap<S, &CfgRule> = HashMap::new();
    for r in &rules {
        if r.lhs.usize() < n {
            ensure!(tops.insert(r.history.origin().id, r).is_none(), "two rules with original LHS have the origin {:?}", r.history.origin());
        } else {
            ensure!(helper.insert(r.lhs.usize(), r).is_none(), "a helper symbol has two rules");
        }
    }
    ensure!(tops.len() == hs.len(), "{} rules have an original LHS, of {}", tops.len(), hs.len());
    let only2 = limits.iter().all(|l| matches!(l, Some(2) | None));
    let never2 = !limits.contains(&Some(2));
    for (h, (l, rhs)) in hs.iter().zip(&g.g.rules) {
        let Some(top) = tops.get(&h.origin.id) else {
            return Err(format!("no rule has the origin {}", h.origin.id));
        };
        ensure!(top.lhs.usize() == *l, "the rule with origin {} has the LHS {}", h.origin.id, top.lhs.usize());
        let mut flat = vec![];
        let mut stack: Vec<S> = top.rhs.iter().rev().map(|s| s.usize()).collect();
        let mut parts = 1;
        while let Some(x) = stack.pop() {
            if x < n {
                flat.push(x);
                continue;
            }
            let Some(r) = helper.get(&x) else {
                return Err(format!("helper symbol {x} has no rule"));
            };
            parts += 1;
            ensure!(parts < 1_000_000, "helper symbols without end");
            ensure!(r.history.weight == h.weight, "a part of the rule with weight {:?} has weight {:?}", h.weight, r.history.weight);
            if only2 {
                ensure!(r.history.origin().is_null(), "a helper rule has the origin {:?}", r.history.origin());
            }
            stack.extend(r.rhs.iter().rev().map(|s| s.usize()));
        }
        ensure!(flat == *rhs, "the rule with origin {} stands for {flat:?}, added was {rhs:?}", h.origin.id);
        let mut want = *h;
        if only2 && parts > 1 {
            // every position of the dot is found once, in its place
            let dot = |pos: usize| RuleDot::new(h.origin.id, pos as u32);
            want.dots = [dot(0), dot(rhs.len() - 1), dot(rhs.len())];
            let mut at = top;
            for pos in (1..rhs.len() - 1).rev() {
                let Some(part) = helper.get(&at.rhs[0].usize()) else {
                    return Err(format!("{:?} is not a helper symbol", at.rhs[0]));
                };
                let none = RuleDot::none();
                ensure!(
                    part.history.dots == [none, dot(pos), none],
                    "the part which completes at {} of the rule with origin {} has the dots {:?}",
                    pos + 1,
                    h.origin.id,
                    part.history.dots
                );
                at = part;
            }
        } else if parts > 1 && !never2 {
            want.dots = top.history.dots;
        }
        ensure!(top.history == want, "history {:?}, added was {h:?}", top.history);
        case.nontrivial |= parts > 1;
    }
    case.class_if(case.nontrivial, "split");
    // once more
    if let Some(l) = limits.last().filter(|_| cfg.rules().count() < 5000) {
        let before: Vec<CfgRule> = cfg.rules().cloned().collect();
        cfg.limit_rhs_len(*l);
        let mut after: Vec<CfgRule> = cfg.rules().cloned().collect();
        for r in &before {
            match after.iter().position(|q| q == r) {
                Some(i) => {
                    after.swap_remove(i);
                }
                None => return Err(format!("setting the same limit again changes {r:?}")),
            }
        }
        ensure!(after.is_empty(), "setting the same limit again adds {after:?}");
    }
    Ok(())
}

/// Eliminating nulling rules: each rule tells which rule it was and what is missing.
fn nulling(src: &mut Src, case: &mut Case) -> Res {
    case.class("nulling");
    let g = grammar(src, case, &SMALL);
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, g.g.n);
    for (i, (l, r)) in g.g.rules.iter().enumerate() {
        let h = history(src, i as u32 + 1);
        cfg.rule(sy(*l)).rhs_with_history(sys(r), h);
    }
    cfg.set_roots(sys(&g.g.roots));
    case.input = g.g.show();
    let twice = src.chance(1, 4);
    if twice {
        // binarized beforehand
        cfg.limit_rhs_len(Some(2));
    }
    let mut b = cfg.clone();
    b.limit_rhs_len(Some(2));
    let base: Vec<CfgRule> = b.rules().cloned().collect();
    let null = from_cfg(&b).nullable();
    let is_null = |s: cfg_symbol::Symbol| null[s.usize()];
    let eliminated = cfg.binarize_and_eliminate_nulling_rules();
    for r in cfg.rules() {
        let h = r.history;
        let ok = base.iter().any(|b| {
            if b.lhs != r.lhs {
                return false;
            }
            if b.rhs == r.rhs && b.history == h {
                return true;
            }
            if r.rhs.len() != 1 || b.rhs.len() != 2 {
                return false;
            }
            if let Some((s, right)) = h.nullable() {
                let full = if right { [r.rhs[0], s] } else { [s, r.rhs[0]] };
                return b.rhs[..] == full && is_null(s) && !is_null(r.rhs[0]) && History { nullable: b.history.nullable, ..h } == b.history;
            }
            b.rhs.iter().all(|s| is_null(*s)) && b.rhs.contains(&r.rhs[0]) && h.origin() == b.history.origin()
        });
        ensure!(ok, "no rule {:?} ::= {:?} with this history can come from the binarized rules: {h:?}", r.lhs, r.rhs);
        case.nontrivial |= h.nullable().is_some();
        case.class_if(h.nullable().is_some_and(|x| x.1), "right symbol eliminated");
        case.class_if(h.nullable().is_some_and(|x| !x.1), "left symbol eliminated");
    }
    for r in eliminated.rules() {
        let ok = base.iter().any(|b| {
            b.lhs == r.lhs && b.rhs == r.rhs && b.rhs.iter().all(|s| is_null(*s)) && b.history.origin() == r.history.origin()
        });
        ensure!(ok, "the eliminated rule {:?} ::= {:?}, origin {:?}, is no binarized rule", r.lhs, r.rhs, r.history.origin());
        case.nontrivial = true;
    }
    // every nullable rule is among the eliminated, with its origin
    for b in base.iter().filter(|b| b.rhs.iter().all(|s| is_null(*s))) {
        let ok = eliminated.rules().any(|r| r.lhs == b.lhs && r.rhs == b.rhs && r.history.origin() == b.history.origin());
        ensure!(ok, "the nullable rule {:?} ::= {:?}, origin {:?}, is not among the eliminated", b.lhs, b.rhs, b.history.origin());
    }
    Ok(())
}

/// Histories given to builders.
fn builder(src: &mut Src, case: &mut Case) -> Res {
    case.class("builder");
    let n = src.range(1, 4);
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, n);
    let mut want: Vec<(S, Vec<S>, History)> = vec![];
    let mut log = String::new();
    let mut pending: Option<History> = None;
    let mut lhs = src.usize(n);
    let mut b = cfg.rule(sy(lhs));
    let steps = src.range(1, 8);
    for i in 0..steps {
        let rhs: Vec<S> = (0..src.range(0, 4)).map(|_| src.usize(n)).collect();
        let op = src.below(6);
        log.push_str(&format!(" {op}:{rhs:?}"));
        match op {
            0 => {
                lhs = src.usize(n);
                b = b.rule(sy(lhs));
                pending = None;
            }
            1 => {
                let h = history(src, 100 + i as u32);
                b = b.history(h);
                pending = Some(h);
            }
            2 | 3 => {
                b = b.rhs(sys(&rhs));
                want.push((lhs, rhs, pending.take().unwrap_or(History::new(0))));
            }
            4 => {
                pending = None;
                let h = history(src, 200 + i as u32);
                b = b.rhs_with_history(sys(&rhs), h);
                want.push((lhs, rhs, h));
            }
            5 => {
                pending = None;
                let w = src.below(4_000_000) as f64 / *src.pick(&[1.0, 4.0, 1000.0, 1024.0]);
                b = b.rhs_with_linked_history(sys(&rhs), LinkedHistoryNode::Weight { weight: w });
                let h = History { weight: Some((w * 1000.0) as u32), ..History::new(0) };
                want.push((lhs, rhs, h));
            }
            _ => {}
        }
    }
    let _ = b;
    case.input = log;
    let got: Vec<(S, Vec<S>, History)> = cfg.rules().map(|r| (r.lhs.usize(), us(&r.rhs), r.history)).collect();
    ensure!(got.len() == want.len(), "{} rules, {} were added", got.len(), want.len());
    for w in &want {
        let a = got.iter().filter(|g| *g == w).count();
        let e = want.iter().filter(|g| *g == w).count();
        ensure!(a == e, "rules {got:?}, expected {want:?}");
    }
    case.nontrivial = want.iter().any(|w| w.2 != History::new(0));
    // the nodes themselves
    let id = src.below(1 << 32) as u32;
    ensure!(History::from(RootHistoryNode::NoOp).origin().is_null(), "NoOp has an origin");
    ensure!(History::from(RootHistoryNode::Origin { origin: id as usize }).origin().id == id, "origin {id} is lost");
    let h = history(src, id);
    let w = src.below(1_000_000) as f64 / 8.0;
    let hw: History = HistoryNodeWeight { prev: h, weight: w }.into();
    ensure!(hw == History { weight: Some((w * 1000.0) as u32), ..h }, "weight {w} on {h:?} gives {hw:?}");
    let hp: History = HistoryNodeAssignPrecedence { prev: h, looseness: src.below(9) as u32 }.into();
    ensure!(hp.origin() == h.origin() && hp.weight == h.weight, "precedence on {h:?} gives {hp:?}");
    Ok(())
}

fn precedence(src: &mut Src, case: &mut Case) -> Res {
    case.class("precedence");
    let n = src.range(3, 6);
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, n);
    let lhs = 0;
    let mut log = String::new();
    let mut want: BTreeMap<u32, (Vec<S>, History)> = BTreeMap::new();
    let mut none = vec![];
    let mut b = cfg.precedenced_rule(sy(lhs));
    let levels = src.range(1, 4);
    for level in 0..levels {
        if level > 0 {
            b = b.lower_precedence();
            log.push_str(" /");
        }
        for _ in 0..src.range(1, 3) {
            let rhs: Vec<S> = loop {
                let r: Vec<S> = (0..src.range(1, 4)).map(|_| if src.chance(1, 3) { lhs } else { src.range(1, n - 1) }).collect();
                if r != [lhs] {
                    break r;
                }
            };
            match src.below(4) {
                0 => b = b.associativity(Associativity::Right),
                1 => b = b.associativity(Associativity::Group),
                2 => b = b.associativity(Associativity::Left),
                _ => {}
            }
            let origin = 10 + want.len() as u32 + none.len() as u32;
            let h = history(src, origin);
            log.push_str(&format!(" {rhs:?}"));
            match src.below(3) {
                0 => {
                    b = b.history(h).rhs(sys(&rhs));
                    want.insert(origin, (rhs, h));
                }
                1 => {
                    if src.chance(1, 3) {
                        // overwritten by the next call
                        b = b.history(history(src, 5000));
                        log.push('!');
                    }
                    b = b.rhs_with_history(sys(&rhs), h);
                    want.insert(origin, (rhs, h));
                }
                _ => {
                    b = b.rhs(sys(&rhs));
                    none.push(rhs);
                }
            }
        }
    }
    b.finalize();
    case.input = log;
    case.nontrivial = !want.is_empty();
    let shape = |r: &[S], a: &[S]| r.len() == a.len() && r.iter().zip(a).all(|(x, y)| if *y == lhs { *x >= n || *x == lhs } else { x == y });
    let mut unnamed = none.clone();
    let mut links = 0;
    for r in cfg.rules() {
        let rhs = us(&r.rhs);
        let o = r.history.origin();
        if o.is_null() {
            ensure!(rhs.len() == 1 && rhs[0] >= n, "the rule {:?} ::= {rhs:?} has no origin", r.lhs);
            links += 1;
        } else if o.id == 0 {
            let Some(i) = unnamed.iter().position(|a| shape(&rhs, a)) else {
                return Err(format!("the rule {:?} ::= {rhs:?} has no history", r.lhs));
            };
            unnamed.swap_remove(i);
            ensure!(r.history == History::new(0), "history {:?}, none was given", r.history);
        } else {
            let Some((a, h)) = want.remove(&o.id) else {
                return Err(format!("the rule {:?} ::= {rhs:?} has the origin {o:?}, which was given to none or to another rule", r.lhs));
            };
            ensure!(shape(&rhs, &a), "the rule {:?} ::= {rhs:?} has the history of {a:?}", r.lhs);
            ensure!(h == r.history, "history {:?}, given was {h:?}", r.history);
        }
    }
    ensure!(want.is_empty() && unnamed.is_empty(), "no rule has the histories {want:?}, or none is left for {unnamed:?}");
    ensure!(links == levels, "{links} linking rules for {levels} levels");
    Ok(())
}

fn sequence(src: &mut Src, case: &mut Case) -> Res {
    case.class("sequence");
    let mut cfg = Cfg::new();
    let n = 4;
    add_syms(src, &mut cfg, n);
    let mut log = String::new();
    for i in 0..src.range(1, 3) {
        let before = cfg.rules().count();
        // one builder makes one or two sequences
        let first = src.usize(2);
        let both = [first, 1 - first];
        let made = &both[..if src.chance(1, 3) { 2 } else { 1 }];
        let mut given: Vec<Option<History>> = vec![];
        let mut b = cfg.sequence(sy(first));
        for (k, &lhs) in made.iter().enumerate() {
            let elem = src.range(2, 3);
            let sep = match src.below(4) {
                0 => Separator::Null,
                1 => Separator::Proper(sy(3)),
                2 => Separator::Trailing(sy(3)),
                _ => Separator::Liberal(sy(3)),
            };
            let start = src.below(9) as u32;
            let end = src.chance(1, 2).then(|| start + src.below(9) as u32);
            let h = src.chance(2, 3).then(|| history(src, 40 + 10 * k as u32 + i as u32));
            log.push_str(&format!(" {lhs} ::= {elem} {sep:?} {start}..{end:?} {h:?}"));
            if k > 0 {
                log.push_str(" by the same builder");
                b = b.sequence(sy(lhs));
            }
            b = b.inclusive(start, end).separator(sep);
            b = match (h, src.below(2)) {
                (Some(h), 0) => b.history(h).rhs(sy(elem)),
                (None, 0) => b.rhs(sy(elem)),
                _ => {
                    if src.chance(1, 3) {
                        // overwritten by the next call
                        b = b.history(history(src, 5000));
                        log.push('!');
                    }
                    b.rhs_with_history(sy(elem), h)
                }
            };
            case.nontrivial |= h.is_some();
            given.push(h);
        }
        drop(b);
        case.input = log.clone();
        case.class_if(made.len() > 1, "two sequences by one builder");
        let rules: Vec<&CfgRule> = cfg.rules().skip(before).collect();
        // The sequence of each rule: a new symbol belongs to the rule that uses it.
        let mut owner: HashMap<S, usize> = made.iter().enumerate().map(|(k, l)| (*l, k)).collect();
        let mut more = true;
        while more {
            more = false;
            for r in &rules {
                let Some(&k) = owner.get(&r.lhs.usize()) else { continue };
                for s in us(&r.rhs) {
                    if s >= n && !owner.contains_key(&s) {
                        owner.insert(s, k);
                        more = true;
                    }
                }
            }
        }
        for r in rules {
            let Some(&k) = owner.get(&r.lhs.usize()) else {
                return Err(format!("the rule {:?} ::= {:?} belongs to no sequence", r.lhs, r.rhs));
            };
            let got = r.history;
            match given[k] {
                Some(h) => ensure!(
                    got.origin() == h.origin() && got.weight == h.weight,
                    "a rule of the sequence with {:?}, weight {:?}, has {:?}, weight {:?}",
                    h.origin(),
                    h.weight,
                    got.origin(),
                    got.weight
                ),
                None => {
                    let want = if r.lhs.usize() == made[k] { 0 } else { NULL };
                    ensure!(got.origin().id == want && got.weight.is_none(), "a rule {:?} ::= {:?} of a sequence without history has {got:?}", r.lhs, r.rhs);
                }
            }
        }
    }
    Ok(())
}

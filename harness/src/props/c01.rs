//! C01: right-hand-side length limit.
use crate::engine::*;
use crate::ensure;
use crate::refg::*;
use cfg_grammar::precedenced_rule::Associativity;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::RootHistoryNode;
use cfg_sequence::{CfgSequenceExt, Separator};
use std::collections::BTreeSet;
use std::fmt::Write;

pub static PROP: Prop = Prop {
    id: "C01",
    rule: "a length limit was in force at some point and at least one rule longer than it was stored (so it had to be split)",
    run,
    quick: 1_000_000,
    thorough: 12_000_000,
    probes: &[],
};

fn compare(cfg: &Cfg, user: &BTreeSet<S>, model: &[(S, Vec<S>)]) -> Res {
    let got = rules_of(cfg);
    let keep = |s: S| user.contains(&s);
    if let Some(flat) = unfold(&got, &keep) {
        if sorted(&flat) == sorted(model) {
            return Ok(());
        }
    }
    // Not simply an inlining: compare the languages of all user symbols.
    let n = from_cfg(cfg).n.max(user.iter().max().map_or(0, |m| m + 1));
    let m = RG { n, rules: model.to_vec(), roots: vec![] };
    let term = m.terminals();
    let Some(letters) = letters_of(user.iter().copied().filter(|&s| term[s])) else {
        return Err(format!(
            "stored rules do not unfold to the added ones: stored {got:?} expected {model:?}"
        ));
    };
    if let Some((a, b)) = lang_pair((n, model), (n, &got), &letters, 12, 3000) {
        for &s in user {
            if let Some(w) = diff(&a.sets[s], &b.sets[s]) {
                return Err(format!(
                    "language of symbol {s} changed: word {} in {} only; stored rules {got:?}, added rules {model:?}",
                    show_word(w, &letters),
                    if a.sets[s].contains(&w) { "the added rules" } else { "the stored rules" },
                ));
            }
        }
    }
    Ok(())
}

fn within(cfg: &Cfg, limit: Option<usize>, op: &str) -> Res {
    let range = cfg.rule_rhs_len_allowed_range();
    ensure!(
        range == (0..limit.unwrap_or(usize::MAX)),
        "after {op}: the allowed lengths are {range:?} under the limit {limit:?}"
    );
    if let Some(l) = limit {
        for r in cfg.rules() {
            ensure!(
                r.rhs.len() <= l,
                "after {op}: rule {:?} has {} symbols, limit {l}",
                rule_pair(r),
                r.rhs.len()
            );
        }
    }
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let mut cfg = Cfg::new();
    let mut log = String::new();
    let mut user: BTreeSet<S> = BTreeSet::new();
    let mut model: Vec<(S, Vec<S>)> = vec![];
    let mut limit: Option<usize> = None;
    let mut roots: Vec<S> = vec![];
    let first = src.range(2, 6);
    add_syms(src, &mut cfg, first);
    user.extend(0..first);
    let ops = src.range(2, 14);
    let mut model_on = true;
    let mut split = false;
    let mut origin = 0usize;
    let draw_rhs = |src: &mut Src, user: &BTreeSet<S>| -> Vec<S> {
        let us: Vec<S> = user.iter().copied().collect();
        let len = match src.weighted(&[60, 30, 8, 2]) {
            0 => src.range(0, 4),
            1 => src.range(3, 9),
            2 => src.range(8, 40),
            _ => src.range(40, 300),
        };
        (0..len).map(|_| *src.pick(&us)).collect()
    };
    for step in 0..ops {
        let us: Vec<S> = user.iter().copied().collect();
        let op = src.weighted(&[30, 20, 20, 8, 6, 5, 4, 4, 3, if step + 1 == ops { 6 } else { 0 }]);
        let mut what = String::new();
        match op {
            0 => {
                let lhs = *src.pick(&us);
                let rhs = draw_rhs(src, &user);
                let before = cfg.rules().count();
                origin += 1;
                let h = if src.chance(1, 2) {
                    RootHistoryNode::Origin { origin }.into()
                } else {
                    some_history(src.below(1 << 20), lhs)
                };
                let parts = cfg.add_rule(CfgRule::new(sy(lhs), sys(&rhs), h));
                let added = cfg.rules().count() - before;
                what = format!("add_rule({lhs}, {rhs:?})");
                ensure!(
                    parts as usize == added,
                    "{what} with limit {limit:?} returned {parts}, stored {added} rules"
                );
                ensure!(added >= 1, "{what} with limit {limit:?} stored nothing");
                ensure!(
                    limit.is_some_and(|l| rhs.len() > l) || added == 1,
                    "{what} with limit {limit:?} fits the limit but was stored as {added} rules"
                );
                split |= added > 1;
                model.push((lhs, rhs));
            }
            1 => {
                let lhs = *src.pick(&us);
                let alts = src.range(1, 3);
                let rs: Vec<Vec<S>> = (0..alts).map(|_| draw_rhs(src, &user)).collect();
                let mut b = cfg.rule(sy(lhs));
                for r in &rs {
                    b = if src.chance(1, 2) {
                        b.rhs(sys(r))
                    } else {
                        b.rhs_with_history(sys(r), some_history(src.below(1 << 20), lhs))
                    };
                    model.push((lhs, r.clone()));
                    split |= limit.is_some_and(|l| r.len() > l);
                }
                let _ = b;
                let _ = write!(what, "rule({lhs}).rhs{rs:?}");
            }
            2 => {
                let l = match src.weighted(&[5, 3, 2, 1]) {
                    0 => Some(2),
                    1 => Some(src.range(3, 5)),
                    2 => None,
                    _ => Some(src.range(6, 12)),
                };
                cfg.limit_rhs_len(l);
                what = format!("limit_rhs_len({l:?})");
                limit = l;
                if let Some(l) = l {
                    split |= model.iter().any(|r| r.1.len() > l);
                }
                // idempotence
                let once = (sorted(&rules_of(&cfg)), cfg.num_syms());
                let mut again = cfg.clone();
                again.limit_rhs_len(l);
                let twice = (sorted(&rules_of(&again)), again.num_syms());
                ensure!(
                    once == twice,
                    "{what} is not idempotent: first {once:?}, second {twice:?}"
                );
                if src.chance(1, 4) {
                    cfg = again;
                }
            }
            3 => {
                let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
                let k = src.range(1, 4);
                let mut added = vec![];
                // the other grammar may have its own limit
                let own = if src.chance(1, 2) { Some(*src.pick(&[2, 3, 4, 9, 40])) } else { None };
                let first_rules = src.chance(1, 2);
                if !first_rules {
                    other.limit_rhs_len(own);
                }
                for _ in 0..k {
                    let lhs = *src.pick(&us);
                    let rhs = draw_rhs(src, &user);
                    if src.chance(1, 2) {
                        other.rule(sy(lhs)).rhs(sys(&rhs));
                    } else {
                        other.rule(sy(lhs)).rhs_with_history(sys(&rhs), some_history(src.below(1 << 20), lhs));
                    }
                    split |= limit.is_some_and(|l| rhs.len() > l);
                    added.push((lhs, rhs));
                }
                if first_rules {
                    other.limit_rhs_len(own);
                }
                while cfg.num_syms() < other.num_syms() {
                    cfg.next_sym(None);
                }
                cfg.extend(&other);
                what = format!("extend({added:?} under the limit {own:?})");
                case.class_if(own.is_some() && limit.is_some() && own != limit, "extended by a grammar under another limit");
                model.extend(added);
                case.class("extend");
            }
            4 => {
                let k = src.range(1, 3);
                for _ in 0..k {
                    user.insert(cfg.next_sym(None).usize());
                }
                what = format!("{k} new symbols");
            }
            5 => {
                cfg.reverse();
                for r in &mut model {
                    r.1.reverse();
                }
                what = "reverse".into();
            }
            6 => {
                cfg.sort();
                what = "sort".into();
            }
            7 => {
                roots = vec![*src.pick(&us)];
                cfg.set_roots(sys(&roots));
                what = format!("set_roots({roots:?})");
            }
            8 => {
                cfg.wrap_input();
                for w in cfg.wrapped_roots() {
                    for s in [w.root, w.start_of_input, w.end_of_input] {
                        user.insert(s.usize());
                    }
                    model.push((
                        w.root.usize(),
                        vec![w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()],
                    ));
                    split |= limit.is_some_and(|l| l < 3);
                }
                roots = us_of(cfg.roots());
                what = "wrap_input".into();
            }
            _ => {
                // rules made by other builders: only the length invariant
                let a = *src.pick(&us);
                let b = *src.pick(&us);
                let c = *src.pick(&us);
                if src.chance(1, 2) {
                    let lo = src.range(0, 5) as u32;
                    let hi = if src.chance(1, 2) { None } else { Some(lo + src.range(0, 5) as u32) };
                    let sep = match src.usize(4) {
                        0 => Separator::Null,
                        1 => Separator::Proper(sy(c)),
                        2 => Separator::Trailing(sy(c)),
                        _ => Separator::Liberal(sy(c)),
                    };
                    cfg.sequence(sy(a)).separator(sep).inclusive(lo, hi).rhs(sy(b));
                    what = format!("sequence({a}) {sep:?} {lo}..={hi:?} of {b}");
                } else {
                    let r = draw_rhs(src, &user);
                    let assoc = *src.pick(&[Associativity::Left, Associativity::Right, Associativity::Group]);
                    cfg.precedenced_rule(sy(a))
                        .rhs(sys(&r))
                        .lower_precedence()
                        .associativity(assoc)
                        .rhs(sys(&r))
                        .finalize();
                    what = format!("precedenced_rule({a}) {r:?} twice");
                }
                model_on = false;
            }
        }
        let _ = write!(log, "{what}; ");
        case.input = log.clone();
        within(&cfg, limit, &what)?;
        ensure!(
            us_of(cfg.roots()) == roots,
            "{what} changed the roots from {roots:?} to {:?}",
            cfg.roots()
        );
        if model_on {
            compare(&cfg, &user, &model).map_err(|e| format!("after {what}: {e}"))?;
        }
    }
    case.nontrivial = split;
    case.class_if(split, "a rule was split");
    case.class_if(model.iter().any(|r| r.1.len() > 40), "rule longer than 40");
    Ok(())
}

fn us_of(v: &[cfg_symbol::Symbol]) -> Vec<S> {
    us(v)
}

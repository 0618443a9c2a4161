//! C13: precedenced rules.
use crate::engine::*;
use crate::ensure;
use crate::refg::*;
use cfg_grammar::Cfg;
use cfg_grammar::precedenced_rule::{Associativity, PrecedencedRuleBuilder};
use cfg_grammar::rule_builder::RuleBuilder;
use cfg_history::RootHistoryNode;

pub static PROP: Prop = Prop {
    id: "C13",
    rule: "at least two precedence levels, with a recursive alternative, and a non-empty bounded language",
    run,
    quick: 150_000,
    thorough: 1_800_000,
    probes: &[],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
    Left,
    Right,
    Group,
}

struct Prec {
    lhs: S,
    /// tightest first
    levels: Vec<Vec<(A, Vec<S>)>>,
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    if src.chance(1, 400) {
        return tower(src, case);
    }
    let nt = src.range(1, 3);
    let t = src.range(2, 5);
    let n = nt + t;
    let sym = |src: &mut Src, lhs: S, bias: u64| -> S {
        match src.weighted(&[bias, 6, 1]) {
            0 => lhs,
            1 => nt + src.usize(t),
            _ => src.usize(nt),
        }
    };
    let mut plain: Vec<(S, Vec<S>)> = vec![];
    for a in 1..nt {
        for _ in 0..src.range(1, 2) {
            let len = src.range(0, 3);
            plain.push((a, (0..len).map(|_| sym(src, 0, 3)).collect()));
        }
    }
    let nprec = src.weighted(&[6, 2]) + 1;
    let mut precs = vec![];
    for i in 0..nprec {
        let lhs = if i == 0 { 0 } else { src.usize(nt) };
        let nl = if src.chance(1, 60) { src.range(5, 12) } else { src.weighted(&[1, 3, 4, 2]) + 1 };
        let mut levels = vec![];
        for l in 0..nl {
            let k = if src.chance(1, 200) { src.range(4, 9) } else { src.weighted(&[1, 6, 4, 1]) };
            let mut alts = vec![];
            for j in 0..k {
                let a = match src.weighted(&[6, 4, 2]) {
                    0 => A::Left,
                    1 => A::Right,
                    _ => A::Group,
                };
                let rhs: Vec<S> = if l == 0 && j == 0 && src.chance(3, 4) {
                    vec![nt + src.usize(t)]
                } else {
                    match src.weighted(&[4, 2, 2, 1, 3]) {
                        0 => vec![lhs, nt + src.usize(t), lhs],
                        1 => vec![nt + src.usize(t), lhs],
                        2 => vec![lhs, nt + src.usize(t)],
                        3 => vec![lhs, nt + src.usize(t), lhs, nt + src.usize(t), lhs],
                        _ => {
                            let len = if src.chance(1, 30) { src.range(5, 9) } else { src.range(0, 4) };
                            (0..len).map(|_| sym(src, lhs, 5)).collect()
                        }
                    }
                };
                if rhs == [lhs] {
                    continue;
                }
                alts.push((a, rhs));
            }
            levels.push(alts);
        }
        precs.push(Prec { lhs, levels });
    }
    let limit = if src.chance(1, 6) { Some(src.range(2, 3)) } else { None };
    // build
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, n);
    cfg.limit_rhs_len(limit);
    let mut input = format!("{nt} nonterminals, {t} terminals, limit {limit:?}; ");
    let order = src.below(3);
    let chained = src.chance(1, 2);
    let assoc_early = src.chance(1, 4);
    if order != 1 {
        for (l, r) in &plain {
            cfg.rule(sy(*l)).rhs(sys(r));
        }
    }
    let mut model = plain.clone();
    let mut next = n;
    {
        enum Either<'a> {
            R(RuleBuilder<'a>),
            P(PrecedencedRuleBuilder<'a>),
        }
        let mut either = Either::R(RuleBuilder::new(&mut cfg));
        for p in &precs {
            input.push_str(&format!("{} ::= ", p.lhs));
            let mut b = match either {
                Either::R(rb) => rb.precedenced_rule(sy(p.lhs)),
                Either::P(b) => b.precedenced_rule(sy(p.lhs)),
            };
            for (l, alts) in p.levels.iter().enumerate() {
                let mut pending = None;
                if l > 0 {
                    if assoc_early && !alts.is_empty() {
                        b = b.associativity(conv(alts[0].0));
                        pending = Some(());
                    }
                    b = b.lower_precedence();
                    input.push_str("|> ");
                }
                for (i, (a, rhs)) in alts.iter().enumerate() {
                    input.push_str(&format!("{a:?}{rhs:?} "));
                    if (*a != A::Left || src.chance(1, 3)) && !(i == 0 && pending.is_some()) {
                        b = b.associativity(conv(*a));
                    }
                    b = match src.weighted(&[8, 1, 1]) {
                        0 => b.rhs(sys(rhs)),
                        1 => b.history(RootHistoryNode::NoOp.into()).rhs(sys(rhs)),
                        _ => b.rhs_with_history(sys(rhs), RootHistoryNode::Rule { lhs: sy(p.lhs) }.into()),
                    };
                }
            }
            reference(p, &mut next, &mut model);
            input.push_str("; ");
            if src.chance(1, 4) {
                // straight on to the next precedenced rule
                either = Either::P(b);
                continue;
            }
            let mut rb = if chained {
                b.rule(sy(p.lhs))
            } else {
                b.finalize()
            };
            if src.chance(1, 5) {
                // the builder goes on with plain rules for the same LHS
                let r: Vec<S> = vec![nt + src.usize(t), nt];
                input.push_str(&format!("plain {} ::= {r:?}; ", p.lhs));
                rb = rb.rhs(sys(&r));
                model.push((p.lhs, r));
            }
            either = Either::R(rb);
        }
        if let Either::P(b) = either {
            b.finalize();
        }
    }
    if order == 1 {
        for (l, r) in &plain {
            cfg.rule(sy(*l)).rhs(sys(r));
        }
    }
    input.push_str(&format!("plain {plain:?}"));
    case.input = input;
    let got = from_cfg(&cfg);
    if let Some(l) = limit {
        ensure!(got.rules.iter().all(|r| r.1.len() <= l), "a rule is longer than the limit: {}", got.show());
    }
    let letters = letters_of((0..n).filter(|&i| !model.iter().any(|r| r.0 == i))).unwrap();
    let Some((a, b)) = lang_pair((next, &model), (got.n, &got.rules), &letters, 9, 1200) else {
        case.class("languages too large to compare");
        return Ok(());
    };
    let deep = precs.iter().any(|p| p.levels.len() > 1);
    let rec = precs.iter().any(|p| p.levels.iter().flatten().any(|x| x.1.contains(&p.lhs)));
    case.nontrivial = deep && rec && !a.sets[0].is_empty();
    case.class_if(a.k >= 5, "compared to length 5 or more");
    case.class_if(precs.iter().any(|p| p.levels.iter().flatten().any(|x| x.0 == A::Group && x.1.contains(&p.lhs))), "group");
    for s in 0..n {
        if let Some(w) = diff(&a.sets[s], &b.sets[s]) {
            return Err(format!(
                "symbol {s}: the word {} is {}; rules {}",
                show_word(w, &letters),
                if a.sets[s].contains(&w) { "allowed but not derived" } else { "derived but not allowed" },
                got.show()
            ));
        }
    }
    // The structure: as many trees as the constraints allow, word by word.
    let inv: std::collections::HashMap<usize, S> = letters.iter().map(|(s, c)| (*c, *s)).collect();
    let mut words: Vec<W> = a.sets[0].iter().copied().collect();
    words.sort_by_key(|w| (wlen(*w), *w));
    let term_m: Vec<bool> = (0..next).map(|s| letters.contains_key(&s)).collect();
    let term_g: Vec<bool> = (0..got.n).map(|s| letters.contains_key(&s)).collect();
    let step = (words.len() / 8).max(1);
    let mut compared = 0;
    let mut tested: Vec<W> = words.iter().copied().step_by(step).collect();
    tested.extend(words.iter().rev().take(3));
    for w in tested {
        let word: Vec<S> = wletters(w).iter().map(|c| inv[c]).collect();
        let cm = TreeCounter::new(&model, &term_m, &word).count(0, 0, word.len());
        let cg = TreeCounter::new(&got.rules, &term_g, &word).count(0, 0, word.len());
        let (Some(cm), Some(cg)) = (cm, cg) else {
            continue;
        };
        ensure!(
            cm == cg,
            "the word {word:?} has {cg} derivation trees, the precedence constraints allow {cm}; rules {}",
            got.show()
        );
        compared += 1;
    }
    case.count("words with tree counts compared", compared);
    case.count("words compared", a.sets[0].len() as u64);
    Ok(())
}

/// Adds to `model` the rules that a precedenced definition stands for.
fn reference(p: &Prec, next: &mut usize, model: &mut Vec<(S, Vec<S>)>) {
    // reference: no unit chains; level l node contains alternatives of levels <= l
    let m = p.levels.len();
    let base = *next;
    *next += m;
    for l in 0..m {
        for (k, alts) in p.levels.iter().enumerate().take(l + 1) {
            for (a, rhs) in alts {
                let occ: Vec<usize> = (0..rhs.len()).filter(|&i| rhs[i] == p.lhs).collect();
                let mut r = rhs.clone();
                for (j, &i) in occ.iter().enumerate() {
                    let same = match a {
                        A::Left => j == 0,
                        A::Right => j + 1 == occ.len(),
                        A::Group => false,
                    };
                    r[i] = if *a == A::Group {
                        base + m - 1
                    } else if same {
                        base + k
                    } else {
                        base + k.saturating_sub(1)
                    };
                }
                model.push((base + l, r));
            }
        }
    }
    model.push((p.lhs, vec![base + m - 1]));
}

/// Many levels, alternatives or operands.
fn tower(src: &mut Src, case: &mut Case) -> Res {
    let (nl, alts_max, operands) = match src.below(4) {
        0 | 1 => (src.range(12, 70), 2, 3),
        2 => (src.range(1, 3), src.range(8, 70), 3),
        _ => (src.range(1, 4), 3, src.range(8, 40)),
    };
    let lhs = 0;
    let atom = 1;
    let mut next = 2;
    let mut levels: Vec<Vec<(A, Vec<S>)>> = vec![vec![(A::Left, vec![atom])]];
    for _ in 0..nl {
        let mut alts = vec![];
        for _ in 0..src.range(1, alts_max) {
            let a = *src.pick(&[A::Left, A::Right, A::Group]);
            let k = if src.chance(1, 2) { src.range(1, 2) } else { src.range(1, operands) };
            let op = next;
            next += 1;
            let mut rhs = vec![];
            if src.chance(1, 3) {
                rhs.push(op);
            }
            for i in 0..k {
                if i > 0 {
                    rhs.push(op);
                }
                rhs.push(lhs);
            }
            if k == 1 && rhs.len() == 1 || src.chance(1, 5) {
                rhs.push(op);
            }
            alts.push((a, rhs));
        }
        levels.push(alts);
    }
    let n = next;
    let p = Prec { lhs, levels };
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, n);
    let limit = if src.chance(1, 6) { Some(src.range(2, 3)) } else { None };
    cfg.limit_rhs_len(limit);
    let mut b = cfg.precedenced_rule(sy(lhs));
    for (l, alts) in p.levels.iter().enumerate() {
        if l > 0 {
            b = b.lower_precedence();
        }
        for (a, rhs) in alts {
            b = b.associativity(conv(*a)).rhs(sys(rhs));
        }
    }
    b.finalize();
    let mut model = vec![];
    reference(&p, &mut next, &mut model);
    let got = from_cfg(&cfg);
    // words: some alternative with others in it
    let all: Vec<&(A, Vec<S>)> = p.levels.iter().flatten().collect();
    fn expand(src: &mut Src, all: &[&(A, Vec<S>)], ops: usize, w: &mut Vec<S>, budget: &mut usize) {
        if ops == 0 || *budget == 0 || src.chance(1, 4) {
            w.push(1);
            return;
        }
        let r = &src.pick(all).1;
        *budget -= 1;
        for &x in r {
            if x == 0 {
                expand(src, all, ops - 1, w, budget);
            } else {
                w.push(x);
            }
        }
    }
    let term_m: Vec<bool> = (0..next).map(|s| (1..n).contains(&s)).collect();
    let term_g: Vec<bool> = (0..got.n).map(|s| (1..n).contains(&s)).collect();
    case.class("many levels, alternatives or operands");
    case.input = format!("limit {limit:?}, levels {:?}", p.levels);
    for _ in 0..6 {
        let mut w = vec![];
        let r = &src.pick(&all).1;
        let mut budget = 2;
        for &x in r {
            if x == lhs {
                expand(src, &all, 2, &mut w, &mut budget);
            } else {
                w.push(x);
            }
        }
        if w.len() > 100 || w.len() > 40 && nl > 4 {
            continue;
        }
        case.input = format!("limit {limit:?}, levels {:?}, word {w:?}", p.levels);
        let cm = TreeCounter::new(&model, &term_m, &w).count(lhs, 0, w.len());
        let cg = TreeCounter::new(&got.rules, &term_g, &w).count(lhs, 0, w.len());
        let (Some(cm), Some(cg)) = (cm, cg) else { continue };
        ensure!(cm == cg, "the word has {cg} derivation trees, the precedence constraints allow {cm}");
        case.nontrivial |= cm > 0 && w.len() > 2;
        case.count("words of large definitions compared", 1);
    }
    Ok(())
}

fn conv(a: A) -> Associativity {
    match a {
        A::Left => Associativity::Left,
        A::Right => Associativity::Right,
        A::Group => Associativity::Group,
    }
}

//! C18: basic BNF texts are loaded faithfully.
use crate::engine::*;
use crate::ensure;
use crate::refg::*;
use crate::text::*;
use cfg_grammar::Cfg;
use cfg_load::CfgLoadExt;
use std::collections::{HashMap, HashSet};

pub static PROP: Prop = Prop {
    id: "C18",
    rule: "the text has two or more rules and a repetition or an alternation",
    run,
    quick: 700_000,
    thorough: 10_500_000,
    probes: &[],
};

pub fn decls(src: &mut Src, names: &[String], max: usize) -> Vec<Decl> {
    let k = src.range(1, max);
    (0..k)
        .map(|_| {
            let lhs = src.pick(names).clone();
            if src.chance(1, 10) {
                return Decl { lhs, alts: vec![Alt { frags: vec![], action: None }] };
            }
            let n = src.weighted(&[5, 3, 2]) + 1;
            let alts = (0..n)
                .map(|_| {
                    let m = match src.weighted(&[400, 36, 1]) {
                        0 => src.range(1, 4),
                        1 => src.range(4, 9),
                        _ => src.range(10, 300),
                    };
                    let frags = (0..m)
                        .map(|_| match src.weighted(&[8, 2, 2, 1]) {
                            0 => Frag::Id(src.pick(names).clone(), Rep::One),
                            1 => Frag::Id(src.pick(names).clone(), Rep::Star),
                            2 => Frag::Id(src.pick(names).clone(), Rep::Plus),
                            _ => Frag::Unit,
                        })
                        .collect();
                    Alt { frags, action: None }
                })
                .collect();
            Decl { lhs, alts }
        })
        .collect()
}

/// `helper` derives exactly the repetitions of `elem`, `min` or more.
pub fn check_repetition(g: &RG, named: &dyn Fn(S) -> bool, helper: S, elem: S, min: usize) -> Res {
    ensure!(!named(helper), "a repetition is a named symbol");
    let rules: Vec<(S, Vec<S>)> = g.rules.iter().filter(|r| !named(r.0)).cloned().collect();
    let mut seen: HashSet<S> = HashSet::new();
    let mut stack = vec![helper];
    while let Some(x) = stack.pop() {
        if !seen.insert(x) {
            continue;
        }
        if x == elem {
            continue;
        }
        ensure!(!named(x), "a repetition of symbol {elem} contains symbol {x}");
        let mut any = false;
        for r in rules.iter().filter(|r| r.0 == x) {
            any = true;
            stack.extend(r.1.iter().copied());
        }
        ensure!(any, "helper symbol {x} has no rule");
    }
    // element counts derivable, up to a bound
    const K: usize = 5;
    let mut sets: HashMap<S, HashSet<usize>> = HashMap::new();
    sets.insert(elem, HashSet::from([1]));
    loop {
        let mut changed = false;
        for (l, r) in rules.iter().filter(|r| seen.contains(&r.0) && r.0 != elem) {
            let mut cur: HashSet<usize> = HashSet::from([0]);
            for x in r {
                let e = sets.get(x).cloned().unwrap_or_default();
                cur = cur.iter().flat_map(|a| e.iter().map(move |b| a + b)).filter(|c| *c <= K).collect();
            }
            let s = sets.entry(*l).or_default();
            for c in cur {
                changed |= s.insert(c);
            }
        }
        if !changed {
            break;
        }
    }
    let got = sets.get(&helper).cloned().unwrap_or_default();
    let want: HashSet<usize> = (min..=K).collect();
    ensure!(got == want, "repetition of symbol {elem}: derives {got:?} times, expected {min} or more");
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let huge = src.chance(1, 2000);
    case.class_if(huge, "hundreds of names and rules");
    let k = if huge { src.range(50, 400) } else { src.range(1, 7) };
    let names = names(src, k);
    let ds = decls(src, &names, if huge { 400 } else { 6 });
    let mut toks = vec![];
    for d in &ds {
        decl_tokens(d, false, &mut toks);
    }
    let (text, _) = render(src, &toks);
    case.input = text.clone();
    let frags = || ds.iter().flat_map(|d| &d.alts).flat_map(|a| &a.frags);
    let reps = frags().any(|f| matches!(f, Frag::Id(_, Rep::Plus | Rep::Star)));
    case.nontrivial = ds.len() >= 2 && (reps || ds.iter().any(|d| d.alts.len() > 1));
    case.class_if(reps, "repetition");
    case.class_if(frags().any(|f| matches!(f, Frag::Unit)), "empty parentheses");
    case.class_if(ds.iter().any(|d| d.alts[0].frags.is_empty()), "empty right-hand side");
    let cfg = Cfg::load(&text).map_err(|e| format!("a valid text is rejected: {e}"))?;
    let g = from_cfg(&cfg);
    let ss = cfg.sym_source();
    let named = |s: S| s < cfg.num_syms() && ss.original_name_of(sy(s)).is_some();
    // names
    let mut by_name: HashMap<&str, S> = HashMap::new();
    for s in 0..cfg.num_syms() {
        if let Some(n) = ss.original_name_of(sy(s)) {
            ensure!(by_name.insert(n, s).is_none(), "two symbols are called {n}");
        }
    }
    let mut expected: HashSet<&str> = HashSet::new();
    for t in &toks {
        if let Tok::Id(s) = t {
            expected.insert(s);
        }
    }
    let have: HashSet<&str> = by_name.keys().copied().collect();
    ensure!(have == expected, "symbol names {have:?}, the text has {expected:?}");
    // rules
    let mut want: Vec<(&Decl, &Alt)> = vec![];
    for d in &ds {
        for a in &d.alts {
            want.push((d, a));
        }
    }
    let own: Vec<_> = cfg.rules().filter(|r| named(r.lhs.usize())).collect();
    ensure!(own.len() == want.len(), "{} rules for {} alternatives", own.len(), want.len());
    for (i, (r, (d, a))) in own.iter().zip(&want).enumerate() {
        ensure!(r.lhs.usize() == by_name[&d.lhs[..]], "rule {i}: LHS is {}", ss.name_of(r.lhs));
        ensure!(r.history.origin().id as usize == i + 1, "rule {i} has origin {:?}", r.history.origin());
        let ids: Vec<(&String, Rep)> = a
            .frags
            .iter()
            .filter_map(|f| match f {
                Frag::Id(s, r) => Some((s, *r)),
                _ => None,
            })
            .collect();
        ensure!(r.rhs.len() == ids.len(), "rule {i} has {} symbols, expected {}", r.rhs.len(), ids.len());
        for (x, (name, rep)) in r.rhs.iter().zip(ids) {
            let elem = by_name[&name[..]];
            match rep {
                Rep::One => ensure!(x.usize() == elem, "rule {i}: {} in place of {name}", ss.name_of(*x)),
                Rep::Star => check_repetition(&g, &named, x.usize(), elem, 0)?,
                Rep::Plus => check_repetition(&g, &named, x.usize(), elem, 1)?,
            }
        }
    }
    ensure!(us(cfg.roots()) == vec![by_name[&ds[0].lhs[..]]], "roots are {:?}", cfg.roots());
    ensure!(g.n == cfg.num_syms(), "rules use symbols the source never produced");
    // the symbols can be told apart from new ones
    let mut cfg = cfg;
    let fresh = cfg.next_sym(None).usize();
    ensure!(fresh == g.n, "next symbol {fresh} after {} symbols", g.n);
    Ok(())
}

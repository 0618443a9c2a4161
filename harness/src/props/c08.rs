//! C08: minimal distances.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_predict_distance::{DistanceDirection, MinimalDistance};

pub static PROP: Prop = Prop {
    id: "C08",
    rule: "some dot position in a rule without a target, or before a nonterminal containing a target, has a distance",
    run,
    quick: 2_700_000,
    thorough: 27_000_000,
    probes: &[],
};

type D = Option<u64>;

fn lower(x: &mut D, v: D) -> bool {
    match (*x, v) {
        (_, None) => false,
        (None, Some(_)) => {
            *x = v;
            true
        }
        (Some(a), Some(b)) => {
            if b < a {
                *x = v;
                true
            } else {
                false
            }
        }
    }
}

fn add(a: D, b: D) -> D {
    Some(a? + b?)
}

/// Minimal number of terminals passed going forward from each dot position to
/// a target: across symbols (their shortest sentence), into a predicted
/// symbol's rules, and out of a finished rule to every place its LHS occurs.
pub fn forward(g: &RG, targets: &[(usize, usize)]) -> Vec<Vec<D>> {
    let term = g.terminals();
    let len = g.min_cost(&term.iter().map(|&t| if t { Some(1) } else { None }).collect::<Vec<_>>());
    let targets: std::collections::HashSet<(usize, usize)> = targets.iter().copied().collect();
    let is_target = |r: usize, p: usize| targets.contains(&(r, p));
    // inside[A]: shortest way from the start of A to a target inside A
    let mut inside: Vec<D> = vec![None; g.n];
    loop {
        let mut ch = false;
        for (i, (l, r)) in g.rules.iter().enumerate() {
            let mut d: D = None;
            for p in (0..=r.len()).rev() {
                if p < r.len() {
                    d = add(d, len[r[p]]);
                    lower(&mut d, inside[r[p]]);
                }
                if is_target(i, p) {
                    d = Some(0);
                }
            }
            ch |= lower(&mut inside[*l], d);
        }
        if !ch {
            break;
        }
    }
    let mut dist: Vec<Vec<D>> = g.rules.iter().map(|(_, r)| vec![None; r.len() + 1]).collect();
    let mut after: Vec<D> = vec![None; g.n];
    loop {
        let mut ch = false;
        for (i, (l, r)) in g.rules.iter().enumerate() {
            let mut d: D = after[*l];
            for p in (0..=r.len()).rev() {
                if p < r.len() {
                    d = add(d, len[r[p]]);
                    lower(&mut d, inside[r[p]]);
                }
                if is_target(i, p) {
                    d = Some(0);
                }
                ch |= lower(&mut dist[i][p], d);
                if p > 0 {
                    ch |= lower(&mut after[r[p - 1]], d);
                }
            }
        }
        if !ch {
            return dist;
        }
    }
}

pub fn backward(g: &RG, targets: &[(usize, usize)]) -> Vec<Vec<D>> {
    let rev = g.reversed();
    let t: Vec<(usize, usize)> = targets
        .iter()
        .map(|&(r, p)| (r, g.rules[r].1.len() - p))
        .collect();
    let mut d = forward(&rev, &t);
    for v in &mut d {
        v.reverse();
    }
    d
}

/// Numbers beyond 32 bits count as the greatest 32-bit number.
pub fn capped(v: Vec<Vec<D>>) -> Vec<Vec<D>> {
    v.into_iter().map(|r| r.into_iter().map(|d| d.map(|x| x.min(u32::MAX as u64))).collect()).collect()
}

pub fn symmetric(g: &RG, targets: &[(usize, usize)]) -> Vec<Vec<D>> {
    let mut f = forward(g, targets);
    let b = backward(g, targets);
    for (x, y) in f.iter_mut().zip(b) {
        for (p, q) in x.iter_mut().zip(y) {
            lower(p, q);
        }
    }
    f
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let productive = src.chance(1, 2);
    let g = grammar(src, case, &GP { max_nt: 6, max_t: 3, max_rules: 10, productive, huge: 2000, far: 20000, ..SMALL });
    let rg = &g.g;
    let k = src.range(1, 3);
    let targets: Vec<(usize, usize)> = (0..k)
        .map(|_| {
            let r = src.usize(rg.rules.len());
            (r, src.usize(rg.rules[r].1.len() + 1))
        })
        .collect();
    case.input = format!("{} targets {targets:?}", rg.show());
    let mut cfg = to_cfg(rg);
    for (name, dir, want) in [
        ("Forward", DistanceDirection::Forward, capped(forward(rg, &targets))),
        ("Backward", DistanceDirection::Backward, capped(backward(rg, &targets))),
        ("Symmetric", DistanceDirection::Symmetric, capped(symmetric(rg, &targets))),
    ] {
        let mut md = MinimalDistance::new(&cfg);
        let got: Vec<Vec<D>> = md
            .minimal_distances(&targets, dir)
            .iter()
            .map(|v| v.iter().map(|d| d.map(|x| x as u64)).collect())
            .collect();
        for i in 0..rg.rules.len() {
            ensure!(
                got[i] == want[i],
                "{name} distances of rule {i} {:?} to {targets:?}: {:?}, expected {:?}",
                rg.rules[i], got[i], want[i]
            );
        }
        ensure!(got.len() == want.len(), "{} rows for {} rules", got.len(), want.len());
        case.nontrivial |= (0..rg.rules.len())
            .any(|i| want[i].iter().any(|d| d.is_some()) && !targets.iter().any(|t| t.0 == i));
    }
    // least values over derivations
    let term = rg.terminals();
    let mut seed: Vec<Option<u64>> = vec![None; rg.n];
    for s in 0..rg.n {
        if term[s] {
            seed[s] = if src.chance(1, 10) { None } else { Some(src.below(9)) };
        } else if src.chance(1, 8) {
            seed[s] = Some(src.below(30));
        }
    }
    for (l, r) in &rg.rules {
        if r.is_empty() {
            seed[*l] = Some(0);
        }
    }
    let want = rg.min_cost(&seed);
    let mut got: Vec<Option<u32>> = seed.iter().map(|v| v.map(|x| x as u32)).collect();
    cfg.rhs_closure_with_values(&mut got);
    let got: Vec<Option<u64>> = got.into_iter().map(|v| v.map(|x| x as u64)).collect();
    let want: Vec<Option<u64>> = want.into_iter().map(|v| v.map(|x| x.min(u32::MAX as u64))).collect();
    case.class_if(want.iter().flatten().any(|&x| x > 65535), "values beyond 16 bits");
    case.class_if(want.contains(&Some(u32::MAX as u64)), "values beyond 32 bits");
    ensure!(
        got == want,
        "rhs_closure_with_values from {seed:?} gives {got:?}, expected {want:?}"
    );
    let prod = rg.productive(&term);
    case.class_if(rg.used().iter().zip(&prod).any(|(u, p)| *u && !*p), "unproductive symbols");
    Ok(())
}

//! C09: recursion analysis.
use super::c08::{capped, symmetric};
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_classify::CfgClassifyExt;

pub static PROP: Prop = Prop {
    id: "C09",
    rule: "the grammar has at least one recursive and at least one non-recursive rule",
    run,
    quick: 1_500_000,
    thorough: 45_000_000,
    probes: &[],
};

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_nt: 7, max_rhs: 6, huge: 2000, ..SMALL });
    let rg = &g.g;
    case.input = rg.show();
    let plus = rg.reach_plus();
    let mut want = vec![];
    let mut targets = vec![];
    for (i, (l, r)) in rg.rules.iter().enumerate() {
        let rec: Vec<bool> = r.iter().map(|&x| plus[x][*l]).collect();
        for (p, b) in rec.iter().enumerate() {
            if *b {
                targets.push((i, p));
            }
        }
        if rec.iter().any(|b| *b) {
            let n = rec.len();
            let kind = (
                rec[0],
                n > 2 && rec[1..n - 1].iter().any(|b| *b),
                rec[n - 1],
            );
            want.push((i, kind));
        }
    }
    let cfg = to_cfg(rg);
    let rules: Vec<_> = cfg.rules().collect();
    let recursion = cfg.recursion();
    let got: Vec<_> = recursion.recursive_rules().collect();
    ensure!(
        got.len() == want.len(),
        "recursive_rules lists {} rules, expected {}: {:?}",
        got.len(),
        want.len(),
        got.iter().map(|r| rule_pair(r.rule)).collect::<Vec<_>>()
    );
    for (x, (i, kind)) in got.iter().zip(&want) {
        ensure!(
            rule_pair(x.rule) == rule_pair(rules[*i]),
            "recursive_rules lists {:?}, expected {:?}",
            rule_pair(x.rule),
            rule_pair(rules[*i])
        );
        let k = (x.recursion.left, x.recursion.middle, x.recursion.right);
        ensure!(
            k == *kind,
            "rule {:?}: (left, middle, right) = {k:?}, expected {kind:?}",
            rule_pair(x.rule)
        );
    }
    let dist = capped(symmetric(rg, &targets));
    let got: Vec<_> = recursion.minimal_distances().collect();
    ensure!(got.len() == want.len(), "minimal_distances lists {} rules, expected {}", got.len(), want.len());
    for (x, (i, kind)) in got.iter().zip(&want) {
        let k = (x.recursion.left, x.recursion.middle, x.recursion.right);
        ensure!(
            rule_pair(x.rule) == rule_pair(rules[*i]) && k == *kind,
            "minimal_distances lists {:?} {k:?}, expected {:?} {kind:?}",
            rule_pair(x.rule),
            rule_pair(rules[*i])
        );
        let v = |d: Option<u64>| d.map_or(u32::MAX as usize, |x| x as usize);
        let d = &dist[*i];
        let w = Some((v(d[0]), v(d[d.len() - 1])));
        ensure!(
            x.distances == w,
            "rule {:?}: distances {:?}, expected {w:?}",
            rule_pair(x.rule),
            x.distances
        );
    }
    let pairs: Vec<_> = want.iter().map(|w| rg.rules[w.0].clone()).collect();
    iterates(src, || recursion.recursive_rules().map(|x| rule_pair(x.rule)), &pairs, "recursive_rules()")?;
    case.nontrivial = !want.is_empty() && want.len() < rg.rules.len();
    case.class_if(want.iter().any(|w| w.1.1), "middle recursion");
    case.class_if(want.iter().any(|w| !rg.rules[w.0].1.contains(&rg.rules[w.0].0)), "indirect recursion");
    Ok(())
}

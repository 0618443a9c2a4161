//! C06: FOLLOW sets.
use super::c05::check_list;
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_predict_sets::{CfgSetsExt, FollowSets, PredictSets};
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C06",
    rule: "some nonterminal's FOLLOW set is inherited from a rule's left-hand side",
    run,
    quick: 1_400_000,
    thorough: 42_000_000,
    probes: &[],
};

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_nt: 7, max_t: 5, max_rules: 16, no_roots: true, huge: 2000, vast: 20000, far: 20000, ..SMALL });
    case.input = g.g.show();
    let cfg = to_cfg(&g.g);
    let want = g.g.follow();
    let term = g.g.terminals();
    let null = g.g.nullable();
    let first = cfg.first_sets();
    let sets: Vec<(&str, FollowSets)> = vec![
        ("follow_sets", cfg.follow_sets()),
        ("follow_sets_with_first", cfg.follow_sets_with_first(&first)),
    ];
    for (what, sets) in &sets {
        let sets = sets.predict_sets();
        let keys: BTreeSet<S> = sets.keys().map(|s| s.usize()).collect();
        let lhs: BTreeSet<S> = (0..g.g.n).filter(|&s| !term[s]).collect();
        ensure!(keys == lhs, "{what}: sets exist for {keys:?}, nonterminals are {lhs:?}");
        for (s, v) in sets {
            let s = s.usize();
            check_list(&format!("{what}: FOLLOW({s})"), &v.list, &want[s].0)?;
            ensure!(
                v.has_none() == want[s].1,
                "{what}: FOLLOW({s}) contains end of input: {}, expected {}",
                v.has_none(),
                want[s].1
            );
        }
    }
    case.nontrivial = g.g.rules.iter().any(|(l, r)| {
        let mut i = r.len();
        while i > 0 {
            i -= 1;
            if !term[r[i]] && r[i] != *l && (!want[*l].0.is_empty() || want[*l].1) {
                return true;
            }
            if !null[r[i]] {
                break;
            }
        }
        false
    });
    case.class_if((0..g.g.n).any(|s| want[s].1 && !g.g.roots.contains(&s)), "end of input inherited");
    Ok(())
}

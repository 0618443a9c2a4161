//! C07: LL(1) classification.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_classify::CfgClassifyExt;
use cfg_classify::ll::LlNonterminalClass;
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "C07",
    rule: "the grammar has both an LL(1) nonterminal and one which is not LL(1), or at least two nonterminals all of which are LL(1)",
    run,
    quick: 1_300_000,
    thorough: 39_000_000,
    probes: &[],
};

fn run(src: &mut Src, case: &mut Case) -> Res {
    let few = src.chance(1, 2);
    let g = if few {
        grammar(src, case, &GP { max_nt: 5, max_t: 6, max_rules: 7, no_roots: true, huge: 2000, vast: 20000, vast_rhs_only: true, far: 20000, ..SMALL })
    } else {
        grammar(src, case, &GP { max_nt: 6, max_t: 6, max_rules: 11, no_roots: true, huge: 2000, vast: 20000, vast_rhs_only: true, far: 20000, ..SMALL })
    };
    case.input = g.g.show();
    let rg = &g.g;
    let f = rg.first();
    let null = rg.nullable();
    let fo = rg.follow();
    // lookahead: Some(terminal) or None for end of input
    let mut table: BTreeMap<(S, Option<S>), Vec<usize>> = BTreeMap::new();
    let mut end_conflict_only = false;
    for (i, (l, r)) in rg.rules.iter().enumerate() {
        let (fs, eps) = rg.first_of(&f, &null, r);
        let mut la: Vec<Option<S>> = fs.into_iter().map(Some).collect();
        if eps {
            la.extend(fo[*l].0.iter().map(|&t| Some(t)));
            if fo[*l].1 {
                la.push(None);
            }
        }
        la.sort();
        la.dedup();
        for a in la {
            table.entry((*l, a)).or_default().push(i);
        }
    }
    let mut conflict = vec![false; rg.n];
    let mut has = vec![false; rg.n];
    for ((a, t), v) in &table {
        has[*a] = true;
        if v.len() > 1 {
            conflict[*a] = true;
            end_conflict_only |= t.is_none();
        }
    }
    let bad = rg.closure_any(&conflict);
    let cfg = to_cfg(rg);
    let got = cfg.ll_parse_table().classify();
    let term = rg.terminals();
    for (s, c) in got.classes() {
        let s = s.usize();
        ensure!(!term[s], "terminal {s} was given a class");
        let want = if bad[s] { LlNonterminalClass::ContextFree } else { LlNonterminalClass::Ll1 };
        ensure!(*c == want, "class of nonterminal {s} is {c:?}, expected {want:?}");
    }
    for s in 0..rg.n {
        if has[s] {
            ensure!(
                got.classes().contains_key(&sy(s)),
                "nonterminal {s} has no class"
            );
        }
    }
    let good_n = (0..rg.n).filter(|&s| has[s] && !bad[s]).count();
    let bad_n = (0..rg.n).filter(|&s| has[s] && bad[s]).count();
    case.nontrivial = good_n > 0 && bad_n > 0 || good_n > 1 && bad_n == 0;
    case.class_if(bad_n == 0, "whole grammar LL(1)");
    case.class_if(end_conflict_only, "conflict on end of input");
    case.class_if((0..rg.n).any(|s| bad[s] && !conflict[s]), "class inherited");
    Ok(())
}

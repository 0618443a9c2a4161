//! C05: FIRST and LAST sets.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_predict_sets::{CfgSetsExt, LastSets, PerSymbolSets, PredictSets};
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C05",
    rule: "some nonterminal's FIRST or LAST set needs more than one derivation step or passes a nullable symbol",
    run,
    quick: 1_600_000,
    thorough: 48_000_000,
    probes: &[],
};

pub fn check_list(what: &str, list: &[cfg_symbol::Symbol], want: &BTreeSet<S>) -> Res {
    let got: BTreeSet<S> = list.iter().map(|s| s.usize()).collect();
    ensure!(got.len() == list.len(), "{what} lists a symbol twice: {list:?}");
    ensure!(got == *want, "{what} = {got:?}, expected {want:?}");
    Ok(())
}

fn check_sets(what: &str, sets: &PerSymbolSets, g: &RG) -> Res {
    let f = g.first();
    let null = g.nullable();
    let term = g.terminals();
    let keys: BTreeSet<S> = sets.keys().map(|s| s.usize()).collect();
    let lhs: BTreeSet<S> = (0..g.n).filter(|&s| !term[s]).collect();
    ensure!(keys == lhs, "{what} sets exist for {keys:?}, nonterminals are {lhs:?}");
    for (s, v) in sets {
        let s = s.usize();
        check_list(&format!("{what}({s})"), &v.list, &f[s])?;
        ensure!(
            v.has_none() == null[s],
            "{what}({s}) says nullable {}, expected {}",
            v.has_none(),
            null[s]
        );
    }
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_nt: 7, max_t: 5, max_rules: 16, huge: 2000, vast: 20000, far: 20000, ..SMALL });
    case.input = g.g.show();
    let cfg = to_cfg(&g.g);
    let first = cfg.first_sets();
    check_sets("FIRST", first.predict_sets(), &g.g)?;
    let last = LastSets::new(&cfg);
    check_sets("LAST", last.predict_sets(), &g.g.reversed())?;
    // strings
    let f = g.g.first();
    let null = g.g.nullable();
    let k = src.range(1, 4);
    for _ in 0..k {
        let len = src.range(0, 5);
        let s: Vec<S> = (0..len)
            .map(|_| if src.chance(2, 3) { *src.pick(&g.nts) } else { *src.pick(&g.ts) })
            .collect();
        let got = first.first_set_for_string(&sys(&s));
        let (want, eps) = g.g.first_of(&f, &null, &s);
        check_list(&format!("FIRST of string {s:?}"), &got.list, &want)?;
        ensure!(
            got.has_none() == eps,
            "FIRST of string {s:?} says nullable {}, expected {eps}",
            got.has_none()
        );
        case.class_if(s.iter().any(|&x| null[x] && !f[x].is_empty()), "string with nullable non-empty symbol");
    }
    let term = g.g.terminals();
    case.nontrivial = g.g.rules.iter().any(|(l, r)| {
        r.first().is_some_and(|&x| !term[x] && x != *l && !f[x].is_empty())
            || r.iter().any(|&x| null[x]) && r.len() > 1
    });
    Ok(())
}

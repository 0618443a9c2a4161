//! C02: binarization with elimination of nulling rules.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use std::fmt::Write;

pub static PROP: Prop = Prop {
    id: "C02",
    rule: "the grammar has a nullable symbol that also derives a non-empty word, or a nullable symbol on a right-hand side of length >= 2",
    run,
    quick: 200_000,
    thorough: 3_000_000,
    probes: &[],
};

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g0 = grammar(src, case, &GP { max_rhs: 6, far: 5000, huge: 2000, vast: 20000, ..SMALL });
    let mut cfg = to_cfg(&g0.g);
    let mut log = g0.g.show();
    case.input = log.clone();
    if src.chance(1, 4) {
        let l = src.range(2, 4);
        cfg.limit_rhs_len(Some(l));
        let _ = write!(log, " limit {l};");
        case.class("limited before");
    }
    let rounds = if src.chance(1, 5) { 2 } else { 1 };
    for round in 0..rounds {
        let before = from_cfg(&cfg);
        let roots = cfg.roots().to_vec();
        let nulling = cfg.binarize_and_eliminate_nulling_rules();
        let after = from_cfg(&cfg);
        let nul = from_cfg(&nulling);
        let _ = write!(log, " eliminate;");
        case.input = log.clone();

        let null = before.nullable();
        let term = before.terminals();
        let used = before.used();
        for (l, r) in &after.rules {
            ensure!(
                (1..=2).contains(&r.len()),
                "rule {l} ::= {r:?} left after elimination has length {}",
                r.len()
            );
        }
        ensure!(cfg.roots() == &roots[..], "roots changed: {roots:?} to {:?}", cfg.roots());
        let n = after.n.max(before.n).max(nul.n);
        // nulling part
        let nn = RG { n, rules: nul.rules.clone(), roots: vec![] }.nullable();
        for s in 0..before.n {
            ensure!(
                nn[s] == null[s],
                "symbol {s}: derives the empty string {}, in the returned nulling grammar {}; nulling rules {:?}",
                null[s], nn[s], nul.rules
            );
        }
        for (l, r) in &nul.rules {
            ensure!(
                r.iter().all(|&x| nn[x]),
                "nulling grammar rule {l} ::= {r:?} contains a symbol which does not derive the empty string there"
            );
        }
        // what derives nothing but the empty string is gone
        let mut seeds = vec![false; n];
        for s in 0..before.n {
            seeds[s] = term[s];
        }
        let left = RG { n, rules: after.rules.clone(), roots: vec![] }.productive(&seeds);
        for (l, r) in &after.rules {
            ensure!(
                left[*l] || !nn[*l],
                "symbol {l} derives no word any more, but the rule {l} ::= {r:?} is left; rules after: {:?}",
                after.rules
            );
        }
        // language
        let letters = letters_of((0..before.n).filter(|&s| term[s] && used[s]));
        let mut interesting = false;
        if let Some(letters) = letters {
            if let Some((a, b)) = lang_pair((n, &before.rules), (n, &after.rules), &letters, 12, 1200) {
                case.count("word length bound sum", a.k as u64);
                case.count("word length bound n", 1);
                for s in 0..before.n {
                    if term[s] {
                        continue;
                    }
                    let mut want = a.sets[s].clone();
                    let had = want.remove(&0);
                    interesting |= had && !want.is_empty();
                    if let Some(w) = diff(&want, &b.sets[s]) {
                        return Err(format!(
                            "symbol {s}: word {} is {} after elimination; rules after: {:?}",
                            show_word(w, &letters),
                            if want.contains(&w) { "lost" } else { "gained" },
                            after.rules
                        ));
                    }
                }
            }
        }
        interesting |= before
            .rules
            .iter()
            .any(|(_, r)| r.len() >= 2 && r.iter().any(|&x| null[x]));
        case.nontrivial |= interesting;
        case.class_if(null[before.roots.first().copied().unwrap_or(0)], "root nullable");
        // again: nothing left to do
        let mut again = cfg.clone();
        let second = again.binarize_and_eliminate_nulling_rules();
        ensure!(
            second.rules().count() == 0,
            "a second call finds nulling rules again: {:?}",
            rules_of(&second)
        );
        ensure!(
            sorted(&rules_of(&again)) == sorted(&after.rules),
            "a second call changes the rules: {:?} to {:?}",
            after.rules,
            rules_of(&again)
        );
        // the length limit stays in force
        let lhs = *src.pick(&g0.nts);
        let long: Vec<S> = (0..src.range(3, 6)).map(|_| *src.pick(&g0.ts)).collect();
        let mut later = cfg.clone();
        later.rule(sy(lhs)).rhs(sys(&long));
        for r in later.rules() {
            ensure!(
                r.rhs.len() <= 2,
                "rule {:?} stored after the call is longer than 2",
                rule_pair(r)
            );
        }
        if round + 1 < rounds {
            let k = src.range(1, 3);
            for _ in 0..k {
                let l = *src.pick(&g0.nts);
                let r: Vec<S> = (0..src.range(0, 4))
                    .map(|_| if src.chance(1, 2) { *src.pick(&g0.nts) } else { *src.pick(&g0.ts) })
                    .collect();
                cfg.rule(sy(l)).rhs(sys(&r));
                let _ = write!(log, " add {l}::={r:?};");
            }
            case.class("second round");
        }
    }
    Ok(())
}

//! C03: usefulness analysis and removal of useless rules.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_classify::CfgClassifyExt;
use cfg_classify::useful::Usefulness;

pub static PROP: Prop = Prop {
    id: "C03",
    rule: "the grammar has at least one useless and at least one useful rule",
    run,
    quick: 200_000,
    thorough: 3_000_000,
    probes: &[],
};

fn subsequence(small: &[(S, Vec<S>)], big: &[(S, Vec<S>)]) -> bool {
    let mut it = big.iter();
    small.iter().all(|x| it.any(|y| y == x))
}

/// Per rule: (reachable, productive).
fn useful(g: &RG, roots: &[S]) -> (Vec<bool>, Vec<bool>, Vec<(bool, bool)>) {
    let term = g.terminals();
    let prod = g.productive(&term);
    let reach = g.reachable(roots);
    let v = g
        .rules
        .iter()
        .map(|(l, r)| (reach[*l], r.iter().all(|&x| prod[x])))
        .collect();
    (reach, prod, v)
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_nt: 7, no_roots: true, huge: 2000, vast: 20000, ..SMALL });
    case.input = g.g.show();
    let rg = &g.g;
    let mut cfg = to_cfg(rg);
    let used = rg.used();
    let use_roots = src.chance(1, 3);
    let roots: Vec<S> = if use_roots {
        let k = src.range(0, 3);
        (0..k)
            .map(|_| if src.chance(1, 8) { *src.pick(&g.ts) } else { *src.pick(&g.nts) })
            .collect()
    } else {
        rg.roots.clone()
    };
    let (reach, prod, per_rule) = useful(rg, &roots);
    let u: Usefulness = if use_roots {
        case.input += &format!(" usefulness_with_roots({roots:?})");
        case.class("explicit roots");
        if src.chance(1, 2) {
            cfg.usefulness_with_roots(&sys(&roots))
        } else {
            let mut u = Usefulness::new(&cfg);
            for &r in &roots {
                u.reachable([sy(r)]);
            }
            u
        }
    } else {
        cfg.usefulness()
    };
    for s in 0..rg.n {
        let want = prod[s] || !used[s];
        ensure!(
            u.productivity(sy(s)) == want,
            "productivity({s}) = {}, expected {want}",
            u.productivity(sy(s))
        );
    }
    let all_prod = (0..rg.n).all(|s| prod[s] || !used[s]);
    let all_reach = (0..rg.n).all(|s| reach[s] || !used[s]);
    ensure!(u.all_productive() == all_prod, "all_productive() = {}", u.all_productive());
    ensure!(u.all_reachable() == all_reach, "all_reachable() = {}", u.all_reachable());
    ensure!(u.all_useful() == (all_prod && all_reach), "all_useful() = {}", u.all_useful());
    for (i, r) in cfg.rules().enumerate() {
        let got = u.usefulness(r).usefulness();
        ensure!(
            (got.reachable, got.productive) == per_rule[i],
            "usefulness of rule {:?}: got (reachable {}, productive {}), expected {:?}",
            rule_pair(r), got.reachable, got.productive, per_rule[i]
        );
    }
    let useless: Vec<(S, Vec<S>)> = rg
        .rules
        .iter()
        .zip(&per_rule)
        .filter(|(_, (a, b))| !(*a && *b))
        .map(|(r, _)| r.clone())
        .collect();
    let got: Vec<(S, Vec<S>)> = u.useless_rules(&cfg).map(|x| rule_pair(x.rule())).collect();
    ensure!(got == useless, "useless_rules() = {got:?}, expected {useless:?}");
    iterates(src, || u.useless_rules(&cfg).map(|x| rule_pair(x.rule())), &useless, "useless_rules()")?;
    for x in u.useless_rules(&cfg) {
        let z = x.usefulness();
        ensure!(!(z.reachable && z.productive), "useless rule reported as useful");
    }
    let n_useless = useless.len();
    case.nontrivial = n_useless > 0 && n_useless < rg.rules.len();
    case.class_if(n_useless == 0, "nothing useless");
    case.class_if(!all_prod, "unproductive symbols");
    case.class_if(!all_reach, "unreachable symbols");

    // one removal pass: keeps exactly the rules found useful
    let mut removed = cfg.clone();
    u.remove_useless_rules(&mut removed);
    let want: Vec<_> = rg
        .rules
        .iter()
        .zip(&per_rule)
        .filter(|(_, (a, b))| *a && *b)
        .map(|(r, _)| r.clone())
        .collect();
    ensure!(
        rules_of(&removed) == want,
        "remove_useless_rules left {:?}, expected {want:?}",
        rules_of(&removed)
    );
    let term = rg.terminals();
    let letters = letters_of((0..rg.n).filter(|&s| term[s] && used[s]));
    let same_language = |after: &[(S, Vec<S>)], roots: &[S], what: &str| -> Res {
        let Some(letters) = &letters else { return Ok(()) };
        if let Some((a, b)) = lang_pair((rg.n, &rg.rules), (rg.n, after), letters, 10, 800) {
            for &r in roots {
                if let Some(w) = diff(&a.sets[r], &b.sets[r]) {
                    return Err(format!(
                        "{what} changed the language of root {r}: word {} {}; rules left {after:?}",
                        show_word(w, letters),
                        if a.sets[r].contains(&w) { "lost" } else { "gained" }
                    ));
                }
            }
        }
        Ok(())
    };
    same_language(&rules_of(&removed), &roots, "remove_useless_rules")?;

    if !use_roots {
        let mut proper = cfg.clone();
        let ret = proper.make_proper();
        let left = rules_of(&proper);
        ensure!(
            ret == (all_prod && all_reach),
            "make_proper returned {ret}, all useful was {}",
            all_prod && all_reach
        );
        ensure!(subsequence(&left, &rg.rules), "make_proper left {left:?}, not a subsequence");
        ensure!(proper.roots() == cfg.roots(), "make_proper changed the roots");
        same_language(&left, &rg.roots, "make_proper")?;
        // nothing useless (by the definitions on the original terminals) is left
        let pg = RG { n: rg.n, rules: left.clone(), roots: rg.roots.clone() };
        let prod2 = pg.productive(&term);
        let reach2 = pg.reachable(&rg.roots);
        for (l, r) in &left {
            ensure!(reach2[*l], "make_proper left an unreachable rule {l} ::= {r:?}; rules {left:?}");
            ensure!(
                prod2[*l] && r.iter().all(|&x| prod2[x]),
                "make_proper left an unproductive rule {l} ::= {r:?}; rules {left:?}"
            );
        }
        // no useful rule is lost: a rule in some complete derivation from a root
        let f = {
            let kept: Vec<_> = rg
                .rules
                .iter()
                .filter(|(l, r)| prod[*l] && r.iter().all(|&x| prod[x]))
                .cloned()
                .collect();
            let k = RG { n: rg.n, rules: kept.clone(), roots: vec![] };
            let reach = k.reachable(&rg.roots);
            kept.into_iter().filter(|(l, _)| reach[*l]).collect::<Vec<_>>()
        };
        ensure!(left == f, "make_proper left {left:?}, rules in complete derivations are {f:?}");
        // idempotent
        let ret2 = proper.make_proper();
        ensure!(
            ret2 && rules_of(&proper) == left,
            "make_proper again: returned {ret2}, rules {left:?} became {:?}",
            rules_of(&proper)
        );
    }
    Ok(())
}

//! C04: unit-derivation cycles.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_classify::cyclical::Cycles;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C04",
    rule: "the grammar has at least one cycle of unit rules through two or more symbols",
    run,
    quick: 160_000,
    thorough: 2_400_000,
    probes: &[],
};

fn unit_plus(rules: &[(S, Vec<S>)], n: usize) -> Vec<Vec<bool>> {
    let mut direct: Vec<BTreeSet<S>> = vec![BTreeSet::new(); n];
    for (l, r) in rules {
        if r.len() == 1 && r[0] != *l {
            direct[*l].insert(r[0]);
        }
    }
    graph_plus(n, &direct)
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let mut g = grammar(src, case, &GP { max_nt: 6, huge: 2000, vast: 20000, ..SMALL });
    // plant cycles
    let cycles = src.weighted(&[2, 6, 4, 1]);
    for _ in 0..cycles {
        let len = src.range(2, g.nts.len().max(2)).min(g.nts.len());
        let mut order = g.nts.clone();
        src.shuffle(&mut order);
        order.truncate(len);
        let mut new: Vec<(S, Vec<S>)> = (0..len)
            .map(|i| (order[i], vec![order[(i + 1) % len]]))
            .collect();
        src.shuffle(&mut new);
        for r in new {
            let at = src.usize(g.g.rules.len() + 1);
            let at = g.g.rules.len() - at;
            g.g.rules.insert(at, r);
        }
    }
    let rg = g.g.clone();
    case.input = rg.show();
    let n = rg.n;
    let up = unit_plus(&rg.rules, n);
    let is_cyc = |r: &(S, Vec<S>)| r.1.len() == 1 && up[r.1[0]][r.0];
    let cyclic = (0..n).any(|s| up[s][s]);
    case.nontrivial = cyclic;

    let mut cfg = to_cfg(&rg);
    let wrapped = src.chance(1, 8);
    if wrapped {
        cfg.wrap_input();
        case.input += " wrap_input;";
        case.class("wrapped roots");
    }
    let base = from_cfg(&cfg);
    let n = base.n;
    let limit = if src.chance(1, 6) { Some(src.range(2, 4)) } else { None };
    let _ = limit;

    {
        let mut c = Cycles::new(&cfg);
        ensure!(c.cycle_free() == !cyclic, "cycle_free() = {}, expected {}", c.cycle_free(), !cyclic);
        let got: Vec<((S, Vec<S>), bool)> = c.classify().map(|(r, b)| (rule_pair(r), b)).collect();
        ensure!(got.len() == base.rules.len(), "classify lists {} rules of {}", got.len(), base.rules.len());
        for (i, (r, b)) in got.iter().enumerate() {
            ensure!(*r == base.rules[i], "classify lists {r:?} at position {i}");
            let want = is_cyc_base(r, &up);
            ensure!(*b == want, "rule {r:?} participates in a cycle: {b}, expected {want}");
        }
        for flag in [true, false] {
            let got: Vec<_> = c.cycle_participants(flag).map(rule_pair).collect();
            let want: Vec<_> = base.rules.iter().filter(|r| is_cyc_base(r, &up) == flag).cloned().collect();
            ensure!(got == want, "cycle_participants({flag}) = {got:?}, expected {want:?}");
            iterates(src, || c.cycle_participants(flag).map(rule_pair), &want, "cycle_participants()")?;
        }
        let _ = is_cyc;
    }
    // removal
    {
        let mut c = cfg.clone();
        Cycles::new(&mut c).remove_cycles();
        let want: Vec<_> = base.rules.iter().filter(|r| !is_cyc_base(r, &up)).cloned().collect();
        let got = rules_of(&c);
        // without any cycle nothing may change
        ensure!(
            got == want,
            "remove_cycles left {got:?}, expected {want:?}"
        );
        ensure!(Cycles::new(&c).cycle_free(), "cycles left after remove_cycles");
    }
    // rewriting
    let mut c = cfg.clone();
    let roots: Vec<S> = us(cfg.roots());
    Cycles::new(&mut c).rewrite_cycles();
    let after = from_cfg(&c);
    ensure!(
        Cycles::new(&c).cycle_free() && {
            let u = unit_plus(&after.rules, after.n);
            (0..after.n).all(|s| !u[s][s])
        },
        "cycles left after rewrite_cycles: {:?}",
        after.rules
    );
    if !cyclic {
        ensure!(
            after.rules == base.rules,
            "rewrite_cycles changed a cycle-free grammar: {:?}",
            after.rules
        );
    }
    ensure!(
        after.roots.len() == roots.len(),
        "rewrite_cycles changed the number of roots: {roots:?} to {:?}",
        after.roots
    );
    let term = base.terminals();
    let used = base.used();
    let m = n.max(after.n);
    let Some(letters) = letters_of((0..n).filter(|&s| term[s] && used[s])) else {
        return Ok(());
    };
    let Some((a, b)) = lang_pair((m, &base.rules), (m, &after.rules), &letters, 10, 800) else {
        return Ok(());
    };
    for (i, &r) in roots.iter().enumerate() {
        if let Some(w) = diff(&a.sets[r], &b.sets[after.roots[i]]) {
            return Err(format!(
                "rewrite_cycles changed the language of root {r} (now root {}): word {} {}; rules {:?}",
                after.roots[i],
                show_word(w, &letters),
                if a.sets[r].contains(&w) { "lost" } else { "gained" },
                after.rules
            ));
        }
    }
    for (i, w0) in cfg.wrapped_roots().iter().enumerate() {
        let w1 = &c.wrapped_roots()[i];
        if let Some(w) = diff(
            &a.sets[w0.inner_root.usize()],
            &b.sets[w1.inner_root.usize()],
        ) {
            return Err(format!(
                "rewrite_cycles changed the language of the wrapped root {:?} (now {:?}): word {}",
                w0.inner_root, w1.inner_root, show_word(w, &letters)
            ));
        }
    }
    let mut seen = vec![false; n];
    for s in 0..n {
        if term[s] || seen[s] {
            continue;
        }
        if s >= up.len() || !up[s][s] {
            if let Some(w) = diff(&a.sets[s], &b.sets[s]) {
                return Err(format!(
                    "rewrite_cycles changed the language of symbol {s}, which is on no cycle: word {} {}; rules {:?}",
                    show_word(w, &letters),
                    if a.sets[s].contains(&w) { "lost" } else { "gained" },
                    after.rules
                ));
            }
        } else {
            let class: Vec<S> = (0..up.len()).filter(|&t| t == s || (up[s][t] && up[t][s])).collect();
            let mut keepers = 0;
            for &t in &class {
                seen[t] = true;
                if b.sets[t] == a.sets[t] {
                    keepers += 1;
                } else if let Some(w) = b.sets[t].difference(&a.sets[t]).next() {
                    return Err(format!(
                        "rewrite_cycles: symbol {t} gained word {}; rules {:?}",
                        show_word(*w, &letters), after.rules
                    ));
                }
            }
            ensure!(
                keepers >= 1,
                "rewrite_cycles: no symbol of the cycle {class:?} keeps its language; rules {:?}",
                after.rules
            );
        }
    }
    case.class_if(roots.iter().any(|&r| r < up.len() && up[r][r]), "root on a cycle");
    Ok(())
}

fn is_cyc_base(r: &(S, Vec<S>), up: &[Vec<bool>]) -> bool {
    r.1.len() == 1 && r.0 < up.len() && r.1[0] < up.len() && up[r.1[0]][r.0]
}

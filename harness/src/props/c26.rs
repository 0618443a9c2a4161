//! C26: wrapping the input.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_grammar::Cfg;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
use std::collections::HashSet;

pub static PROP: Prop = Prop {
    id: "C26",
    rule: "several roots are wrapped, or the input is wrapped more than once, or under a limit",
    run,
    quick: 1_600_000,
    thorough: 48_000_000,
    probes: &[],
};

fn names(cfg: &Cfg) -> Vec<Option<String>> {
    (0..cfg.num_syms()).map(|i| cfg.sym_source().original_name_of(sy(i)).map(|s| s.to_string())).collect()
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { no_roots: true, huge: 2000, vast: 20000, far: 20000, ..SMALL });
    let bare = src.chance(1, 6);
    let mut cfg = Cfg::new();
    for i in 0..g.g.n {
        cfg.next_sym((i % 3 == 1).then(|| format!("n{i}").into()));
    }
    if !bare {
        for (l, r) in &g.g.rules {
            cfg.rule(sy(*l)).rhs(sys(r));
        }
    }
    let mut roots = g.g.roots.clone();
    if src.chance(1, 8) {
        // a terminal may be a root as well
        roots.push(g.ts[0]);
    }
    cfg.set_roots(sys(&roots));
    let mut log = format!("{} roots {roots:?}{}", g.g.show(), if bare { " without rules" } else { "" });
    let limit = src.chance(1, 3).then(|| src.range(2, 4));
    if limit.is_some() {
        cfg.limit_rhs_len(limit);
        log.push_str(&format!(" limit {limit:?}"));
    }
    ensure!(cfg.is_empty() == (cfg.rules().count() == 0), "is_empty() is {} before wrapping", cfg.is_empty());
    let times = src.weighted(&[6, 3, 1]) + 1;
    case.nontrivial = (roots.len() > 1 || times > 1 || limit.is_some()) && !roots.is_empty();
    for time in 0..times {
        if time > 0 && src.chance(1, 3) {
            let (a, b) = (*src.pick(&g.nts), *src.pick(&g.ts));
            cfg.rule(sy(a)).rhs([sy(b)]);
            log.push_str(&format!(" add {a} ::= {b}"));
        }
        if time > 0 && src.chance(1, 4) {
            roots = vec![*src.pick(&g.nts)];
            cfg.set_roots(sys(&roots));
            log.push_str(&format!(" roots {roots:?}"));
        }
        if time > 0 && src.chance(1, 4) {
            let list: Vec<_> = cfg.wrapped_roots().iter().copied().filter(|_| src.chance(1, 2)).collect();
            cfg.set_wrapped_roots(&list);
            let show = |l: &[cfg_grammar::WrappedRoot]| format!("{l:?}");
            ensure!(show(cfg.wrapped_roots()) == show(&list), "wrapped roots {:?}, set to {list:?}", cfg.wrapped_roots());
            log.push_str(" set wrapped roots");
        }
        log.push_str(" wrap");
        case.input = log.clone();
        let n = cfg.num_syms();
        let inner = us(cfg.roots());
        let before = rules_of(&cfg);
        let old_names = names(&cfg);
        cfg.wrap_input();
        let w: Vec<[S; 4]> = cfg
            .wrapped_roots()
            .iter()
            .map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()])
            .collect();
        ensure!(w.len() == inner.len(), "{} wrapped roots for {} roots", w.len(), inner.len());
        let new: Vec<S> = w.iter().map(|x| x[0]).collect();
        ensure!(us(cfg.roots()) == new, "roots {:?}, wrapped {w:?}", cfg.roots());
        ensure!(cfg.has_roots() == !inner.is_empty(), "has_roots() is {}", cfg.has_roots());
        let mut fresh: HashSet<S> = HashSet::new();
        for (x, i) in w.iter().zip(&inner) {
            ensure!(x[2] == *i, "wrapped root {x:?} for {i}");
            for s in [x[0], x[1], x[3]] {
                ensure!(s >= n && s < cfg.num_syms(), "symbol {s} is not new");
                ensure!(fresh.insert(s), "symbol {s} is used twice");
            }
            let names = [x[0], x[1], x[3]].map(|s| cfg.sym_source().original_name_of(sy(s)).unwrap_or("").to_string());
            ensure!(names == ["root", "start_of_input", "end_of_input"], "names are {names:?}");
        }
        ensure!(names(&cfg)[..n] == old_names[..], "names changed: {:?}, before {old_names:?}", names(&cfg));
        // the other rules are as before
        let after = rules_of(&cfg);
        let (old, added): (Vec<_>, Vec<_>) = after.iter().cloned().partition(|r| r.0 < n);
        ensure!(sorted(&old) == sorted(&before), "rules {old:?}, before {before:?}");
        if let Some(l) = limit {
            ensure!(added.iter().all(|r| r.1.len() <= l), "added rules {added:?} under the limit {l}");
        }
        let flat = unfold(&added, &|s| s < n || fresh.contains(&s));
        let want: Vec<(S, Vec<S>)> = w.iter().map(|x| (x[0], vec![x[1], x[2], x[3]])).collect();
        ensure!(flat.as_ref().is_some_and(|f| sorted(f) == sorted(&want)), "added rules {added:?}, expected {want:?}");
        if limit.is_none() && !inner.is_empty() {
            ensure!(cfg.is_empty() == before.is_empty(), "is_empty() is {} after wrapping {} rules", cfg.is_empty(), before.len());
            let mut c = cfg.clone();
            c.retain(|r| new.contains(&r.lhs.usize()));
            ensure!(c.is_empty(), "is_empty() is false with only the wrapping rules left");
            ensure!(cfg.rules().count() == after.len(), "changing a copy changed the grammar");
            // whatever the symbols are numbered, if all are there to be numbered
            if times == 1 && src.chance(1, 4) {
                let rg = from_cfg(&cfg);
                let used = rg.used();
                if (0..rg.n).all(|s| used[s]) {
                    let mut order: Vec<S> = (0..rg.n).collect();
                    match src.below(3) {
                        0 => order.reverse(),
                        1 => src.shuffle(&mut order),
                        _ => order.rotate_left(n),
                    }
                    case.class("renumbered after wrapping");
                    let mut r = cfg.clone();
                    r.remap().reorder_symbols(|a, b| order[a.usize()].cmp(&order[b.usize()]));
                    ensure!(r.is_empty() == before.is_empty(), "is_empty() is {} after renumbering by {order:?}, with {} rules wrapped", r.is_empty(), before.len());
                    let new: HashSet<S> = r.roots().iter().map(|s| s.usize()).collect();
                    let mut c = r.clone();
                    c.retain(|r| new.contains(&r.lhs.usize()));
                    ensure!(c.is_empty(), "is_empty() is false with only the wrapping rules left, renumbered by {order:?}");
                }
            }
        }
    }
    // bounded languages
    let size: usize = g.g.rules.iter().map(|r| r.1.len() + 1).sum();
    if src.chance(1, 8) && times == 1 && !bare && size < 3000 {
        let rg = from_cfg(&cfg);
        let term = rg.terminals();
        let used = rg.used();
        let w: Vec<_> = cfg.wrapped_roots().to_vec();
        let letters: Vec<S> = (0..rg.n).filter(|s| term[*s] && used[*s]).collect();
        for x in w {
            let (root, inner) = (x.root.usize(), x.inner_root.usize());
            for len in 0..3usize {
                // all words over up to three of the letters
                let alpha: Vec<S> = letters.iter().copied().filter(|s| *s < g.g.n).take(3).collect();
                if alpha.is_empty() {
                    continue;
                }
                for mut code in 0..alpha.len().pow(len as u32) {
                    let mut word = vec![];
                    for _ in 0..len {
                        word.push(alpha[code % alpha.len()]);
                        code /= alpha.len();
                    }
                    let a = if term[inner] { word == [inner] } else { recognize(rg.n, &rg.rules, &term, inner, &word) };
                    let mut wrapped = vec![x.start_of_input.usize()];
                    wrapped.extend(&word);
                    wrapped.push(x.end_of_input.usize());
                    let b = recognize(rg.n, &rg.rules, &term, root, &wrapped);
                    ensure!(a == b, "word {word:?}: derived by the inner root {a}, wrapped by the root {b}");
                    ensure!(!recognize(rg.n, &rg.rules, &term, root, &word), "the root derives {word:?} without marks");
                }
            }
        }
        case.class("languages compared");
    }
    Ok(())
}

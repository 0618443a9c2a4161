//! C14: renumbering symbols.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_grammar::Cfg;
use cfg_history::earley::History;
use cfg_symbol::intern::Mapping;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C14",
    rule: "at least one symbol changes its number, at least one unused symbol is removed, or mappings of two or more symbols are composed",
    run,
    quick: 1_200_000,
    thorough: 36_000_000,
    probes: &[],
};

#[derive(Clone)]
struct Snap {
    rules: Vec<(S, Vec<S>, u32)>,
    roots: Vec<S>,
    wrapped: Vec<[S; 4]>,
    names: Vec<Option<String>>,
    n: usize,
}

fn snap(cfg: &Cfg) -> Snap {
    let n = cfg.num_syms();
    Snap {
        rules: cfg.rules().map(|r| (r.lhs.usize(), us(&r.rhs), r.history.origin().id)).collect(),
        roots: us(cfg.roots()),
        wrapped: cfg
            .wrapped_roots()
            .iter()
            .map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()])
            .collect(),
        names: (0..n).map(|i| cfg.sym_source().original_name_of(sy(i)).map(|s| s.to_string())).collect(),
        n,
    }
}

impl Snap {
    fn used(&self) -> BTreeSet<S> {
        self.rules.iter().flat_map(|(l, r, _)| r.iter().copied().chain([*l])).collect()
    }
}

/// `after` is `before` with every symbol translated by `to`.
fn compare(before: &Snap, after: &Snap, to: &dyn Fn(S) -> Option<S>) -> Res {
    let t = |s: S| to(s).ok_or_else(|| format!("symbol {s} has no translation"));
    let mut want = vec![];
    for (l, r, h) in &before.rules {
        want.push((t(*l)?, r.iter().map(|&x| t(x)).collect::<Result<Vec<_>, _>>()?, *h));
    }
    ensure!(
        sorted(&want) == sorted(&after.rules),
        "rules (LHS, RHS, origin) {:?}, expected {:?} in some order",
        after.rules,
        want
    );
    let roots = before.roots.iter().map(|&x| t(x)).collect::<Result<Vec<_>, _>>()?;
    ensure!(roots == after.roots, "roots {:?}, expected {roots:?}", after.roots);
    let mut wrapped = vec![];
    for w in &before.wrapped {
        wrapped.push([t(w[0])?, t(w[1])?, t(w[2])?, t(w[3])?]);
    }
    ensure!(wrapped == after.wrapped, "wrapped roots {:?}, expected {wrapped:?}", after.wrapped);
    Ok(())
}

fn check_names(before: &Snap, after: &Snap, to: &dyn Fn(S) -> Option<S>, which: &BTreeSet<S>) -> Res {
    for &s in which {
        let d = to(s).unwrap_or(usize::MAX);
        let name = after.names.get(d).cloned().flatten();
        ensure!(
            name == before.names[s],
            "symbol {s}, named {:?}, became {d}, named {name:?}",
            before.names[s]
        );
    }
    Ok(())
}

fn check_mapping(m: &Mapping, before: &Snap, after: &Snap, keep: &BTreeSet<S>) -> Res {
    ensure!(m.to_internal.len() == before.n, "to_internal has {} entries for {} symbols", m.to_internal.len(), before.n);
    ensure!(m.to_external.len() >= after.n, "to_external has {} entries for {} symbols", m.to_external.len(), after.n);
    for &s in keep {
        let i = m.to_internal[s].map(|x| x.usize());
        ensure!(i.is_some_and(|i| i < after.n), "kept symbol {s} maps to {i:?}, there are {} symbols", after.n);
        let back = m.to_external[i.unwrap()].usize();
        ensure!(back == s, "symbol {s} maps to {i:?}, which maps back to {back}");
    }
    for i in 0..after.n {
        let e = m.to_external[i].usize();
        let back = m.to_internal.get(e).copied().flatten().map(|x| x.usize());
        ensure!(back == Some(i), "new symbol {i} maps to {e}, which maps back to {back:?}");
    }
    Ok(())
}

fn check_fresh(cfg: &mut Cfg) -> Res {
    let n = cfg.num_syms();
    let s = snap(cfg);
    let in_use: BTreeSet<S> = s
        .used()
        .into_iter()
        .chain(s.roots.iter().copied())
        .chain(s.wrapped.iter().flatten().copied())
        .collect();
    ensure!(in_use.iter().all(|&x| x < n), "symbols {in_use:?} in use, but only {n} symbols");
    let f = cfg.next_sym(Some("fresh".into())).usize();
    ensure!(!in_use.contains(&f), "a fresh symbol {f} is in use already");
    ensure!(f == n && cfg.num_syms() == n + 1, "fresh symbol {f}, {} symbols after {n}", cfg.num_syms());
    ensure!(
        cfg.sym_source().original_name_of(sy(f)) == Some("fresh"),
        "the fresh symbol's name is {:?}",
        cfg.sym_source().original_name_of(sy(f))
    );
    Ok(())
}

/// Mappings composed without a grammar.
fn translations(src: &mut Src, case: &mut Case) -> Res {
    let n = if src.chance(1, 20) { src.range(60, 300) } else { src.range(0, 8) };
    // the symbols left, by their number
    let mut now: Vec<S> = (0..n).collect();
    let mut m = Mapping::new(n);
    ensure!(m.to_external.is_empty() && m.to_internal == vec![None; n], "a new mapping of {n} symbols is {m:?}");
    for i in 0..n {
        m.to_internal[i] = Some(sy(i));
    }
    m.to_external = sys(&now);
    let steps = src.range(1, 4);
    for step in 0..steps {
        let mut kept: Vec<S> = (0..now.len()).collect();
        src.shuffle(&mut kept);
        if src.chance(1, 2) {
            kept.truncate(src.usize(now.len() + 1));
        }
        let mut other = Mapping::new(now.len());
        for (i, k) in kept.iter().enumerate() {
            other.to_internal[*k] = Some(sy(i));
            other.to_external.push(sy(*k));
        }
        case.input.push_str(&format!(" {now:?} to {kept:?}"));
        m.translate(&other);
        now = kept.iter().map(|k| now[*k]).collect();
        let mut want = vec![None; n];
        for (i, s) in now.iter().enumerate() {
            want[*s] = Some(sy(i));
        }
        ensure!(us(&m.to_external) == now, "after step {step} the symbols come from {:?}, expected {now:?}", m.to_external);
        ensure!(m.to_internal == want, "after step {step} the symbols become {:?}, expected {want:?}", m.to_internal);
    }
    case.class("mappings alone");
    case.nontrivial = steps >= 2 && n >= 2;
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    if src.chance(1, 12) {
        return translations(src, case);
    }
    let g = grammar(src, case, &GP { max_nt: 6, max_t: 4, huge: 2000, vast: 20000, far: 8000, ..SMALL });
    let rg = &g.g;
    let n = rg.n;
    let mut cfg = Cfg::new();
    let naming = src.below(3);
    for i in 0..n {
        let name = match naming {
            0 => Some(format!("n{i}")),
            1 if src.chance(1, 2) => Some(format!("n{}", i / 2)),
            _ => None,
        };
        cfg.next_sym(name.map(|s| s.into()));
    }
    let limit = if src.chance(1, 5) { Some(2) } else { None };
    cfg.limit_rhs_len(limit);
    for (i, (l, r)) in rg.rules.iter().enumerate() {
        cfg.rule(sy(*l)).rhs_with_history(sys(r), History::new(i as u32 + 1));
    }
    let used0 = rg.used();
    let roots: Vec<S> = rg.roots.iter().copied().filter(|&r| used0[r]).collect();
    cfg.set_roots(sys(&roots));
    case.input = format!("{} roots {roots:?} limit {limit:?} naming {naming}", rg.show());
    if src.chance(1, 4) && !roots.is_empty() {
        cfg.wrap_input();
        case.input.push_str(" wrapped");
        case.class("wrapped");
    }
    let first = snap(&cfg);
    let ops = src.range(1, 3);
    let together = ops > 1 && src.chance(1, 2);
    let keys: Vec<Vec<u64>> = (0..ops)
        .map(|_| {
            let span = *src.pick(&[2u64, 3, 1000]);
            (0..first.n).map(|_| src.below(span)).collect()
        })
        .collect();
    let kinds: Vec<u64> = (0..ops).map(|_| src.below(3)).collect();
    case.input.push_str(&format!(" ops {kinds:?} together {together} keys {keys:?}"));
    if together {
        case.class("composed");
        let mut keep: BTreeSet<S> = (0..first.n).collect();
        let mut rm = cfg.remap();
        for i in 0..ops {
            match kinds[i] {
                0 | 2 => rm.reorder_symbols(|a, b| keys[i][a.usize()].cmp(&keys[i][b.usize()])),
                _ => {
                    rm.remove_unused_symbols();
                    keep = first.used();
                }
            }
        }
        let m = rm.get_mapping();
        let after = snap(&cfg);
        ensure!(after.n == keep.len(), "{} symbols remain, expected {}", after.n, keep.len());
        check_mapping(&m, &first, &after, &keep)?;
        let to = |s: S| m.to_internal[s].map(|x| x.usize());
        compare(&first, &after, &to)?;
        check_names(&first, &after, &to, &keep)?;
        case.nontrivial = keep.len() < first.n || keep.iter().any(|&s| to(s) != Some(s));
        return check_fresh(&mut cfg);
    }
    for i in 0..ops {
        let before = snap(&cfg);
        match kinds[i] {
            0 => {
                let key = &keys[i];
                let mut rm = cfg.remap();
                rm.reorder_symbols(|a, b| key[a.usize()].cmp(&key[b.usize()]));
                let m = rm.get_mapping();
                let after = snap(&cfg);
                let keep: BTreeSet<S> = (0..before.n).collect();
                ensure!(after.n == before.n, "{} symbols after reordering {}", after.n, before.n);
                check_mapping(&m, &before, &after, &keep)?;
                let ordered = (1..after.n)
                    .all(|j| key[m.to_external[j - 1].usize()] <= key[m.to_external[j].usize()]);
                ensure!(ordered, "the new order does not satisfy the given ordering");
                let to = |s: S| m.to_internal[s].map(|x| x.usize());
                compare(&before, &after, &to)?;
                check_names(&before, &after, &to, &keep)?;
                case.nontrivial |= keep.iter().any(|&s| to(s) != Some(s));
                case.class("reorder");
            }
            1 => {
                let mut rm = cfg.remap();
                rm.remove_unused_symbols();
                let m = rm.get_mapping();
                let after = snap(&cfg);
                let keep = before.used();
                ensure!(after.n == keep.len(), "{} symbols remain, {} were used", after.n, keep.len());
                check_mapping(&m, &before, &after, &keep)?;
                let to = |s: S| m.to_internal[s].map(|x| x.usize());
                compare(&before, &after, &to)?;
                check_names(&before, &after, &to, &keep)?;
                let unused = cfg.unused_symbols();
                ensure!(unused.iter().next().is_none(), "unused symbols remain: {unused:?}");
                case.nontrivial |= keep.len() < before.n;
                case.class("remove unused");
            }
            _ => {
                let mut perm: Vec<S> = (0..before.n).collect();
                let mut order: Vec<S> = perm.clone();
                order.sort_by_key(|&s| (keys[i][s], s));
                for (j, s) in order.into_iter().enumerate() {
                    perm[s] = j;
                }
                cfg.remap().remap_symbols(|s| sy(perm[s.usize()]));
                let after = snap(&cfg);
                let keep: BTreeSet<S> = (0..before.n).collect();
                ensure!(after.n == before.n, "{} symbols after remapping {}", after.n, before.n);
                let to = |s: S| Some(perm[s]);
                compare(&before, &after, &to)?;
                check_names(&before, &after, &to, &keep)?;
                case.nontrivial |= keep.iter().any(|&s| perm[s] != s);
                case.class("remap");
            }
        }
        if src.chance(1, 3) {
            // fresh symbols between the steps
            check_fresh(&mut cfg)?;
            break;
        }
    }
    check_fresh(&mut cfg)
}

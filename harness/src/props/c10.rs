//! C10: relations and symbol sets derived from rules.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use bit_matrix::BitMatrix;
use cfg_grammar::{Cfg, RhsPropertyMode, SymbolBitSet};
use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, SymbolBitMatrix};
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C10",
    rule: "the derivation relation needs at least one transitive step, or a closure adds a symbol",
    run,
    quick: 1_400_000,
    thorough: 21_000_000,
    probes: &[],
};

fn bits(set: &SymbolBitSet) -> Vec<bool> {
    set.bit_vec().iter().collect()
}

/// The matrices as plain ones and back, with changes made through each.
fn conversions(src: &mut Src, cfg: &Cfg, direct: &[BTreeSet<S>], plus: &[Vec<bool>], uplus: &[Vec<bool>]) -> Res {
    let n = direct.len();
    let direct: Vec<Vec<bool>> = direct.iter().map(|r| (0..n).map(|b| r.contains(&b)).collect()).collect();
    let empty = vec![vec![false; n]; n];
    let same = |what: &str, m: &SymbolBitMatrix, want: &[Vec<bool>]| -> Res {
        ensure!(m.size() == (n, n), "{what}: size {:?} for {n} symbols", m.size());
        for a in 0..n {
            let row: Vec<S> = m.iter_row_syms(sy(a)).map(|s| s.usize()).collect();
            let expect: Vec<S> = (0..n).filter(|&b| want[a][b]).collect();
            ensure!(row == expect, "{what}: row {a} is {row:?}, expected {expect:?}");
        }
        Ok(())
    };
    same("empty matrix", &cfg.empty_matrix(), &empty)?;
    same("direct", &cfg.direct_derivation_matrix().into(), &direct)?;
    same("reachability", &cfg.reachability_matrix().into(), plus)?;
    same("unit", &cfg.unit_derivation_matrix().into(), uplus)?;
    // there and back
    let plain: BitMatrix = SymbolBitMatrix::from(cfg.reachability_matrix()).into();
    for a in 0..n {
        for b in 0..n {
            ensure!(plain[(a, b)] == plus[a][b], "plain matrix ({a}, {b}) = {}", plain[(a, b)]);
        }
    }
    match SymbolBitMatrix::try_from(plain) {
        Ok(m) => same("converted back", &m, plus)?,
        Err(()) => return Err("a square matrix is rejected".into()),
    }
    let (rows, cols) = (src.range(1, 70), src.range(1, 70));
    let got = SymbolBitMatrix::try_from(BitMatrix::new(rows, cols)).is_ok();
    ensure!(got == (rows == cols), "a {rows} x {cols} matrix: accepted = {got}");
    // a change of one pair
    if n > 0 {
        let (a, b) = (src.usize(n), src.usize(n));
        let flip = |m: &[Vec<bool>]| {
            let mut m = m.to_vec();
            m[a][b] = !m[a][b];
            m
        };
        let mut m = cfg.direct_derivation_matrix();
        (**m).set(a, b, !direct[a][b]);
        let changed = flip(&direct);
        same("direct with a change", &m, &changed)?;
        let sets: Vec<BTreeSet<S>> = changed.iter().map(|r| (0..n).filter(|&b| r[b]).collect()).collect();
        same("its closure", &m.reachability(), &graph_plus(n, &sets))?;
        let mut m = cfg.reachability_matrix();
        (**m).set(a, b, !plus[a][b]);
        same("reachability with a change", &m, &flip(plus))?;
        let mut m = cfg.unit_derivation_matrix();
        (**m).set(a, b, !uplus[a][b]);
        same("unit with a change", &m, &flip(uplus))?;
    }
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let big = src.chance(1, 12);
    let p = if big {
        GP { max_nt: 60, max_t: 20, max_rules: 120, ..SMALL }
    } else {
        GP { max_nt: 7, max_t: 4, huge: 2000, vast: 20000, ..SMALL }
    };
    let g = grammar(src, case, &p);
    let rg = &g.g;
    let n = rg.n;
    case.input = rg.show();
    case.class_if(big, "large grammar");
    let cfg = to_cfg(rg);
    let mut direct: Vec<BTreeSet<S>> = vec![BTreeSet::new(); n];
    let mut unit: Vec<BTreeSet<S>> = vec![BTreeSet::new(); n];
    for (l, r) in &rg.rules {
        direct[*l].extend(r.iter().copied());
        if r.len() == 1 && r[0] != *l {
            unit[*l].insert(r[0]);
        }
    }
    let plus = graph_plus(n, &direct);
    let uplus = graph_plus(n, &unit);
    let d = cfg.direct_derivation_matrix();
    let r = cfg.reachability_matrix();
    let rr = cfg.reachability_matrix().reflexive();
    let dr = cfg.direct_derivation_matrix().reachability();
    let u = cfg.unit_derivation_matrix();
    for a in 0..n {
        for b in 0..n {
            let i = (sy(a), sy(b));
            ensure!(d[i] == direct[a].contains(&b), "direct derivation ({a}, {b}) = {}", d[i]);
            ensure!(r[i] == plus[a][b], "reachability ({a}, {b}) = {}, expected {}", r[i], plus[a][b]);
            ensure!(dr[i] == plus[a][b], "closure of direct derivation ({a}, {b}) = {}", dr[i]);
            ensure!(rr[i] == (a == b || plus[a][b]), "reflexive reachability ({a}, {b}) = {}", rr[i]);
            ensure!(u[i] == uplus[a][b], "unit derivation ({a}, {b}) = {}, expected {}", u[i], uplus[a][b]);
        }
        let row: Vec<S> = r.iter_row_syms(sy(a)).map(|s| s.usize()).collect();
        let want: Vec<S> = (0..n).filter(|&b| plus[a][b]).collect();
        ensure!(row == want, "iter_row_syms({a}) = {row:?}, expected {want:?}");
        iterates(src, || r.iter_row_syms(sy(a)).map(|s| s.usize()), &want, "iter_row_syms()")?;
        case.nontrivial |= (0..n).any(|b| plus[a][b] && !direct[a].contains(&b));
    }
    ensure!(r.size() == (n, n), "matrix size {:?} for {n} symbols", r.size());
    if src.chance(1, 12) {
        conversions(src, &cfg, &direct, &plus, &uplus)?;
    }
    // symbol sets
    let term = rg.terminals();
    let used = rg.used();
    let mut nulling = vec![false; n];
    for (l, r) in &rg.rules {
        nulling[*l] |= r.is_empty();
    }
    let nt: Vec<bool> = term.iter().map(|t| !t).collect();
    let unused: Vec<bool> = used.iter().map(|t| !t).collect();
    ensure!(bits(&cfg.terminal_symbols()) == term, "terminal_symbols = {:?}", cfg.terminal_symbols());
    ensure!(bits(&cfg.nulling_symbols()) == nulling, "nulling_symbols = {:?}", cfg.nulling_symbols());
    ensure!(bits(&cfg.unused_symbols()) == unused, "unused_symbols = {:?}", cfg.unused_symbols());
    let mut s = SymbolBitSet::new();
    s.used(&cfg);
    ensure!(bits(&s) == used, "used = {s:?}");
    let mut s = SymbolBitSet::new();
    s.productive(&cfg);
    ensure!(bits(&s) == nt, "productive = {s:?}");
    let mut s = SymbolBitSet::from_elem(&cfg, true);
    s.subtract_productive(&cfg);
    ensure!(bits(&s) == term, "subtract_productive = {s:?}");
    // closures
    for _ in 0..2 {
        let seed: Vec<bool> = (0..n).map(|_| src.chance(1, 4)).collect();
        let set = |v: &[bool]| {
            let mut s = SymbolBitSet::from_elem(&cfg, false);
            for (i, b) in v.iter().enumerate() {
                s.set(sy(i), *b);
            }
            s
        };
        let want = rg.closure_any(&seed);
        let mut got = set(&seed);
        if src.chance(1, 2) {
            cfg.rhs_closure_for_any(&mut got);
        } else {
            cfg.rhs_closure(&mut got, RhsPropertyMode::Any);
        }
        ensure!(bits(&got) == want, "closure (any) of {seed:?} = {:?}, expected {want:?}", bits(&got));
        case.nontrivial |= want != seed;
        let seed: Vec<bool> = seed.iter().zip(&nulling).map(|(a, b)| *a || *b || src.chance(1, 4)).collect();
        let want = rg.closure_all(&seed);
        let mut got = set(&seed);
        if src.chance(1, 2) {
            cfg.rhs_closure_for_all(&mut got);
        } else {
            cfg.rhs_closure(&mut got, RhsPropertyMode::All);
        }
        ensure!(bits(&got) == want, "closure (all) of {seed:?} = {:?}, expected {want:?}", bits(&got));
    }
    Ok(())
}

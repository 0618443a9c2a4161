//! C24: sets of symbols behave as sets.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_grammar::{Cfg, SymbolBitSet};

pub static PROP: Prop = Prop {
    id: "C24",
    rule: "the history has three or more operations and some set is neither empty nor full",
    run,
    quick: 2_500_000,
    thorough: 75_000_000,
    probes: &[],
};

fn check(s: &SymbolBitSet, m: &[bool], what: &str) -> Res {
    ensure!(s.space() == m.len(), "{what}: space {}, expected {}", s.space(), m.len());
    let got: Vec<S> = s.iter().map(|x| x.usize()).collect();
    let want: Vec<S> = (0..m.len()).filter(|i| m[*i]).collect();
    ensure!(got == want, "{what}: members {got:?}, expected {want:?}");
    for (i, b) in m.iter().enumerate() {
        ensure!(s[sy(i)] == *b, "{what}: symbol {i} is {} by index, expected {b}", s[sy(i)]);
    }
    ensure!(s.all() == m.iter().all(|b| *b), "{what}: all() is {}", s.all());
    ensure!(s.is_empty() == !m.iter().any(|b| *b), "{what}: is_empty() is {}", s.is_empty());
    let bv: Vec<bool> = s.bit_vec().iter().collect();
    ensure!(bv == m, "{what}: bit_vec() is {bv:?}, expected {m:?}");
    Ok(())
}

fn lhs_mask(cfg: &Cfg, n: usize) -> Vec<bool> {
    let mut v = vec![false; n];
    for r in cfg.rules() {
        v[r.lhs.usize()] = true;
    }
    v
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_nt: 6, max_t: 4, huge: 2000, vast: 20000, far: 20000, ..SMALL });
    let mut cfg = to_cfg(&g.g);
    let mut log = g.g.show();
    let k = src.range(1, 3);
    let mut sets: Vec<(SymbolBitSet, Vec<bool>)> = (0..k).map(|_| (SymbolBitSet::new(), vec![])).collect();
    let ops = src.range(1, 12);
    for step in 0..ops {
        let n = cfg.num_syms();
        let i = src.usize(k);
        let used: Vec<bool> = {
            let mut u = vec![false; n];
            for r in cfg.rules() {
                u[r.lhs.usize()] = true;
                for s in r.rhs.iter() {
                    u[s.usize()] = true;
                }
            }
            u
        };
        let lhs = lhs_mask(&cfg, n);
        let mut nulling = vec![false; n];
        for r in cfg.rules().filter(|r| r.rhs.is_empty()) {
            nulling[r.lhs.usize()] = true;
        }
        let op = src.below(19);
        log.push_str(&format!(" {op}@{i}"));
        let (s, m) = &mut sets[i];
        let room = m.is_empty() || m.len() >= n;
        match op {
            0 => {
                *s = if src.chance(1, 2) { SymbolBitSet::new() } else { SymbolBitSet::default() };
                *m = vec![];
            }
            1 => {
                let b = src.chance(1, 2);
                *s = SymbolBitSet::from_elem(&cfg, b);
                *m = vec![b; n];
            }
            2 => {
                s.reset(cfg.sym_source());
                *m = vec![false; n];
            }
            3 => {
                s.set_all(cfg.sym_source());
                *m = vec![true; n];
            }
            4 => {
                s.used(&cfg);
                *m = used;
            }
            5 => {
                s.unused(&cfg);
                *m = used.iter().map(|b| !b).collect();
            }
            6 => {
                s.negate();
                m.iter_mut().for_each(|b| *b = !*b);
            }
            7 => {
                s.terminal(&cfg);
                *m = lhs.iter().map(|b| !b).collect();
            }
            8 if room => {
                s.nulling(&cfg);
                m.resize(n.max(m.len()), false);
                for j in 0..n {
                    m[j] |= nulling[j];
                }
            }
            9 if room => {
                s.productive(&cfg);
                m.resize(n.max(m.len()), false);
                for j in 0..n {
                    m[j] |= lhs[j];
                }
            }
            10 if room => {
                s.subtract_productive(&cfg);
                if m.is_empty() {
                    *m = vec![true; n];
                }
                for j in 0..n {
                    m[j] &= !lhs[j];
                }
            }
            11 | 12 if !m.is_empty() => {
                for _ in 0..src.range(1, 4) {
                    let j = src.usize(m.len());
                    let b = src.chance(1, 2);
                    s.set(sy(j), b);
                    m[j] = b;
                }
            }
            13 => {
                let j = src.usize(k);
                if sets[j].1.len() == sets[i].1.len() && i != j {
                    let other = sets[j].clone();
                    sets[i].0.union(&other.0);
                    for (a, b) in sets[i].1.iter_mut().zip(&other.1) {
                        *a |= b;
                    }
                    case.class("union");
                }
            }
            14 => {
                let len = src.range(0, n + 70);
                s.reserve(len);
                let l = m.len().max(len);
                m.resize(l, false);
            }
            15 => {
                let c = sets[src.usize(k)].clone();
                sets[i] = c;
            }
            16 => {
                cfg.next_sym(None);
            }
            17 => {
                let bv: Vec<bool> = s.clone().into_bit_vec().iter().collect();
                ensure!(bv == *m, "into_bit_vec() is {bv:?}, expected {m:?}");
                check(&cfg.terminal_symbols(), &lhs.iter().map(|b| !b).collect::<Vec<_>>(), "terminal_symbols")?;
                check(&cfg.nulling_symbols(), &nulling, "nulling_symbols")?;
                check(&cfg.unused_symbols(), &used.iter().map(|b| !b).collect::<Vec<_>>(), "unused_symbols")?;
            }
            18 if src.chance(1, 2) => {
                let (a, b) = (sy(src.usize(n)), sy(src.usize(n)));
                cfg.rule(a).rhs([b]);
            }
            _ => {}
        }
        case.input = log.clone();
        for (j, (s, m)) in sets.iter().enumerate() {
            let what = format!("set {j} after step {step}");
            check(s, m, &what)?;
            let want: Vec<_> = (0..m.len()).filter(|i| m[*i]).map(sy).collect();
            iterates(src, || s.iter(), &want, &what)?;
        }
    }
    case.nontrivial = ops >= 3 && sets.iter().any(|(_, m)| m.iter().any(|b| *b) && m.iter().any(|b| !b));
    case.class_if(sets.iter().any(|(_, m)| m.len() > 64), "more than 64 symbols");
    Ok(())
}

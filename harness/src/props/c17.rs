//! C17: alternatives are chosen in proportion to their weights.
use crate::engine::*;
use crate::ensure;
use crate::refg::*;
use cfg_generate::weighted::random::{ByteSource, GenRange};
use cfg_generate::weighted::{Random, Weight, WeightedRhsByLhs};
use cfg_grammar::Cfg;
use cfg_history::{HistoryNodeWeight, LinkedHistoryNode, RootHistoryNode};
use rand::SeedableRng;
use rand::rngs::SmallRng;
use std::collections::HashMap;

pub static PROP: Prop = Prop {
    id: "C17",
    rule: "some left-hand side has two or more alternatives of different weights",
    run,
    quick: 300_000,
    thorough: 4_500_000,
    probes: &[],
};

/// Returns given fractions of the requested range.
#[derive(Clone)]
struct Grid {
    fraction: f64,
    asked: Vec<f64>,
}

impl GenRange for Grid {
    fn generate(&mut self, limit: f64) -> f64 {
        self.asked.push(limit);
        self.fraction * limit
    }
    fn mutate_start(&mut self, _: u64) {}
}

/// Returns a given number.
#[derive(Clone)]
struct Exact(f64);

impl GenRange for Exact {
    fn generate(&mut self, _: f64) -> f64 {
        self.0
    }
    fn mutate_start(&mut self, _: u64) {}
}

/// `counts[i]` of `total` equally spaced choices fell on alternative i: the share must be its weight's.
fn shares(counts: &HashMap<Vec<S>, u64>, weights: &HashMap<Vec<S>, f64>, points: u64, entries: usize, what: &str) -> Res {
    let total: f64 = weights.values().sum();
    for (rhs, c) in counts {
        ensure!(weights.contains_key(rhs), "{what}: chose {rhs:?}, which is no alternative");
        let _ = c;
    }
    for (rhs, w) in weights {
        let want = w / total * points as f64;
        let got = counts.get(rhs).copied().unwrap_or(0) as f64;
        // equally spaced points: off by less than one per boundary
        let slack = if *w == 0.0 { 0.0 } else { 2.0 * weights.len().max(if entries > 6 { entries } else { 0 }) as f64 };
        ensure!(
            (got - want).abs() <= slack + 1e-6,
            "{what}: alternative {rhs:?} of weight {w} (total {total}) got {got} of {points} equally spaced choices"
        );
    }
    Ok(())
}

fn direct<W: Weight>(src: &mut Src, case: &mut Case, max: usize, pick: fn(&mut Src) -> (W, f64), kind: &str) -> Res {
    let mut table = WeightedRhsByLhs::<W>::new();
    let lhss = src.range(1, 3);
    let mut model: HashMap<S, HashMap<Vec<S>, f64>> = HashMap::new();
    let mut log = format!("{kind}:");
    let mut entries = vec![];
    let mut counted: HashMap<S, usize> = HashMap::new();
    for l in 0..lhss {
        let k = if src.chance(1, 400) { src.range(6, max) } else { src.weighted(&[2, 3, 3, 2, 1]) + 1 };
        for _ in 0..k {
            let len = if k > 6 { src.range(2, 3) } else { src.range(0, 3) };
            let rhs: Vec<S> = (0..len).map(|_| 5 + src.usize(if k > 6 { 2 } else { 4 })).collect();
            let (w, f) = pick(src);
            *counted.entry(l).or_default() += 1;
            entries.push((l, rhs, w, f));
        }
    }
    src.shuffle(&mut entries);
    let order: Vec<(S, Vec<S>, f64)> = entries.iter().map(|e| (e.0, e.1.clone(), e.3)).collect();
    for (l, rhs, w, f) in entries {
        log.push_str(&format!(" {l}::={rhs:?}*{f}"));
        table.add_weight(w, sy(l), &sys(&rhs));
        *model.entry(l).or_default().entry(rhs).or_default() += f;
    }
    case.input = log;
    case.class("table");
    for l in 0..lhss + 1 {
        let Some(weights) = model.get(&l) else {
            let mut g = Grid { fraction: 0.5, asked: vec![] };
            ensure!(table.pick_rhs(sy(l), &mut g).is_empty(), "a symbol with no alternatives has an RHS");
            continue;
        };
        let total: f64 = weights.values().sum();
        if total == 0.0 {
            continue;
        }
        case.class_if(counted[&l] > 6, "many alternatives");
        let points = 1009u64.max(40 * counted[&l] as u64);
        let mut counts: HashMap<Vec<S>, u64> = HashMap::new();
        for i in 0..points {
            let mut g = Grid { fraction: (i as f64 + 0.437_129) / points as f64, asked: vec![] };
            *counts.entry(us(table.pick_rhs(sy(l), &mut g))).or_default() += 1;
            ensure!(g.asked.len() <= 1, "several random numbers for one choice");
        }
        shares(&counts, weights, points, counted[&l], &format!("symbol {l}"))?;
        let distinct: Vec<f64> = weights.values().copied().collect();
        case.nontrivial |= distinct.iter().any(|w| *w != distinct[0]);
        // extreme values of a byte source
        for b in [0u8, 64, 128, 192, 255, src.below(256) as u8] {
            let mut s = ByteSource::new(std::iter::once(b));
            let r = us(table.pick_rhs(sy(l), &mut s));
            ensure!(weights.contains_key(&r), "byte {b}: chose {r:?}, which is no alternative");
            ensure!(weights[&r] > 0.0, "byte {b}: chose {r:?} of weight zero");
        }
        // numbers on the very boundaries of alternatives
        let mut sum = 0.0;
        for (_, _, w) in order.iter().filter(|e| e.0 == l).take(50) {
            if sum < total {
                let r = us(table.pick_rhs(sy(l), &mut Exact(sum)));
                ensure!(weights.contains_key(&r), "number {sum}: chose {r:?}, which is no alternative");
                ensure!(weights[&r] > 0.0, "number {sum} of {total}: chose {r:?} of weight zero");
            }
            sum += w;
        }
    }
    Ok(())
}

fn grammar(src: &mut Src, case: &mut Case) -> Res {
    let mut cfg = Cfg::new();
    let k = if src.chance(1, 300) { src.range(7, 300) } else { src.range(1, 6) };
    add_syms(src, &mut cfg, k + 2);
    let mut weights: HashMap<Vec<S>, f64> = HashMap::new();
    let mut log = "grammar:".to_string();
    let mut all = vec![];
    for i in 0..k {
        let t = if k > 6 { 1 + src.usize(4) } else { 1 + i + src.usize(2) };
        let rhs: Vec<S> = vec![t; src.range(1, 4)];
        let style = src.below(3);
        let w = match style {
            0 => 1.0,
            _ => src.below(6000) as f64 / 1000.0,
        };
        log.push_str(&format!(" {rhs:?}*{w}({style})"));
        match style {
            0 => cfg.rule(sy(0)).rhs(sys(&rhs)),
            1 => cfg.rule(sy(0)).rhs_with_linked_history(sys(&rhs), LinkedHistoryNode::Weight { weight: w }),
            _ => {
                let h = HistoryNodeWeight { prev: RootHistoryNode::Origin { origin: i }.into(), weight: w };
                cfg.rule(sy(0)).rhs_with_history(sys(&rhs), h.into())
            }
        };
        all.push(w);
        *weights.entry(rhs).or_default() += w;
    }
    if src.chance(1, 4) {
        let l = src.range(2, 3);
        log.push_str(&format!(" limit {l}"));
        cfg.limit_rhs_len(Some(l));
    }
    case.input = log;
    case.class("grammar");
    if weights.values().sum::<f64>() < 0.5 {
        return Ok(());
    }
    let points = 499u64.max(40 * k as u64);
    let mut counts: HashMap<Vec<S>, u64> = HashMap::new();
    for i in 0..points {
        let mut g = Grid { fraction: (i as f64 + 0.437_129) / points as f64, asked: vec![] };
        let (w, _) = cfg
            .random(sy(0), None, &mut g, &[], |_, _: &mut _| None)
            .map_err(|e| format!("generation failed: {e:?}"))?;
        *counts.entry(us(&w)).or_default() += 1;
    }
    case.nontrivial = all.iter().any(|w| *w != all[0]);
    // weights are kept to three decimal places
    let total: f64 = weights.values().sum();
    for (rhs, w) in &weights {
        let want = w / total * points as f64;
        let got = counts.get(rhs).copied().unwrap_or(0) as f64;
        let slack = 2.0 * all.len() as f64 + points as f64 * 0.002 * all.len() as f64 / total;
        let zero_ok = *w != 0.0 || got == 0.0 || weights.len() == 1;
        ensure!(
            (got - want).abs() <= slack && zero_ok,
            "alternative {rhs:?} of weight {w} (total {total}) was generated {got} times out of {points} equally spaced choices"
        );
    }
    ensure!(counts.keys().all(|k| weights.contains_key(k)), "generated {counts:?}, alternatives are {weights:?}");
    Ok(())
}

/// Weights of very different sizes: the alternatives' boundaries, found by bisection.
fn extremes(src: &mut Src, case: &mut Case) -> Res {
    let mut cfg = Cfg::new();
    let k = src.range(2, 5);
    add_syms(src, &mut cfg, k + 1);
    // in thousandths
    let units: Vec<u32> = (0..k)
        .map(|_| match src.below(3) {
            0 => *src.pick(&[1, 2, 3, 1000, 255, 65_535]),
            1 => *src.pick(&[1 << 24, (1 << 24) + 1, 1 << 25, (1 << 25) + 3, 1 << 31, 4_000_000_001]),
            _ => 1 + (src.below(4_000_000_000) as u32 >> src.below(32)),
        })
        .collect();
    let styles: Vec<u64> = (0..k).map(|_| src.below(3)).collect();
    case.input = format!("weights of {units:?} thousandths, given in ways {styles:?}");
    case.class("weights of very different sizes");
    for i in 0..k {
        let rhs = [sy(i + 1)];
        let weight = units[i] as f64 / 1000.0;
        // (given as a number, in the middle of what is rounded down)
        let given = weight + 0.0005;
        match styles[i] {
            0 => cfg.rule(sy(0)).rhs_with_linked_history(rhs, LinkedHistoryNode::Weight { weight: given }),
            1 => cfg.rule(sy(0)).rhs_with_history(rhs, HistoryNodeWeight { prev: RootHistoryNode::NoOp.into(), weight: given }.into()),
            _ => {
                let mut h: cfg_history::earley::History = RootHistoryNode::NoOp.into();
                h.weight = Some(units[i]);
                cfg.rule(sy(0)).rhs_with_history(rhs, h)
            }
        };
    }
    let total: f64 = units.iter().map(|u| *u as f64 / 1000.0).sum();
    let at = |x: f64| -> Result<S, String> {
        let (w, _) = cfg.random(sy(0), None, &mut Exact(x), &[], |_, _: &mut _| None).map_err(|e| format!("generation failed: {e:?}"))?;
        Ok(w[0].usize())
    };
    // pieces of the line
    let mut cuts: Vec<(f64, S, S)> = vec![];
    let top = total - 0.0002;
    let (first, last) = (at(0.0002)?, at(top)?);
    let mut stack = vec![(0.0002, first, top, last)];
    while let Some((lo, a, hi, b)) = stack.pop() {
        if a == b {
            continue;
        }
        if hi - lo < 0.0002 {
            cuts.push(((lo + hi) / 2.0, a, b));
            ensure!(cuts.len() < 3 * k, "the alternatives are in pieces: {cuts:?}");
            continue;
        }
        let mid = (lo + hi) / 2.0;
        let m = at(mid)?;
        stack.push((mid, m, hi, b));
        stack.push((lo, a, mid, m));
    }
    let mut lens: HashMap<S, f64> = HashMap::new();
    let mut prev = 0.0;
    let mut cur = first;
    for (x, a, b) in &cuts {
        ensure!(*a == cur, "HARNESS: cuts {cuts:?}");
        *lens.entry(cur).or_default() += x - prev;
        prev = *x;
        cur = *b;
    }
    *lens.entry(cur).or_default() += total - prev;
    case.nontrivial = units.iter().any(|u| *u != units[0]);
    for i in 0..k {
        let got = lens.get(&(i + 1)).copied().unwrap_or(0.0);
        let want = units[i] as f64 / 1000.0;
        ensure!((got - want).abs() < 0.001, "alternative {i} of weight {want} covers {got} out of {total}");
    }
    Ok(())
}

fn sources(src: &mut Src, case: &mut Case) -> Res {
    let limit = (src.below(100_000) + 1) as f64 / 1000.0;
    case.input = format!("sources up to {limit}");
    case.class("sources");
    let bytes: Vec<u8> = (0..src.range(0, 12)).map(|_| src.below(256) as u8).collect();
    let mut b = ByteSource::new(bytes.iter().copied());
    let mut prev: Option<(u8, f64)> = None;
    for i in 0..bytes.len() + 3 {
        let v = b.generate(limit);
        let byte = bytes.get(i).copied().unwrap_or(0);
        ensure!((0.0..=limit).contains(&v), "byte {byte} gave {v}, up to {limit}");
        if let Some((pb, pv)) = prev {
            ensure!((pb < byte) == (pv < v), "bytes {pb}, {byte} gave {pv}, {v}");
        }
        prev = Some((byte, v));
    }
    if src.chance(1, 2) {
        let mut b = ByteSource::new(bytes.iter().copied());
        b.mutate_start(src.below(2000));
        for _ in 0..20 {
            let v = b.generate(limit);
            ensure!((0.0..=limit).contains(&v), "{v} out of range up to {limit}");
        }
    }
    let mut r = SmallRng::seed_from_u64(src.below(u64::MAX));
    for _ in 0..8 {
        let v = r.generate(limit);
        ensure!((0.0..limit).contains(&v), "{v} out of range up to {limit}");
    }
    r.mutate_start(src.below(20));
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[3, 2, 2, 4, 1, 1]) {
        0 => direct::<f64>(src, case, 400, |s| {
            let w = match s.weighted(&[4, 3, 1, 1]) {
                0 => (s.below(8) + 1) as f64,
                1 => s.below(100_000) as f64 / 997.0,
                2 => 0.0,
                _ => 1e-3,
            };
            (w, w)
        }, "f64"),
        1 => direct::<u32>(src, case, 400, |s| {
            let w = *s.pick(&[1u32, 2, 3, 0, 10, 1000, 1_000_000]);
            (w, w as f64)
        }, "u32"),
        2 => direct::<u8>(src, case, 20, |s| {
            // (the total is a number of the weight's type, too)
            let w = s.below(12) as u8;
            (w, w as f64)
        }, "u8"),
        3 => grammar(src, case),
        4 => sources(src, case),
        _ => extremes(src, case),
    }
}

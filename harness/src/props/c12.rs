//! C12: sequence rules.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_grammar::Cfg;
use cfg_sequence::builder::SequenceRuleBuilder;
use cfg_sequence::destination::SequenceDestination;
use cfg_sequence::rewrite::SequencesToProductions;
use cfg_sequence::{CfgSequenceExt, Separator, Sequence};
use std::collections::HashMap;
use std::ops::Bound;

pub static PROP: Prop = Prop {
    id: "C12",
    rule: "some sequence allows two or more repetitions, or has a separator",
    run,
    quick: 260_000,
    thorough: 3_900_000,
    probes: &[("sequence-plus-with-other-rule", probe_plus)],
};

#[derive(Clone, Debug)]
struct Seq {
    lhs: S,
    rhs: S,
    start: u32,
    end: Option<u32>,
    sep: u8,
    sep_sym: S,
}

impl Seq {
    fn separator(&self) -> Separator {
        let s = sy(self.sep_sym);
        match self.sep {
            0 => Separator::Null,
            1 => Separator::Proper(s),
            2 => Separator::Trailing(s),
            _ => Separator::Liberal(s),
        }
    }
    /// Right-hand sides for a given number of repetitions.
    fn unrolled(&self, c: usize) -> Vec<Vec<S>> {
        let mut v = vec![];
        for i in 0..c {
            if i > 0 && self.sep != 0 {
                v.push(self.sep_sym);
            }
            v.push(self.rhs);
        }
        let mut t = v.clone();
        if c > 0 {
            t.push(self.sep_sym);
        }
        match self.sep {
            0 | 1 => vec![v],
            2 => vec![t],
            _ => vec![v, t],
        }
    }
    /// The form which left-recurses through its own LHS: see the known finding.
    fn own_recursion(&self) -> bool {
        self.start == 1 && self.end.is_none() && self.sep <= 1
    }
    fn show(&self) -> String {
        format!(
            "seq {}::={}{{{},{}}}{}",
            self.lhs,
            self.rhs,
            self.start,
            self.end.map_or("".into(), |e| e.to_string()),
            match self.sep {
                0 => "".into(),
                1 => format!(" proper {}", self.sep_sym),
                2 => format!(" trailing {}", self.sep_sym),
                _ => format!(" liberal {}", self.sep_sym),
            }
        )
    }
}

fn bounds(src: &mut Src, s: &Seq) -> (Bound<u32>, Bound<u32>) {
    let lo = match src.below(3) {
        0 => Bound::Included(s.start),
        1 if s.start == 0 => Bound::Unbounded,
        _ if s.start > 0 => Bound::Excluded(s.start - 1),
        _ => Bound::Included(s.start),
    };
    let hi = match s.end {
        None => Bound::Unbounded,
        Some(e) if e < u32::MAX && src.chance(1, 2) => Bound::Excluded(e + 1),
        Some(e) => Bound::Included(e),
    };
    (lo, hi)
}

fn configure<D: SequenceDestination>(src: &mut Src, b: SequenceRuleBuilder<D>, s: &Seq) -> SequenceRuleBuilder<D> {
    let b = if s.sep == 1 && src.chance(1, 2) {
        b.intersperse(sy(s.sep_sym))
    } else if s.sep != 0 || src.chance(1, 2) {
        b.separator(s.separator())
    } else {
        b
    };
    match src.below(4) {
        0 => b.inclusive(s.start, s.end).rhs(sy(s.rhs)),
        1 => {
            let r = bounds(src, s);
            b.range(r).rhs(sy(s.rhs))
        }
        2 => {
            let r = bounds(src, s);
            b.rhs_with_range(sy(s.rhs), r)
        }
        _ => b.inclusive(s.start, s.end).rhs_with_history(sy(s.rhs), None),
    }
}

fn add(src: &mut Src, cfg: &mut Cfg, seqs: &[Seq]) {
    match src.below(4) {
        0 => {
            for s in seqs {
                let b = cfg.sequence(sy(s.lhs));
                configure(src, b, s);
            }
        }
        1 => {
            // one builder for all
            let mut it = seqs.iter();
            if let Some(s) = it.next() {
                let b = cfg.sequence(sy(s.lhs));
                let mut b = configure(src, b, s);
                for s in it {
                    b = b.sequence(sy(s.lhs));
                    b = configure(src, b, s);
                }
            }
        }
        2 => {
            // collected first, then rewritten
            let mut v: Vec<Sequence> = vec![];
            for s in seqs {
                let b = SequenceDestination::sequence(&mut v, sy(s.lhs));
                configure(src, b, s);
            }
            let mut rw = SequencesToProductions::new(cfg);
            for s in v {
                rw.rewrite(s);
            }
        }
        _ => {
            let mut rw = SequencesToProductions::new(cfg);
            for s in seqs {
                let q = Sequence {
                    lhs: sy(s.lhs),
                    rhs: sy(s.rhs),
                    start: 7,
                    end: Some(9),
                    separator: Separator::Null,
                    history: None,
                };
                let q = q.separator(s.separator());
                let q = if src.chance(1, 2) {
                    q.inclusive(s.start, s.end)
                } else {
                    q.range(bounds(src, s))
                };
                rw.add_sequence(q);
            }
        }
    }
}

/// Sets of counts as merged inclusive intervals.
fn merge(mut v: Vec<(u64, u64)>) -> Vec<(u64, u64)> {
    v.sort();
    let mut out: Vec<(u64, u64)> = vec![];
    for (a, b) in v {
        match out.last_mut() {
            Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}

fn counts(
    s: S,
    elem: S,
    rules: &HashMap<S, Vec<Vec<S>>>,
    memo: &mut HashMap<S, Vec<(u64, u64)>>,
    depth: usize,
) -> Result<Vec<(u64, u64)>, String> {
    if s == elem {
        return Ok(vec![(1, 1)]);
    }
    if let Some(v) = memo.get(&s) {
        return Ok(v.clone());
    }
    ensure!(depth < 4000, "helper symbols are recursive though the sequence is bounded");
    let Some(rs) = rules.get(&s) else {
        return Ok(vec![(0, 0)]); // the separator
    };
    let mut all = vec![];
    for r in rs {
        let mut cur = vec![(0u64, 0u64)];
        for &x in r {
            let c = counts(x, elem, rules, memo, depth + 1)?;
            let mut next = vec![];
            for a in &cur {
                for b in &c {
                    next.push((a.0 + b.0, a.1 + b.1));
                }
            }
            cur = merge(next);
        }
        all.extend(cur);
    }
    let v = merge(all);
    memo.insert(s, v.clone());
    Ok(v)
}

fn pick_range(src: &mut Src, max: u32) -> (u32, Option<u32>) {
    let start = match src.weighted(&[3, 3, 2, 4]) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => src.below(max as u64 + 1) as u32,
    };
    let end = match src.weighted(&[3, 2, 5]) {
        0 => None,
        1 => Some(start),
        _ => Some(start + src.below(max as u64 + 1) as u32),
    };
    (start, end)
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[6, 3, 2]) {
        0 => structural(src, case),
        1 => lengths(src, case),
        _ => huge(src, case),
    }
}

fn structural(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_nt: 3, max_t: 2, max_rules: 4, max_rhs: 2, pad: false, large: false, ..SMALL });
    let rg = &g.g;
    let nseq = src.range(1, 3);
    let extra = nseq;
    let n = rg.n + extra;
    let mut seqs: Vec<Seq> = vec![];
    for i in 0..nseq {
        let lhs = if src.chance(2, 3) { rg.n + i } else { *src.pick(&g.nts) };
        let rhs = if src.chance(1, 8) && i > 0 {
            rg.n + src.usize(i)
        } else if src.chance(1, 2) {
            *src.pick(&g.ts)
        } else {
            src.usize(rg.n)
        };
        let sep_sym = if src.chance(3, 4) { *src.pick(&g.ts) } else { src.usize(rg.n) };
        let sep = src.below(4) as u8;
        let (start, end) = pick_range(src, 7);
        let mut s = Seq { lhs, rhs, start, end, sep, sep_sym };
        if s.own_recursion() {
            s.lhs = rg.n + i; // no other rules: outside the known finding
        }
        seqs.push(s);
    }
    let mut limit = None;
    if src.chance(1, 5) {
        limit = Some(2);
    }
    let before = src.chance(1, 2);
    case.input = format!("{} limit={limit:?} first={before}", rg.show());
    for s in &seqs {
        case.input.push_str(&format!("; {}", s.show()));
        case.nontrivial |= s.end.map_or(true, |e| e >= 2) || s.sep != 0;
        case.class_if(s.end.is_none(), "unbounded");
        case.class_if(s.sep == 3, "liberal");
        case.class_if(s.sep == 2, "trailing");
        case.class_if(s.lhs < rg.n, "LHS with other rules");
    }
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, n);
    cfg.limit_rhs_len(limit);
    if before {
        add(src, &mut cfg, &seqs);
    }
    for (l, r) in &rg.rules {
        cfg.rule(sy(*l)).rhs(sys(r));
    }
    if !before {
        add(src, &mut cfg, &seqs);
    }
    let got = from_cfg(&cfg);
    if let Some(l) = limit {
        ensure!(got.rules.iter().all(|r| r.1.len() <= l), "a rule is longer than the limit: {}", got.show());
    }
    for (l, _) in &got.rules {
        let user = rg.rules.iter().any(|r| r.0 == *l) || seqs.iter().any(|s| s.lhs == *l);
        ensure!(user || *l >= n, "rules were added for the unrelated symbol {l}: {}", got.show());
    }
    ensure!(got.n == cfg.num_syms(), "rules use symbols the source never produced");
    let term: Vec<bool> = {
        let mut t = RG { n, rules: rg.rules.clone(), roots: vec![] }.terminals();
        for s in &seqs {
            t[s.lhs] = false;
        }
        t
    };
    let Some(letters) = letters_of((0..n).filter(|&i| term[i])) else {
        return Ok(());
    };
    let mut best: Option<(Lang, Lang)> = None;
    for &k in &[2usize, 4, 6, 8, 11] {
        let mut model = rg.rules.clone();
        for s in &seqs {
            let top = s.end.unwrap_or(u32::MAX).min(s.start.max(k as u32 + 1));
            for c in s.start..=top {
                for r in s.unrolled(c as usize) {
                    model.push((s.lhs, r));
                }
            }
        }
        let Some(a) = lang_k(n, &model, &letters, k, 1500) else { break };
        let Some(b) = lang_k(got.n, &got.rules, &letters, k, 6000) else { break };
        best = Some((a, b));
    }
    let Some((a, b)) = best else {
        case.class("languages too large to compare");
        case.nontrivial = false;
        return Ok(());
    };
    case.class_if(a.k >= 6, "compared to length 6 or more");
    for s in 0..n {
        if let Some(w) = diff(&a.sets[s], &b.sets[s]) {
            return Err(format!(
                "symbol {s}: the word {} is {} but {}; rules {}",
                show_word(w, &letters),
                if a.sets[s].contains(&w) { "in the sequence's language" } else { "not in the sequence's language" },
                if a.sets[s].contains(&w) { "is not derived" } else { "is derived" },
                got.show()
            ));
        }
        case.count("words compared", a.sets[s].len() as u64);
    }
    Ok(())
}

/// One sequence of terminals: exact set of lengths up to a bound, and words around the bounds.
fn lengths(src: &mut Src, case: &mut Case) -> Res {
    let max = *src.pick(&[12, 40, 130]);
    let (start, end) = pick_range(src, max);
    let sep = src.below(4) as u8;
    let s = Seq { lhs: 0, rhs: 1, start, end, sep, sep_sym: 2 };
    case.input = s.show();
    case.class("lengths");
    case.nontrivial = end.map_or(true, |e| e >= 2);
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, 3);
    add(src, &mut cfg, std::slice::from_ref(&s));
    let got = from_cfg(&cfg);
    let hi = end.unwrap_or(start + 40) as usize;
    let cap = 2 * hi + 6;
    // lengths by fixpoint
    let mut sets: Vec<Vec<bool>> = vec![vec![false; cap + 1]; got.n];
    sets[1][1] = true;
    sets[2][1] = true;
    loop {
        let mut ch = false;
        for (l, r) in &got.rules {
            let mut cur = vec![0usize];
            for &x in r {
                let mut next = vec![false; cap + 1];
                for &a in &cur {
                    for (b, ok) in sets[x].iter().enumerate() {
                        if *ok && a + b <= cap {
                            next[a + b] = true;
                        }
                    }
                }
                cur = (0..=cap).filter(|&i| next[i]).collect();
            }
            for a in cur {
                if !sets[*l][a] {
                    sets[*l][a] = true;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    let mut want = vec![false; cap + 1];
    for c in start as usize..=end.map_or(cap, |e| e as usize) {
        for r in s.unrolled(c) {
            if r.len() <= cap {
                want[r.len()] = true;
            }
        }
    }
    for i in 0..=cap {
        ensure!(
            sets[0][i] == want[i],
            "words of length {i}: derived {}, expected {}; rules {}",
            sets[0][i],
            want[i],
            got.show()
        );
    }
    // whole words around the bounds
    let term: Vec<bool> = (0..got.n).map(|i| i == 1 || i == 2).collect();
    let near = [start as usize, hi, (start as usize + hi) / 2, src.range(0, hi)];
    let c = near[src.usize(4)];
    if c <= 60 {
        for d in [c.saturating_sub(1), c, c + 1] {
            let inside = d >= start as usize && end.map_or(true, |e| d <= e as usize);
            let mut proper = vec![1; d];
            if sep != 0 {
                proper = Seq { sep: 1, ..s.clone() }.unrolled(d).pop().unwrap();
            }
            let mut trailing = proper.clone();
            trailing.push(2);
            let mut leading = proper.clone();
            leading.insert(0, 2);
            let cases = [
                (proper.clone(), inside && (sep != 2 || d == 0)),
                (trailing, inside && sep >= 2 && d > 0),
                (leading, false),
            ];
            for (w, want) in cases {
                // with no elements, a proper sequence is empty: trailing/leading are a bare separator
                let got_it = recognize(got.n, &got.rules, &term, 0, &w);
                ensure!(got_it == want, "word {w:?}: recognized {got_it}, expected {want}; rules {}", got.show());
            }
        }
    }
    Ok(())
}

/// Bounded sequences with large counts: the set of element counts.
fn huge(src: &mut Src, case: &mut Case) -> Res {
    let size = *src.pick(&[200u64, 5_000, 1 << 20, 1 << 30, u32::MAX as u64]);
    let near_pow = |src: &mut Src| {
        if src.chance(1, 2) {
            let p = 1u64 << src.below(64 - size.leading_zeros() as u64);
            (p + src.below(3)).saturating_sub(1).min(u32::MAX as u64)
        } else {
            src.below(size + 1)
        }
    };
    let a = near_pow(src);
    let b = near_pow(src);
    let (start, end) = match src.below(3) {
        0 => (a.min(b), a.max(b)),
        1 => (a, a),
        _ => (src.below(4).min(a), a),
    };
    let sep = src.below(4) as u8;
    let s = Seq { lhs: 0, rhs: 1, start: start as u32, end: Some(end as u32), sep, sep_sym: 2 };
    case.input = s.show();
    case.class("large counts");
    case.nontrivial = end >= 2;
    let mut cfg = Cfg::new();
    add_syms(src, &mut cfg, 3);
    add(src, &mut cfg, std::slice::from_ref(&s));
    let mut map: HashMap<S, Vec<Vec<S>>> = HashMap::new();
    for (l, r) in rules_of(&cfg) {
        map.entry(l).or_default().push(r);
    }
    let got = counts(0, 1, &map, &mut HashMap::new(), 0)?;
    ensure!(got == vec![(start, end)], "numbers of repetitions {got:?}, expected {start}..={end}");
    Ok(())
}

/// `X ::= a+` together with `X ::= b`.
fn probe_plus() -> Res {
    let mut cfg = Cfg::new();
    cfg.sym::<3>();
    cfg.sequence(sy(0)).inclusive(1, None).rhs(sy(1));
    cfg.rule(sy(0)).rhs([sy(2)]);
    let got = from_cfg(&cfg);
    let term: Vec<bool> = (0..got.n).map(|i| i == 1 || i == 2).collect();
    ensure!(!recognize(got.n, &got.rules, &term, 0, &[2, 1]), "the word `b a` is derived from X");
    Ok(())
}

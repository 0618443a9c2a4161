//! Generators of grammars.

use crate::engine::{Case, Src};
use crate::refg::{RG, S};

#[derive(Clone, Copy, Debug)]
pub struct GP {
    pub max_nt: usize,
    pub max_t: usize,
    pub max_rules: usize,
    pub max_rhs: usize,
    /// empty right-hand sides allowed
    pub empty: bool,
    /// unused symbols interspersed, so that numbers cross machine-word boundaries
    pub pad: bool,
    /// every nonterminal gets at least one rule made of terminals only
    pub productive: bool,
    pub no_roots: bool,
    /// now and then a grammar several times as large
    pub large: bool,
    /// one in so many grammars is huge: symbols and rules beyond 256, right-hand sides
    /// of hundreds of symbols; 0 for never
    pub huge: u64,
    /// one in so many grammars has symbols beyond 65536; 0 for never (matrices would be too large)
    pub far: u64,
    /// one in so many grammars has more than 65536 rules, or a right-hand side with more
    /// than 65536 symbols; 0 for never
    pub vast: u64,
    /// only the latter
    pub vast_rhs_only: bool,
}

pub const SMALL: GP = GP {
    max_nt: 5,
    max_t: 3,
    max_rules: 12,
    max_rhs: 4,
    empty: true,
    pad: true,
    productive: false,
    no_roots: false,
    large: true,
    huge: 0,
    far: 0,
    vast: 0,
    vast_rhs_only: false,
};

pub struct Gen {
    pub g: RG,
    /// numbers of the intended nonterminals and terminals
    pub nts: Vec<S>,
    pub ts: Vec<S>,
}

/// Draws a grammar.
pub fn grammar(src: &mut Src, case: &mut Case, p: &GP) -> Gen {
    let huge = p.huge > 0 && src.chance(1, p.huge);
    let big = huge || p.large && src.chance(1, 30);
    let (p, nt, t) = if huge {
        case.class("huge grammar");
        let (nt, max_rules, max_rhs) = match src.below(4) {
            0 => (src.range(150, 330), 700, 4),
            1 => (src.range(2, 30), 700, 4),
            2 => (src.range(2, 30), 40, *src.pick(&[66, 130, 260, 300])),
            _ => (src.range(30, 100), 300, 20),
        };
        let max_t = if src.chance(1, 3) { 300 } else { 40 };
        (GP { max_rules, max_rhs, ..*p }, nt, src.range(2, max_t))
    } else if big {
        case.class("large grammar");
        let nt = src.range(6, 40);
        let q = GP { max_rules: 3 * nt, max_rhs: p.max_rhs.max(src.range(2, 16)), ..*p };
        (q, nt, src.range(2, 12))
    } else {
        (*p, src.range(1, p.max_nt), src.range(1, p.max_t))
    };
    let pad = if p.pad {
        match src.weighted(&[70, 15, 15]) {
            0 => 0,
            1 => src.range(1, 5),
            _ => *src.pick(&[24, 28, 31, 32, 33, 56, 60, 62, 64, 65, 96, 124, 128]),
        }
    } else {
        0
    };
    let n = nt + t + pad;
    // numbering
    let mut numbers: Vec<S> = (0..n).collect();
    let shuffled = src.chance(1, 2);
    if shuffled || pad > 0 {
        src.shuffle(&mut numbers);
    }
    let nts: Vec<S> = numbers[..nt].to_vec();
    let ts: Vec<S> = numbers[nt..nt + t].to_vec();
    let profile = src.weighted(&[4, 2, 2, 2, 2]);
    let (wlen, nt_bias): (Vec<u64>, u64) = match profile {
        0 => (vec![2, 6, 6, 4, 2], 5),
        1 => (vec![6, 6, 6, 2, 1], 8),  // nullable
        2 => (vec![1, 14, 3, 1, 1], 8), // unit
        3 => (vec![1, 2, 4, 6, 6], 4),  // long
        _ => (vec![1, 5, 8, 4, 1], 7),  // recursive
    };
    let mut rules: Vec<(S, Vec<S>)> = vec![];
    let mut doubled = 0;
    if src.chance(1, 4) && nt > 1 {
        // a chain through the nonterminals
        let dressed = src.chance(1, 3);
        for i in 0..nt - 1 {
            let mut rhs = vec![nts[i + 1]];
            if dressed && src.chance(1, 2) {
                let x = if src.chance(1, 2) { *src.pick(&nts) } else { *src.pick(&ts) };
                let at = src.usize(2);
                rhs.insert(at, x);
            }
            rules.push((nts[i], rhs));
        }
        rules.push((nts[nt - 1], if p.empty && src.chance(1, 3) { vec![] } else { vec![ts[0]] }));
        case.class("chain");
    } else if p.huge > 0 && src.chance(1, if big { 6 } else { 300 }) {
        // sentences of lengths beyond 16 or 32 bits
        let k = nt.min(src.range(8, 40));
        for i in 0..k - 1 {
            let x = nts[i + 1];
            rules.push((nts[i], vec![x, x]));
        }
        rules.push((nts[k - 1], vec![ts[0]]));
        doubled = k;
        case.class("long shortest sentences");
    }
    let nrules = src.range(if big { nt.min(p.max_rules) } else { 1 }, p.max_rules);
    for i in 0..nrules {
        if !rules.is_empty() && src.chance(1, 14) {
            let r = src.pick(&rules).clone();
            rules.push(r);
            continue;
        }
        // (the doubled chain keeps its length)
        let lhs = if doubled > 0 && src.chance(9, 10) {
            if doubled == nt {
                break;
            }
            nts[src.range(doubled, nt - 1)]
        } else if i < nt && src.chance(3, 4) {
            nts[i]
        } else {
            *src.pick(&nts)
        };
        let mut len = src.weighted(&wlen);
        if len == 4 {
            len = src.range(4.min(p.max_rhs), p.max_rhs);
        }
        len = len.min(p.max_rhs);
        if len == 0 && !p.empty {
            len = 1;
        }
        let rhs: Vec<S> = (0..len)
            .map(|_| {
                if src.below(10) < nt_bias {
                    *src.pick(&nts)
                } else {
                    *src.pick(&ts)
                }
            })
            .collect();
        rules.push((lhs, rhs));
    }
    if p.productive {
        for &a in &nts {
            let len = src.weighted(&[1, 6, 2, 1]);
            let len = if len == 0 && !p.empty { 1 } else { len };
            let rhs = (0..len).map(|_| *src.pick(&ts)).collect();
            rules.push((a, rhs));
        }
    }
    // all symbols have rules: there are no terminals
    let closed = p.empty && !p.productive && pad == 0 && !huge && doubled == 0 && src.chance(1, 60);
    if closed {
        case.class("no terminals");
        for &a in &numbers {
            if !rules.iter().any(|r| r.0 == a) {
                rules.push((a, if src.chance(2, 3) { vec![] } else { vec![*src.pick(&numbers)] }));
            }
        }
    }
    if src.chance(1, 2) {
        src.shuffle(&mut rules);
    } else if src.chance(1, 2) {
        rules.reverse();
    }
    let nroots = if p.no_roots {
        src.weighted(&[12, 3, 2, 1])
    } else {
        src.weighted(&[12, 3, 2])
    };
    let roots: Vec<S> = match nroots {
        0 => vec![nts[0]],
        1 => {
            let mut r = vec![nts[0]];
            let x = *src.pick(&nts);
            if x != nts[0] {
                r.push(x);
            }
            r
        }
        2 => {
            let mut r = nts.clone();
            let k = src.range(1, nt);
            r.truncate(k);
            r.reverse();
            r
        }
        _ => vec![],
    };
    case.class_if(pad > 5, "symbols beyond one machine word");
    case.class_if(roots.len() > 1, "several roots");
    let (mut n, mut rules, mut roots, mut nts, mut ts) = (n, rules, roots, nts, ts);
    if p.max_rhs >= 3 && !p.productive && !closed && !roots.is_empty() && roots.len() <= 2 && src.chance(1, 25) {
        // what wrapping the input makes (see `to_cfg`)
        case.class("wrapped roots");
        for r in &mut roots {
            rules.push((n, vec![n + 1, *r, n + 2]));
            nts.push(n);
            ts.extend([n + 1, n + 2]);
            *r = n;
            n += 3;
        }
    }
    // numbers beyond 8 or 16 bits, by unused symbols in between
    let far = p.far > 0 && !closed && src.chance(1, p.far);
    if far || p.pad && !closed && src.chance(1, 300) {
        let gap = if far { src.range(65_480, 65_560) } else { src.range(130, 300) };
        let cut = src.usize(n);
        for s in rules.iter_mut().flat_map(|r| r.1.iter_mut().chain([&mut r.0])).chain(&mut roots).chain(&mut nts).chain(&mut ts) {
            if *s >= cut {
                *s += gap;
            }
        }
        n += gap;
        case.class(if far { "symbols beyond 16 bits" } else { "symbols beyond 8 bits" });
    }
    // rules or positions beyond 16 bits
    if p.vast > 0 && !closed && src.chance(1, p.vast) {
        let count = src.range(65_480, 65_560);
        if !p.vast_rhs_only && src.chance(1, 2) {
            let filler = if src.chance(1, 2) {
                nts.push(n);
                n += 1;
                (n - 1, vec![*src.pick(&ts)])
            } else {
                src.pick(&rules).clone()
            };
            let at = src.usize(rules.len() + 1);
            rules.splice(at..at, vec![filler; count]);
            case.class("rules beyond 16 bits");
        } else {
            let which = src.usize(rules.len());
            let mut filler = if src.chance(1, 2) || rules[which].1.is_empty() { *src.pick(&ts) } else { *src.pick(&rules[which].1) };
            // (the time taken by predict sets is quadratic in the number of nullable symbols)
            if (RG { n, rules: rules.clone(), roots: vec![] }).nullable()[filler] {
                filler = *src.pick(&ts);
            }
            let at = src.usize(rules[which].1.len() + 1);
            rules[which].1.splice(at..at, vec![filler; count]);
            case.class("right-hand sides beyond 16 bits");
        }
    }
    let g = RG { n, rules, roots };
    let null = g.nullable();
    case.class_if(null.iter().any(|x| *x), "has nullable symbols");
    Gen { g, nts, ts }
}

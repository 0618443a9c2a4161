//! C11: LR(0) closure, goto and finite-state machine.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_classify::CfgClassifyExt;
use cfg_classify::lr::{Lr0ClosureBuilder, Lr0FsmBuilder, Lr0Item, Lr0Items};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub static PROP: Prop = Prop {
    id: "C11",
    rule: "the machine has at least three states, or a closure adds an item of a rule other than the seed's",
    run,
    quick: 4_500_000,
    thorough: 45_000_000,
    probes: &[("lr0-same-rule-at-two-dots", probe_two_dots)],
};

type Items = BTreeSet<(usize, usize)>;

fn closure(rules: &[(S, Vec<S>)], set: &Items) -> Items {
    let mut out = set.clone();
    let mut queue: Vec<(usize, usize)> = set.iter().copied().collect();
    while let Some((r, d)) = queue.pop() {
        if let Some(&x) = rules[r].1.get(d) {
            for (i, (l, _)) in rules.iter().enumerate() {
                if *l == x && out.insert((i, 0)) {
                    queue.push((i, 0));
                }
            }
        }
    }
    out
}

fn goto(rules: &[(S, Vec<S>)], set: &Items, x: S) -> Items {
    let kernel: Items = set
        .iter()
        .filter(|(r, d)| rules[*r].1.get(*d) == Some(&x))
        .map(|&(r, d)| (r, d + 1))
        .collect();
    if kernel.is_empty() { kernel } else { closure(rules, &kernel) }
}

/// The documented representation keeps one dot per rule.
fn representable(set: &Items) -> bool {
    let ids: BTreeSet<usize> = set.iter().map(|x| x.0).collect();
    ids.len() == set.len()
}

fn view(items: &Lr0Items, rules: &[(S, Vec<S>)]) -> Result<Items, String> {
    let mut out = Items::new();
    for (&id, item) in &items.map {
        let Some((_, rhs)) = rules.get(id as usize) else {
            return Err(format!("item of rule number {id}, there are {} rules", rules.len()));
        };
        ensure!(&us(&item.rhs) == rhs, "item of rule {id} has RHS {:?}, the rule has {rhs:?}", us(&item.rhs));
        ensure!(item.dot as usize <= rhs.len(), "item of rule {id} has dot {} past its end", item.dot);
        out.insert((id as usize, item.dot as usize));
    }
    Ok(out)
}

fn to_items(set: &Items, rules: &[(S, Vec<S>)]) -> Lr0Items {
    Lr0Items {
        map: set
            .iter()
            .map(|&(r, d)| (r as _, Lr0Item { rhs: sys(&rules[r].1), dot: d as _ }))
            .collect(),
    }
}

/// Textbook machine over terminal transitions: item sets and links. None if over the cap
/// or a set is not representable.
fn machine(rules: &[(S, Vec<S>)], term: &[S], start: Items, cap: usize) -> Option<BTreeMap<Items, BTreeMap<S, Items>>> {
    let mut out: BTreeMap<Items, BTreeMap<S, Items>> = BTreeMap::new();
    let mut queue = VecDeque::from([start]);
    while let Some(set) = queue.pop_front() {
        if !representable(&set) {
            return None;
        }
        if out.contains_key(&set) {
            continue;
        }
        if out.len() > cap {
            return None;
        }
        let mut links = BTreeMap::new();
        for &t in term {
            let next = goto(rules, &set, t);
            if !next.is_empty() {
                queue.push_back(next.clone());
                links.insert(t, next);
            }
        }
        out.insert(set, links);
    }
    Some(out)
}

fn check_fsm(rg: &RG, start: S, again: Option<S>, cap: usize, case: &mut Case) -> Res {
    let term: Vec<S> = {
        let t = rg.terminals();
        (0..rg.n).filter(|&i| t[i]).collect()
    };
    let mut cfg = to_cfg(rg);
    let mut rules = rg.rules.clone();
    let mut results = vec![];
    {
        let mut b = if start % 2 == 0 { Lr0FsmBuilder::new(&mut cfg) } else { cfg.lr0_fsm_builder() };
        for s in std::iter::once(start).chain(again) {
            // decide beforehand whether the case is in scope
            rules.push((usize::MAX, vec![s]));
            let id = rules.len() - 1;
            let first = closure(&rules, &[(id, 0)].into());
            let Some(want) = machine(&rules, &term, first.clone(), cap) else {
                return Ok(());
            };
            let got = b.make_lr0_fsm(sy(s));
            results.push((rules.clone(), first, want, got));
        }
    }
    for (rules, first, want, got) in results {
        let sets: Vec<Items> = got
            .iter()
            .map(|n| view(&n.items, &rules))
            .collect::<Result<_, _>>()?;
        ensure!(sets.first() == Some(&first), "node 0 is {:?}, expected the initial set {first:?}", sets.first());
        let distinct: BTreeSet<&Items> = sets.iter().collect();
        ensure!(distinct.len() == sets.len(), "two nodes with the same item set: {sets:?}");
        for s in &sets {
            ensure!(want.contains_key(s), "node {s:?} is not a set of the machine");
        }
        for s in want.keys() {
            ensure!(distinct.contains(s), "the machine has no node {s:?}; nodes are {sets:?}");
        }
        for (i, node) in got.iter().enumerate() {
            let mut links = BTreeMap::new();
            for (sym, &to) in &node.link {
                let Some(t) = sets.get(to as usize) else {
                    return Err(format!("node {i} links to {to}, there are {} nodes", sets.len()));
                };
                links.insert(sym.usize(), t.clone());
            }
            ensure!(links == want[&sets[i]], "links of {:?} are {links:?}, expected {:?}", sets[i], want[&sets[i]]);
        }
        case.nontrivial |= sets.len() >= 3;
        case.count("states", sets.len() as u64);
    }
    // the grammar keeps its rules, with the augmenting ones after them
    let after = rules_of(&cfg);
    ensure!(after.len() == rules.len(), "{} rules after, expected {}", after.len(), rules.len());
    ensure!(after[..rg.rules.len()] == rg.rules[..], "the grammar's own rules changed: {after:?}");
    let mut fresh = BTreeSet::new();
    for (i, (l, r)) in after.iter().enumerate().skip(rg.rules.len()) {
        ensure!(r == &rules[i].1, "augmenting rule {l} ::= {r:?}, expected {:?}", rules[i].1);
        ensure!(*l >= rg.n && fresh.insert(*l), "augmenting rule's LHS {l} is not a fresh symbol");
    }
    case.class("machine compared");
    Ok(())
}

/// Machines with hundreds of states: a few long rules, mostly of terminals.
fn run_long(src: &mut Src, case: &mut Case) -> Res {
    let (nts, ts) = (src.range(1, 3), src.range(1, 3));
    let n = nts + ts;
    let mut rules = vec![];
    for a in 0..nts {
        for _ in 0..src.range(1, 2) {
            let len = src.range(1, 400);
            let mut rhs: Vec<S> = (0..len).map(|_| nts + src.usize(ts)).collect();
            if a + 1 < nts && src.chance(1, 2) {
                rhs[src.usize(len)] = src.range(a + 1, nts - 1);
            }
            rules.push((a, rhs));
        }
    }
    src.shuffle(&mut rules);
    let rg = RG { n, rules, roots: vec![0] };
    case.input = rg.show();
    case.class("long rules");
    check_fsm(&rg, 0, None, 2000, case)
}

/// More than 65536 rules.
fn run_vast(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_nt: 4, max_t: 3, max_rules: 8, large: false, pad: false, ..SMALL });
    let mut rg = g.g;
    // (the time taken is quadratic in the number of rules which predict others)
    let plain: Vec<usize> = (0..rg.rules.len()).filter(|&i| rg.rules[i].1.first().is_none_or(|s| g.ts.contains(s))).collect();
    let filler = if plain.is_empty() || src.chance(2, 3) {
        rg.n += 1;
        (rg.n - 1, vec![g.ts[0]])
    } else {
        rg.rules[*src.pick(&plain)].clone()
    };
    let at = src.usize(rg.rules.len() + 1);
    let count = src.range(65_525, 65_545);
    case.input = format!("{} with {count} times {filler:?} at {at}", rg.show());
    rg.rules.splice(at..at, vec![filler; count]);
    case.class("rules beyond 16 bits");
    check_fsm(&rg, *src.pick(&g.nts), None, 10, case)
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    if src.chance(1, 8000) {
        return run_long(src, case);
    }
    if src.chance(1, 150_000) {
        return run_vast(src, case);
    }
    let g = grammar(src, case, &GP { max_nt: 5, max_t: 4, max_rules: 9, huge: 2000, far: 20000, ..SMALL });
    let rg = &g.g;
    case.input = rg.show();
    let rules = &rg.rules;
    // item-set operations on arbitrary sets
    {
        let mut cfg = to_cfg(rg);
        let mut b = if rg.n % 2 == 0 { Lr0ClosureBuilder::new(&mut cfg) } else { cfg.lr0_closure_builder() };
        for _ in 0..3 {
            let k = src.range(1, 3);
            let mut seed = Items::new();
            for _ in 0..k {
                let r = src.usize(rules.len());
                let d = src.range(0, rules[r].1.len());
                if !seed.iter().any(|x| x.0 == r) {
                    seed.insert((r, d));
                }
            }
            case.input.push_str(&format!(" seed {seed:?}"));
            let want = closure(rules, &seed);
            if representable(&want) {
                let mut got = to_items(&seed, rules);
                b.closure(&mut got);
                let v = view(&got, rules)?;
                ensure!(v == want, "closure of {seed:?} is {v:?}, expected {want:?}");
                case.nontrivial |= want.iter().any(|x| !seed.iter().any(|y| y.0 == x.0));
                case.class("closure compared");
            }
            let start = if representable(&want) { want } else { seed };
            let x = if src.chance(3, 4) {
                let posts: Vec<S> = start.iter().filter_map(|(r, d)| rules[*r].1.get(*d).copied()).collect();
                if posts.is_empty() { g.nts[0] } else { *src.pick(&posts) }
            } else {
                src.usize(rg.n)
            };
            let want = goto(rules, &start, x);
            if representable(&want) {
                let got = b.advance(&to_items(&start, rules), sy(x));
                let v = match &got {
                    None => Items::new(),
                    Some(i) => view(i, rules)?,
                };
                ensure!(v == want, "advance of {start:?} over {x} is {v:?}, expected {want:?}");
                ensure!(got.is_some() == !want.is_empty(), "advance of {start:?} over {x} gives an empty set");
                case.class_if(!want.is_empty(), "advance compared");
            }
        }
    }
    let start = *src.pick(&g.nts);
    let again = if src.chance(1, 5) { Some(*src.pick(&g.nts)) } else { None };
    case.input.push_str(&format!(" machine from {start} {again:?}"));
    check_fsm(rg, start, again, 300, case)
}

/// `A ::= x A | y`: after `x`, the textbook set has `A ::= x . A` and `A ::= . x A`.
fn probe_two_dots() -> Res {
    let rules = vec![(0, vec![1, 0]), (0, vec![2])];
    let rg = RG { n: 3, rules: rules.clone(), roots: vec![0] };
    let mut cfg = to_cfg(&rg);
    let nodes = Lr0FsmBuilder::new(&mut cfg).make_lr0_fsm(sy(0));
    // On `x`, the state must know that `A` may be completed after its inner `A`.
    let to = nodes[0].link.get(&sy(1)).copied().ok_or("no transition over x")?;
    let items = &nodes[to as usize].items;
    let has = items.map.values().any(|i| us(&i.rhs) == [1, 0] && i.dot == 1);
    ensure!(has, "the state after x lacks the item A ::= x . A");
    Ok(())
}

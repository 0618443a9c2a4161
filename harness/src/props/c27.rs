//! C27: a grammar is a list of rules.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_grammar::{Cfg, CfgRule, NamedCfgRule};
use cfg_history::earley::History;

pub static PROP: Prop = Prop {
    id: "C27",
    rule: "the history has two or more operations and at least three rules remain",
    run,
    quick: 3_000_000,
    thorough: 48_000_000,
    probes: &[],
};

type R = (S, Vec<S>, u32);

/// Some histories have a weight as well.
fn hist(id: u32) -> History {
    let mut h = History::new(id);
    h.weight = weight(id);
    h
}

fn weight(id: u32) -> Option<u32> {
    (id % 3 == 0).then_some(id * 7)
}

fn entry(r: &CfgRule) -> R {
    let id = r.history.origin().id;
    // A history with another weight is another history.
    let id = if r.history.weight == weight(id) { id } else { u32::MAX };
    (r.lhs.usize(), us(&r.rhs), id)
}

fn list(cfg: &Cfg) -> Vec<R> {
    cfg.rules().map(entry).collect()
}

fn plain(v: &[R]) -> Vec<(S, Vec<S>)> {
    v.iter().map(|r| (r.0, r.1.clone())).collect()
}

/// The texts of all symbols in a line such as `a(1) ::= b(2) ~ c(3);`.
fn parse_line(line: &str) -> Option<(String, Vec<String>)> {
    let body = line.strip_suffix(';')?;
    let (l, r) = body.split_once(" ::= ")?;
    // with `~` between all symbols, or without it
    let toks: Vec<&str> = r.split_whitespace().collect();
    if toks.contains(&"~") && (toks.len() % 2 == 0 || (0..toks.len()).any(|i| (toks[i] == "~") != (i % 2 == 1))) {
        return None;
    }
    let rhs: Vec<String> = toks.into_iter().filter(|t| *t != "~").map(|t| t.to_string()).collect();
    let rhs = if rhs == ["()"] { vec![] } else { rhs };
    Some((l.to_string(), rhs))
}

fn views(src: &mut Src, cfg: &Cfg, model: &[R]) -> Res {
    // columns
    let col = src.usize(6);
    let got: Vec<(S, Option<S>, Option<S>)> =
        cfg.column(col).map(|d| (d.lhs.usize(), d.predot.map(|s| s.usize()), d.postdot.map(|s| s.usize()))).collect();
    let want: Vec<(S, Option<S>, Option<S>)> =
        model.iter().map(|r| (r.0, if col == 0 { None } else { r.1.get(col - 1).copied() }, r.1.get(col).copied())).collect();
    ensure!(got == want, "column {col} (LHS, before, after the dot) is {got:?}, expected {want:?}");
    for (d, r) in cfg.column(col).zip(cfg.rules()) {
        if col < 3 {
            ensure!(d.earley == Some(r.history.dots[col]), "column {col} has the dot {:?}, the rule {:?}", d.earley, r.history.dots);
        }
    }
    let rules = rules_of(cfg);
    iterates(src, || cfg.rules().map(rule_pair), &rules, "rules()")?;
    iterates(src, || cfg.column(col).map(|d| (d.lhs.usize(), d.predot.map(|s| s.usize()), d.postdot.map(|s| s.usize()))), &want, "column")?;
    // text
    let ss = cfg.sym_source();
    let no_names = (0..cfg.num_syms()).all(|i| ss.original_name_of(sy(i)).is_none());
    let show = |s: S| if no_names { s.to_string() } else { format!("{}({s})", ss.name_of(sy(s))) };
    let text = cfg.stringify_to_bnf();
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == model.len(), "{} lines for {} rules", lines.len(), model.len());
    for (line, r) in lines.iter().zip(model) {
        let want = (show(r.0), r.1.iter().map(|s| show(*s)).collect::<Vec<_>>());
        ensure!(parse_line(line) == Some(want.clone()), "the line {line:?} for {want:?}");
    }
    ensure!(cfg.is_empty() == model.is_empty(), "is_empty() is {} with {} rules", cfg.is_empty(), model.len());
    // named rules
    let rules: Vec<&CfgRule> = cfg.rules().collect();
    if rules.len() >= 2 {
        let (i, j) = (src.usize(rules.len()), src.usize(rules.len()));
        let (a, b) = (rules[i].named(ss), rules[j].named(ss));
        let names = |r: &R| -> Vec<Option<String>> {
            std::iter::once(&r.0).chain(&r.1).map(|s| ss.original_name_of(sy(*s)).map(|x| x.to_string())).collect()
        };
        let want = names(&model[i]) == names(&model[j]) && rules[i].history == rules[j].history;
        let text = format!("{a:?}");
        for n in names(&model[i]) {
            let shown = n.clone().unwrap_or("gensym".into());
            ensure!(text.contains(&format!("{shown:?}")), "{text} does not show {n:?}");
        }
        ensure!((a == b) == want, "named rules {a:?} and {b:?} compare equal: {}", a == b);
        let bare = NamedCfgRule::new(names(&model[i]).into_iter().map(|n| n.map(|s| s[..].into())).collect());
        ensure!(a == bare && bare == a, "{a:?} differs from {bare:?} made of its names");
        let full = |h: History| NamedCfgRule::with_history(names(&model[i]).into_iter().map(|n| n.map(|s| s[..].into())).collect(), h);
        let (own, others) = (full(rules[i].history), full(rules[j].history));
        ensure!(a == own && own == a && own == bare, "{a:?} differs from {own:?} made of its names and history");
        ensure!((own == b) == want, "{own:?} and {b:?} compare equal: {}", own == b);
        let same = rules[i].history == rules[j].history;
        ensure!((a == others) == same, "{a:?} and {others:?} compare equal: {}", a == others);
        // a rule of another grammar, with other numbers for the names
        let n = cfg.num_syms();
        let mut other = cfg_symbol::SymbolSource::new();
        let own_names: Vec<Option<String>> = (0..n).map(|k| ss.original_name_of(sy(k)).map(|x| x.to_string())).collect();
        let (at, change) = (src.usize(n), src.chance(1, 2));
        let turn = src.usize(n);
        let place = |k: usize| (k + turn) % n;
        let mut theirs: Vec<Option<String>> = vec![None; n];
        for k in 0..n {
            theirs[place(k)] = if change && k == at { own_names[src.usize(n)].clone() } else { own_names[k].clone() };
        }
        for name in &theirs {
            other.next_sym(name.clone().map(|x| x.into()));
        }
        let foreign = CfgRule::new(
            sy(place(model[j].0)),
            model[j].1.iter().map(|s| sy(place(*s))).collect::<Vec<_>>(),
            rules[j].history,
        );
        let their = |s: &S| theirs[place(*s)].clone();
        let their_names: Vec<Option<String>> = std::iter::once(&model[j].0).chain(&model[j].1).map(their).collect();
        let c = foreign.named(&other);
        let want_c = names(&model[i]) == their_names && rules[i].history == rules[j].history;
        ensure!((a == c) == want_c && (c == a) == want_c, "{a:?} and {c:?} of another grammar compare equal: {}", a == c);
        let without = names(&model[i]) == names(&model[j]);
        ensure!((bare == b) == without && (b == bare) == without, "{bare:?} and {b:?} compare equal: {}", bare == b);
    }
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_rules: 10, huge: 2000, vast: 20000, far: 20000, ..SMALL });
    let n = g.g.n;
    let mut cfg = Cfg::new();
    let naming = src.below(3);
    for i in 0..n {
        let name = match naming {
            0 => None,
            1 => Some(format!("n{i}")),
            _ => (i % 2 == 0).then(|| format!("n{}", i / 4)),
        };
        cfg.next_sym(name.map(|s| s.into()));
    }
    let mut next = 1;
    // In some histories all rules have the same history, in others some.
    let fresh = src.below(3);
    let mut new_id = |src: &mut Src| {
        next += 1;
        match fresh {
            0 => next,
            1 => 1,
            _ => 1 + src.below(3) as u32,
        }
    };
    let mut model: Vec<R> = vec![];
    for (i, (l, r)) in g.g.rules.iter().enumerate() {
        let id = new_id(src);
        // sometimes with the right-hand side of the rule before
        let r = if i > 0 && i < 12 && src.chance(1, 6) { model[i - 1].1.clone() } else { r.clone() };
        cfg.rule(sy(*l)).rhs_with_history(sys(&r), hist(id));
        model.push((*l, r, id));
    }
    ensure!(cfg.has_roots() == false && cfg.roots().is_empty(), "a new grammar has roots");
    cfg.set_roots(sys(&g.g.roots));
    let mut log = format!("{} naming {naming}", g.g.show());
    let ops = src.range(1, 6);
    for _ in 0..ops {
        let op = src.below(11);
        log.push_str(&format!(" op {op}"));
        let before = cfg.clone();
        let copy = list(&before);
        match op {
            0 => {
                let k = src.range(2, 3);
                let by = src.below(3);
                let mut seen = vec![];
                let f = |r: &R| match by {
                    0 => r.2 as usize % k != 0,
                    1 => r.0 % k != 0,
                    _ => r.1.len() % k != 0,
                };
                cfg.retain(|r| {
                    let r = entry(r);
                    let keep = f(&r);
                    seen.push(r);
                    keep
                });
                ensure!(sorted(&seen) == sorted(&model), "retain asked about {seen:?}, the rules are {model:?}");
                model.retain(|r| f(r));
            }
            1 => {
                cfg.sort();
                let got = list(&cfg);
                ensure!(sorted(&got) == sorted(&model), "sorting {model:?} gives {got:?}");
                let p = plain(&got);
                ensure!(p.windows(2).all(|w| w[0] <= w[1]), "not sorted: {p:?}");
                model = got;
            }
            2 => {
                let by = src.below(4);
                let key = |r: &R| match by {
                    0 => (r.1.len(), 0, 0),
                    1 => (usize::MAX - r.0, 0, 0),
                    2 => (usize::MAX - r.2 as usize, 0, 0),
                    _ => (r.1.last().map_or(0, |s| s + 1), r.0, r.2 as usize),
                };
                cfg.sort_by(|a, b| {
                    let t = |r: &CfgRule| entry(r);
                    key(&t(a)).cmp(&key(&t(b)))
                });
                let got = list(&cfg);
                ensure!(sorted(&got) == sorted(&model), "sorting {model:?} gives {got:?}");
                ensure!(got.windows(2).all(|w| key(&w[0]) <= key(&w[1])), "not sorted as asked (kind {by}): {got:?}");
                model = got;
            }
            3 => {
                cfg.dedup();
                let got = list(&cfg);
                let mut want = plain(&model);
                want.dedup();
                ensure!(plain(&got) == want, "dedup of {model:?} gives {got:?}");
                ensure!(got.iter().all(|r| model.contains(r)), "dedup of {model:?} makes {got:?}");
                case.class_if(got.len() < model.len(), "duplicates removed");
                model = got;
            }
            4 => {
                let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
                for _ in 0..src.range(0, 3) {
                    let (l, r, _) = match src.chance(1, 2) && !model.is_empty() {
                        true => src.pick(&model).clone(),
                        false => (*src.pick(&g.nts), vec![*src.pick(&g.ts)], 0),
                    };
                    let id = new_id(src);
                    other.rule(sy(l)).rhs_with_history(sys(&r), hist(id));
                    model.push((l, r, id));
                }
                cfg.extend(&other);
            }
            5 => {
                cfg.reverse();
                model.iter_mut().for_each(|r| r.1.reverse());
                if src.chance(1, 2) {
                    cfg.reverse();
                    model.iter_mut().for_each(|r| r.1.reverse());
                }
            }
            6 if src.chance(1, 3) => {
                cfg.clear_rules();
                model.clear();
            }
            7 => {
                let l = *src.pick(&g.nts);
                let r: Vec<S> = (0..src.range(0, 4)).map(|_| src.usize(n)).collect();
                let id = new_id(src);
                let parts = cfg.add_rule(CfgRule::new(sy(l), sys(&r), hist(id)));
                ensure!(parts == 1, "adding a rule reports {parts} parts");
                model.push((l, r, id));
            }
            8 => {
                // equivalence
                let mut other = cfg.clone();
                ensure!(cfg.equivalent(&other) && other.equivalent(&cfg), "not equivalent to a copy");
                let mut m = model.clone();
                match src.below(6) {
                    0 => m.reverse(),
                    1 => {
                        m.pop();
                    }
                    2 => {
                        let k = src.usize(m.len() + 1);
                        m.insert(k, (*src.pick(&g.nts), vec![], 0));
                    }
                    3 if !m.is_empty() => {
                        let k = src.usize(m.len());
                        m[k].0 = *src.pick(&g.nts);
                    }
                    4 if !m.is_empty() => {
                        let k = src.usize(m.len());
                        let s = src.usize(n);
                        m[k].1.push(s);
                    }
                    5 if !m.is_empty() => {
                        let k = src.usize(m.len());
                        m[k].1.pop();
                        m[k].2 = 77;
                    }
                    _ => {}
                }
                other.clear_rules();
                for (l, r, h) in &m {
                    other.rule(sy(*l)).rhs_with_history(sys(r), hist(*h));
                }
                let same = plain(&m) == plain(&model);
                let (a, b) = (cfg.equivalent(&other), other.equivalent(&cfg));
                ensure!(a == same && b == same, "equivalent to {m:?}: {a} and {b}, expected {same}; rules are {model:?}");
                case.class(if same { "equivalent" } else { "not equivalent" });
            }
            9 => {
                let r: Vec<S> = (0..src.range(0, 2)).map(|_| src.usize(n)).collect();
                cfg.set_roots(sys(&r));
                ensure!(us(cfg.roots()) == r && cfg.has_roots() == !r.is_empty(), "roots {:?}, set to {r:?}", cfg.roots());
            }
            _ => {}
        }
        case.input = log.clone();
        let got = list(&cfg);
        ensure!(got == model, "after op {op}: rules (LHS, RHS, origin) {got:?}, expected {model:?}");
        ensure!(list(&before) == copy, "op {op} changed a copy");
        ensure!(cfg.num_syms() == n, "op {op} changed the number of symbols to {}", cfg.num_syms());
        if op != 9 {
            ensure!(cfg.roots() == before.roots(), "op {op} changed the roots");
        }
        if src.chance(1, 2) {
            views(src, &cfg, &model)?;
        }
    }
    case.nontrivial = ops >= 2 && model.len() >= 3;
    Ok(())
}

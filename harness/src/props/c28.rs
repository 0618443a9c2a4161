//! C28: rewriting steps in any order keep the words of the roots.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use cfg_classify::CfgClassifyExt;
use cfg_classify::cyclical::Cycles;
use cfg_grammar::Cfg;
use cfg_grammar::precedenced_rule::Associativity;
use cfg_sequence::{CfgSequenceExt, Separator};
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
use std::collections::{BTreeMap, HashSet};

pub static PROP: Prop = Prop {
    id: "C28",
    rule: "at least two different steps changed the grammar, and some root derives a non-empty word within the bound",
    run,
    quick: 180_000,
    thorough: 1_800_000,
    probes: &[],
};

const KS: &[usize] = &[1, 2, 3, 4, 5, 6, 8, 10];

struct State {
    /// The rules which say what the words are.
    model: RG,
    /// Letters of the model.
    letters: BTreeMap<S, usize>,
    /// The grammar's number of each letter's symbol, if it is still there.
    now: BTreeMap<S, Option<S>>,
    /// Words that elimination of nulling rules took away, as model symbols; by root.
    excluded: Vec<Option<Vec<S>>>,
}

fn check(st: &State, cfg: &Cfg, what: &str) -> Result<(bool, usize), String> {
    let got = from_cfg(cfg);
    ensure!(
        got.roots.len() == st.model.roots.len(),
        "after {what}: roots {:?}, there were {}",
        got.roots,
        st.model.roots.len()
    );
    let letters: BTreeMap<S, usize> = st
        .letters
        .iter()
        .filter_map(|(s, c)| st.now[s].map(|t| (t, *c)))
        .collect();
    let mut words = false;
    let mut depth = 0;
    for &k in KS {
        let Some(a) = lang_k(st.model.n, &st.model.rules, &st.letters, k, 900) else { break };
        let Some(b) = lang_k(got.n, &got.rules, &letters, k, 4000) else { break };
        depth = k;
        for (i, (&r, &g)) in st.model.roots.iter().zip(&got.roots).enumerate() {
            let mut want: HashSet<W> = a.sets[r].clone();
            if let Some(x) = &st.excluded[i] {
                let w = x.iter().fold(0, |w, s| wcat(w, st.letters[s] as W + 1));
                want.remove(&w);
            }
            words |= want.iter().any(|w| *w != 0);
            if let Some(w) = diff(&want, &b.sets[g]) {
                return Err(format!(
                    "after {what}: root {i} (symbol {g}, originally {r}) has {} the word {}; rules now {}",
                    if want.contains(&w) { "lost" } else { "gained" },
                    show_word(w, &st.letters),
                    got.show()
                ));
            }
        }
    }
    Ok((words, depth))
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let g = grammar(src, case, &GP { max_nt: 4, max_t: 3, max_rules: 9, ..SMALL });
    let rg = &g.g;
    let mut cfg = Cfg::new();
    for i in 0..rg.n {
        let name = if src.chance(1, 2) { Some(format!("n{i}").into()) } else { None };
        cfg.next_sym(name);
    }
    let mut log = rg.show();
    for (l, r) in &rg.rules {
        cfg.rule(sy(*l)).rhs(sys(r));
    }
    if src.chance(1, 4) {
        let [x] = cfg.sym();
        let (a, b) = (*src.pick(&g.nts), *src.pick(&g.ts));
        let lo = src.below(3) as u32;
        let hi = src.chance(1, 2).then(|| lo + src.below(3) as u32);
        let elem = if src.chance(1, 2) { a } else { *src.pick(&g.ts) };
        let sep = if src.chance(1, 2) { Separator::Null } else { Separator::Proper(sy(b)) };
        cfg.sequence(x).separator(sep).inclusive(lo, hi).rhs(sy(elem));
        cfg.rule(sy(a)).rhs([x]);
        log.push_str(&format!(" seq {elem}{{{lo},{hi:?}}} {sep:?};"));
    }
    if src.chance(1, 5) {
        let [e] = cfg.sym();
        let op = sy(*src.pick(&g.ts));
        let t = sy(*src.pick(&g.nts));
        cfg.precedenced_rule(e).rhs([t]).lower_precedence().associativity(Associativity::Right).rhs([e, op, e]).finalize();
        cfg.rule(sy(g.nts[0])).rhs([e]);
        log.push_str(&format!(" prec {e:?};"));
    }
    cfg.set_roots(sys(&rg.roots));
    let model = from_cfg(&cfg);
    let term = model.terminals();
    let used = model.used();
    let Some(letters) = letters_of((0..model.n).filter(|&s| term[s] && used[s])) else {
        return Ok(());
    };
    let now = letters.keys().map(|&s| (s, Some(s))).collect();
    let excluded = vec![None; model.roots.len()];
    let mut st = State { model, letters, now, excluded };
    let mut kinds: HashSet<usize> = HashSet::new();
    let mut limit: Option<usize> = None;
    let mut reversed = false;
    let mut eliminated = false;
    let mut wrapped = false;
    let mut words = false;
    let steps = src.range(2, 6);
    for step in 0..steps {
        let before = rules_of(&cfg);
        let kind = src.weighted(&[3, 5, 4, 4, 3, 3, 2, 1, 1]);
        let what;
        match kind {
            0 => {
                limit = *src.pick(&[Some(2), Some(3), Some(4), None]);
                cfg.limit_rhs_len(limit);
                what = format!("limit {limit:?}");
            }
            1 => {
                cfg.binarize_and_eliminate_nulling_rules();
                limit = Some(2);
                if !eliminated && !wrapped {
                    st.excluded = vec![Some(vec![]); st.model.roots.len()];
                }
                eliminated = true;
                what = "elimination".to_string();
            }
            2 => {
                cfg.make_proper();
                what = "make_proper".to_string();
            }
            3 => {
                Cycles::new(&mut cfg).rewrite_cycles();
                what = "rewrite_cycles".to_string();
            }
            4 | 5 => {
                let u = from_cfg(&cfg).used();
                let in_use = |s: &cfg_symbol::Symbol| u[s.usize()];
                let w_ok = cfg
                    .wrapped_roots()
                    .iter()
                    .all(|w| [w.root, w.start_of_input, w.inner_root, w.end_of_input].iter().all(in_use));
                if !w_ok || !cfg.roots().iter().all(in_use) {
                    continue;
                }
                let keys: Vec<u64> = (0..cfg.num_syms()).map(|_| src.below(50)).collect();
                let mut rm = cfg.remap();
                if kind == 4 {
                    rm.remove_unused_symbols();
                    what = "removal of unused symbols".to_string();
                } else {
                    rm.reorder_symbols(|a, b| keys[a.usize()].cmp(&keys[b.usize()]));
                    what = "reordering".to_string();
                }
                let m = rm.get_mapping();
                for t in st.now.values_mut() {
                    *t = t
                        .and_then(|s| m.to_internal[s].map(|x| x.usize()))
                        .filter(|x| *x < cfg.num_syms());
                }
            }
            6 => {
                if wrapped || st.letters.len() + 2 * st.model.roots.len() > 15 {
                    continue;
                }
                cfg.wrap_input();
                wrapped = true;
                let old = st.model.roots.clone();
                ensure!(cfg.wrapped_roots().len() == old.len(), "wrapped roots: {:?}", cfg.wrapped_roots());
                st.model.roots.clear();
                for (i, &r) in old.iter().enumerate() {
                    let w = &cfg.wrapped_roots()[i];
                    let (root, s, e) = (st.model.n, st.model.n + 1, st.model.n + 2);
                    st.model.n += 3;
                    st.model.rules.push((root, vec![s, r, e]));
                    st.model.roots.push(root);
                    for (x, y) in [(s, w.start_of_input), (e, w.end_of_input)] {
                        let code = st.letters.len();
                        st.letters.insert(x, code);
                        st.now.insert(x, Some(y.usize()));
                    }
                    if let Some(x) = &mut st.excluded[i] {
                        *x = vec![s, e];
                    }
                }
                what = "wrap_input".to_string();
            }
            7 => {
                cfg.reverse();
                reversed = !reversed;
                for (_, r) in &mut st.model.rules {
                    r.reverse();
                }
                for x in st.excluded.iter_mut().flatten() {
                    x.reverse();
                }
                what = "reversal".to_string();
            }
            _ => {
                cfg.sort();
                cfg.dedup();
                what = "sorting".to_string();
            }
        }
        log.push_str(&format!(" {what};"));
        case.input = log.clone();
        if rules_of(&cfg) != before {
            kinds.insert(kind);
        }
        if let Some(l) = limit {
            ensure!(cfg.rules().all(|r| r.rhs.len() <= l), "after {what}: a rule is longer than {l}: {:?}", rules_of(&cfg));
        }
        if step + 1 == steps || src.chance(1, 3) {
            let (w, k) = check(&st, &cfg, &what)?;
            words |= w;
            case.count("word length bound sum", k as u64);
            case.count("word length bound n", 1);
        }
    }
    case.input = log;
    case.nontrivial = kinds.len() >= 2 && words;
    case.class_if(eliminated, "elimination");
    case.class_if(wrapped, "wrapped");
    case.class_if(kinds.len() >= 4, "four kinds of steps or more");
    Ok(())
}

//! C19: to_bnf and load are inverse to each other.
use crate::engine::*;
use crate::ensure;
use crate::r#gen::*;
use crate::refg::*;
use crate::text::*;
use cfg_classify::CfgClassifyExt;
use cfg_classify::cyclical::Cycles;
use cfg_grammar::Cfg;
use cfg_load::CfgLoadExt;
use cfg_sequence::CfgSequenceExt;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
use std::borrow::Cow;
use std::collections::HashSet;

pub static PROP: Prop = Prop {
    id: "C19",
    rule: "the grammar has both named and unnamed symbols, and two or more rules",
    run,
    quick: 1_000_000,
    thorough: 12_000_000,
    probes: &[],
};

/// Rules by name.
fn named_rules(cfg: &Cfg) -> Vec<(String, Vec<String>)> {
    let ss = cfg.sym_source();
    cfg.rules()
        .map(|r| (ss.name_of(r.lhs).into_owned(), r.rhs.iter().map(|s| ss.name_of(*s).into_owned()).collect()))
        .collect()
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let mut how = String::new();
    let cfg = if src.chance(1, 5) {
        // from a text with repetitions
        let k = src.range(1, 5);
        // no names which an unnamed symbol might have
        let names: Vec<String> = names(src, k).into_iter().filter(|n| !n.starts_with('g')).collect();
        if names.is_empty() {
            return Ok(());
        }
        let ds = super::c18::decls(src, &names, 4);
        let mut toks = vec![];
        for d in &ds {
            decl_tokens(d, false, &mut toks);
        }
        let (text, _) = render(src, &toks);
        how = text.clone();
        Cfg::load(&text).map_err(|e| format!("a valid text is rejected: {e}"))?
    } else {
        let g = grammar(src, case, &SMALL);
        let rg = &g.g;
        let pool = names(src, 22);
        let mut taken: HashSet<String> = (0..rg.n + 40).map(|i| format!("g{i}")).collect();
        let style = src.below(3);
        let mut cfg = Cfg::new();
        for _ in 0..rg.n {
            let name = match style {
                0 => None,
                1 => Some(src.pick(&pool).clone()),
                _ => src.chance(1, 2).then(|| src.pick(&pool).clone()),
            };
            // a name stands for one symbol
            let name = name.filter(|n| taken.insert(n.clone()));
            cfg.next_sym(name.map(Cow::Owned));
        }
        for (l, r) in &rg.rules {
            cfg.rule(sy(*l)).rhs(sys(r));
        }
        if src.chance(1, 6) {
            let l = src.range(2, 3);
            cfg.limit_rhs_len(Some(l));
        }
        if src.chance(1, 6) {
            cfg.sequence(sy(g.nts[0])).inclusive(src.below(3) as u32, None).rhs(sy(g.ts[0]));
        }
        cfg.set_roots(sys(&rg.roots));
        if src.chance(1, 3) {
            // whatever else may happen to a grammar before it is printed
            for _ in 0..src.range(1, 3) {
                match src.below(9) {
                    0 => cfg.wrap_input(),
                    1 => cfg.reverse(),
                    2 => cfg.sort(),
                    3 => {
                        cfg.binarize_and_eliminate_nulling_rules();
                    }
                    4 => {
                        cfg.make_proper();
                    }
                    5 => Cycles::new(&mut cfg).rewrite_cycles(),
                    6 if cfg.rules().next().is_some() && cfg.wrapped_roots().is_empty() => {
                        cfg.remap().reorder_symbols(|a, b| b.cmp(&a));
                    }
                    7 => {
                        let (l, o) = (*src.pick(&g.nts), *src.pick(&g.ts));
                        cfg.precedenced_rule(sy(l)).rhs(sys(&[o])).lower_precedence().rhs(sys(&[l, o, l])).finalize();
                    }
                    _ => {
                        let s = cfg.next_sym(Some("fresh".into()));
                        cfg.rule(s).rhs(sys(&[g.ts[0]]));
                    }
                }
            }
            case.class("after other operations");
            if cfg.rules().next().is_none() {
                return Ok(());
            }
        }
        cfg
    };
    let want = named_rules(&cfg);
    let text = cfg.to_bnf();
    case.input = format!("{how}\n=>\n{text}");
    let syms: HashSet<S> = cfg.rules().flat_map(|r| std::iter::once(r.lhs).chain(r.rhs.iter().copied())).map(|s| s.usize()).collect();
    let unnamed = syms.iter().filter(|s| cfg.sym_source().original_name_of(sy(**s)).is_none()).count();
    case.nontrivial = unnamed > 0 && unnamed < syms.len() && want.len() >= 2;
    case.class_if(want.iter().any(|r| r.1.is_empty()), "empty right-hand side");
    ensure!(text.lines().count() == want.len(), "{} lines for {} rules", text.lines().count(), want.len());
    let back = Cfg::load(&text).map_err(|e| format!("the printed grammar is rejected: {e}"))?;
    let got = named_rules(&back);
    ensure!(got == want, "loaded rules {got:?}, printed from {want:?}");
    for r in back.rules() {
        for s in std::iter::once(r.lhs).chain(r.rhs.iter().copied()) {
            ensure!(back.sym_source().original_name_of(s).is_some(), "a loaded symbol has no name");
        }
    }
    let first = cfg.rules().next().map(|r| cfg.sym_source().name_of(r.lhs).into_owned());
    let root: Vec<String> = back.roots().iter().map(|r| back.sym_source().name_of(*r).into_owned()).collect();
    ensure!(root == vec![first.unwrap()], "roots of the loaded grammar are {root:?}");
    ensure!(back.to_bnf() == text, "printing the loaded grammar gives another text: {}", back.to_bnf());
    Ok(())
}

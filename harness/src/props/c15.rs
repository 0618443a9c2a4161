//! C15: symbol sources hand out fresh symbols and keep names.
use crate::engine::*;
use crate::ensure;
use crate::refg::*;
use cfg_grammar::Cfg;
use cfg_symbol::{Symbol, SymbolPrimitive, SymbolSource};
use std::collections::{BTreeSet, HashMap};
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

pub static PROP: Prop = Prop {
    id: "C15",
    rule: "the history has at least three operations, including a named and an unnamed symbol, a truncation, a renumbering or a narrow symbol type",
    run,
    quick: 4_000_000,
    thorough: 60_000_000,
    probes: &[],
};

fn name(src: &mut Src) -> Option<String> {
    match src.weighted(&[3, 4, 1, 1]) {
        0 => None,
        1 => Some(format!("n{}", src.below(12))),
        2 => Some(String::new()),
        _ => Some(format!("g{}", src.below(12))),
    }
}

fn check(s: &SymbolSource, model: &[Option<String>], log: &str) -> Res {
    ensure!(s.num_syms() == model.len(), "num_syms {} after {log}, expected {}", s.num_syms(), model.len());
    let names = s.names();
    for (i, want) in model.iter().enumerate() {
        let got = s.original_name_of(sy(i));
        ensure!(got == want.as_deref(), "original_name_of({i}) = {got:?} after {log}, expected {want:?}");
        let shown = s.name_of(sy(i)).into_owned();
        let want_shown = want.clone().unwrap_or_else(|| format!("g{i}"));
        ensure!(shown == want_shown, "name_of({i}) = {shown:?} after {log}, expected {want_shown:?}");
        let listed = names.get(i).cloned().flatten().map(|x| x.to_string());
        ensure!(&listed == want, "names()[{i}] = {listed:?} after {log}, expected {want:?}");
    }
    ensure!(names.iter().skip(model.len()).all(|x| x.is_none()), "names() has names for symbols never produced, after {log}");
    for i in model.len()..model.len() + 3 {
        ensure!(s.original_name_of(sy(i)).is_none(), "symbol {i} has a name before it is produced, after {log}");
        ensure!(s.name_of(sy(i)) == format!("g{i}"), "name_of({i}) = {} after {log}", s.name_of(sy(i)));
    }
    let map = s.name_map();
    let mut want: HashMap<&str, BTreeSet<S>> = HashMap::new();
    for (i, n) in model.iter().enumerate() {
        if let Some(n) = n {
            want.entry(n).or_default().insert(i);
        }
    }
    ensure!(map.len() == want.len(), "name_map has {} entries after {log}, expected {}", map.len(), want.len());
    for (n, set) in want {
        let got = map.get(n).map(|s| s.usize());
        ensure!(got.is_some_and(|g| set.contains(&g)), "name_map[{n:?}] = {got:?} after {log}, expected one of {set:?}");
    }
    Ok(())
}

fn narrow<T: SymbolPrimitive>(src: &mut Src, case: &mut Case, sure: usize) -> Res
where
    Symbol<T>: Ord,
{
    let mut s = SymbolSource::<T>::new();
    let near = src.below(40) as usize;
    let target = sure - 20 + near;
    case.input = format!("narrow symbols, {target} wanted of at least {sure}");
    case.class("narrow symbol type");
    case.nontrivial = true;
    let style = src.below(3);
    let mut got: Vec<Symbol<T>> = vec![];
    let result = catch(|| {
        match style {
            0 => got.extend(s.generate().take(target - 5)),
            1 => {
                for _ in 0..target - 5 {
                    got.push(s.next_sym(None));
                }
            }
            _ => got.extend(SymbolSource::<T>::generate_fresh().take(target - 5)),
        }
        if style != 2 {
            got.extend(s.sym::<5>());
        }
    });
    for (i, g) in got.iter().enumerate() {
        ensure!(g.usize() == i, "the {i}th symbol has number {}", g.usize());
        let v: u32 = (*g).into();
        ensure!(v as usize == i, "the {i}th symbol converts to {v}");
    }
    if let Err(e) = result {
        ensure!(target > sure, "could not produce {target} symbols: {e}");
        return Ok(());
    }
    if style != 2 {
        ensure!(s.num_syms() == target, "num_syms {} after {target} symbols", s.num_syms());
        let t = src.range(1, target);
        s.truncate(t);
        ensure!(s.num_syms() == t, "num_syms {} after truncating to {t}", s.num_syms());
        if t < sure {
            let x = s.next_sym(None);
            ensure!(x.usize() == t, "symbol {} after truncating to {t}", x.usize());
        }
    }
    Ok(())
}

/// Runs out of a narrow symbol space: all symbols handed out are distinct.
fn exhaust<T: SymbolPrimitive>(case: &mut Case, sure: usize) -> Res {
    case.input = format!("exhaust narrow symbols, at least {sure}");
    case.class("exhausted symbol type");
    case.nontrivial = true;
    let mut s = SymbolSource::<T>::new();
    let mut got: Vec<usize> = vec![];
    let r = catch(|| {
        for _ in 0..sure + 600 {
            got.push(s.next_sym(None).usize());
        }
    });
    ensure!(r.is_err(), "{} symbols of a type with fewer values", got.len());
    ensure!(got.len() >= sure, "only {} symbols: {r:?}", got.len());
    for (i, g) in got.iter().enumerate() {
        ensure!(*g == i, "the {i}th symbol has number {g}");
    }
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[4000, 150, 3, 10, 1]) {
        0 => {}
        1 => return narrow::<NonZeroU8>(src, case, 250),
        2 => return narrow::<NonZeroU16>(src, case, 65_000),
        3 => return exhaust::<NonZeroU8>(case, 250),
        _ => return exhaust::<NonZeroU16>(case, 65_000),
    }
    // through a grammar, or directly
    let mut cfg = Cfg::new();
    let through = src.chance(1, 3);
    let mut own = SymbolSource::<NonZeroU32>::new();
    let mut model: Vec<Option<String>> = vec![];
    let mut log = String::new();
    let ops = src.range(2, 12);
    let mut special = false;
    for _ in 0..ops {
        let s: &mut SymbolSource = if through { cfg.sym_source_mut() } else { &mut own };
        let before = model.len();
        let op = src.weighted(&[5, 2, 2, 2, 2, 2, 1, if through { 3 } else { 0 }]);
        let mut fresh: Vec<Symbol> = vec![];
        match op {
            0 => {
                let nm = name(src);
                log.push_str(&format!(" next({nm:?})"));
                fresh.push(s.next_sym(nm.clone().map(|x| x.into())));
                model.push(nm);
            }
            1 => {
                log.push_str(" sym(3)");
                fresh.extend(s.sym::<3>());
                model.extend([None, None, None]);
            }
            2 => {
                let a = [name(src), name(src)];
                log.push_str(&format!(" with_names({a:?})"));
                fresh.extend(s.with_names(a.clone()));
                model.extend(a);
            }
            3 => {
                let big = src.chance(1, 10);
                let k = src.range(0, if big { 150 } else { 5 });
                log.push_str(&format!(" generate({k})"));
                if src.chance(1, 2) {
                    fresh.extend(s.generate().take(k));
                    model.extend((0..k).map(|_| None));
                } else {
                    // passing over some, which are in existence then
                    let d = src.range(0, 4);
                    let way = src.below(3);
                    log.push_str(&format!(" passing {d} in way {way}"));
                    let before = model.len();
                    let it = s.generate();
                    let (got, at): (Vec<Symbol>, Vec<S>) = match way {
                        0 => ({ it }.nth(d).into_iter().collect(), vec![before + d]),
                        1 => (it.skip(d).take(k).collect(), (0..k).map(|i| before + d + i).collect()),
                        _ => (it.step_by(d + 1).take(k).collect(), (0..k).map(|i| before + i * (d + 1)).collect()),
                    };
                    // (an iterator may have passed over more than it gave)
                    let end = at.last().map_or(before, |x| x + 1);
                    ensure!(got.iter().map(|x| x.usize()).eq(at.iter().copied()), "{got:?} were generated, expected {at:?}: {log}");
                    let now = s.num_syms();
                    ensure!(now >= end && now <= end + d + 1, "{now} symbols, the last one is {at:?}: {log}");
                    model.resize(now, None);
                }
            }
            4 => {
                if !model.is_empty() {
                    let k = src.range(1, model.len());
                    log.push_str(&format!(" truncate({k})"));
                    s.truncate(k);
                    model.truncate(k);
                    special = true;
                }
            }
            5 => {
                let mut perm: Vec<S> = (0..model.len()).collect();
                src.shuffle(&mut perm);
                log.push_str(&format!(" remap({perm:?})"));
                s.remap_symbols(|x| sy(perm[x.usize()]));
                let mut m = vec![None; model.len()];
                for (i, x) in model.iter().enumerate() {
                    m[perm[i]] = x.clone();
                }
                model = m;
                special = true;
            }
            6 => {
                log.push_str(" clone");
                let c = s.clone();
                check(&c, &model, &log)?;
                *s = c;
            }
            _ => {
                let nm = name(src);
                match src.below(3) {
                    0 => {
                        log.push_str(&format!(" cfg.next_sym({nm:?})"));
                        fresh.push(cfg.next_sym(nm.clone().map(|x| x.into())));
                        model.push(nm);
                    }
                    1 => {
                        log.push_str(&format!(" cfg.lexeme({nm:?})"));
                        fresh.push(cfg.lexeme(nm.clone().map(|x| x.into())));
                        model.push(nm);
                    }
                    _ => {
                        log.push_str(" cfg.sym(2)");
                        fresh.extend(cfg.sym::<2>());
                        model.extend([None, None]);
                    }
                }
            }
        }
        for (i, f) in fresh.iter().enumerate() {
            ensure!(
                f.usize() == before + i,
                "after{log}: symbol {} is not fresh and in order, expected {}",
                f.usize(),
                before + i
            );
            let v: u32 = (*f).into();
            ensure!(v as usize == f.usize(), "symbol {} converts to {v}", f.usize());
        }
        let s = if through { cfg.sym_source() } else { &own };
        check(s, &model, &log)?;
        if through {
            ensure!(cfg.num_syms() == model.len(), "grammar's num_syms {}", cfg.num_syms());
        }
    }
    let f: Vec<S> = SymbolSource::<NonZeroU32>::generate_fresh().take(5).map(|x| x.usize()).collect();
    ensure!(f == [0, 1, 2, 3, 4], "generate_fresh gives {f:?}");
    let k = src.range(0, 300);
    let want: Vec<_> = (0..k).map(sy).collect();
    iterates(src, || SymbolSource::generate_fresh().take(k), &want, "generate_fresh()")?;
    let got = SymbolSource::<NonZeroU32>::generate_fresh().nth(k);
    ensure!(got == Some(sy(k)), "generate_fresh().nth({k}) is {got:?}");
    case.input = log;
    case.nontrivial = ops >= 3
        && special
        && model.iter().any(|x| x.is_some())
        && model.iter().any(|x| x.is_none());
    case.class_if(through, "through a grammar");
    Ok(())
}

//! C22: grammars made from regular expressions match the same words.
use super::c21::CharGrammar;
use crate::engine::*;
use crate::ensure;
use crate::refg::*;
use crate::text::*;
use cfg_grammar::Cfg;
use cfg_regexp_logic::{CfgRegexpExt, LexerClasses, LexerMap};
use regex_syntax::hir::{Class, ClassBytes, ClassBytesRange, ClassUnicode, ClassUnicodeRange};
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C22",
    rule: "a word of two or more characters matched, or a class of two or more ranges was mapped",
    run,
    quick: 540_000,
    thorough: 5_400_000,
    probes: &[("look-around", probe_look)],
};

fn run(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[200, 600, 1]) {
        0 => classes(src, case),
        1 => regexps(src, case),
        _ => counted(src, case),
    }
}

/// Large counts and long strings.
fn counted(src: &mut Src, case: &mut Case) -> Res {
    let long = |src: &mut Src| -> String { (0..src.range(1, 300)).map(|_| *src.pick(&['a', 'b', 'é'])).collect() };
    let (p, ws): (String, Vec<Vec<char>>) = if src.chance(1, 4) {
        let s = long(src);
        let mut v: Vec<Vec<char>> = vec![s.chars().collect()];
        for _ in 0..3 {
            let mut w = v[0].clone();
            let i = src.usize(w.len());
            if src.chance(1, 2) {
                w.remove(i);
            } else {
                w[i] = 'c';
            }
            v.push(w);
        }
        (s, v)
    } else {
        // Sometimes at and around the powers of two.
        let count = |src: &mut Src| -> usize {
            match src.below(4) {
                0 => (1usize << src.range(3, 9)) + src.range(0, 2) - 1,
                _ => src.below(120) as usize,
            }
        };
        let min = if src.chance(1, 4) { 0 } else { count(src) };
        let max = match src.below(3) {
            0 => None,
            1 => Some(min),
            _ => Some(min + count(src)),
        };
        let elem = if min.max(max.unwrap_or(0)) > 300 { "a" } else { *src.pick(&["a", "[ab]", "(?:a|b)", "(?:ab)", "(?:a|bb)"]) };
        let p = match max {
            None => format!("{elem}{{{min},}}"),
            Some(m) if m == min => format!("{elem}{{{min}}}"),
            Some(m) => format!("{elem}{{{min},{m}}}"),
        };
        let unit = if elem == "(?:ab)" { 2 } else { 1 };
        let hi = max.unwrap_or(min + 40);
        let mut v = vec![];
        for k in [min.saturating_sub(1), min, min + 1, (min + hi) / 2, hi.saturating_sub(1), hi, hi + 1] {
            v.push((0..k * unit).map(|i| if unit == 2 && i % 2 == 1 { 'b' } else { 'a' }).collect());
        }
        (p, v)
    };
    case.class("large counts and long strings");
    case.input = p.clone();
    let Some(m) = Matcher::new(&p) else { return Ok(()) };
    let (cfg, mut map) = Cfg::from_regexp(&p).map_err(|e| format!("a valid regular expression is rejected: {e}"))?;
    map.compute();
    let g = from_cfg(&cfg);
    let cg = CharGrammar::new(&g, &map, ws.iter().flatten().copied())?;
    for w in &ws {
        let (got, want) = (cg.recognize(g.roots[0], w), m.matches(w));
        ensure!(got == want, "word of length {}: derived {got}, matched {want}", w.len());
        case.nontrivial |= want && w.len() >= 2;
    }
    Ok(())
}

fn regexps(src: &mut Src, case: &mut Case) -> Res {
    let d = src.usize(5);
    let re = regex(src, d);
    let p = pattern(&re, &mut 0, 0);
    case.input = p.clone();
    let Some(m) = Matcher::new(&p) else {
        case.class("too large for the reference");
        return Ok(());
    };
    let (cfg, mut map) = Cfg::from_regexp(&p).map_err(|e| format!("a valid regular expression is rejected: {e}"))?;
    map.compute();
    let g = from_cfg(&cfg);
    ensure!(g.roots.len() == 1, "roots are {:?}", g.roots);
    ensure!(g.n == cfg.num_syms(), "rules use symbols the source never produced");
    let ws = words(src, &re, 10);
    case.input = format!("{p} on {:?}", ws.iter().map(|w| w.iter().collect::<String>()).collect::<Vec<_>>());
    let cg = CharGrammar::new(&g, &map, ws.iter().flatten().copied())?;
    for w in &ws {
        let (got, want) = (cg.recognize(g.roots[0], w), m.matches(w));
        ensure!(got == want, "word {w:?}: derived {got}, matched {want}; {}", g.show());
        case.nontrivial |= want && w.len() >= 2;
        case.count(if want { "words matched" } else { "words not matched" }, 1);
        case.class_if(want && w.iter().any(|c| !c.is_ascii()), "non-ASCII word matched");
    }
    Ok(())
}

/// Character maps built directly.
fn classes(src: &mut Src, case: &mut Case) -> Res {
    let mut map = LexerMap::new();
    let mut model: BTreeMap<S, Vec<(char, char)>> = BTreeMap::new();
    let mut log = String::from("classes:");
    case.class("classes");
    let n = if src.chance(1, 500) { src.range(100, 400) } else { src.range(1, 6) };
    let mut probe: BTreeSet<char> = CHARS.iter().copied().collect();
    for i in 0..n {
        let (class, ranges): (LexerClasses, Vec<(char, char)>) = match src.weighted(&[2, 1, 5, 1]) {
            0 => {
                let c = *src.pick(CHARS);
                (c.into(), vec![(c, c)])
            }
            1 => {
                let b = src.below(256) as u8;
                (b.into(), vec![(b as char, b as char)])
            }
            2 => {
                let k = src.range(1, 4);
                let rs: Vec<(char, char)> = (0..k)
                    .map(|_| {
                        let mut any = || {
                            if src.chance(1, 4) {
                                char::from_u32(src.below(0x110000) as u32).unwrap_or('a')
                            } else {
                                *src.pick(CHARS)
                            }
                        };
                        let (a, b) = (any(), any());
                        (a.min(b), a.max(b))
                    })
                    .collect();
                let c = ClassUnicode::new(rs.iter().map(|r| ClassUnicodeRange::new(r.0, r.1)));
                case.nontrivial |= c.ranges().len() >= 2;
                (Class::Unicode(c).into(), rs)
            }
            _ => {
                let k = src.range(1, 3);
                let rs: Vec<(u8, u8)> = (0..k)
                    .map(|_| {
                        let (a, b) = (src.below(256) as u8, src.below(256) as u8);
                        (a.min(b), a.max(b))
                    })
                    .collect();
                let c = ClassBytes::new(rs.iter().map(|r| ClassBytesRange::new(r.0, r.1)));
                (Class::Bytes(c).into(), rs.iter().map(|r| (r.0 as char, r.1 as char)).collect())
            }
        };
        log.push_str(&format!(" {i}={ranges:?}"));
        if map.classes.contains_key(&class) {
            continue;
        }
        for c in ranges.iter().flat_map(|r| [r.0, r.1]) {
            probe.insert(c);
            probe.extend(char::from_u32(c as u32 + 1));
            probe.extend((c as u32).checked_sub(1).and_then(char::from_u32));
        }
        // as ranges up to the character after the last one
        for c in ranges.iter().flat_map(|r| [r.0, r.1]).chain(CHARS.iter().copied()).filter(|c| *c != char::MAX) {
            let got = class.iter().any(|(a, b)| a <= c && c < b);
            let want = ranges.iter().any(|r| r.0 <= c && c <= r.1);
            ensure!(got == want, "{ranges:?}: iter() covers {c:?}: {got}, expected {want}");
        }
        // several classes may have the same symbol
        let s = if i > 0 && src.chance(1, 6) { src.usize(i) } else { i };
        case.class_if(model.contains_key(&s), "a symbol of two classes");
        log.push_str(&format!("({s})"));
        map.classes.insert(class, sy(s));
        model.entry(s).or_default().extend(ranges);
    }
    case.input = log;
    map.compute();
    if src.chance(1, 4) {
        map.compute();
    }
    for &c in &probe {
        let mut got = us(map.get(c));
        got.sort();
        let want: Vec<S> = model.iter().filter(|(_, rs)| rs.iter().any(|r| r.0 <= c && c <= r.1)).map(|(s, _)| *s).collect();
        ensure!(got == want, "{c:?} maps to {got:?}, expected {want:?}");
    }
    case.count("characters mapped", probe.len() as u64);
    Ok(())
}

fn probe_look() -> Res {
    for p in ["^a", "a$", "a\\b"] {
        match catch(|| Cfg::from_regexp(p).is_ok()) {
            Ok(_) => {}
            Err(e) => return Err(format!("Regexp({p:?}): {e}")),
        }
    }
    Ok(())
}

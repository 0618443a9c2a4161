//! C23: serialized values come back unchanged; bad input is an error.
use crate::engine::*;
use crate::ensure;
use crate::refg::sy;
use cfg_grammar::SymbolBitSet;
use cfg_history::earley::rule_dot::RuleDot;
use cfg_history::earley::{EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance};
use cfg_symbol::intern::Mapping;
use cfg_symbol::{Symbol, SymbolName, SymbolPrimitive, SymbolSource};
use miniserde::json as mini;
use nanoserde::{DeBin, SerBin};
use std::fmt::Debug;
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

pub static PROP: Prop = Prop {
    id: "C23",
    rule: "the value is not a default one, or the input is invalid",
    run,
    quick: 6_000_000,
    thorough: 90_000_000,
    probes: &[],
};

fn number(src: &mut Src, max: u64) -> u64 {
    match src.weighted(&[4, 2, 2, 2]) {
        0 => src.below(max.min(300) + 1),
        1 => max - src.below(max.min(4)),
        2 => src.below(max + 1),
        _ => (1u64 << src.below(33)).saturating_sub(src.below(3)).min(max),
    }
}

/// The symbol number `n`, made without any deserialization.
fn symbol<T: SymbolPrimitive>(n: u64) -> Symbol<T> {
    let mut s = SymbolSource::<T>::new();
    if n > 0 {
        s.truncate(n as usize);
    }
    s.next_sym(None)
}

fn mini_trip<V: miniserde::Serialize + miniserde::Deserialize>(v: &V) -> Result<V, String> {
    let text = mini::to_string(v);
    mini::from_str(&text).map_err(|_| format!("miniserde rejects {text}, which it wrote"))
}

fn serde_trip<V: serde::Serialize + for<'a> serde::Deserialize<'a>>(v: &V) -> Result<V, String> {
    let text = serde_json::to_string(v).map_err(|e| format!("serde: {e}"))?;
    serde_json::from_str(&text).map_err(|e| format!("serde rejects {text}, which it wrote: {e}"))
}

/// Round trip in a stream of bytes with something before and after; every shorter stream is an error.
fn nano_trip<V: SerBin + DeBin + PartialEq + Debug>(v: &V) -> Res {
    let mut bytes = vec![0xa5u8; 3];
    v.ser_bin(&mut bytes);
    let end = bytes.len();
    0x0102_0304u32.ser_bin(&mut bytes);
    let mut at = 3;
    let back = V::de_bin(&mut at, &bytes).map_err(|e| format!("nanoserde rejects {v:?}: {e:?}"))?;
    ensure!(back == *v, "nanoserde: {v:?} comes back as {back:?}");
    ensure!(at == end, "nanoserde: {v:?} takes {} bytes, {} were read", end - 3, at - 3);
    for cut in 3..end {
        ensure!(V::de_bin(&mut 3, &bytes[..cut]).is_err(), "nanoserde accepts {v:?} cut to {} bytes", cut - 3);
    }
    Ok(())
}

macro_rules! three {
    ($v:expr) => {{
        let v = $v;
        let m = mini_trip(&v)?;
        ensure!(m == v, "miniserde: {v:?} comes back as {m:?}");
        let s = serde_trip(&v)?;
        ensure!(s == v, "serde: {v:?} comes back as {s:?}");
        nano_trip(&v)?;
    }};
}

fn symbols<T>(src: &mut Src, case: &mut Case, bits: u32) -> Res
where
    T: SymbolPrimitive + PartialEq + Debug + serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    // numbers 0 .. MAX - 1 are symbols; the source itself stops one short
    let n = number(src, T::MAX as u64 - 3);
    case.input = format!("symbol {n} of {bits} bits");
    case.nontrivial = n > 0;
    let s: Symbol<T> = symbol(n);
    ensure!(s.usize() as u64 == n, "symbol {n} is {}", s.usize());
    let m = mini_trip(&s)?;
    ensure!(m == s, "miniserde: {s:?} comes back as {m:?}");
    ensure!(mini::to_string(&s) == n.to_string(), "miniserde writes {n} as {}", mini::to_string(&s));
    let d = serde_trip(&s)?;
    ensure!(d == s, "serde: {s:?} comes back as {d:?}");
    // any number
    let k = match src.below(4) {
        0 => T::MAX as u64 - 2 + src.below(5),
        1 => src.below(1 << 34),
        2 => u64::MAX - src.below(3),
        _ => (1u64 << src.below(64)) + src.below(3),
    };
    case.input.push_str(&format!("; number {k}"));
    let got = mini::from_str::<Symbol<T>>(&k.to_string()).ok().map(|s| s.usize() as u64);
    let want = (k < T::MAX as u64).then_some(k);
    ensure!(got == want, "miniserde reads {k} as {got:?}, expected {want:?}");
    if let Some(n) = got {
        let s = mini::from_str::<Symbol<T>>(&n.to_string()).unwrap();
        ensure!(mini_trip(&s)? == s && serde_trip(&s)? == s, "symbol {n} does not come back");
    }
    for bad in ["-1", "1.5", "null", "\"1\"", "[]", "", "true"] {
        ensure!(mini::from_str::<Symbol<T>>(bad).is_err(), "miniserde reads {bad} as a symbol");
    }
    // zero and out of range, with serde
    let text = serde_json::to_string(&symbol::<T>(1)).map_err(|e| e.to_string())?;
    let over = T::MAX as u64 + 1 + src.below(1 << 33);
    for (v, ok) in [(0, false), (over, false), (1, true), (T::MAX as u64, true)] {
        let changed = text.replace('2', &v.to_string());
        let got = serde_json::from_str::<Symbol<T>>(&changed);
        ensure!(got.is_ok() == ok, "serde reads {changed} as {got:?}");
    }
    Ok(())
}

fn nano_symbols(src: &mut Src, case: &mut Case) -> Res {
    let n = number(src, u32::MAX as u64 - 3);
    case.input = format!("symbol {n} in binary");
    case.nontrivial = n > 0;
    let s: Symbol = symbol(n);
    nano_trip(&s)?;
    let raw = [0u8; 4];
    let got = <Symbol as DeBin>::de_bin(&mut 0, &raw);
    ensure!(got.is_err(), "nanoserde reads zero bytes as {got:?}");
    let bytes: Vec<u8> = (0..src.below(9)).map(|_| *src.pick(&[0u8, 0, 1, 255, 7])).collect();
    case.input.push_str(&format!("; bytes {bytes:?}"));
    let got = <Symbol as DeBin>::de_bin(&mut 0, &bytes);
    match &got {
        Ok(s) => ensure!(bytes.starts_with(&s.serialize_bin()), "nanoserde reads {bytes:?} as {s:?}, written {:?}", s.serialize_bin()),
        Err(_) => ensure!(bytes.len() < 4 || bytes[..4] == [0; 4], "nanoserde rejects {bytes:?}"),
    }
    // many in a row
    let v: Vec<Symbol> = (0..src.below(6)).map(|_| symbol(number(src, u32::MAX as u64 - 3))).collect();
    let w = <Vec<Symbol> as DeBin>::deserialize_bin(&v.serialize_bin()).map_err(|e| format!("{e:?}"))?;
    ensure!(v == w, "nanoserde: {v:?} comes back as {w:?}");
    Ok(())
}

fn name(src: &mut Src) -> String {
    let k = src.weighted(&[1, 5, 3, 2, 1]);
    (0..k)
        .map(|_| {
            *src.pick(&[
                'a', 'b', 'Z', '_', '0', ' ', '"', '\\', '/', '\n', '\t', '\r', '\u{8}', '\u{c}', '\0', '\u{1f}', '\u{7f}', 'é',
                '\u{2028}', '名', '\u{ffff}', '\u{1f600}', '\u{10ffff}', '{', ']', ',', ':',
            ])
        })
        .collect()
}

fn names(src: &mut Src, case: &mut Case) -> Res {
    let n = if src.chance(1, 100) { src.range(50, 400) } else { src.range(0, 8) };
    let names: Vec<Option<String>> = (0..n).map(|_| src.chance(2, 3).then(|| name(src))).collect();
    case.input = format!("names {names:?}");
    case.nontrivial = names.iter().any(|n| n.is_some());
    let mut a = SymbolSource::<NonZeroU32>::new();
    for x in &names {
        a.next_sym(x.clone().map(|s| s.into()));
    }
    let back = mini_trip(&a.names())?;
    ensure!(back == a.names(), "names {:?} come back as {back:?}", a.names());
    for (x, n) in back.iter().zip(&names) {
        ensure!(x.as_deref() == n.as_deref(), "name {n:?} comes back as {x:?}");
    }
    for n in names.iter().flatten() {
        let sn: SymbolName = n[..].into();
        let back = mini_trip(&sn)?;
        ensure!(back == sn && *back == n[..], "name {n:?} comes back as {back:?}");
    }
    // used to name symbols again
    let mut b = SymbolSource::<NonZeroU32>::new();
    for x in &back {
        b.next_sym(x.as_ref().map(|n| n.to_string().into()));
    }
    ensure!(a.names() == b.names(), "names {:?} of the copy, {:?} before", b.names(), a.names());
    for bad in ["1", "null", "[]", "\"", "\"\\x\"", ""] {
        ensure!(mini::from_str::<SymbolName>(bad).is_err(), "miniserde reads {bad} as a name");
    }
    Ok(())
}

fn mapping(src: &mut Src, case: &mut Case) -> Res {
    let n = if src.chance(1, 100) { src.range(100, 700) } else { src.range(0, 12) };
    let m = Mapping {
        to_internal: (0..n).map(|_| src.chance(2, 3).then(|| symbol(number(src, u32::MAX as u64 - 3)))).collect(),
        to_external: (0..src.range(0, 12)).map(|_| symbol(number(src, u32::MAX as u64 - 3))).collect(),
    };
    case.input = format!("{m:?}");
    case.nontrivial = n > 0 || !m.to_external.is_empty();
    for (how, b) in [("miniserde", mini_trip(&m)?), ("serde", serde_trip(&m)?)] {
        ensure!(b.to_internal == m.to_internal && b.to_external == m.to_external, "{how}: comes back as {b:?}");
    }
    Ok(())
}

fn bit_set(src: &mut Src, case: &mut Case) -> Res {
    let n = *src.pick(&[0usize, 1, 2, 5, 8, 31, 32, 33, 63, 64, 65, 96, 130]);
    let mut s = SymbolBitSet::new();
    s.reserve(n);
    for i in 0..n {
        if src.chance(1, 3) {
            s.set(sy(i), true);
        }
    }
    if src.chance(1, 4) {
        s.negate();
    }
    let members: Vec<Symbol> = s.iter().collect();
    case.input = format!("set of {n}: {:?}", members.iter().map(|s| s.usize()).collect::<Vec<_>>());
    case.nontrivial = !members.is_empty();
    for (how, b) in [("miniserde", mini_trip(&s)?), ("serde", serde_trip(&s)?)] {
        ensure!(b.space() == n, "{how}: space {n} comes back as {}", b.space());
        ensure!(b.iter().collect::<Vec<_>>() == members, "{how}: comes back as {b:?}");
        ensure!(b.bit_vec() == s.bit_vec(), "{how}: comes back as {b:?}");
        // still usable
        let mut c = b.clone();
        c.union(&s);
        c.negate();
        ensure!(c.iter().count() == n - members.len(), "{how}: the copy's complement is {c:?}");
    }
    Ok(())
}

fn history(src: &mut Src, case: &mut Case) -> Res {
    let (a, b) = (number(src, u32::MAX as u64) as u32, number(src, u32::MAX as u64) as u32);
    case.input = format!("history parts {a} {b}");
    case.nontrivial = a > 0 || b > 0;
    three!(ExternalOrigin { id: a });
    three!(EventId { id: a });
    three!(MinimalDistance { distance: a });
    let d: ExternalDottedRule = RuleDot::new(a, b).trace();
    three!(d);
    three!(ExternalDottedRule::null());
    three!(ExternalOrigin::null());
    Ok(())
}

fn bad(src: &mut Src, case: &mut Case) -> Res {
    // changed texts and bytes: never a panic, and what is accepted comes back
    let mut s = SymbolSource::<NonZeroU32>::new();
    for _ in 0..src.range(0, 4) {
        let n = src.chance(1, 2).then(|| name(src));
        s.next_sym(n.map(|s| s.into()));
    }
    let m = Mapping {
        to_internal: (0..src.range(0, 3)).map(|i| src.chance(1, 2).then(|| sy(i))).collect(),
        to_external: (0..src.range(0, 3)).map(sy).collect(),
    };
    let kind = src.below(5);
    let mut text: Vec<char> = match kind {
        0 => mini::to_string(&s.names()),
        1 => mini::to_string(&m),
        2 => serde_json::to_string(&m).unwrap(),
        3 => mini::to_string(&ExternalOrigin { id: 7 }),
        _ => serde_json::to_string(&RuleDot::new(1, 2).trace()).unwrap(),
    }
    .chars()
    .collect();
    for _ in 0..src.range(1, 3) {
        let n = text.len();
        if n == 0 {
            break;
        }
        let i = src.usize(n);
        let any = ['0', '9', '-', '"', ',', '[', ']', '{', '}', ':', 'n', 'e', '.', '\\', ' '];
        match src.below(4) {
            0 => {
                text.remove(i);
            }
            1 => text.insert(i, *src.pick(&any)),
            2 => text[i] = *src.pick(&any),
            _ => {
                let big: Vec<char> = src.pick(&["4294967294", "4294967295", "4294967296", "99999999999999999999"]).chars().collect();
                text.splice(i..i, big);
            }
        }
    }
    let text: String = text.into_iter().collect();
    case.input = format!("kind {kind}: {text}");
    case.nontrivial = true;
    let accepted = match kind {
        0 => match mini::from_str::<Vec<Option<SymbolName>>>(&text) {
            Ok(v) => {
                let w = mini_trip(&v)?;
                ensure!(w == v, "accepted names {v:?} come back as {w:?}");
                true
            }
            Err(_) => false,
        },
        1 => match mini::from_str::<Mapping>(&text) {
            Ok(v) => {
                let w = mini_trip(&v)?;
                ensure!(w.to_internal == v.to_internal && w.to_external == v.to_external, "accepted {v:?} comes back as {w:?}");
                true
            }
            Err(_) => false,
        },
        2 => match serde_json::from_str::<Mapping>(&text) {
            Ok(v) => {
                let w = serde_trip(&v)?;
                ensure!(w.to_internal == v.to_internal && w.to_external == v.to_external, "accepted {v:?} comes back as {w:?}");
                true
            }
            Err(_) => false,
        },
        3 => match mini::from_str::<ExternalOrigin>(&text) {
            Ok(v) => {
                ensure!(mini_trip(&v)? == v, "accepted {v:?} does not come back");
                true
            }
            Err(_) => false,
        },
        _ => match serde_json::from_str::<ExternalDottedRule>(&text) {
            Ok(v) => {
                ensure!(serde_trip(&v)? == v, "accepted {v:?} does not come back");
                true
            }
            Err(_) => false,
        },
    };
    case.class(if accepted { "changed text accepted" } else { "changed text rejected" });
    Ok(())
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[2, 2, 2, 2, 3, 2, 2, 2, 4]) {
        0 => symbols::<NonZeroU8>(src, case, 8),
        1 => symbols::<NonZeroU16>(src, case, 16),
        2 => symbols::<NonZeroU32>(src, case, 32),
        3 => nano_symbols(src, case),
        4 => names(src, case),
        5 => mapping(src, case),
        6 => bit_set(src, case),
        7 => history(src, case),
        _ => bad(src, case),
    }
}

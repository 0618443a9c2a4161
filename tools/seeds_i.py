SEEDS += [
("b116-translate-sorted","C14",[("cfg-symbol/src/intern.rs","""    pub fn translate(&mut self, other: &Self) {
""","""    pub fn translate(&mut self, other: &Self) {
        if other.to_external.windows(2).all(|pair| pair[0] < pair[1]) {
            // Every symbol stays where it is.
            return;
        }
""")],
 "translating a mapping by one which removes symbols and keeps the order of the rest","the mapping still has the removed symbols",
 r'''
use cfg_symbol::intern::Mapping;
fn main() {
    let mut g = Cfg::new();
    let [a, b, c] = g.sym();
    let mut m = Mapping { to_internal: vec![Some(b), Some(a), Some(c)], to_external: vec![b, a, c] };
    m.translate(&Mapping { to_internal: vec![None, Some(a), Some(b)], to_external: vec![b, c] });
    assert_eq!(m.to_external, vec![a, c]);
    assert_eq!(m.to_internal, vec![Some(a), None, Some(b)]);
}
'''),
("b121-sequence-key","C12",[("cfg-sequence/src/rewrite.rs","""            end: value.end,
            separator: value.separator,
        }
    }
}

impl<'a> Seq""","""            end: value.end.map(|end| end & 0xffff),
            separator: value.separator,
        }
    }
}

impl<'a> Seq""")],
 "a sequence of one to 131072 or more elements","it derives no short words",
 r'''
use cfg_sequence::CfgSequenceExt;
fn main() {
    let mut g = Cfg::new();
    let [s, x] = g.sym();
    g.sequence(s).range(1..=131073).rhs(x);
    let n = g.num_syms();
    let rules: Vec<_> = g.rules().cloned().collect();
    let mut least: Vec<Option<u64>> = vec![None; n];
    least[x.usize()] = Some(1);
    for _ in 0..2 * n {
        for r in &rules {
            let len: Option<u64> = r.rhs.iter().map(|y| least[y.usize()]).sum();
            let old = least[r.lhs.usize()];
            least[r.lhs.usize()] = old.into_iter().chain(len).min();
        }
    }
    assert_eq!(least[s.usize()], Some(1));
}
'''),
]

use crate::engine::Prop;

macro_rules! props {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        static ALL: &[&Prop] = &[$(&$m::PROP),*];
    };
}

props!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27, c28);

pub fn all() -> &'static [&'static Prop] {
    ALL
}

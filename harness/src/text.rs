//! Grammar texts: syntax trees, rendering, a reference tokenizer and a
//! reference syntax automaton for both loaders; regular expressions.
use crate::engine::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Op,
    Semi,
    Pipe,
    Plus,
    Star,
    Str(String),
    LBrace,
    RBrace,
    LParen,
    RParen,
    Gt,
    Lexer,
    Tilde,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rep {
    One,
    Star,
    Plus,
}

#[derive(Clone, Debug)]
pub enum Frag {
    Id(String, Rep),
    Unit,
    Str(String),
    Call(String, String),
}

#[derive(Clone, Debug)]
pub struct Alt {
    pub frags: Vec<Frag>,
    pub action: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub lhs: String,
    /// one alternative without fragments: `lhs ::= ;` or `lhs ::= > action;`
    pub alts: Vec<Alt>,
}

pub fn frag_tokens(f: &Frag, out: &mut Vec<Tok>) {
    match f {
        Frag::Id(s, r) => {
            out.push(Tok::Id(s.clone()));
            match r {
                Rep::One => {}
                Rep::Star => out.push(Tok::Star),
                Rep::Plus => out.push(Tok::Plus),
            }
        }
        Frag::Unit => out.extend([Tok::LParen, Tok::RParen]),
        Frag::Str(s) => out.push(Tok::Str(s.clone())),
        Frag::Call(f, s) => out.extend([Tok::Id(f.clone()), Tok::LParen, Tok::Str(s.clone()), Tok::RParen]),
    }
}

pub fn decl_tokens(d: &Decl, advanced: bool, out: &mut Vec<Tok>) {
    out.push(Tok::Id(d.lhs.clone()));
    out.push(Tok::Op);
    for (i, a) in d.alts.iter().enumerate() {
        if i > 0 {
            out.push(Tok::Pipe);
        }
        for (j, f) in a.frags.iter().enumerate() {
            if j > 0 && advanced {
                out.push(Tok::Tilde);
            }
            frag_tokens(f, out);
        }
        if let Some(n) = &a.action {
            out.push(Tok::Gt);
            out.push(Tok::Id(n.clone()));
        }
    }
    out.push(Tok::Semi);
}

pub fn spell(src: &mut Src, t: &Tok) -> String {
    match t {
        Tok::Id(s) => s.clone(),
        Tok::Op => "::=".into(),
        Tok::Semi => ";".into(),
        Tok::Pipe => "|".into(),
        Tok::Plus => "+".into(),
        Tok::Star => "*".into(),
        Tok::LBrace => "{".into(),
        Tok::RBrace => "}".into(),
        Tok::LParen => "(".into(),
        Tok::RParen => ")".into(),
        Tok::Gt => ">".into(),
        Tok::Lexer => "lexer".into(),
        Tok::Tilde => "~".into(),
        Tok::Str(s) => {
            let mut o = String::from("\"");
            let extra = src.chance(1, 6);
            for c in s.chars() {
                if c == '"' || c == '\\' || (extra && src.chance(1, 3)) {
                    o.push('\\');
                }
                o.push(c);
            }
            o.push('"');
            o
        }
    }
}

/// Renders tokens with whitespace of varying kind; returns the text and the
/// line and column of every token.
pub fn render(src: &mut Src, toks: &[Tok]) -> (String, Vec<(u32, u32)>) {
    let style = src.weighted(&[100, 100, 100, 100, 1]);
    let mut out = String::new();
    let mut pos = vec![];
    let (mut line, mut col) = (1u32, 1u32);
    let push = |s: &str, out: &mut String, line: &mut u32, col: &mut u32| {
        for c in s.chars() {
            if c == '\n' {
                *line += 1;
                *col = 1;
            } else {
                *col += 1;
            }
        }
        out.push_str(s);
    };
    let word = |t: &Tok| matches!(t, Tok::Id(_) | Tok::Lexer);
    for (i, t) in toks.iter().enumerate() {
        let need = i > 0 && word(t) && word(&toks[i - 1]);
        let far: String;
        let ws = match style {
            0 => {
                if i > 0 && toks[i - 1] == Tok::Semi {
                    "\n"
                } else if i > 0 {
                    " "
                } else {
                    ""
                }
            }
            1 if need => " ",
            1 => "",
            4 if src.chance(1, 4) => {
                // positions beyond 8 or 16 bits
                let k = *src.pick(&[120, 255, 256, 300, 1000, 66000]);
                far = src.pick(&[" ", "\n", "\t", "\n "]).repeat(k);
                &far
            }
            _ => {
                let w = *src.pick(&["", " ", "\n", "\t", "  \n\t ", "\n\n "]);
                if need && w.is_empty() { " " } else { w }
            }
        };
        push(ws, &mut out, &mut line, &mut col);
        pos.push((line, col));
        let s = spell(src, t);
        push(&s, &mut out, &mut line, &mut col);
    }
    if src.chance(1, 3) {
        out.push('\n');
    }
    (out, pos)
}

const NAMES: &[&str] = &[
    "a", "b", "c", "start", "expr", "A", "B", "_", "_x1", "lexer_", "lexe", "g0", "g1", "g5", "Z9", "x0y1", "Regexp",
    "a1", "aa", "a_b", "root", "_0",
];

pub fn ident(src: &mut Src, pool: usize) -> String {
    NAMES[src.usize(pool.min(NAMES.len()))].to_string()
}

/// Names for a case: a few, with a random offset so that all get used.
pub fn names(src: &mut Src, k: usize) -> Vec<String> {
    let mut v: Vec<&str> = NAMES.to_vec();
    if src.chance(2, 3) {
        src.shuffle(&mut v);
    }
    v.truncate(k);
    let mut v: Vec<String> = v.into_iter().map(|s| s.to_string()).collect();
    let fancy = src.chance(1, 10);
    while v.len() < k || fancy && src.chance(3, 4) {
        let s = random_name(src);
        if v.contains(&s) {
            continue;
        }
        if v.len() < k {
            v.push(s);
        } else {
            let i = src.usize(k);
            v[i] = s;
        }
    }
    v
}

/// An identifier of any length, often one with a long prefix in common with others.
fn random_name(src: &mut Src) -> String {
    let long = |src: &mut Src| match src.below(3) {
        0 | 1 => src.range(1, 40),
        _ => *src.pick(&[47, 63, 64, 100, 126, 128, 254, 256, 300]),
    };
    let mut s = match src.below(5) {
        0 => "a".repeat(long(src)),
        1 => "name_of_a_symbol_".to_string(),
        2 => src.pick(NAMES).to_string(),
        3 => "r".to_string(),
        // different at the beginning only
        _ => return format!("{}x{}", src.pick(NAMES), "z".repeat(long(src))),
    };
    let cs: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect();
    for _ in 0..src.range(1, 4) {
        s.push(*src.pick(&cs));
    }
    // names of the kind which loaders and printers make up are out of scope
    let tail = |p: &str| s.strip_prefix(p).is_some_and(|t| t.chars().all(|c| c.is_ascii_digit()));
    if s == "lexer" || s.starts_with("__lex") || tail("g") { "x_".to_string() + &s } else { s }
}

// --------------------------------------------------------------------------
// Reference tokenizer.

#[derive(Clone, Debug, PartialEq)]
pub enum Lexed {
    Tok(Tok, u32, u32),
    /// a character which starts no token
    Bad(u32, u32),
    /// a string without end; position of its opening quote
    Unterminated(u32, u32),
}

pub fn tokenize(text: &str, advanced: bool) -> Vec<Lexed> {
    let cs: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let (mut line, mut col) = (1u32, 1u32);
    let mut i = 0;
    while i < cs.len() {
        let (l, c) = (line, col);
        let start = i;
        let mut bad = false;
        let tok = match cs[i] {
            'a'..='z' | 'A'..='Z' | '_' => {
                while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                    i += 1;
                }
                let s: String = cs[start..i].iter().collect();
                if advanced && s == "lexer" { Some(Tok::Lexer) } else { Some(Tok::Id(s)) }
            }
            ' ' | '\n' | '\t' => {
                i += 1;
                None
            }
            ':' if cs[i..].starts_with(&[':', ':', '=']) => {
                i += 3;
                Some(Tok::Op)
            }
            '"' if advanced => {
                i += 1;
                let mut s = String::new();
                let mut closed = false;
                while i < cs.len() {
                    match cs[i] {
                        '"' => {
                            closed = true;
                            i += 1;
                            break;
                        }
                        '\\' if i + 1 < cs.len() => {
                            s.push(cs[i + 1]);
                            i += 2;
                        }
                        '\\' => i += 1,
                        x => {
                            s.push(x);
                            i += 1;
                        }
                    }
                }
                if !closed {
                    out.push(Lexed::Unterminated(l, c));
                    return out;
                }
                Some(Tok::Str(s))
            }
            x => {
                i += 1;
                let one = match x {
                    ';' => Some(Tok::Semi),
                    '|' => Some(Tok::Pipe),
                    '+' => Some(Tok::Plus),
                    '*' => Some(Tok::Star),
                    '(' => Some(Tok::LParen),
                    ')' => Some(Tok::RParen),
                    '~' if advanced => Some(Tok::Tilde),
                    '{' if advanced => Some(Tok::LBrace),
                    '}' if advanced => Some(Tok::RBrace),
                    '>' if advanced => Some(Tok::Gt),
                    _ => None,
                };
                bad = one.is_none();
                one
            }
        };
        if bad {
            out.push(Lexed::Bad(l, c));
            return out;
        }
        for x in &cs[start..i] {
            if *x == '\n' {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
        if let Some(t) = tok {
            out.push(Lexed::Tok(t, l, c));
        }
    }
    out
}

// --------------------------------------------------------------------------
// Reference syntax: both languages are regular.

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// between declarations
    Top,
    /// after an LHS
    Lhs,
    /// after `::=`
    Body,
    /// after an identifier in an alternative
    AfterId,
    /// after a complete fragment
    AfterFrag,
    /// a fragment is required
    NeedFrag,
    /// after `(`
    Open,
    /// after `ident ( "..."`
    CallStr,
    /// after `>`
    Action,
    /// after an action; in an action-only body
    AfterAction,
    AfterActionOnly,
    ActionOnly,
    /// after `lexer`
    Kw,
    /// after `{`
    LexStart,
}

/// A syntax automaton; `feed` is false if the token cannot come next.
pub struct Syntax {
    st: St,
    lexer: bool,
    any: bool,
    advanced: bool,
}

impl Syntax {
    pub fn new(advanced: bool) -> Self {
        Syntax { st: St::Top, lexer: false, any: false, advanced }
    }
    pub fn complete(&self) -> bool {
        self.st == St::Top && !self.lexer && self.any
    }
    pub fn feed(&mut self, t: &Tok) -> bool {
        use St::*;
        let adv = self.advanced;
        let next = match (self.st, t) {
            (Top | LexStart, Tok::Id(_)) => Lhs,
            (Top, Tok::Lexer) if !self.lexer && adv => Kw,
            (Top, Tok::RBrace) if self.lexer => {
                self.lexer = false;
                self.any = true;
                Top
            }
            (Kw, Tok::LBrace) => {
                self.lexer = true;
                LexStart
            }
            (Lhs, Tok::Op) => Body,
            (Body, Tok::Semi) => Top,
            (Body, Tok::Gt) if adv => ActionOnly,
            (ActionOnly, Tok::Id(_)) => AfterActionOnly,
            (AfterActionOnly, Tok::Semi) => Top,
            (Body | NeedFrag, Tok::Id(_)) => AfterId,
            (Body | NeedFrag, Tok::Str(_)) if adv => AfterFrag,
            (Body | NeedFrag, Tok::LParen) if !adv => Open,
            (Open, Tok::RParen) if !adv => AfterFrag,
            (AfterId, Tok::LParen) if adv => Open,
            (Open, Tok::Str(_)) if adv => CallStr,
            (CallStr, Tok::RParen) => AfterFrag,
            (AfterId, Tok::Plus | Tok::Star) => AfterFrag,
            (AfterId | AfterFrag, Tok::Tilde) if adv => NeedFrag,
            (AfterId | AfterFrag, Tok::Id(_)) if !adv => AfterId,
            (AfterId | AfterFrag, Tok::LParen) if !adv => Open,
            (AfterId | AfterFrag | AfterAction, Tok::Pipe) => NeedFrag,
            (AfterId | AfterFrag | AfterAction, Tok::Semi) => Top,
            (AfterId | AfterFrag, Tok::Gt) if adv => Action,
            (Action, Tok::Id(_)) => AfterAction,
            _ => return false,
        };
        if next == Top && !self.lexer {
            self.any = true;
        }
        self.st = next;
        true
    }
}

// --------------------------------------------------------------------------
// Regular expressions.

#[derive(Clone, Debug)]
pub enum Re {
    Empty,
    Lit(char),
    /// class syntax and some members
    Class(String, Vec<char>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>, bool),
    /// opening of the group
    Group(&'static str, Box<Re>),
}

pub const CHARS: &[char] = &[
    'a', 'b', 'c', 'A', 'B', 'z', '0', '9', '_', ' ', '-', '\n', 'k', 'K', 's', '{', '"', '\\', '/', '\0', '\u{7e}',
    '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', 'é', 'É', 'ß', 'ſ', '\u{212a}', '名', '\u{d7ff}', '\u{e000}', '\u{fffd}',
    '\u{ffff}', '\u{10000}', '🯰', '🯹', '\u{10fffe}', '\u{10ffff}',
];

fn esc(c: char, in_class: bool) -> String {
    match c {
        '\n' => "\\n".into(),
        '\0' => "\\x00".into(),
        c if "\\.+*?()|[]{}^$#&-~\"".contains(c) => {
            if c == '"' || (c == '-' && !in_class) {
                c.to_string()
            } else {
                format!("\\{c}")
            }
        }
        c => c.to_string(),
    }
}

fn a_char(src: &mut Src) -> char {
    if src.chance(2, 3) { *src.pick(&CHARS[..8]) } else { *src.pick(CHARS) }
}

fn class(src: &mut Src) -> Re {
    match src.weighted(&[6, 2, 2, 1]) {
        0 => {
            let neg = src.chance(1, 4);
            let k = if src.chance(1, 20) { src.range(4, 20) } else { src.range(1, 3) };
            let mut s = String::from(if neg { "[^" } else { "[" });
            let mut members = vec![];
            for _ in 0..k {
                let a = a_char(src);
                let b = a_char(src);
                if src.chance(1, 2) {
                    s.push_str(&esc(a, true));
                    members.push(a);
                } else {
                    let (a, b) = (a.min(b), a.max(b));
                    s.push_str(&format!("{}-{}", esc(a, true), esc(b, true)));
                    members.extend([a, b]);
                }
            }
            s.push(']');
            Re::Class(s, members)
        }
        1 => {
            let (s, m): (&str, &[char]) = *src.pick(&[
                (".", &['a', '\u{10ffff}', '\u{d7ff}', 'é'][..]),
                ("\\d", &['0', '9', '🯹'][..]),
                ("\\w", &['a', '_', 'é'][..]),
                ("\\s", &[' ', '\n'][..]),
                ("\\D", &['a', '\u{10ffff}'][..]),
                ("\\W", &['-', '\u{7f}'][..]),
                ("\\S", &['a', 'é'][..]),
                ("\\pL", &['a', 'é'][..]),
                ("[[:alpha:]]", &['a', 'Z'][..]),
                ("(?s:.)", &['a', '\n'][..]),
                ("(?-u:[a-c])", &['a', 'c'][..]),
                ("(?-u:\\w)", &['a', '_'][..]),
            ]);
            Re::Class(s.to_string(), m.to_vec())
        }
        2 => {
            let a = a_char(src);
            Re::Class(format!("[{}]", esc(a, true)), vec![a])
        }
        _ => {
            let (s, m): (&str, &[char]) = *src.pick(&[
                ("[a&&b]", &[][..]),
                ("[a-z&&[^b]]", &['a', 'c'][..]),
                ("[a-c--b]", &['a', 'c'][..]),
                ("\\x{10FFFF}", &['\u{10ffff}'][..]),
                ("[^\\x{0}-\\x{10FFFF}]", &[][..]),
                ("[\\x{0}-\\x{10FFFF}]", &['\u{10ffff}', 'a', '\0'][..]),
                ("\\u00e9", &['é'][..]),
            ]);
            Re::Class(s.to_string(), m.to_vec())
        }
    }
}

pub fn regex(src: &mut Src, depth: usize) -> Re {
    let leaf = depth == 0;
    match src.weighted(&[8, 4, if leaf { 0 } else { 5 }, if leaf { 0 } else { 4 }, if leaf { 0 } else { 5 }, if leaf { 0 } else { 3 }, 1]) {
        0 => Re::Lit(a_char(src)),
        1 => class(src),
        2 => {
            let k = if depth == 1 && src.chance(1, 30) { src.range(5, 40) } else { src.range(2, 4) };
            Re::Cat((0..k).map(|_| regex(src, depth - 1)).collect())
        }
        3 => {
            let k = if depth == 1 && src.chance(1, 30) { src.range(5, 40) } else { src.range(2, 4) };
            Re::Alt((0..k).map(|_| regex(src, depth - 1)).collect())
        }
        4 => {
            let sub = regex(src, depth - 1);
            let (min, max) = match src.weighted(&[2, 2, 2, 4]) {
                0 => (0, None),
                1 => (1, None),
                2 => (0, Some(1)),
                _ => {
                    let big = src.chance(1, 6);
                    let min = src.below(if big { 9 } else { 3 }) as u32;
                    match src.below(3) {
                        0 => (min, None),
                        1 => (min, Some(min)),
                        _ => (min, Some(min + src.below(if big { 12 } else { 3 }) as u32)),
                    }
                }
            };
            Re::Rep(Box::new(sub), min, max, src.chance(1, 4))
        }
        5 => {
            let open = *src.pick(&["(", "(?:", "(?i:", "(?P<n>", "(?s:", "(?U:"]);
            Re::Group(open, Box::new(regex(src, depth - 1)))
        }
        _ => Re::Empty,
    }
}

/// 0: alternation, 1: concatenation, 2: atom
pub fn pattern(re: &Re, names: &mut usize, level: u8) -> String {
    let (own, s) = match re {
        Re::Empty => (if level >= 2 { 0 } else { 2 }, String::new()),
        Re::Lit(c) => (2, esc(*c, false)),
        Re::Class(s, _) => (2, s.clone()),
        Re::Cat(v) => (1, v.iter().map(|x| pattern(x, names, 1)).collect::<String>()),
        Re::Alt(v) => (0, v.iter().map(|x| pattern(x, names, 0)).collect::<Vec<_>>().join("|")),
        Re::Rep(x, min, max, lazy) => {
            let s = pattern(x, names, 2);
            let q = match (min, max) {
                (0, None) => "*".into(),
                (1, None) => "+".into(),
                (0, Some(1)) => "?".into(),
                (m, None) => format!("{{{m},}}"),
                (m, Some(n)) if m == n => format!("{{{m}}}"),
                (m, Some(n)) => format!("{{{m},{n}}}"),
            };
            (1, format!("{s}{q}{}", if *lazy { "?" } else { "" }))
        }
        Re::Group(open, x) => {
            let open = if *open == "(?P<n>" {
                *names += 1;
                format!("(?P<n{names}>")
            } else {
                open.to_string()
            };
            (2, format!("{open}{})", pattern(x, names, 0)))
        }
    };
    if own < level { format!("(?:{s})") } else { s }
}

/// A word which probably matches.
pub fn sample(src: &mut Src, re: &Re, out: &mut Vec<char>) {
    match re {
        Re::Empty => {}
        Re::Lit(c) => out.push(*c),
        Re::Class(_, m) => {
            if m.is_empty() || src.chance(1, 10) {
                out.push(a_char(src))
            } else {
                out.push(*src.pick(m))
            }
        }
        Re::Cat(v) => v.iter().for_each(|x| sample(src, x, out)),
        Re::Alt(v) => {
            let i = src.usize(v.len());
            sample(src, &v[i], out)
        }
        Re::Rep(x, min, max, _) => {
            let hi = max.unwrap_or(min + 2);
            let k = *min + src.below((hi - min + 1) as u64) as u32;
            for _ in 0..k {
                if out.len() > 60 {
                    break;
                }
                sample(src, x, out)
            }
        }
        Re::Group(_, x) => sample(src, x, out),
    }
}

/// Words to try: matching ones, changed ones and random ones.
pub fn words(src: &mut Src, re: &Re, k: usize) -> Vec<Vec<char>> {
    let mut out: Vec<Vec<char>> = vec![vec![]];
    for _ in 0..k {
        let mut w = vec![];
        if src.chance(4, 5) {
            sample(src, re, &mut w);
        } else {
            for _ in 0..src.range(1, 4) {
                w.push(a_char(src));
            }
        }
        w.truncate(64);
        match src.weighted(&[4, 1, 1, 1, 1]) {
            1 if !w.is_empty() => {
                let i = src.usize(w.len());
                w.remove(i);
            }
            2 => {
                let i = src.usize(w.len() + 1);
                w.insert(i, a_char(src));
            }
            3 if !w.is_empty() => {
                let i = src.usize(w.len());
                w[i] = a_char(src);
            }
            4 if !w.is_empty() => {
                // the neighbouring character
                let i = src.usize(w.len());
                let c = w[i] as u32;
                let n = if src.chance(1, 2) { c + 1 } else { c.saturating_sub(1) };
                if let Some(n) = char::from_u32(n) {
                    w[i] = n;
                }
            }
            _ => {}
        }
        out.push(w);
    }
    out
}

/// Does the regular expression match the whole word?
pub struct Matcher(regex_automata::nfa::thompson::pikevm::PikeVM);

impl Matcher {
    pub fn new(pattern: &str) -> Option<Self> {
        regex_automata::nfa::thompson::pikevm::PikeVM::new(&format!("\\A(?:{pattern})\\z")).ok().map(Matcher)
    }
    pub fn matches(&self, w: &[char]) -> bool {
        let s: String = w.iter().collect();
        let mut cache = self.0.create_cache();
        self.0.is_match(&mut cache, s.as_str())
    }
}

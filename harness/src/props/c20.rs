//! C20: the loaders accept exactly the valid texts and say where others are wrong.
use super::c21::{Regexps, block_tokens, blocks};
use crate::engine::*;
use crate::ensure;
use crate::text::*;
use cfg_grammar::Cfg;
use cfg_load::advanced::Token;
use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt, LoadError};
use std::collections::HashMap;

pub static PROP: Prop = Prop {
    id: "C20",
    rule: "the text has at least five tokens and is rejected, or is accepted after a change",
    run,
    quick: 1_800_000,
    thorough: 18_000_000,
    probes: &[("look-around", probe_look)],
};

const SOUP: &[&str] = &[
    "a", "b", "lexer", "lexer {", "::=", ";", "|", "+", "*", "(", ")", "~", ">", "{", "}", "\"x\"", "\"\"", "Regexp",
    "Regexp(\"a*\")", "Regexp(\"(\")", "Call(\"x\")", "a ::= ", "b ::= a;", " ", "\n", "\t", ":", "=", "::", "\"", "\\",
    "1", "é", "\r", "#", "//", ",", "-", "<", "'", "\0", "名", "\u{10ffff}", "a1_", "_", "Z",
];

fn text(src: &mut Src, case: &mut Case) -> String {
    let mode = src.weighted(&[2, 5, 5, 1]);
    if mode == 0 || mode == 3 {
        case.class("soup");
        let k = src.range(0, 14);
        let mut s = String::new();
        for _ in 0..k {
            let piece = if mode == 3 { *src.pick(SOUP) } else { SOUP[src.usize(27)] };
            s.push_str(piece);
            if src.chance(1, 2) {
                s.push(' ');
            }
        }
        return s;
    }
    let mut toks = if src.chance(1, 2) {
        let huge = src.chance(1, 3000);
        let k = if huge { 300 } else { src.range(1, 5) };
        let ns = names(src, k);
        let ds = super::c18::decls(src, &ns, if huge { 300 } else { 4 });
        let mut toks = vec![];
        let tilde = src.chance(1, 6);
        for d in &ds {
            decl_tokens(d, tilde, &mut toks);
        }
        toks
    } else {
        let mut bs = blocks(src, &mut Regexps(HashMap::new()));
        bs.truncate(3);
        block_tokens(&bs)
    };
    if mode == 1 {
        case.class("changed tokens");
        for _ in 0..src.range(0, 3) {
            let extra = [
                Tok::Id("a".into()), Tok::Op, Tok::Semi, Tok::Pipe, Tok::Plus, Tok::Star, Tok::Str("x".into()), Tok::LBrace,
                Tok::RBrace, Tok::LParen, Tok::RParen, Tok::Gt, Tok::Lexer, Tok::Tilde, Tok::Str("(".into()),
            ];
            let n = toks.len();
            if n == 0 {
                break;
            }
            let i = src.usize(n);
            match src.below(6) {
                0 => {
                    toks.remove(i);
                }
                1 => {
                    let t = src.pick(&extra).clone();
                    toks.insert(i, t);
                }
                2 => toks[i] = src.pick(&extra).clone(),
                3 => {
                    let j = src.usize(n);
                    toks.swap(i, j);
                }
                4 => {
                    let t = toks[i].clone();
                    toks.insert(i, t);
                }
                _ => {
                    // a name used elsewhere
                    let ids: Vec<String> = toks.iter().filter_map(|t| if let Tok::Id(s) = t { Some(s.clone()) } else { None }).collect();
                    if let Tok::Id(s) = &mut toks[i] {
                        *s = src.pick(&ids).clone();
                    }
                }
            }
        }
        if src.chance(1, 8) {
            let k = src.range(0, toks.len());
            toks.truncate(k);
        }
        return render(src, &toks).0;
    }
    case.class("changed characters");
    let mut cs: Vec<char> = render(src, &toks).0.chars().collect();
    for _ in 0..src.range(1, 3) {
        let n = cs.len();
        if n == 0 {
            break;
        }
        let i = src.usize(n);
        let any = ['a', ' ', '\n', ';', ':', '=', '"', '\\', '(', ')', '0', '\r', 'é', '{', '}', '~', '>', '|', '+', '*', '\0', '<'];
        match src.below(5) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, *src.pick(&any)),
            2 => cs[i] = *src.pick(&any),
            3 => {
                let j = (i + src.range(1, 6)).min(n);
                cs.drain(i..j);
            }
            _ => cs.truncate(i),
        }
    }
    cs.into_iter().collect()
}

#[derive(Debug)]
enum Want {
    Ok,
    /// position and token
    At(u32, u32, Option<Tok>),
    /// somewhere
    Err,
}

fn same(t: &Tok, u: &Token) -> bool {
    match (t, u) {
        (Tok::Id(a), Token::Ident(b)) | (Tok::Str(a), Token::String(b)) => a == b,
        (Tok::Op, Token::BnfOp)
        | (Tok::Semi, Token::Semicolon)
        | (Tok::Pipe, Token::Pipe)
        | (Tok::Plus, Token::Plus)
        | (Tok::Star, Token::Mul)
        | (Tok::LBrace, Token::LBrace)
        | (Tok::RBrace, Token::RBrace)
        | (Tok::LParen, Token::LParen)
        | (Tok::RParen, Token::RParen)
        | (Tok::Gt, Token::GtOp)
        | (Tok::Lexer, Token::LexerKeyword)
        | (Tok::Tilde, Token::TildeOp) => true,
        _ => false,
    }
}

/// Errors beyond syntax, in the order of rules: the parser's, then the lexer's.
fn semantics(toks: &[(Tok, u32, u32)]) -> Want {
    let mut rules: [Vec<(usize, usize)>; 2] = [vec![], vec![]];
    let mut lexer = false;
    let mut i = 0;
    while i < toks.len() {
        match &toks[i].0 {
            Tok::Lexer => {
                lexer = true;
                i += 2;
            }
            Tok::RBrace => {
                lexer = false;
                i += 1;
            }
            _ => {
                let start = i;
                while toks[i].0 != Tok::Semi {
                    i += 1;
                }
                rules[lexer as usize].push((start, i));
                i += 1;
            }
        }
    }
    let lhss: Vec<&Tok> = rules[0].iter().map(|r| &toks[r.0].0).collect();
    for (which, rs) in rules.iter().enumerate() {
        for &(a, b) in rs {
            if which == 1 && lhss.contains(&&toks[a].0) {
                return Want::At(toks[a].1, toks[a].2, None);
            }
            for k in a + 2..b {
                if let (Tok::Id(f), Tok::LParen) = (&toks[k].0, &toks[k + 1].0) {
                    if f != "Regexp" {
                        return Want::At(toks[k].1, toks[k].2, None);
                    }
                    if let Tok::Str(p) = &toks[k + 2].0 {
                        if regex_syntax::Parser::new().parse(p).is_err() {
                            return Want::At(toks[k + 2].1, toks[k + 2].2, None);
                        }
                    }
                }
            }
        }
    }
    Want::Ok
}

fn expected(text: &str, advanced: bool) -> (Want, usize) {
    let lexed = tokenize(text, advanced);
    let n = lexed.len();
    let mut syntax = Syntax::new(advanced);
    let mut toks = vec![];
    for l in lexed {
        match l {
            Lexed::Bad(line, col) => return (Want::At(line, col, None), n),
            Lexed::Unterminated(..) => return (Want::Err, n),
            Lexed::Tok(t, line, col) => {
                if !syntax.feed(&t) {
                    return (Want::At(line, col, Some(t)), n);
                }
                toks.push((t, line, col));
            }
        }
    }
    if !syntax.complete() {
        return (Want::Err, n);
    }
    (if advanced { semantics(&toks) } else { Want::Ok }, n)
}

fn has_look(text: &str) -> bool {
    tokenize(text, true).iter().any(|l| match l {
        Lexed::Tok(Tok::Str(p), ..) => {
            regex_syntax::Parser::new().parse(p).is_ok_and(|h| !h.properties().look_set().is_empty())
        }
        _ => false,
    })
}

fn judge(got: Result<(), LoadError>, want: &Want, advanced: bool) -> Res {
    let what = if advanced { "load_advanced" } else { "load" };
    match (got, want) {
        (Ok(()), Want::Ok) => Ok(()),
        (Ok(()), w) => Err(format!("{what} accepts an invalid text; expected {w:?}")),
        (Err(e), Want::Ok) => Err(format!("{what} rejects a valid text: {e}")),
        (Err(_), Want::Err) => Ok(()),
        (Err(e), Want::At(line, col, tok)) => {
            ensure!((e.line, e.col) == (*line, *col), "{what}: error at {}:{} ({}), expected at {line}:{col}", e.line, e.col, e.reason);
            let shown = e.to_string();
            let numbers: Vec<&str> = shown.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
            ensure!(
                numbers.contains(&&*line.to_string()) && numbers.contains(&&*col.to_string()),
                "{what}: the message of an error at {line}:{col} is {shown:?}"
            );
            if let (Some(t), true) = (tok, advanced) {
                ensure!(e.token.as_ref().is_some_and(|u| same(t, u)), "{what}: error token {:?}, expected {t:?}", e.token);
            }
            Ok(())
        }
    }
}

fn run(src: &mut Src, case: &mut Case) -> Res {
    let text = text(src, case);
    case.input = format!("{text:?}");
    for advanced in [false, true] {
        let (want, n) = expected(&text, advanced);
        case.nontrivial |= n >= 5;
        match &want {
            Want::Ok => case.class(if advanced { "accepted by load_advanced" } else { "accepted by load" }),
            Want::At(_, _, Some(_)) => case.class("unexpected token"),
            Want::At(_, _, None) => case.class("bad character or meaning"),
            Want::Err => case.class("incomplete"),
        }
        let got = catch(|| {
            if advanced {
                Cfg::load_advanced(&text).map(|mut g| {
                    g.lexer_map.compute();
                    for &c in CHARS {
                        g.lexer_map.get(c);
                    }
                })
            } else {
                Cfg::load(&text).map(|_| ())
            }
        });
        match got {
            Ok(r) => judge(r, &want, advanced)?,
            Err(p) if advanced && p.contains("not implemented") && has_look(&text) => {
                // the known finding: look-around
                case.class("look-around (known finding)");
            }
            Err(p) => return Err(format!("{}: {p}", if advanced { "load_advanced" } else { "load" })),
        }
    }
    Ok(())
}

fn probe_look() -> Res {
    match catch(|| Cfg::load_advanced("a ::= Regexp(\"^x\");").is_ok()) {
        Ok(_) => Ok(()),
        Err(p) => Err(p),
    }
}

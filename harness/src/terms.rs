//! Terminals of a grammar as the lexer sees them: quoted texts of any characters, patterns, and the tokens' numbers.
use crate::grammar::{grammar, keep, lower, same_text};
use crate::lexer::{begins, blank, ends, sstring};
use crate::sym::*;
use regex_syntax::hir::{Hir, Literal};
use typelalr::lalr::item::TokenIdx;
use typelalr::lex::lex::{Lex, Token};
use typelalr::parser::Symbol;

/// sets of patterns that never match the same text
static PATS: &[&[&str]] = &[&[], &["[a-b]+"], &["."], &["a"], &["[a-b]+", "[^a-b]"], &["\\+", "[0-9]+"], &["a*b|c"]];

/// C06. params: how many quoted terminals, characters each (at most), set of patterns (or 9: any), characters of the input, character mode
#[no_mangle]
pub extern "C" fn h_terms() {
    let (nq, len, n, mode) = (param(0), param(1), param(3), param(4));
    let pats = PATS[if param(2) == 9 { pick(PATS.len()) } else { param(2) }];
    // quoted terminals, then patterns
    let mut texts: Vec<(bool, &'static str, Vec<char>)> = vec![];
    for _ in 0..nq { let (s, v) = sstring(if len == 0 { 0 } else { 1 + pick(len) }, mode); texts.push((false, keep(s), v)); }
    for p in pats { texts.push((true, *p, vec![])); }
    let skel: Vec<&str> = texts.iter().map(|_| "t").collect();
    let skel = format!("S={}", skel.join(","));
    let mut k = 0;
    let g = grammar(&skel, 0, |_| { k += 1; (texts[k - 1].0, texts[k - 1].1) });
    let gr = lower(&g);
    let lex = match catch(|| Lex::from_grammar(gr)) { Ok(l) => l, Err(()) => { fail("building the lexer of a grammar panicked"); return } };
    let (s, v) = sstring(n, mode);
    let got = match catch(|| { let t = lex.lex(&s); lex.convert_tokens(t) }) { Ok(t) => t, Err(()) => { fail("reading tokens panicked"); return } };
    let hs: Vec<Hir> = texts.iter().map(|(p, t, v)| if *p { regex_syntax::Parser::new().parse(t).unwrap() } else { Hir::concat(v.iter().map(|c| Hir::literal(Literal::Unicode(*c))).collect()) }).collect();
    let sym: Vec<Symbol> = texts.iter().map(|(p, t, _)| if *p { Symbol::Regex(t) } else { Symbol::StrLit(t) }).collect();
    let idx = |i: usize| gr.tokens().position(|s| *s == sym[i]).map(|i| TokenIdx(i as u32));
    // longest match, the first of equals
    let mut at = 0;
    let mut want = vec![];
    while at < n {
        let mut best = (0, 0);
        for (i, h) in hs.iter().enumerate() {
            let m = ends(h, &v[at..], 1);
            let k = 31 - (m | 1).leading_zeros() as usize;
            if k > best.0 { best = (k, i); }
        }
        if best.0 > 0 { want.push((best.1, at, at + best.0)); at += best.0; continue; }
        // a blank that some token could begin with may or may not be skipped (see C04)
        if blank(v[at]) {
            if hs.iter().any(|h| begins(h, v[at])) { reach(9); return; }
            at += 1;
            continue;
        }
        break;
    }
    let eof = got.iter().filter(|t| t.1 == TokenIdx(0)).count();
    check(eof == 1 && got.last().map(|t| t.1) == Some(TokenIdx(0)), "the tokens do not end with exactly one end marker");
    check(got.len() >= want.len() + 1, "a token is missing");
    check(got.len() <= want.len() + 1, "a token is emitted where nothing matches");
    for (g, w) in got.iter().zip(&want) {
        let (p, t, _) = &texts[w.0];
        let text: String = v[w.1..w.2].iter().collect();
        check(g.0 == Token::new_with_val(t.to_string(), text), "a token of another terminal or with another text is emitted");
        let twin = texts.iter().any(|x| x.0 != *p && same_text(x.1, t));
        if twin { check(Some(g.1) == idx(w.0), "a quoted terminal and a pattern written with the same text are confused"); reach(8); }
        else { check(Some(g.1) == idx(w.0), "a token is attributed to another terminal than the one it came from"); }
        if *p { reach(2); } else { reach(1); }
    }
    out(want.len() as u64);
    if at < n { reach(3); }
}

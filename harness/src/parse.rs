//! The built-in parser on texts: reference lexing by longest match, reference LALR(1) tables, all sentences.
use crate::grammar::*;
use crate::grammar::Sy::*;
use crate::lexer::{munch, sstring};
use crate::sym::*;
use bumpalo::Bump;
use regex_syntax::hir::{Hir, Literal};
use typelalr::lalr::Lalr;
use typelalr::parser::Grammar;

/// Grammars as in `SKEL`, and what the letters stand for (a leading `/`: a pattern). `.` and `?` stand for any of the letters.
static TEXTS: &[(&str, &[(char, &str)])] = &[
    /* 0 */ ("S=CC;C=cC,d", &[('c', "c"), ('d', "d")]),
    /* 1 */ ("S=lLr;L=XL,X;X=S,a,n", &[('l', "("), ('r', ")"), ('a', "ab"), ('n', "/[1-9][0-9]*")]),
    /* 2 */ ("E=EpT,T;T=lEr,i", &[('p', "+"), ('l', "("), ('r', ")"), ('i', "/[a-b]+")]),
    /* 3 */ ("S=aSb,x,y", &[('a', "a"), ('b', "b"), ('x', "ab"), ('y', "ba ")]),
    /* 4 */ ("S=ieS,fi,n", &[('i', "/[a-z]+"), ('e', "="), ('f', "if"), ('n', "/[0-9]+")]),
    /* 5 */ ("S=aS,bS,c", &[('a', "a"), ('b', "abc"), ('c', "b")]),
    /* 6 */ ("S=ab,q;", &[('a', "é"), ('b', "/[^é]"), ('q', "//")]),
    /* 7 */ ("L=LkX,X;X=i,s", &[('k', ","), ('i', "/[0-9]+"), ('s', "/'[^']*'")]),
    /* 8 */ ("S=aAd,bBd,gAe,hBe;A=c;B=c", &[('a', "a"), ('b', "b"), ('g', "aa"), ('h', "bb"), ('c', "c"), ('d', "d"), ('e', "cd")]),
    /* 9 */ ("S=??;A=?,.", &[('a', "a"), ('b', "ab")]),
    /* 10 */ ("S=?,?.;A=A?,.", &[('a', "a"), ('b', "/b+")]),
    /* 11 */ ("S=A?;A=a?,b?", &[('a', "a"), ('b', "/[^a]")]),
    /* 12 */ ("J=oc,oMc,qd,qLd,s,n;M=P,PkM;P=sfJ;L=J,JkL", &[('o', "{"), ('c', "}"), ('q', "["), ('d', "]"), ('k', ","), ('f', ":"), ('s', "/\"[a-z]*\""), ('n', "/[0-9]+")]),
    /* 13 */ ("S=xq;A=y", &[('x', "a"), ('q', "=="), ('y', "=")]),
    /* 14 */ ("P=PS,S;S=vqEz,wEz;E=EcF,F;F=v,n", &[('v', "/[a-z]+"), ('q', "="), ('c', "=="), ('z', ";"), ('w', "if"), ('n', "/[0-9]+")]),
    /* 15 */ ("S=lSSrS,x", &[('l', "("), ('r', ")"), ('x', "x")]),
    /* 16 */ ("S=aSb,ab", &[('a', "a"), ('b', "b")]),
    /* 17 */ ("S=AbaabA;A=b,aA", &[('a', "a"), ('b', "b")]),
    /* 18 */ ("S=SkA,A;A=B;B=C;C=D;D=E;E=F;F=G;G=x", &[('k', ","), ('x', "x")]),
];

fn any_text_grammar() -> G {
    let i = param(0) + pick(param(1));
    let (skel, toks) = TEXTS[i];
    let skel = skel.trim_end_matches(';');
    grammar(skel, 0, |c| {
        let t = match toks.iter().find(|t| t.0 == c) { Some(t) => t.1, None => toks[pick(toks.len())].1 };
        match t.strip_prefix('/') { Some(p) if !p.is_empty() && p != "/" => (true, p), _ => (false, t) }
    })
}
/// the terminals in order of precedence: quoted ones first
fn exprs(g: &G) -> Vec<(u8, Hir)> {
    let mut v = vec![];
    for pat in [false, true] {
        for i in 1..g.terms.len() {
            let (p, t) = g.terms[i];
            if p != pat { continue; }
            let h = if p { regex_syntax::Parser::new().parse(t).unwrap() } else { Hir::concat(t.chars().map(|c| Hir::literal(Literal::Unicode(c))).collect()) };
            v.push((i as u8, h));
        }
    }
    v
}
/// the tokens of the text and how much of it they cover
fn tokens(g: &G, v: &[char]) -> (Vec<u8>, usize) {
    let e = exprs(g);
    let hs: Vec<&Hir> = e.iter().map(|x| &x.1).collect();
    let (t, end) = munch(&hs, v);
    (t.iter().map(|x| e[x.0].0).collect(), end)
}
fn parser(g: &G) -> Option<Lalr<'static>> {
    let bump: &'static Bump = Box::leak(Box::new(Bump::new()));
    catch(|| Lalr::new(Grammar::grammar_from_ast_productions(bump, g.ast))).ok()
}

/// C15. params: first grammar, how many, characters, their mode
#[no_mangle]
pub extern "C" fn h_parse() {
    let g = any_text_grammar();
    let p = match parser(&g) { Some(p) => p, None => { reach(9); return } };
    let n = pick(param(2) + 1);
    let (s, v) = sstring(n, param(3));
    let ok = catch(|| p.parse(&s)).is_ok();
    let (toks, end) = tokens(&g, &v);
    if end < n {
        check(!ok, "a text is accepted that has a part where no token is recognised");
        reach(2);
    } else if sentences(&g, toks.len()).contains(&toks) {
        check(ok, "a text whose tokens form a sentence is rejected");
        reach(1);
    } else {
        check(!ok, "a text is accepted whose tokens do not form a sentence");
        reach(0);
    }
    out(ok as u64);
}

/// the names behind each `key("` in the text
fn has(t: &str, w: &str) -> bool { t.contains(w) }

/// C14. params as above
#[no_mangle]
pub extern "C" fn h_stop() {
    let g = any_text_grammar();
    if !g.all_productive() { return; }
    let p = match parser(&g) { Some(p) => p, None => { reach(9); return } };
    let r = R::new(&g);
    let t = r.tables(&R::merge(&r.collection()));
    if t.conflict { return; }
    let n = pick(param(2) + 1);
    let (s, v) = sstring(n, param(3));
    // (with all of Unicode, only the kind of failure is judged)
    if param(3) == 1 { whole_messages(); }
    let got = catch(|| p.parse(&s));
    let (mut toks, end) = tokens(&g, &v);
    let rest = end < n;
    toks.push(if rest { 200 } else { 0 });
    // the reference run
    let mut stack = vec![0usize];
    let mut i = 0;
    let stop = loop {
        let q = *stack.last().unwrap();
        match t.action[q].iter().find(|e| e.0 == toks[i]).map(|e| e.1) {
            None => break Some(q),
            Some(Act::Accept) => break None,
            Some(Act::Shift(x)) => { stack.push(x); i += 1; }
            Some(Act::Reduce(p)) => {
                for _ in 0..g.rules[p].1.len() { stack.pop(); }
                let x = t.goto[*stack.last().unwrap()].iter().find(|e| e.0 == g.rules[p].0).unwrap().1;
                stack.push(x);
            }
        }
    };
    let q = match stop { None => { if got.is_err() { fail("a sentence is not accepted"); } reach(1); return } Some(q) => q };
    if got.is_ok() { fail("a text that is no sentence is accepted"); return; }
    let m = msg();
    if !m.starts_with("Invalid token") { fail("parsing failed in another way than by reporting an invalid token"); return; }
    if param(3) == 0 { reach(2); return; }
    let at = match m.rfind("\nValid: ") { Some(a) => a, None => { fail("the report does not list the valid tokens"); return } };
    let valid = &m[at..];
    if toks[i] != 200 {
        let name = if toks[i] == 0 { "EOF" } else { g.terms[toks[i] as usize].1 };
        check(has(&m[..at], &format!("name: {:?}", name)), "the report names another token than the first that cannot continue");
        reach(2);
    } else { reach(3); }
    for k in 0..g.terms.len() {
        let (p, x) = g.terms[k];
        let w = if k == 0 { "Eof".to_string() } else if p { format!("Regex({:?})", x) } else { format!("StrLit({:?})", x) };
        let want = t.action[q].iter().any(|e| e.0 as usize == k);
        if want { check(has(valid, &w), "a valid token is not listed in the report"); } else { check(!has(valid, &w), "a token is listed as valid that is not"); }
    }
    out(q as u64);
}

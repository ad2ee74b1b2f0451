//! Regular expressions, automata and the lexer, against a direct matcher on the expression.
use crate::sym::*;
use bumpalo::Bump;
use regex_syntax::hir::{Class, ClassUnicode, ClassUnicodeRange, Group, GroupKind, Hir, HirKind, Literal, Repetition, RepetitionKind};
use typelalr::lex::dfa::DFA;
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::lex::nfa::{StateIdx, NFA};

// ------------------------------------------------------------------ reference
/// Positions (as bits) at which a match of h can end if it starts at one of the positions in `from`.
pub fn ends(h: &Hir, s: &[char], from: u32) -> u32 {
    match h.kind() {
        HirKind::Empty => from,
        HirKind::Literal(l) => {
            let k = match l { Literal::Unicode(c) => *c as u32, Literal::Byte(b) => *b as u32 };
            let mut r = 0;
            for i in 0..s.len() { if from >> i & 1 == 1 && s[i] as u32 == k { r |= 2 << i; } }
            r
        }
        HirKind::Class(k) => {
            let mut r = 0;
            for i in 0..s.len() {
                if from >> i & 1 == 0 { continue; }
                if in_class(k, s[i]) { r |= 2 << i; }
            }
            r
        }
        HirKind::Group(g) => ends(&g.hir, s, from),
        HirKind::Concat(v) => { let mut f = from; for h in v { if f == 0 { break; } f = ends(h, s, f); } f }
        HirKind::Alternation(v) => { let mut f = 0; for h in v { f |= ends(h, s, from); } f }
        HirKind::Repetition(r) => match r.kind {
            RepetitionKind::ZeroOrOne => from | ends(&r.hir, s, from),
            RepetitionKind::ZeroOrMore => star(&r.hir, s, from),
            RepetitionKind::OneOrMore => { let f = ends(&r.hir, s, from); star(&r.hir, s, f) }
            RepetitionKind::Range(_) => { fail("the harness made a counted repetition"); 0 }
        },
        HirKind::Anchor(_) | HirKind::WordBoundary(_) => { fail("the harness made an anchor"); 0 }
    }
}
fn star(h: &Hir, s: &[char], from: u32) -> u32 {
    let mut all = from;
    let mut new = from;
    while new != 0 {
        let r = ends(h, s, new);
        new = r & !all;
        all |= r;
    }
    all
}
fn in_class(k: &Class, c: char) -> bool {
    let c = c as u32;
    match k {
        Class::Unicode(k) => k.iter().fold(false, |a, r| a | ((r.start() as u32 <= c) & (c <= r.end() as u32))),
        Class::Bytes(k) => k.iter().fold(false, |a, r| a | ((r.start() as u32 <= c) & (c <= r.end() as u32))),
    }
}
pub fn full(h: &Hir, s: &[char]) -> bool { ends(h, s, 1) >> s.len() & 1 == 1 }
fn empty(h: &Hir) -> bool { full(h, &[]) }
/// can a match begin with c (no expression made here has an empty language)
pub fn begins(h: &Hir, c: char) -> bool {
    match h.kind() {
        HirKind::Literal(Literal::Unicode(k)) => *k == c,
        HirKind::Literal(Literal::Byte(k)) => *k as u32 == c as u32,
        HirKind::Class(k) => in_class(k, c),
        HirKind::Group(g) => begins(&g.hir, c),
        HirKind::Repetition(r) => begins(&r.hir, c),
        HirKind::Alternation(v) => v.iter().any(|h| begins(h, c)),
        HirKind::Concat(v) => {
            for h in v { if begins(h, c) { return true; } if !empty(h) { return false; } }
            false
        }
        _ => false,
    }
}
pub fn blank(c: char) -> bool { c == ' ' || c == '\n' }
/// Longest match, ties to the first definition: (definition, start, end) of every token.
pub fn munch(defs: &[&Hir], s: &[char]) -> (Vec<(usize, usize, usize)>, usize) {
    let mut p = 0;
    let mut r = vec![];
    while p < s.len() {
        let mut best = (0, 0);
        for (i, h) in defs.iter().enumerate() {
            let m = ends(h, &s[p..], 1);
            let n = 31 - (m | 1).leading_zeros() as usize;
            if n > best.0 { best = (n, i); }
        }
        if best.0 > 0 { r.push((best.1, p, p + best.0)); p += best.0; continue; }
        if blank(s[p]) && !defs.iter().any(|h| begins(h, s[p])) { p += 1; continue; }
        break;
    }
    (r, p)
}

// ------------------------------------------------------------------ generators
/// a character: any (mode 0), ASCII (1), below 8 (2)
static BOUNDS: &[char] = &['\0', '\t', '\n', 'c', 'd', '\x7f', '\u{80}', '\u{3e7}', '\u{3e8}', '\u{7ff}', '\u{800}', '\u{270f}', '\u{2710}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{1869f}', '\u{186a0}', '\u{f423f}', '\u{f4240}', '\u{10ffff}'];
static NASTY: &[char] = &['"', '\'', '\\', '\n', '\r', 'a', '}', '0', ' ', 'é', '`', '/'];
/// mode 0: any character; 1: ASCII; 2: below 8; 3: where the length of a number or an encoding changes; 4, 5: characters that mean something in TypeScript
pub fn schar(mode: usize) -> char {
    match mode {
        0 => ch(),
        1 => { let b = u8(); assume(b < 0x80); b as char }
        3 => BOUNDS[pick(BOUNDS.len())],
        4 => NASTY[pick(NASTY.len())],
        5 => NASTY[pick(3)],
        _ => { let b = u8(); assume(b < 8); b as char }
    }
}
/// a string of n characters; the length of each character's encoding is decided here, one path per length
pub fn sstring(n: usize, mode: usize) -> (String, Vec<char>) {
    let mut s = String::with_capacity(4 * n);
    let mut v = vec![];
    for _ in 0..n { let c = schar(mode); s.push(c); v.push(c); unsafe { let n = each(s.len()); s.as_mut_vec().set_len(n); } }
    (s, v)
}
fn range(mode: usize) -> ClassUnicodeRange {
    let (a, b) = (schar(mode), schar(mode));
    assume(a <= b);
    // (read back, so that what follows is not computed before the assumption is known)
    let (a, b) = unsafe { (std::ptr::read_volatile(&a), std::ptr::read_volatile(&b)) };
    ClassUnicodeRange::new(a, b)
}
fn leaf(kinds: usize, mode: usize) -> Hir {
    match pick(kinds) {
        0 => Hir::literal(Literal::Unicode(schar(mode))),
        1 => Hir::class(Class::Unicode(ClassUnicode::new([range(mode)]))),
        2 => Hir::empty(),
        3 => Hir::class(Class::Unicode(ClassUnicode::new([range(mode), range(mode)]))),
        _ => { let mut k = ClassUnicode::new([range(mode)]); k.negate(); if k.iter().next().is_none() { assume(false); } Hir::class(Class::Unicode(k)) }
    }
}
/// An arbitrary expression with `n` leaves and up to `u` unary operators at each level.
pub fn expr(n: usize, u: usize, kinds: usize, mode: usize) -> Hir {
    let k = if u > 0 { pick(5) } else { 0 };
    match k {
        0 => {
            if n == 1 { return leaf(kinds, mode); }
            let left = 1 + pick(n - 1);
            let op = pick(2);
            let a = expr(left, u, kinds, mode);
            let b = expr(n - left, u, kinds, mode);
            if op == 0 { Hir::concat(vec![a, b]) } else { Hir::alternation(vec![a, b]) }
        }
        4 => Hir::group(Group { kind: if boolean() { GroupKind::NonCapturing } else { GroupKind::CaptureIndex(1) }, hir: Box::new(expr(n, u - 1, kinds, mode)) }),
        k => {
            let kind = match k { 1 => RepetitionKind::ZeroOrOne, 2 => RepetitionKind::ZeroOrMore, _ => RepetitionKind::OneOrMore };
            Hir::repetition(Repetition { kind, greedy: boolean(), hir: Box::new(expr(n, u - 1, kinds, mode)) })
        }
    }
}
static PATTERNS: &[&str] = &[
    "[1-9][0-9]*", "[_A-Za-z][_A-Za-z0-9]*", "\"[^\"]*\"", "(a|b)*abb", "a?b?c?", "(ab|a)(bc|c)?", "((a*b)+|c)*", "[^() ]*", "(a|ab)(c|bcd)(d*)",
    "(|a)+b", "(a?)*", "[a-c]x|[b-d]y|cz", "(?:a+b|[a-f]+)c", "x[^x]x|.y", "(?i)k", "[\\x00-\\x7f][\\x80-\\x{10FFFF}]", "\\\\.|[^\\\\]", "(a(b(c|d)*)?)+",
    "(?-u:[a-z])b", "[a-zA-Z]+(-[a-zA-Z]+)*",
];
/// one of the fixed patterns
pub fn pattern(i: usize) -> Hir { regex_syntax::Parser::new().parse(PATTERNS[i]).unwrap() }

fn any_expr() -> Hir {
    // params: leaves, unary operators, leaf kinds, character mode, string length; leaves 0: fixed patterns
    if param(0) == 0 { pattern(pick(PATTERNS.len())) } else { expr(param(0), param(1), param(2), param(3)) }
}

/// C01
#[no_mangle]
pub extern "C" fn h_nfa() {
    let h = any_expr();
    let nfa = match catch(|| NFA::from_regex(&h)) { Ok(n) => n, Err(()) => { fail("compiling a regular expression panicked"); return } };
    for e in &nfa.edges { check(e.from.0 < nfa.states.len() && e.to.0 < nfa.states.len(), "an edge leads outside the automaton"); }
    let len = pick(param(4) + 1);
    let (s, v) = sstring(len, param(3));
    let got = match catch(|| nfa.simulate(&s)) { Ok(n) => n, Err(()) => { fail("simulating the automaton panicked"); return } };
    let want = full(&h, &v);
    if want { check(got, "the automaton rejects a string the expression matches"); } else { check(!got, "the automaton accepts a string the expression does not match"); }
    out(got as u64);
    reach(want as u64);
}

/// C02
#[no_mangle]
pub extern "C" fn h_dfa() {
    let h = any_expr();
    let dfa = match catch(|| DFA::from_nfa(NFA::from_regex(&h))) { Ok(n) => n, Err(()) => { fail("building the automaton panicked"); return } };
    // at most one transition of each state applies to a character
    let x = u32();
    for i in 0..dfa.states.len() {
        let mut k = 0u32;
        if let Some(it) = dfa.edge_iter(StateIdx(i)) {
            for e in it {
                k += e.label.contains_u32(x) as u32;
                check(e.from.0 == i && e.to.0 < dfa.states.len(), "an edge is not attached to its state");
            }
        }
        check(k <= 1, "two transitions of a state apply to the same character");
    }
    let len = pick(param(4) + 1);
    let (s, v) = sstring(len, param(3));
    let m = ends(&h, &v, 1);
    let acc = dfa.accepting_states();
    let mut at = Some(DFA::START_IDX);
    for i in 0..=len {
        let want = m >> i & 1 == 1;
        let st = match at { Some(x) => x, None => { check(!want, "the automaton has no way to read a string that is matched"); continue } };
        let marked = acc.contains_key(&st);
        check(marked == dfa.dfa_state_is_accepting(st), "the two accepting marks of a state disagree");
        if want { check(marked, "a state reached by a matched string is not accepting"); } else { check(!marked, "a state reached by an unmatched string is accepting"); }
        if i < len { at = dfa.edge_iter(st).and_then(|mut it| it.find(|e| e.label.matches(v[i]))).map(|e| e.to); }
    }
    let want = m >> len & 1 == 1;
    match catch(|| dfa.test(&s)) {
        Ok(got) => if want { check(got, "the automaton rejects a matched string") } else { check(!got, "the automaton accepts an unmatched string") },
        Err(()) => fail("testing a string panicked"),
    }
    out(dfa.states.len() as u64);
    reach(want as u64);
}

// ------------------------------------------------------------------ lexer
pub static SETS: &[&[&str]] = &[
    &["if|else", "[a-z]+", "[0-9]+"],
    &["a", "abc", "b"],
    &["[a-z]+", "if", "=", "==", "=>"],
    &["\"[^\"]*\"", "[^\" ]", " x"],
    &["a*b", "a", "(ab)+c"],
    &["[^ab]", "é+", "a"],
    &["\\(", "\\)", "add", "[1-9]+[0-9]*"],
    &[".x", "a|aaa"],
    &["if", "i[a-f]", "[a-i]f", "[a-z]+", "[^ ]+"],
    &["ab", "[ab]", "[abc]", "[a-d]c?", "..?", "aa?a?", "a", "b"],
    &["[一-龥]+", "a|б", "[α-ω]"],
];
fn names(n: usize) -> Vec<String> { (0..n).map(|i| format!("t{}", i)).collect() }
/// The tokens a harness works with: a fixed set (params 0 = 0) or `params[0]` arbitrary expressions
/// params: definitions, leaves, unary operators, leaf kinds, character mode, input length, mode of values
fn defs() -> Vec<Hir> {
    if param(0) == 0 {
        SETS[pick(SETS.len())].iter().map(|p| regex_syntax::Parser::new().parse(p).unwrap()).collect()
    } else {
        (0..param(0)).map(|_| expr(param(1), param(2), param(3), param(4))).collect()
    }
}

fn build(hs: &[Hir], ns: &[String], vals: &[bool]) -> Option<Lex> {
    let t: Vec<(TokenDef, Hir)> = hs.iter().zip(ns).zip(vals).map(|((h, n), v)| (TokenDef { name: n.clone(), with_val: *v, token_idx: None }, h.clone())).collect();
    catch(|| Lex::from_tokens(t)).ok()
}
pub fn slice(v: &[char], a: usize, b: usize) -> String { v[a..b].iter().collect() }

/// C04: which tokens, and where
#[no_mangle]
pub extern "C" fn h_lex() {
    let hs = defs();
    let ns = names(hs.len());
    let lex = match build(&hs, &ns, &vec![false; hs.len()]) { Some(l) => l, None => { fail("building the lexer panicked"); return } };
    let len = pick(param(5) + 1);
    let (s, v) = sstring(len, param(4));
    let got = match catch(|| lex.lex(&s)) { Ok(t) => t, Err(()) => { fail("lexing panicked"); return } };
    let hr: Vec<&Hir> = hs.iter().collect();
    let (want, end) = munch(&hr, &v);
    let n = got.len().min(want.len());
    for i in 0..n {
        check(got[i] == Token::new(ns[want[i].0].clone()), "a token other than the first longest match is emitted");
        out(want[i].0 as u64);
    }
    check(got.len() >= want.len(), "a token is missing");
    check(got.len() <= want.len(), "a token is emitted where nothing matches");
    reach(want.len() as u64);
    if end < v.len() { reach(10); }
    if want.len() > 1 && want[0].2 < want[1].1 { reach(11); }
}

/// C05: the values of the tokens
#[no_mangle]
pub extern "C" fn h_lex_values() {
    let hs = defs();
    let ns = names(hs.len());
    let vals: Vec<bool> = hs.iter().map(|_| if param(6) == 0 { true } else { pick(2) == 1 }).collect();
    let lex = match build(&hs, &ns, &vals) { Some(l) => l, None => return };
    let len = pick(param(5) + 1);
    let (s, v) = sstring(len, param(4));
    let got = match catch(|| lex.lex(&s)) { Ok(t) => t, Err(()) => { fail("lexing crashed"); return } };
    let mk = |i: usize, a: usize, b: usize| if vals[i] { Token::new_with_val(ns[i].clone(), slice(&v, a, b)) } else { Token::new(ns[i].clone()) };
    let hr: Vec<&Hir> = hs.iter().collect();
    let (want, _) = munch(&hr, &v);
    reach(got.len() as u64);
    if got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| *g == mk(w.0, w.1, w.2)) { for w in &want { out((w.1 * 100 + w.2) as u64) } return; }
    // not the expected tokens: is there any way to cut the input into these tokens?
    let mut at = 1u32;
    for g in &got {
        let mut next = 0u32;
        for p in 0..v.len() {
            if at >> p & 1 == 0 { continue; }
            for q in p..v.len() {
                if q > p && !blank(v[q - 1]) { break; }
                for i in 0..hs.len() {
                    let m = ends(&hs[i], &v[q..], 1);
                    for n in 1..=v.len() - q { if m >> n & 1 == 1 && *g == mk(i, q, q + n) { next |= 1 << (q + n); } }
                }
            }
        }
        at = next;
    }
    check(at != 0, "the values of the tokens are not pieces of the input in order");
}

//! The generated TypeScript, read back.
use crate::grammar::Sy::*;
use crate::grammar::*;
use crate::lexer::{ends, expr, schar};
use crate::sym::*;
use crate::ts::{lex_lines, K, P, T, V};
use bumpalo::Bump;
use regex_syntax::hir::Hir;
use typelalr::codegen::{lex_gen, parse_gen};
use typelalr::lalr::table::{make_tables, Action};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::{Lex, TokenDef};
use typelalr::parser::ast::InputSymbol;
use typelalr::parser::{Grammar, Symbol};

/// the literal type declarations of a module
fn decls(p: &mut P) -> Option<Vec<(String, V)>> {
    let mut r: Vec<(String, V)> = vec![];
    while !p.end() {
        p.word("export");
        if !p.word("type") { return None; }
        let n = p.ident()?.to_string();
        if !p.punct("=") { return None; }
        if r.iter().any(|x| x.0 == n) { return None; }
        r.push((n, p.value()?));
        p.punct(";");
    }
    Some(r)
}
fn get<'a>(d: &'a [(String, V)], n: &str) -> Option<&'a V> { d.iter().find(|x| x.0 == n).map(|x| &x.1) }

struct Mod { labels: Vec<Vec<(u64, u64, u64)>>, accepting: Vec<bool>, token: Vec<Option<(String, bool)>> }

/// the generated lexer module as the interpreter in lex.ts reads it
fn lexer_module(s: &str) -> Result<Mod, &'static str> {
    let t = lex_lines(s);
    if t.0.contains(&T::Bad) { return Err("the lexer module is not TypeScript: bad token"); }
    let mut p = P::lines(&t);
    let d = decls(&mut p).ok_or("the lexer module is not a list of type declarations")?;
    let states = get(&d, "States").and_then(V::arr).ok_or("the states are missing")?;
    let tokens = get(&d, "Tokens").and_then(V::obj).ok_or("the tokens are missing")?;
    let sets = get(&d, "DFAtoNFA").and_then(V::obj).ok_or("the sets of states are missing")?;
    for (i, x) in tokens.iter().enumerate() { if tokens[..i].iter().any(|y| y.0 == x.0) { return Err("a token is listed twice"); } }
    for (i, x) in sets.iter().enumerate() { if sets[..i].iter().any(|y| y.0 == x.0) { return Err("a state set is listed twice"); } }
    let mut m = Mod { labels: vec![], accepting: vec![], token: vec![] };
    for (i, s) in states.iter().enumerate() {
        let s = s.name().and_then(|n| get(&d, n)).ok_or("a state is not declared")?;
        let to = s.get("to").and_then(V::arr).ok_or("a state has no targets")?;
        let ls = s.get("labels").and_then(V::arr).ok_or("a state has no labels")?;
        if to.len() != ls.len() { return Err("a state has not as many labels as targets"); }
        let mut v = vec![];
        for (t, l) in to.iter().zip(ls) {
            let (t, a, b) = (t.num().ok_or("a target is no number")?, l.get("from").and_then(V::num).ok_or("a label has no start")?, l.get("to").and_then(V::num).ok_or("a label has no end")?);
            if t as usize >= states.len() { return Err("a transition leads to no state"); }
            v.push((t, a, b));
        }
        m.labels.push(v);
        m.accepting.push(match s.get("accepting").and_then(V::name) { Some("true") => true, Some("false") => false, _ => return Err("a state has no accepting mark") });
        // the first member of the set that has a token
        let mut tok = None;
        if let Some((_, set)) = sets.iter().find(|x| x.0 == K::Num(i as u64)) {
            for n in set.arr().ok_or("a state set is no tuple")? {
                let n = n.num().ok_or("a state set has a member that is no number")?;
                if let Some((_, td)) = tokens.iter().find(|x| x.0 == K::Num(n)) {
                    let td = td.name().and_then(|n| get(&d, n)).ok_or("a token is not declared")?;
                    let kind = td.get("kind").and_then(V::str).ok_or("a token has no kind")?;
                    let hv = match td.get("hasValue").and_then(V::name) { Some("true") => true, Some("false") => false, _ => return Err("a token does not say whether it has a value") };
                    tok = Some((kind.to_string(), hv));
                    break;
                }
            }
        }
        m.token.push(tok);
    }
    Ok(m)
}

/// a name of up to n characters (mode: any, ASCII, or characters with a meaning in TypeScript)
fn name(n: usize, mode: usize) -> String {
    let mut s = String::with_capacity(4 * n + 4);
    let k = if n == 0 { 0 } else { 1 + pick(n) };
    for _ in 0..k { s.push(schar(mode)); unsafe { let l = each(s.len()); s.as_mut_vec().set_len(l); } }
    s
}
fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    a.len() == b.len() && (0..a.len()).fold(true, |r, i| r & (a[i] == b[i]))
}

pub static SETS: &[&[&str]] = &[&["a"], &["if|else", "[a-z]+", "[0-9]+"], &["[^ab]", "é+", "a"], &["a*b", "a", "(ab)+c"], &["x?", "."], &["\\(", "add", "[1-9]+[0-9]*"]];

/// C16. params: number of definitions (0: fixed sets), leaves, unary operators, leaf kinds, character mode, string length, characters per name
#[no_mangle]
pub extern "C" fn h_lexgen() {
    let (k, mode, len) = (param(0), param(4), param(5));
    let hs: Vec<Hir> = if k == 0 { SETS[pick(SETS.len())].iter().map(|p| regex_syntax::Parser::new().parse(p).unwrap()).collect() } else { (0..k).map(|_| expr(param(1), param(2), param(3), mode)).collect() };
    let ns: Vec<String> = (0..hs.len()).map(|i| if param(6) == 0 { format!("t{}", i) } else if i == 0 { name(param(6), mode) } else { format!("t{}", i) }).collect();
    let vals: Vec<bool> = hs.iter().map(|_| pick(2) == 1).collect();
    let defs: Vec<(TokenDef, Hir)> = hs.iter().zip(&ns).zip(&vals).map(|((h, n), v)| (TokenDef { name: n.clone(), with_val: *v, token_idx: None }, h.clone())).collect();
    let lex = match catch(|| Lex::from_tokens(defs)) { Ok(l) => l, Err(()) => return };
    let text = match catch(|| lex_gen::generate(&lex)) { Ok(t) => t, Err(()) => { fail("generating the lexer module panicked"); return } };
    let m = match lexer_module(&text) { Ok(m) => m, Err(e) => { fail(e); return } };
    // the labels of a state do not overlap (the interpreter takes the first that contains the character)
    let x = u32() as u64;
    for l in &m.labels { check(l.iter().fold(0u32, |a, r| a + ((r.1 <= x) & (x < r.2)) as u32) <= 1, "two labels of a state contain the same character"); }
    let n = pick(len + 1);
    let v: Vec<char> = (0..n).map(|_| schar(if mode > 2 { 0 } else { mode })).collect();
    let mut at = Some(0usize);
    let mut hit = 0;
    let ms: Vec<u32> = hs.iter().map(|h| ends(h, &v, 1)).collect();
    for i in 0..=n {
        let want = if i == 0 { None } else { (0..hs.len()).find(|&d| ms[d] >> i & 1 == 1) };
        let st = match at { Some(s) if s < m.accepting.len() => s, _ => { check(want.is_none(), "a text some token matches cannot be read"); break } };
        if i > 0 {
            match want {
                Some(d) => {
                    check(m.accepting[st], "a state reached by a token's text is not accepting");
                    match &m.token[st] {
                        Some((n, hv)) => { check(same(n, &ns[d]), "an accepting state has the name of another token"); check(*hv == vals[d], "a token is wrongly marked as carrying a value or not"); }
                        None => fail("an accepting state has no token"),
                    }
                    hit += 1;
                }
                None => check(!m.accepting[st], "a state reached by no token's text is accepting"),
            }
        }
        if i < n { let c = v[i] as u64; at = m.labels[st].iter().find(|r| (r.1 <= c) & (c < r.2)).map(|r| r.0 as usize); }
    }
    out(m.labels.len() as u64);
    reach((hit > 0) as u64);
}

// ------------------------------------------------------------------ the parser module
pub struct Gen { pub g: G, pub gr: &'static Grammar<'static>, pub text: String }

/// params 0..: skeleton, how many, mode, characters per terminal text, character mode of the texts (0, 1: of the first, the others in mode 5)
pub fn generated() -> Option<Gen> {
    let i = param(0) + pick(param(1));
    let mut mode = param(4);
    let g = grammar(SKEL[i], param(2), |c| {
        let s = if c.is_ascii_lowercase() { one(c as u8) } else if param(3) == 0 { keep(format!("[{}-z]'+\"", if c == '%' { "a" } else { "b" })) } else { let m = mode; if mode < 2 { mode = 5; } keep(name(param(3), m)) };
        (c == '%', s)
    });
    if g.ast.is_empty() { return None; }
    let gr = lower(&g);
    let bump: &'static Bump = Box::leak(Box::new(Bump::new()));
    let lalr = match catch(|| Lalr::new(Grammar::grammar_from_ast_productions(bump, g.ast))) { Ok(l) => Box::leak(Box::new(l)), Err(()) => { reach(9); return None } };
    match catch(|| parse_gen::generate(bump, g.ast, lalr)) { Ok(Ok(t)) => Some(Gen { g, gr, text: t.1 }), _ => { fail("generating the parser module failed"); None } }
}
/// `declare module <name> {` declarations `}`: the range of its tokens
fn module<'a>(p: &P<'a>, name: &str) -> Option<(usize, usize)> {
    let mut i = 0;
    while i + 3 < p.t.len() {
        if p.t[i] == T::Id("module".into()) && p.t[i + 1] == T::Id(name.into()) && p.t[i + 2] == T::P("{") {
            let mut d = 1;
            let mut j = i + 3;
            while j < p.t.len() { match p.t[j] { T::P("{") => d += 1, T::P("}") => { d -= 1; if d == 0 { return Some((i + 3, j)); } } _ => {} } j += 1; }
            return None;
        }
        i += 1;
    }
    None
}

/// C17
#[no_mangle]
pub extern "C" fn h_parsegen() {
    let x = match generated() { Some(x) => x, None => return };
    let t = lex_lines(&x.text);
    if t.0.contains(&T::Bad) { fail("the parser module is not TypeScript: bad token"); return; }
    let mut p = P::lines(&t);
    let (a, b) = match module(&p, "type_defs") { Some(r) => r, None => { fail("the tables are missing"); return } };
    p.i = a;
    let mut d: Vec<(String, V)> = vec![];
    while p.i < b {
        p.word("export");
        if !p.word("type") { fail("the tables are not type declarations"); return; }
        let n = match p.ident() { Some(n) => n, None => { fail("a declaration has no name"); return } };
        if !p.punct("=") { fail("a declaration has no type"); return; }
        match n {
            "Tokens" | "Productions" | "Action" | "Goto" | "TokenKindToIdx" => match p.value() { Some(v) => { check(!d.iter().any(|x| x.0 == n), "a table is declared twice"); d.push((n.to_string(), v)); p.punct(";"); } None => { fail("a table is malformed"); return } },
            _ => p.skip(),
        }
    }
    let (gr, g) = (x.gr, &x.g);
    let (action, goto, _) = match catch(|| make_tables(gr)) { Ok(t) => t, Err(()) => return };
    // symbols
    let v = match get(&d, "Tokens") { Some(v) => v, None => { fail("the symbols are missing"); return } };
    check(v.obj().map(|o| o.len()) == Some(gr.tokens().count()), "the module lists more or fewer symbols than there are");
    for (i, s) in gr.tokens().enumerate() {
        let (kind, val) = match s { Symbol::StrLit(t) => ("strlit", Some(*t)), Symbol::Regex(t) => ("regex", Some(*t)), Symbol::NonTerminal(n) => ("nonterminal", Some(n.0)), _ => ("eof", None) };
        let e = match v.at(i as u64) { Some(e) => e, None => { fail("a symbol is missing or listed twice"); continue } };
        check(e.get("kind").and_then(V::str) == Some(kind), "a symbol is of another kind");
        match val { Some(t) => check(e.get("value").and_then(V::str).map_or(false, |u| same(u, t)), "a symbol has another text"), None => check(e.get("value").is_none(), "the end marker has a text") }
    }
    // rules
    let v = match get(&d, "Productions") { Some(v) => v, None => { fail("the rules are missing"); return } };
    let rules: Vec<_> = gr.iter_productions().collect();
    check(v.obj().map(|o| o.len()) == Some(rules.len()), "the module lists more or fewer rules than there are");
    for (i, r) in rules.iter().enumerate() {
        let e = match v.at(i as u64) { Some(e) => e, None => { fail("a rule is missing or listed twice"); continue } };
        check(e.get("name").and_then(V::str) == Some(r.name.0), "a rule has another left side");
        let want: Vec<V> = r.input_tokens.iter().map(|s| V::Num(gr.get_token_idx(s).unwrap().0 as u64)).collect();
        check(e.get("tokens").and_then(V::arr) == Some(&want[..]), "a rule has another right side");
    }
    // actions
    let v = match get(&d, "Action") { Some(v) => v, None => { fail("the action table is missing"); return } };
    let mut cells = 0;
    for (q, row) in action.iter() {
        for (t, act) in row {
            let e = match v.at(*q as u64).and_then(|r| r.at(t.0 as u64)) { Some(e) => e, None => { fail("an action is missing or listed twice"); continue } };
            let (k, w) = match act { Action::Shift(j) => ("shift", V::Num(*j as u64)), Action::Reduce(r) => ("reduce", V::Num(r.0 as u64)), Action::Accept => ("accept", V::Name("true".into())) };
            check(e.obj() == Some(&[(K::Str(k.into()), w)][..]), "an action is another than in the table");
            cells += 1;
        }
    }
    check(v.obj().map(|o| o.iter().map(|x| x.1.obj().map_or(0, |r| r.len())).sum()) == Some(cells), "the module lists actions the table does not have");
    let v = match get(&d, "Goto") { Some(v) => v, None => { fail("the goto table is missing"); return } };
    let mut cells = 0;
    for (q, row) in goto.iter() {
        for (n, to) in row {
            check(v.at(*q as u64).and_then(|r| r.get(n.0)).and_then(V::num) == Some(*to as u64), "a goto entry is missing or another than in the table");
            cells += 1;
        }
    }
    check(v.obj().map(|o| o.iter().map(|x| x.1.obj().map_or(0, |r| r.len())).sum()) == Some(cells), "the module lists goto entries the table does not have");
    // names
    let v = match get(&d, "TokenKindToIdx").and_then(V::obj) { Some(v) => v, None => { fail("the names of the tokens are missing"); return } };
    let terms: Vec<(usize, &str)> = gr.tokens().enumerate().filter_map(|(i, s)| match s { Symbol::StrLit(t) | Symbol::Regex(t) => Some((i, *t)), Symbol::Eof => Some((0, "EOF")), _ => None }).collect();
    let key = |k: &K| match k { K::Str(s) => s.clone(), K::Num(n) => n.to_string() };
    check(v.len() == terms.len(), "the module names more or fewer tokens than there are");
    for (j, (i, t)) in terms.iter().enumerate() {
        let twin = terms.iter().enumerate().any(|(k, o)| k != j && same_text(o.1, t));
        let mine: Vec<_> = v.iter().filter(|e| same_text(&key(&e.0), t)).collect();
        if twin { check(mine.len() == 1, "two tokens with the same name cannot be told apart"); reach(8); continue; }
        check(mine.len() == 1 && mine[0].1 == V::Num(*i as u64), "a token's name is not mapped to its number");
    }
    let _ = g;
    out(cells as u64);
    reach((g.rules.len() > 3) as u64);
}

//! The type-level programs in ts/ and in the generated modules, run by the evaluator in tseval.rs.
use crate::codegen::{generated, Gen};
use crate::grammar::Sy::*;
use crate::grammar::*;
use crate::lexer::{munch, schar, slice};
use regex_syntax::hir::Hir;
use crate::sym::*;
use crate::tseval::*;
use typelalr::codegen::lex_gen;
use typelalr::lex::lex::{Lex, Token, TokenDef};

static UTIL: &str = include_str!("/repo/ts/util.ts");
static LEX: &str = include_str!("/repo/ts/lex.ts");
static PARSE: &str = include_str!("/repo/ts/parse.ts");
static CHARS: &str = include_str!("/repo/ts/chars.ts");

fn add(p: &mut Prog, name: &str, src: &str) -> bool {
    match catch(|| p.add(name, src)) {
        Ok(Ok(())) => true,
        // what the evaluator cannot read is not judged
        Ok(Err(e)) => { if e.starts_with("unsupported") { reach(50) } else { fail(e) } false }
        Err(()) => { if msg().contains("unsupported") { reach(50) } else { fail("a module cannot be read") } false }
    }
}
/// the helpers over tables of the given size
fn base(n: u32) -> Option<Prog> {
    let mut p = Prog::new();
    let mut t = String::new();
    if catch(|| lex_gen::gen_arithmetic(&mut t, n)).is_err() { fail("generating the tables panicked"); return None; }
    if add(&mut p, "./arith_table.gen", &t) && add(&mut p, "./util", UTIL) { Some(p) } else { None }
}
/// evaluates; an evaluation that fails is a violation
fn run(p: &Prog, a: usize, args: Vec<Ty>) -> Option<Ty> {
    match catch(|| p.call(a, args)) { Ok(t) => Some(t), Err(()) => { if msg().contains("unsupported") { reach(50) } else { fail("a type cannot be evaluated") } None } }
}
fn s(x: &str) -> Ty { str_ty(x) }
fn n(x: usize) -> Ty { Ty::Num(x as u64) }

/// C18. params as for the parser module
#[no_mangle]
pub extern "C" fn h_actions() {
    let mut p = match base(16) { Some(p) => p, None => return };
    if !add(&mut p, "./lex", LEX) { return; }
    let x = match generated() { Some(x) => x, None => return };
    if !add(&mut p, "./gen", &x.text) { return; }
    p.link();
    let Gen { g, .. } = &x;
    let emit = match p.find(&["./gen", "actions", "EmitProduction"]) { Some(e) => e, None => { fail("the dispatcher is missing"); return } };
    for i in 1..g.nts.len() { if p.find(&["./gen", "actions", g.nts[i]]).is_none() { fail("the type of a nonterminal is not declared"); } }
    let rest = vec![obj(&[("kind", s(g.nts[1])), ("value", obj(&[("is", s(g.nts[1])), ("at", n(90))]))]), obj(&[("kind", s("token")), ("token", obj(&[("kind", s("z")), ("value", s("z"))]))])];
    let r = g.target;
    if boolean() {
        let k = [0, g.rules.len(), 1000][pick(3)];
        match run(&p, emit, vec![n(k), tup(rest)]) { Some(Ty::Str(_)) | Some(Ty::Tpl(..)) | None => {} _ => fail("a number that is no rule's has an action") }
        return;
    }
    let (lhs, rhs) = &g.rules[r];
    // one symbol may be of a wrong kind or have a value that is not of its type
    let bound: Vec<usize> = (0..rhs.len()).filter(|&i| g.binds[r][i].is_some()).collect();
    let bad = if bound.is_empty() { None } else { let k = pick(2 * bound.len() + 1); if k == 0 { None } else { Some((bound[(k - 1) / 2], (k - 1) % 2)) } };
    let same = param(2) & 16 == 16;
    let mut vals = vec![];
    let mut stack = rest.clone();
    for (j, y) in rhs.iter().enumerate() {
        let b = match bad { Some((i, k)) if i == j => k as i32, _ => -1 };
        let (e, v) = match y {
            N(m) => {
                let t = g.nts[*m as usize];
                let v = obj(&[("is", s(if b == 1 { "no" } else { t })), ("at", n(j))]);
                (obj(&[("kind", s(if b == 0 { "none" } else { t })), ("value", v.clone())]), v)
            }
            T(m) => {
                let (pat, t) = g.terms[*m as usize];
                // the text of a pattern's token is any string
                let v = if pat { let mut w = String::from("w"); w.push(schar(5)); s(&w) } else { s(t) };
                let w = if b == 1 { if pat { Ty::Num(1) } else { let mut w = t.to_string(); w.push('x'); s(&w) } } else { v.clone() };
                (obj(&[("kind", s(if b == 0 { "none" } else { "token" })), ("token", obj(&[("kind", s(t)), ("value", w)]))]), v)
            }
        };
        stack.insert(0, e);
        if let Some(b) = g.binds[r][j] { vals.push((b, v)); }
    }
    let got = match run(&p, emit, vec![n(r), tup(stack)]) { Some(t) => t, None => return };
    if let Some((j, _)) = bad {
        let at = format!("(pos `{}`, Action{})", j + 1, r);
        match &got { Ty::Str(t) => { let t = String::from_utf16_lossy(t); check(t.starts_with("error: "), "a symbol that does not fit is not reported"); check(t.ends_with(&at), "the report of a symbol that does not fit names another symbol") } _ => fail("a symbol that does not fit is accepted") }
        reach(2);
        return;
    }
    if same { vals.sort_by(|a, b| a.0.cmp(b.0)); }
    let mut list = vec![if same { s("m") } else { s(&format!("m{}", r)) }];
    list.extend(vals.into_iter().map(|v| v.1));
    let mut want = vec![obj(&[("kind", s(g.nts[*lhs as usize])), ("value", tup(list))])];
    want.extend(rest);
    match &got {
        Ty::Tup(v) if v.len() == want.len() => {
            check(v[1..].iter().zip(&want[1..]).all(|(a, b)| p.same(a, b, 0)), "an action changes the rest of the stack");
            check(p.same(&v[0], &want[0], 0), "an action builds another node than written");
        }
        Ty::Tup(_) => fail("an action removes more or fewer symbols than the rule has"),
        _ => fail("an action yields no stack"),
    }
    out(r as u64);
    reach((bound.len() > 1) as u64);
}

/// C21. params: first grammar, how many, mode, characters, their mode, tokens, tokens before them (all terminals in turn)
#[no_mangle]
pub extern "C" fn h_tparse() {
    let mut p = match base(64) { Some(p) => p, None => return };
    if !add(&mut p, "./lex", LEX) { return; }
    let x = match generated() { Some(x) => x, None => return };
    if !add(&mut p, "./parse_state2.gen", &x.text) || !add(&mut p, "./parse", PARSE) { return; }
    p.link();
    let g = &x.g;
    if !g.all_productive() { return; }
    let entry = match p.find(&["./parse", "Parse"]) { Some(e) => e, None => { fail("the parser's entry is missing"); return } };
    let r = R::new(g);
    let t = r.tables(&R::merge(&r.collection()));
    if t.conflict { return; }
    let first = pick(param(6) + 1);
    let len = first + pick(param(5) + 1);
    let (mut toks, mut list) = (vec![], vec![]);
    for j in 0..len {
        if g.terms.len() < 2 { return; }
        let n = g.terms.len() - 1;
        let k = if j < first { n - j % n } else { 1 + pick(n) };
        let (pat, name) = g.terms[k];
        let v = if pat { s(&format!("w{}", j)) } else { s(name) };
        toks.push(k as u8);
        list.push(obj(&[("kind", s(name)), ("value", v)]));
    }
    let vals: Vec<Ty> = list.iter().map(|t| match t { Ty::Obj(p) => p[1].ty.clone(), _ => Ty::Never }).collect();
    toks.push(0);
    list.push(obj(&[("kind", s("EOF"))]));
    // the reference run
    let mut stack = vec![0usize];
    let mut nodes: Vec<Ty> = vec![];
    let (mut i, mut steps) = (0, 0);
    let ok = loop {
        steps += 1;
        let q = *stack.last().unwrap();
        match t.action[q].iter().find(|e| e.0 == toks[i]).map(|e| e.1) {
            None => break false,
            Some(Act::Accept) => break true,
            Some(Act::Shift(x)) => { stack.push(x); nodes.push(vals[i].clone()); i += 1; }
            Some(Act::Reduce(p)) => {
                let k = g.rules[p].1.len();
                let mut v = vec![s(&format!("m{}", p))];
                v.extend(nodes.split_off(nodes.len() - k));
                for _ in 0..k { stack.pop(); }
                let x = t.goto[*stack.last().unwrap()].iter().find(|e| e.0 == g.rules[p].0).unwrap().1;
                stack.push(x);
                nodes.push(tup(v));
            }
        }
    };
    let got = match run(&p, entry, vec![tup(list)]) { Some(t) => t, None => return };
    if steps > 50 { check(matches!(&got, Ty::Str(_)), "a parse of more steps than the limit yields a result"); reach(3); return; }
    if ok {
        let start = match g.rules[0].1[0] { N(k) => g.nts[k as usize], _ => return };
        let want = tup(vec![obj(&[("kind", s(start)), ("value", nodes[0].clone())])]);
        check(p.same(&got, &want, 0), "a sentence does not yield the tree of its actions");
        reach(1);
    } else {
        let num = g.terms.len();
        let _ = num;
        let idx = x.gr.tokens().position(|y| number(g, y) == Some(T(toks[i])) && true);
        let want = idx.map(|k| format!("error: invalid token {}", k));
        let is = |t: &Ty| match (t, &want) { (Ty::Str(t), Some(w)) => String::from_utf16_lossy(t) == *w, _ => false };
        match &got { Ty::Tup(v) => check(v.len() > 0 && is(&p.force(&v[0])), "a text that is no sentence is not reported with its first invalid token"), t => check(is(t), "a text that is no sentence is not reported with its first invalid token") }
        reach(0);
    }
    out(steps as u64);
}

/// C20. params: first token set, how many, characters, mode (0: the table's characters, 1: ASCII), size of the tables
#[no_mangle]
pub extern "C" fn h_tlex() {
    let mut p = match base(param(4) as u32) { Some(p) => p, None => return };
    if !add(&mut p, "./chars", CHARS) || !add(&mut p, "./lex", LEX) { return; }
    let set = crate::lexer::SETS[param(0) + pick(param(1))];
    let vals: Vec<bool> = (0..set.len()).map(|i| i != 1).collect();
    let hs: Vec<Hir> = set.iter().map(|t| regex_syntax::Parser::new().parse(t).unwrap()).collect();
    let defs: Vec<_> = hs.iter().enumerate().map(|(i, h)| (TokenDef { name: format!("t{}", i), with_val: vals[i], token_idx: None }, h.clone())).collect();
    let lex = match catch(|| Lex::from_tokens(defs)) { Ok(l) => l, Err(()) => return };
    let text = match catch(|| lex_gen::generate(&lex)) { Ok(t) => t, Err(()) => { fail("generating the lexer module panicked"); return } };
    if !add(&mut p, "./lex_state.gen", &text) { return; }
    p.link();
    p.summaries("./util", param(4) as u64);
    let entry = match p.find(&["./lex", "Lex"]) { Some(e) => e, None => { fail("the lexer's entry is missing"); return } };
    let len = pick(param(2) + 1);
    let (mut st, mut units) = (String::with_capacity(4 * len + 4), vec![]);
    for _ in 0..len {
        let c = u16();
        assume(c < 256 && (param(3) == 0 || c < 128));
        let c = char::from_u32(c as u32).unwrap();
        st.push(c);
        unsafe { let l = each(st.len()); st.as_mut_vec().set_len(l); }
        units.push(c as u16);
    }
    let known = p.find(&["./chars", "Characters"]).map(|a| p.call(a, vec![])).unwrap_or(Ty::Never);
    let got = match run(&p, entry, vec![Ty::Str(units.clone().into())]) { Some(t) => t, None => return };
    // a character outside the table
    for &u in &units {
        if !p.has_value(&known, &[u]) {
            match &got { Ty::Str(t) => check(t.iter().fold(false, |r, x| r | (*x == u)), "a character that is not supported is not reported"), _ => fail("a character that is not supported is not reported") }
            reach(3);
            return;
        }
    }
    let v: Vec<char> = st.chars().collect();
    let hr: Vec<&Hir> = hs.iter().collect();
    let (want, end) = munch(&hr, &v);
    let mk = |w: &(usize, usize, usize)| if vals[w.0] { Token::new_with_val(format!("t{}", w.0), slice(&v, w.1, w.2)) } else { Token::new(format!("t{}", w.0)) };
    match catch(|| lex.lex(&st)) { Ok(t) if t.len() == want.len() && t.iter().zip(&want).all(|(t, w)| *t == mk(w)) => {} _ => { reach(9); return } }
    if end < v.len() {
        match &got {
            Ty::Str(t) => {
                // (the first character of the rest, or a later one where the match breaks)
                let ok = (end..v.len()).fold(false, |r, i| r | eq16(t, &u16s(&format!("invalid symbol: `{}` at index {}", v[i], i))));
                check(ok, "a text that cannot be read is reported in another way");
            }
            _ => fail("a text that cannot be read is accepted"),
        }
        reach(2);
    } else {
        let mut t: Vec<Ty> = want.iter().map(|w| { let k = ("kind", s(&format!("t{}", w.0))); if vals[w.0] { obj(&[k, ("value", Ty::Str(units[w.1..w.2].into()))]) } else { obj(&[k]) } }).collect();
        t.push(obj(&[("kind", s("EOF"))]));
        check(p.same(&got, &tup(t), 0), "the tokens differ from the built-in lexer's");
        reach((want.len() > 1) as u64);
    }
}

/// C22: numbers. params: first number below, second below (which may be 0 .. that), size of the tables
#[no_mangle]
pub extern "C" fn h_tnum() {
    let mut p = match base(param(2) as u32) { Some(p) => p, None => return };
    p.link();
    let names = ["Gte", "Gt", "Lte", "Lt", "Eq", "Add", "Sub", "Succ", "Pred"];
    let k = pick(names.len());
    let f = match p.find(&["./util", names[k]]) { Some(f) => f, None => { reach(50); return } };
    let b = pick(param(1));
    let a = u64();
    assume(a < param(0) as u64);
    let (x, y) = (Ty::Num(a), Ty::Num(b as u64));
    let b = b as u64;
    if k == 6 && a < b { reach(0); return; }
    let want = match k { 0 => Ty::Bool(a >= b), 1 => Ty::Bool(a > b), 2 => Ty::Bool(a <= b), 3 => Ty::Bool(a < b), 4 => Ty::Bool(a == b), 5 => Ty::Num(a + b), 6 => Ty::Num(a - b), 7 => Ty::Num(a + 1), _ => Ty::Num(a.saturating_sub(1)) };
    let args = if k < 7 { vec![x, y] } else { vec![x] };
    let got = match run(&p, f, args) { Some(t) => t, None => return };
    check(p.same(&got, &want, 0), ["Gte differs from >=", "Gt differs from >", "Lte differs from <=", "Lt differs from <", "Eq differs from equality", "Add differs from addition", "Sub differs from subtraction", "Succ is not the successor", "Pred is not the predecessor"][k]);
    reach(1 + k as u64);
}

/// C22: lists and strings. params: elements or characters
#[no_mangle]
pub extern "C" fn h_tlist() {
    let mut p = match base(24) { Some(p) => p, None => return };
    p.link();
    let names = ["Reverse", "PopNStack", "PopNStackWithValue", "Substring", "IsWhitespace", "Negate"];
    let k = pick(names.len());
    let f = match p.find(&["./util", names[k]]) { Some(f) => f, None => { reach(50); return } };
    let len = pick(param(0) + 1);
    if k < 3 {
        let v: Vec<Ty> = (0..len).map(|_| Ty::Num(u64() & 0xffff)).collect();
        let m = if k == 0 { 0 } else { pick(len + 1) };
        let args = if k == 0 { vec![tup(v.clone())] } else { vec![tup(v.clone()), n(m)] };
        let rev = |v: &[Ty]| tup(v.iter().rev().cloned().collect());
        let want = match k { 0 => rev(&v), 1 => tup(v[m..].to_vec()), _ => tup(vec![tup(v[m..].to_vec()), rev(&v[..m])]) };
        let got = match run(&p, f, args) { Some(t) => t, None => return };
        check(p.same(&got, &want, 0), ["Reverse differs from reversal", "PopNStack differs from dropping the first elements", "PopNStackWithValue differs from taking the first elements in reverse"][k]);
    } else if k == 3 {
        let v: Vec<u16> = (0..len).map(|_| u16()).collect();
        let a = pick(len + 1);
        let b = a + pick(len - a + 1);
        let got = match run(&p, f, vec![Ty::Str(v[..].into()), n(a), n(b)]) { Some(t) => t, None => return };
        check(p.same(&got, &Ty::Str(v[a..b].into()), 0), "Substring differs from the part of the string");
    } else if k == 4 {
        let u = u16();
        let got = match run(&p, f, vec![Ty::Str([u][..].into())]) { Some(t) => t, None => return };
        check(p.same(&got, &Ty::Bool(u == 32 || u == 10), 0), "IsWhitespace is not true of exactly the space and the newline");
    } else {
        let b = boolean();
        let got = match run(&p, f, vec![Ty::Bool(b)]) { Some(t) => t, None => return };
        check(p.same(&got, &Ty::Bool(!b), 0), "Negate is not negation");
    }
    reach(1 + k as u64);
}

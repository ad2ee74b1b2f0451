use crate::sym::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use typelalr::codegen::lex_gen::gen_arithmetic;
use typelalr::lalr::item::TokenIdx;
use typelalr::lalr::table::Table;
use typelalr::lex::nfa::StateIdx;
use typelalr::option_usize::OptionUsize;
use typelalr::parser::ast::{Ident, InputSymbol, NamedSymbol};
use typelalr::parser::Symbol;

/// C24: an optional index behaves like an option.
#[no_mangle]
pub extern "C" fn h_option() {
    let (v, d) = (usize(), usize());
    if v != usize::MAX {
        let o = OptionUsize::<usize>::some(v);
        check(o.is_some() && !o.is_none(), "a stored index is reported absent");
        check(o.unwrap() == v, "unwrap does not return the stored index");
        check(o.unwrap_or(d) == v, "unwrap_or does not return the stored index");
        check(o.map(|x| if x == v { Some(x ^ 5) } else { None }) == Some(v ^ 5), "map does not see the stored index");
        check(o.map(|_| None::<u8>).is_none(), "map does not return what the function returns");
        let f: OptionUsize = v.into();
        check(f.is_some() && f.unwrap() == v, "an index converted into an option is lost");
        let c = o;
        check(c.unwrap_or(d) == o.unwrap_or(d) && c.is_some(), "a copy differs");
        let s = OptionUsize::<StateIdx>::some(StateIdx(v));
        check(s.is_some() && !s.is_none() && s.unwrap() == StateIdx(v) && s.unwrap_or(StateIdx(d)).0 == v, "a stored state index is lost");
        out(o.unwrap() as u64);
        reach(1);
    } else {
        let o = OptionUsize::<usize>::none();
        check(o.is_none() && !o.is_some(), "an empty index is reported present");
        check(o.unwrap_or(d) == d, "an empty index does not fall back to the default");
        check(o.map(|x| Some(x)).is_none(), "an empty index maps to something");
        let s = OptionUsize::<StateIdx>::none();
        check(s.is_none() && !s.is_some() && s.unwrap_or(StateIdx(d)).0 == d, "an empty state index is not empty");
        check(catch(|| o.unwrap()).is_err(), "unwrapping an empty index returns something");
        reach(2);
    }
}

/// C24: a table after param(0) arbitrary stores.
#[no_mangle]
pub extern "C" fn h_table() {
    let n = param(0);
    let mut t: Table<TokenIdx, u64> = Table::empty();
    let mut log: Vec<(u32, u32, u64)> = vec![];
    for i in 0..n {
        let (r, c, v) = (u32(), u32(), u64());
        let before = log.iter().rev().find(|e| e.0 == r && e.1 == c).map(|e| e.2);
        if param(1) == 1 && i + 1 == n {
            use std::collections::btree_map::Entry;
            match t.entry((r, TokenIdx(c))) {
                Entry::Vacant(e) => { check(before.is_none(), "a stored cell is reported vacant"); e.insert(v); }
                Entry::Occupied(mut e) => { check(before == Some(*e.get()), "an occupied cell does not hold the last stored value"); e.insert(v); }
            }
        } else {
            check(t.insert((r, TokenIdx(c)), v) == before, "storing does not report the previous value");
        }
        log.push((r, c, v));
    }
    let (r, c) = (u32(), u32());
    let want = log.iter().rev().find(|e| e.0 == r && e.1 == c).map(|e| e.2);
    let got = t.try_index((r, TokenIdx(c))).copied();
    check(got == want, "a cell does not return the value last stored there");
    out(got.unwrap_or(7));
    reach(got.is_some() as u64);
    // the columns of row r are exactly those stored in it
    let stored = log.iter().any(|e| e.0 == r && e.1 == c);
    match t.valid(r) {
        Some(keys) => {
            let mut k = 0;
            let mut prev: Option<u32> = None;
            for x in keys {
                check(log.iter().any(|e| e.0 == r && e.1 == x.0), "a column is listed that was never stored in the row");
                check(prev.map_or(true, |p| p < x.0), "a column is listed twice");
                prev = Some(x.0);
                k += (x.0 == c) as u32;
            }
            check((k == 1) == stored, "the listed columns are not those stored");
        }
        None => check(!log.iter().any(|e| e.0 == r), "a row with cells lists no columns"),
    }
    let mut cells = 0;
    for (row, cols) in t.iter() {
        for (col, v) in cols.iter() {
            cells += 1;
            check(log.iter().rev().find(|e| e.0 as usize == *row && e.1 == col.0).map(|e| e.2) == Some(*v), "iteration yields a cell that was not stored");
        }
    }
    check(t.len() == t.iter().count(), "row count");
    let mut distinct = 0;
    for i in 0..log.len() { if !log[..i].iter().any(|e| e.0 == log[i].0 && e.1 == log[i].1) { distinct += 1; } }
    check(cells == distinct, "iteration misses a stored cell");
}

/// a text of up to n characters (ASCII unless wide), as an exact length per path
pub fn text(n: usize, wide: bool) -> String {
    let k = pick(n + 1);
    let mut s = String::new();
    for _ in 0..k { s.push(if wide { ch() } else { ascii() }); }
    s
}
pub fn ascii() -> char { let b = u8(); assume(b < 0x80); b as char }

fn symbol<'a>(t: &'a str, k: usize) -> Symbol<'a> {
    match k { 0 => Symbol::StrLit(t), 1 => Symbol::NonTerminal(Ident(t)), 2 => Symbol::Regex(t), 3 => Symbol::Epsilon, _ => Symbol::Eof }
}
fn rank(s: &Symbol) -> usize { match s { Symbol::StrLit(_) => 0, Symbol::NonTerminal(_) => 1, Symbol::Regex(_) => 2, _ => 3 } }
fn stext<'a>(s: &Symbol<'a>) -> &'a str { match s { Symbol::StrLit(t) | Symbol::Regex(t) => t, Symbol::NonTerminal(i) => i.0, _ => "" } }
fn bytes_cmp(a: &str, b: &str) -> Ordering {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    for i in 0..a.len().min(b.len()) { if a[i] != b[i] { return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater }; } }
    if a.len() == b.len() { Ordering::Equal } else if a.len() < b.len() { Ordering::Less } else { Ordering::Greater }
}
fn order<T: Ord + Clone>(a: &T, b: &T, c: &T, same: bool) {
    let ab = a.cmp(b);
    check(a.cmp(a) == Ordering::Equal, "a symbol does not equal itself");
    check(b.cmp(a) == ab.reverse(), "the order is not antisymmetric");
    check(a.partial_cmp(b) == Some(ab), "the partial order differs from the total one");
    check((a == b) == same, "equality is not equality of kind and text");
    check((ab == Ordering::Equal) == same, "the order disagrees with equality");
    if ab != Ordering::Greater && b.cmp(c) != Ordering::Greater { check(a.cmp(c) != Ordering::Greater, "the order is not transitive"); }
    out(ab as i8 as u64);
}

/// C23: order of grammar symbols with texts of up to param(0) characters.
#[no_mangle]
pub extern "C" fn h_symbol_order() {
    let n = param(0);
    let t: Vec<String> = (0..3).map(|_| text(n, false)).collect();
    let k: Vec<usize> = (0..3).map(|_| pick(5)).collect();
    let (a, b, c) = (symbol(&t[0], k[0]), symbol(&t[1], k[1]), symbol(&t[2], k[2]));
    let same = k[0] == k[1] && (k[0] > 2 || bytes_cmp(&t[0], &t[1]) == Ordering::Equal);
    order(&a, &b, &c, same);
    if k[0] < 3 && k[1] < 3 {
        let want = rank(&a).cmp(&rank(&b)).then(bytes_cmp(stext(&a), stext(&b)));
        check(a.cmp(&b) == want, "kinds or texts are ordered differently");
        reach(1);
    }
    if k[0] == 0 && k[1] == 0 && k[2] == 0 { reach(2); }
}

/// C23: an ordered collection of grammar symbols keeps each distinct one once and finds it again.
#[no_mangle]
pub extern "C" fn h_symbol_set() {
    let n = param(0);
    let t: Vec<String> = (0..n).map(|_| text(1, false)).collect();
    let v: Vec<Symbol> = (0..n).map(|i| symbol(&t[i], pick(3))).collect();
    let mut set = BTreeSet::new();
    let mut map = BTreeMap::new();
    for (i, s) in v.iter().enumerate() { set.insert(*s); map.insert(*s, i); }
    let mut distinct = 0;
    for i in 0..n {
        check(set.contains(&v[i]), "a symbol put into a set is not found");
        let last = (0..n).rev().find(|&j| rank(&v[i]) == rank(&v[j]) && bytes_cmp(stext(&v[i]), stext(&v[j])) == Ordering::Equal);
        check(map.get(&v[i]).copied() == last, "a symbol is looked up wrongly");
        if !(0..i).any(|j| rank(&v[i]) == rank(&v[j]) && bytes_cmp(stext(&v[i]), stext(&v[j])) == Ordering::Equal) { distinct += 1; }
    }
    check(set.len() == distinct, "a set holds a symbol twice or lost one");
    out(distinct as u64);
    reach(distinct as u64);
}

/// C23: order of symbols as written in the grammar file.
#[no_mangle]
pub extern "C" fn h_input_symbol_order() {
    let n = param(0);
    let t: Vec<String> = (0..3).map(|_| text(n, false)).collect();
    let names: Vec<String> = (0..3).map(|_| text(n, false)).collect();
    let k: Vec<usize> = (0..3).map(|_| pick(9)).collect();
    fn plain<'a>(t: &'a str, k: usize) -> InputSymbol<'a> {
        match k { 0 => InputSymbol::StrLit(t), 1 => InputSymbol::NonTerminal(Ident(t)), 2 => InputSymbol::Regex(t), 3 => InputSymbol::Epsilon, _ => InputSymbol::Eof }
    }
    let base: Vec<InputSymbol> = (0..3).map(|i| plain(&t[i], if k[i] < 5 { k[i] } else if k[i] < 8 { k[i] - 5 } else { 1 })).collect();
    let named: Vec<NamedSymbol> = (0..3).map(|i| NamedSymbol { name: if k[i] == 8 { None } else { Some(Ident(&names[i])) }, ty: &base[i] }).collect();
    let v: Vec<InputSymbol> = (0..3).map(|i| if k[i] < 5 { base[i].clone() } else { InputSymbol::Named(&named[i]) }).collect();
    let teq = bytes_cmp(&t[0], &t[1]) == Ordering::Equal;
    let same = k[0] == k[1] && match k[0] { 0 | 1 | 2 | 8 => teq, 3 | 4 => true, _ => teq && bytes_cmp(&names[0], &names[1]) == Ordering::Equal };
    order(&v[0], &v[1], &v[2], same);
    if same { reach(1); }
}

/// C19: the generated tables for every size up to param(0).
#[no_mangle]
pub extern "C" fn h_arith() {
    let n = u32();
    assume(n >= param(0) as u32 && n <= param(1) as u32);
    let mut buf = String::new();
    if catch(|| gen_arithmetic(&mut buf, n)).is_err() { fail("generating the tables panicked"); return; }
    let t = crate::ts::lex(&buf);
    let mut p = crate::ts::P::new(&t);
    let mut seen = [false; 2];
    while !p.end() {
        if !p.words(&["export", "type"]) { fail("the tables are not type declarations"); return; }
        let name = p.ident().unwrap_or("");
        let which = if name == "SuccTable" { 0 } else if name == "PredTable" { 1 } else { fail("an unknown table is declared"); return; };
        check(!seen[which], "a table is declared twice");
        seen[which] = true;
        if !(p.punct("=") && p.punct("{")) { fail("a table is not an object type"); return; }
        let mut have = vec![false; n as usize + 2];
        let mut count = 0;
        while !p.punct("}") {
            let k = match p.number() { Some(k) => k, None => { fail("a table key is not a number"); return; } };
            if !p.punct(":") { fail("a table entry is malformed"); return; }
            let v = match p.number() { Some(k) => k, None => { fail("a table value is not a number"); return; } };
            while p.punct(";") || p.punct(",") {}
            let (lo, hi) = if which == 0 { (k, v) } else { (v, k) };
            check(hi == lo + 1, "a table maps a number to something else than its neighbour");
            check(lo < n as u64, "a table covers a number outside the requested range");
            if lo < n as u64 { check(!have[lo as usize], "a number is listed twice"); have[lo as usize] = true; }
            count += 1;
        }
        while p.punct(";") {}
        check(count == n, "a table misses numbers of the requested range");
        out(count as u64);
    }
    check(seen[0] && seen[1], "a table is missing");
    outs(&buf);
    reach((n > 1) as u64);
}

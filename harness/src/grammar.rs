//! Grammars: lowering, FIRST sets, item sets, merging, tables. Reference: a plain LALR(1) construction over small integers.
use crate::sym::*;
use bumpalo::Bump;
use indexmap::IndexSet;
use typelalr::lalr::first::first;
use typelalr::lalr::item::{ItemSet, ProductionIdx, TokenIdx};
use typelalr::lalr::table::{make_tables, merge_cores, Action, ActionTable, GotoTable};
use typelalr::parser::ast::{Ident, InputSymbol, NamedSymbol, Production, ProductionBody};
use typelalr::parser::{Grammar, Symbol};

// ------------------------------------------------------------------ grammars
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sy { N(u8), T(u8) }
use Sy::*;
/// Terminal 0 is the end of input, nonterminal 0 the synthetic start symbol, rule 0 the synthetic rule.
pub struct G {
    pub nts: Vec<&'static str>,
    /// (pattern?, text)
    pub terms: Vec<(bool, &'static str)>,
    pub rules: Vec<(u8, Vec<Sy>)>,
    /// the definition each rule was written in
    pub def: Vec<usize>,
    /// the binding names of each rule's symbols
    pub binds: Vec<Vec<Option<&'static str>>>,
    /// the rule whose binding names vary
    pub target: usize,
    pub ast: &'static [Production<'static>],
}

/// Grammars with holes. `A=..,..;B=..`: the first production is the start; upper case: nonterminals, lower case: quoted terminals,
/// `.` a quoted terminal with any text of one byte, `%` a pattern with any text of one byte, `!` any defined nonterminal,
/// `?` a `!` or a `.`, `*` a `?` or nothing
pub static SKEL: &[&str] = &[
    /* 0 */ "S=?",
    /* 1 */ "S=??,?",
    /* 2 */ "S=?,?,?",
    /* 3 */ "S=A?;A=?,?",
    /* 4 */ "S=??;A=?,.",
    /* 5 */ "S=A?;A=B?,a;B=?,b",
    /* 6 */ "S=aAd,bBd,aBe,bAe;A=c;B=c",
    /* 7 */ "S=a!d,b!d,a!e,b!e;A=c;B=c",
    /* 8 */ "E=E?T,T;T=.Er,.",
    /* 9 */ "S=L?R,R;L=?R,i;R=L",
    /* 10 */ "S=aDb,dDe,gCh;D=cC;C=f",
    /* 11 */ "S=aDb,d!e,g!h;D=c!;C=f",
    /* 12 */ "S=***,a",
    /* 13 */ "S=AB?;A=*,a;B=*",
    /* 14 */ "S=aS?,.;T=?",
    /* 15 */ "L=lM.;M=XM,X;X=L,%",
    /* 16 */ "S=??,??,a",
    /* 17 */ "S=A?;A=a?,b?",
    /* 18 */ "E=EpT,T;T=TmF,F;F=lEr,i",
    /* 19 */ "S=.CC;C=.C,.",
    /* 20 */ "S=A*;A=B*,;B=A*,b",
    /* 21 */ "S=.,..,...",
    /* 22 */ "S=!!?;A=a*;B=*b",
    /* 23 */ "S=.%;A=.,%",
    /* 24 */ "S=**,*;A=**,*",
    /* 25 */ "S=?A?,a;A=??,*",
    /* 26 */ "S=!!;A=B*,*;B=A*,*",
    /* 27 */ "S=aA.,bA.,aB.,bB.;A=c;B=c",
    /* 28 */ "S=A?;A=a;B=b;A=?,.",
    /* 29 */ "S=??;S=.",
    /* 30 */ "E=EpT,EmT,T;T=TxF,TdF,F;F=lEr,i,mF",
    /* 31 */ "J=oc,oMc,qd,qLd,s,n;M=P,PkM;P=sfJ;L=J,JkL",
    /* 32 */ "P=DS;D=dD,;S=sS,s",
    /* 33 */ "S=***,**;A=**,*",
    /* 34 */ "S=?A,B?;A=?B,*;B=A?,*",
    /* 35 */ "S=lAr;A=aBbBc,S;B=d,e",
    /* 36 */ "S=abcdef,lSSr,x",
    /* 37 */ "S=AbCdE,fS;A=Bx,y;B=zA;C=c,;E=A,gBBBBBg",
    /* 38 */ "S=lSr,BSB,;B=b",
    /* 39 */ "S=aA,B%b,%A%,;A=cSd,e;B=bAeB%d,f",
    /* 40 */ "S=.A;A=%,a",
    /* 41 */ "X=Aa,Bb;A=A%,%;B=b%A;A=c",
    /* 42 */ "S=SbA,A;A=a",
];

pub fn keep(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
pub fn one(b: u8) -> &'static str { let mut s = String::with_capacity(1); s.push(b as char); keep(s) }
fn anybyte() -> u8 { let b = u8(); assume(b < 0x80); b }
pub fn same_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    a.len() == b.len() && (0..a.len()).all(|i| a[i] == b[i])
}

/// Binding names: the first is the name of the symbol's nonterminal, `v`, or names the generated code might use itself
static BINDS: &[&str] = &["", "newStack", "poppedValues", "__a", "a", "__b", "b", "symbolStack", "var0", "prodIdx", "L", "actions", "__newStack"];

/// mode bits: 1: symbols may carry binding names; 2: any production may be the start;
/// 4: binding names from `BINDS` or none, and code that lists the bindings; 8: every symbol bound, by position, and code that lists them
/// tok: the terminal (pattern?, text) for a character of the shape
pub fn grammar(skel: &str, mode: usize, mut tok: impl FnMut(char) -> (bool, &'static str)) -> G {
    let defs: Vec<&str> = skel.split(';').collect();
    let mut names: Vec<char> = vec![];
    for d in &defs { let c = d.chars().next().unwrap(); if !names.contains(&c) { names.push(c); } }
    let mut nts = vec![""];
    for c in &names { nts.push(one(*c as u8)); }
    let start = if mode & 2 == 2 { pick(names.len()) } else { 0 };
    nts[0] = keep(format!("{}'", nts[start + 1]));
    let mut g = G { nts, terms: vec![(false, "")], rules: vec![(0, vec![N(start as u8 + 1)])], def: vec![0], binds: vec![vec![]], target: 0, ast: &[] };
    let mut started = false;
    let mut skip = false;
    let mut style = (0, 0, 0, true);
    if mode & 16 == 16 {
        style.0 = pick(2);
        if style.0 == 1 { style.1 = pick(4); }
        g.target = 1 + pick(defs.iter().map(|d| d.split(',').count()).sum());
    } else if mode & 4 == 4 {
        style.0 = pick(3);
        style.3 = boolean();
        if style.0 == 1 { style.1 = pick(3); style.2 = pick(BINDS.len()); }
        if style.0 == 2 { style.2 = pick(2); }
        g.target = 1 + pick(defs.iter().map(|d| d.split(',').count()).sum());
    }
    let mut ast = vec![];
    for (k, d) in defs.iter().enumerate() {
        let nt = names.iter().position(|n| d.starts_with(*n)).unwrap();
        let mut bodies = vec![];
        for alt in d[2..].split(',') {
            let mut rhs = vec![];
            let mut ins = vec![];
            let mut bind: Vec<Option<&'static str>> = vec![];
            for c in alt.chars() {
                let nt = match c {
                    'A'..='Z' => names.iter().position(|n| *n == c),
                    '!' => Some(pick(names.len())),
                    '?' | '*' => {
                        let x = pick(names.len() + 1 + (c == '*') as usize);
                        if x < names.len() { Some(x) } else if x == names.len() { None } else { continue }
                    }
                    _ => None,
                };
                let mut kind = 2;
                let sym = match nt {
                    Some(nt) => InputSymbol::NonTerminal(Ident(g.nts[nt + 1])),
                    None => { let (p, t) = tok(c); kind = p as u8; if p { InputSymbol::Regex(t) } else { InputSymbol::StrLit(t) } }
                };
                let id = match &sym {
                    InputSymbol::NonTerminal(_) => N(nt.unwrap() as u8 + 1),
                    InputSymbol::StrLit(t) | InputSymbol::Regex(t) => {
                        let p = kind == 1;
                        let at = (1..g.terms.len()).find(|&i| g.terms[i].0 == p && same_text(g.terms[i].1, t));
                        T(at.unwrap_or_else(|| { g.terms.push((p, *t)); g.terms.len() - 1 }) as u8)
                    }
                    _ => unreachable!(),
                };
                let b: Option<&'static str> = if mode & 12 == 0 { None } else {
                    let v = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"];
                    let plain = Some(v[bind.len()]);
                    let is = g.target == g.rules.len();
                    if mode & 16 == 16 {
                        // the same names elsewhere
                        match style.0 { 0 => if is { Some(v[alt.chars().count() - 1 - bind.len()]) } else { plain }, _ => if bind.len() == if is { style.1 } else { 0 } { Some("v0") } else { None } }
                    } else if mode & 8 == 8 || g.target != g.rules.len() { plain } else {
                        match style {
                            (0, _, _, all) => if all { plain } else { None },
                            (1, at, k, all) => if at == bind.len() { Some(if k == 0 { nt.map_or("v", |n| g.nts[n + 1]) } else { BINDS[k] }) } else if all { plain } else { None },
                            (_, _, k, all) => match bind.len() { 0 => Some(["a", "__a"][k]), 1 => Some(["__a", "a"][k]), _ => if all { plain } else { None } },
                        }
                    }
                };
                if b.is_some() && bind.contains(&b) { skip = true; }
                bind.push(b);
                if let Some(n) = b {
                    let ty: &'static InputSymbol = Box::leak(Box::new(sym));
                    ins.push(InputSymbol::Named(Box::leak(Box::new(NamedSymbol { name: Some(Ident(n)), ty }))));
                    rhs.push(id);
                    continue;
                }
                let wrap = if mode & 1 == 1 { pick(3) } else { 0 };
                let sym = if wrap == 0 { sym } else {
                    let ty: &'static InputSymbol = Box::leak(Box::new(sym));
                    InputSymbol::Named(Box::leak(Box::new(NamedSymbol { name: if wrap == 1 { Some(Ident("v")) } else { None }, ty })))
                };
                rhs.push(id);
                ins.push(sym);
            }
            g.rules.push((nt as u8 + 1, rhs));
            g.def.push(k);
            let tag = format!("m{}", g.rules.len() - 1);
            let code = if mode & 12 == 0 { tag } else { let mut s = format!("['{}'", tag); let mut b: Vec<&str> = bind.iter().flatten().copied().collect(); if mode & 16 == 16 { s = "['m'".into(); b.sort(); } for n in b { s.push_str(", "); s.push_str(n); } s.push(']'); s };
            if g.target == g.rules.len() - 1 && style.1 > bind.len() { skip = true; }
            g.binds.push(bind);
            bodies.push(ProductionBody { input_tokens: ins, mapping_fn: keep(code) });
        }
        ast.push(Production { name: Ident(g.nts[nt + 1]), bodies, is_start: nt == start && !started, ts_code: if mode & 8 == 8 { "any" } else if mode & 4 == 4 { keep(format!("{{ is: '{}' }}", g.nts[nt + 1])) } else { keep(format!("t{}", k)) } });
        started |= nt == start;
    }
    if skip { g.ast = &[]; return g; }
    g.ast = Box::leak(ast.into_boxed_slice());
    g
}
pub fn lower(g: &G) -> &'static Grammar<'static> {
    let bump: &'static Bump = Box::leak(Box::new(Bump::new()));
    Box::leak(Box::new(Grammar::grammar_from_ast_productions(bump, g.ast)))
}
/// the reference's number of a symbol of the real grammar
pub fn number(g: &G, s: &Symbol) -> Option<Sy> {
    match s {
        Symbol::Eof => Some(T(0)),
        Symbol::Epsilon => None,
        Symbol::NonTerminal(n) => (0..g.nts.len()).find(|&i| same_text(g.nts[i], n.0)).map(|i| N(i as u8)),
        Symbol::StrLit(t) => (1..g.terms.len()).find(|&i| !g.terms[i].0 && same_text(g.terms[i].1, t)).map(|i| T(i as u8)),
        Symbol::Regex(t) => (1..g.terms.len()).find(|&i| g.terms[i].0 && same_text(g.terms[i].1, t)).map(|i| T(i as u8)),
    }
}
/// the reference's number of every symbol index
pub fn numbers(g: &G, gr: &'static Grammar<'static>) -> Vec<Sy> {
    gr.tokens().map(|s| match number(g, s) { Some(x) => x, None => { fail("the symbol table lists a symbol the grammar does not have"); T(63) } }).collect()
}
fn symbol_of(g: &G, s: Sy) -> Symbol<'static> {
    match s {
        N(i) => Symbol::NonTerminal(Ident(g.nts[i as usize])),
        T(0) => Symbol::Eof,
        T(i) => { let t = g.terms[i as usize]; if t.0 { Symbol::Regex(t.1) } else { Symbol::StrLit(t.1) } }
    }
}

// ------------------------------------------------------------------ reference
impl G {
    pub fn nullable(&self) -> u32 {
        let mut r = 0u32;
        loop {
            let mut n = r;
            for (a, rhs) in &self.rules { if rhs.iter().all(|s| matches!(s, N(i) if n >> i & 1 == 1)) { n |= 1 << a; } }
            if n == r { return r; }
            r = n;
        }
    }
    pub fn firsts(&self, nul: u32) -> Vec<u32> {
        let mut f = vec![0u32; self.nts.len()];
        loop {
            let mut ch = false;
            for (a, rhs) in &self.rules {
                let x = Self::first_of(rhs, &f, nul).0 | f[*a as usize];
                if x != f[*a as usize] { f[*a as usize] = x; ch = true; }
            }
            if !ch { return f; }
        }
    }
    /// terminals, and whether the sequence can be empty
    pub fn first_of(v: &[Sy], f: &[u32], nul: u32) -> (u32, bool) {
        let mut r = 0;
        for s in v {
            match s {
                T(t) => return (r | 1 << t, false),
                N(n) => { r |= f[*n as usize]; if nul >> n & 1 == 0 { return (r, false); } }
            }
        }
        (r, true)
    }
    /// nonterminals that derive some string of terminals
    pub fn productive(&self) -> u32 {
        let mut r = 0u32;
        loop {
            let mut n = r;
            for (a, rhs) in &self.rules { if rhs.iter().all(|s| match s { N(i) => n >> i & 1 == 1, T(_) => true }) { n |= 1 << a; } }
            if n == r { return r; }
            r = n;
        }
    }
    pub fn all_productive(&self) -> bool { self.productive() == (1u32 << self.nts.len()) - 1 }
}
/// The LR(1) automaton over item numbers; a state is a set of lookaheads (bits) per item, empty for absent items.
pub struct Auto { pub base: Vec<usize>, pub states: Vec<Vec<u32>>, pub n: usize }
pub struct Tables { pub action: Vec<Vec<(u8, Act)>>, pub goto: Vec<Vec<(u8, usize)>>, pub conflict: bool }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act { Shift(usize), Reduce(usize), Accept }

pub struct R<'a> { g: &'a G, nul: u32, f: Vec<u32>, base: Vec<usize>, n: usize }
impl<'a> R<'a> {
    pub fn new(g: &'a G) -> Self {
        let nul = g.nullable();
        let f = g.firsts(nul);
        let mut base = vec![];
        let mut n = 0;
        for (_, rhs) in &g.rules { base.push(n); n += rhs.len() + 1; }
        R { g, nul, f, base, n }
    }
    fn closure(&self, s: &mut [u32]) {
        loop {
            let mut ch = false;
            for (p, (_, rhs)) in self.g.rules.iter().enumerate() {
                for d in 0..rhs.len() {
                    let la = s[self.base[p] + d];
                    if la == 0 { continue; }
                    if let N(b) = rhs[d] {
                        let (mut l, e) = G::first_of(&rhs[d + 1..], &self.f, self.nul);
                        if e { l |= la; }
                        for (q, (lhs, _)) in self.g.rules.iter().enumerate() {
                            if *lhs == b { let x = &mut s[self.base[q]]; if *x | l != *x { *x |= l; ch = true; } }
                        }
                    }
                }
            }
            if !ch { return; }
        }
    }
    fn goto(&self, s: &[u32], x: Sy) -> Option<Vec<u32>> {
        let mut r = vec![0; self.n];
        let mut any = false;
        for (p, (_, rhs)) in self.g.rules.iter().enumerate() {
            for d in 0..rhs.len() {
                let la = s[self.base[p] + d];
                if la != 0 && rhs[d] == x { r[self.base[p] + d + 1] |= la; any = true; }
            }
        }
        if !any { return None; }
        self.closure(&mut r);
        Some(r)
    }
    fn symbols(&self) -> Vec<Sy> {
        let mut v: Vec<Sy> = (1..self.g.terms.len()).map(|i| T(i as u8)).collect();
        v.extend((1..self.g.nts.len()).map(|i| N(i as u8)));
        v
    }
    pub fn collection(&self) -> Vec<Vec<u32>> {
        let mut s = vec![0; self.n];
        s[0] = 1;
        self.closure(&mut s);
        let mut c = vec![s];
        let syms = self.symbols();
        let mut i = 0;
        while i < c.len() {
            for x in &syms { if let Some(t) = self.goto(&c[i], *x) { if !c.contains(&t) { c.push(t); } } }
            i += 1;
        }
        c
    }
    pub fn core(s: &[u32]) -> u64 { let mut r = 0u64; for i in 0..s.len() { if s[i] != 0 { r |= 1 << i; } } r }
    /// merged states in order of first appearance
    pub fn merge(c: &[Vec<u32>]) -> Vec<Vec<u32>> {
        let mut r: Vec<Vec<u32>> = vec![];
        for s in c {
            match r.iter_mut().find(|x| Self::core(x) == Self::core(s)) {
                Some(x) => for i in 0..s.len() { x[i] |= s[i]; },
                None => r.push(s.clone()),
            }
        }
        r
    }
    pub fn tables(&self, m: &[Vec<u32>]) -> Tables {
        let mut t = Tables { action: vec![], goto: vec![], conflict: false };
        for s in m {
            let mut a: Vec<(u8, Act)> = vec![];
            let mut put = |t: &mut Tables, k: u8, x: Act| { match a.iter().find(|e| e.0 == k) { Some(e) => if e.1 != x { t.conflict = true; }, None => a.push((k, x)) } };
            let mut go = vec![];
            for x in self.symbols() {
                if let Some(n) = self.goto(s, x) {
                    let j = m.iter().position(|y| Self::core(y) == Self::core(&n)).unwrap();
                    match x { T(k) => put(&mut t, k, Act::Shift(j)), N(k) => go.push((k, j)) }
                }
            }
            for (p, (_, rhs)) in self.g.rules.iter().enumerate() {
                let la = s[self.base[p] + rhs.len()];
                for k in 0..self.g.terms.len() {
                    if la >> k & 1 == 1 { put(&mut t, k as u8, if p == 0 { Act::Accept } else { Act::Reduce(p) }); }
                }
            }
            t.action.push(a);
            t.goto.push(go);
        }
        t
    }
    /// a real state in the reference's terms
    fn read(&self, s: &ItemSet, num: &[Sy]) -> Option<Vec<u32>> {
        let mut r = vec![0u32; self.n];
        for (item, las) in s.iter() {
            let (p, d) = (item.production_idx().0 as usize, item.dot() as usize);
            if p >= self.g.rules.len() || d > self.g.rules[p].1.len() || las.is_empty() { return None; }
            for l in las.iter() {
                match num.get(l.0 as usize) { Some(T(k)) => r[self.base[p] + d] |= 1 << k, _ => return None }
            }
        }
        Some(r)
    }
}

// ------------------------------------------------------------------ checks
/// params: skeleton (or first of several), number of skeletons, mode
fn any_grammar() -> G {
    let i = param(0) + pick(param(1));
    grammar(SKEL[i], param(2), |c| (c == '%', one(if c.is_ascii_lowercase() { c as u8 } else { anybyte() })))
}

/// C08
#[no_mangle]
pub extern "C" fn h_lower() {
    let g = any_grammar();
    let gr = match catch(|| lower(&g)) { Ok(x) => x, Err(()) => { fail("lowering a grammar panicked"); return } };
    let rules: Vec<_> = gr.iter_productions().collect();
    check(rules.len() == g.rules.len(), "the number of rules is not one more than the number of alternatives");
    if rules.len() != g.rules.len() { return; }
    for (i, r) in rules.iter().enumerate() {
        let (lhs, rhs) = &g.rules[i];
        check(same_text(r.name.0, g.nts[*lhs as usize]), "a rule has another name than written");
        check(r.input_tokens.len() == rhs.len(), "a rule has more or fewer symbols than written");
        for (s, w) in r.input_tokens.iter().zip(rhs) { check(number(&g, s) == Some(*w), "a rule has another symbol than written"); }
        if i > 0 {
            check(r.mapping_fn == Some(&format!("m{}", i)[..]), "a rule has another action than written");
            check(r.ts_type == Some(&format!("t{}", g.def[i])[..]), "a rule has another type than written");
        }
        check(gr.get_production(ProductionIdx(i as u32)).map_or(false, |p| std::ptr::eq(p, *r)), "looking up a rule by number gives another rule");
    }
    check(gr.get_production(ProductionIdx(rules.len() as u32)).is_none(), "a rule number too large gives a rule");
    // symbols
    let toks: Vec<&Symbol> = gr.tokens().collect();
    check(toks.len() > 0 && *toks[0] == Symbol::Eof, "the first symbol is not the end of input");
    let num = numbers(&g, gr);
    for i in 0..toks.len() {
        for j in 0..i { check(num[i] != num[j], "a symbol is listed twice"); }
        check(i == 0 || num[i] != T(0), "the end of input is listed twice");
        check(gr.get_token(TokenIdx(i as u32)) == Some(toks[i]), "looking up a symbol by number gives another symbol");
        let s = symbol_of(&g, num[i]);
        check(gr.get_token_idx(&s) == Some(TokenIdx(i as u32)), "looking up the number of a symbol gives another number");
    }
    check(gr.get_token(TokenIdx(toks.len() as u32)).is_none(), "a symbol number too large gives a symbol");
    for (_, rhs) in &g.rules { for s in rhs { check(num.contains(s), "a symbol used in a rule is missing from the table"); } }
    for n in num.iter().skip(1) { check(g.rules.iter().any(|(_, rhs)| rhs.contains(n)), "a symbol is listed that no rule uses"); }
    // rules by name
    for k in 0..g.nts.len() {
        let name = Ident(g.nts[k]);
        let want: Vec<usize> = (0..g.rules.len()).filter(|&i| g.rules[i].0 as usize == k).collect();
        let got: Vec<usize> = match catch(|| gr.production_iter(name).map(|(i, p)| if std::ptr::eq(p, rules[i.0 as usize]) { i.0 as usize } else { 999 }).collect()) { Ok(v) => v, Err(()) => vec![999] };
        check(got == want, "listing the rules of a nonterminal does not give its alternatives in order");
        let by = gr.get_production_indices_by_name(name).map(|v| v.iter().map(|p| p.0 as usize).collect::<Vec<_>>());
        check(by == Some(want), "the rule numbers of a nonterminal are not those of its alternatives");
    }
    check(gr.get_production_indices_by_name(Ident("nope")).is_none(), "an unknown name has rules");
    let nts: Vec<(usize, Sy)> = gr.non_terminals().map(|(i, n)| (i.0 as usize, number(&g, &Symbol::NonTerminal(*n)).unwrap_or(T(63)))).collect();
    let want: Vec<(usize, Sy)> = num.iter().enumerate().filter(|(_, s)| matches!(s, N(_))).map(|(i, s)| (i, *s)).collect();
    check(nts == want, "the listed nonterminals are not those of the symbol table");
    out(toks.len() as u64);
    reach(g.terms.len() as u64);
}

/// C09
#[no_mangle]
pub extern "C" fn h_first() {
    let g = any_grammar();
    let gr = lower(&g);
    let r = R::new(&g);
    let num = numbers(&g, gr);
    // a sequence: the rest of a rule, and maybe a terminal behind it
    let p = pick(g.rules.len());
    let d = pick(g.rules[p].1.len() + 1);
    let tail = pick(2);
    let prod = gr.get_production(ProductionIdx(p as u32)).unwrap();
    let mut want = G::first_of(&g.rules[p].1[d..], &r.f, r.nul);
    if tail == 1 && want.1 { want = (want.0 | 1, false); }
    let t: Option<&'static Symbol> = if tail == 1 { gr.get_token(TokenIdx(0)) } else { None };
    let got = match catch(|| first(gr, prod.input_tokens[d..].iter().chain(t))) { Ok(s) => s, Err(()) => { fail("computing FIRST failed"); return } };
    let mut bits = 0u32;
    let mut eps = false;
    for s in got.iter() {
        match number(&g, s) {
            Some(T(k)) => { check(bits >> k & 1 == 0, "FIRST lists a terminal twice"); bits |= 1 << k; }
            Some(N(_)) => fail("FIRST contains a nonterminal"),
            None => eps = true,
        }
    }
    check(bits & !want.0 == 0, "FIRST contains a terminal no derivable string begins with");
    check(want.0 & !bits == 0, "FIRST misses a terminal a derivable string begins with");
    check(eps == want.1, "FIRST says wrongly whether the empty string is derivable");
    out(bits as u64);
    let _ = num;
    reach(bits.count_ones() as u64);
    if want.1 { reach(100); }
    if g.rules[p].1[d..].first().map_or(false, |s| matches!(s, N(a) if g.rules.iter().any(|(l, v)| l == a && v.first() == Some(s)))) { reach(101); }
}

/// C10
#[no_mangle]
pub extern "C" fn h_items() {
    let g = any_grammar();
    let gr = lower(&g);
    let r = R::new(&g);
    let num = numbers(&g, gr);
    let want = r.collection();
    let got = match catch(|| ItemSet::items(gr)) { Ok(s) => s, Err(()) => { fail("building the item sets failed"); return } };
    let mut seen = vec![false; want.len()];
    for (i, s) in got.iter().enumerate() {
        let x = match r.read(s, &num) { Some(x) => x, None => { fail("a state has an item or lookahead that does not exist"); return } };
        match want.iter().position(|w| *w == x) {
            Some(k) => { check(!seen[k], "a state appears twice"); seen[k] = true; check(i > 0 || k == 0, "the first state is not the initial one"); }
            None => fail("a state is not in the canonical collection"),
        }
    }
    check(seen.iter().all(|x| *x), "a state of the canonical collection is missing");
    out(got.len() as u64);
    reach((got.len() > 2) as u64);
}

/// C11
#[no_mangle]
pub extern "C" fn h_merge() {
    let g = any_grammar();
    let gr = lower(&g);
    let r = R::new(&g);
    let num = numbers(&g, gr);
    let lr: IndexSet<ItemSet> = match catch(|| ItemSet::items(gr)) { Ok(s) => s, Err(()) => return };
    let lrs: Vec<Vec<u32>> = match lr.iter().map(|s| r.read(s, &num)).collect() { Some(v) => v, None => return };
    let want = R::merge(&lrs);
    let (sets, map) = match catch(|| merge_cores(&lr)) { Ok(x) => x, Err(()) => { fail("merging panicked"); return } };
    check(sets.len() == want.len(), "there is not exactly one merged state per core");
    check(map.len() == lrs.len(), "not every state is mapped to a merged one");
    let merged: Vec<Vec<u32>> = match sets.iter().map(|s| r.read(s, &num)).collect() { Some(v) => v, None => { fail("a merged state has an item or lookahead that does not exist"); return } };
    for m in &merged { check(want.contains(m), "a merged state is not the union of the states with its core"); }
    for (i, s) in lrs.iter().enumerate() {
        match map.get(&i).and_then(|j| merged.get(*j)) {
            Some(m) => check(R::core(m) == R::core(s), "a state is mapped to one with another core"),
            None => fail("a state is mapped to none"),
        }
    }
    // the originals are untouched
    for (i, s) in lr.iter().enumerate() { check(r.read(s, &num).as_ref() == Some(&lrs[i]), "merging changed an original state"); }
    out(sets.len() as u64);
    reach((sets.len() < lrs.len()) as u64);
}

fn real_tables(gr: &'static Grammar<'static>) -> Result<(ActionTable, GotoTable<'static>, IndexSet<ItemSet>), bool> {
    // Err(true): refused because of a conflict
    catch(|| make_tables(gr)).map_err(|_| msg().starts_with("Conflict"))
}

/// C13
#[no_mangle]
pub extern "C" fn h_tables() {
    let g = any_grammar();
    let gr = lower(&g);
    let r = R::new(&g);
    let num = numbers(&g, gr);
    let want = r.tables(&R::merge(&r.collection()));
    let (action, goto, _) = match real_tables(gr) {
        Ok(t) => { if want.conflict { fail("a grammar with a conflict is accepted"); return; } t }
        Err(c) => {
            if !c { fail("building the tables failed without reporting a conflict"); return; }
            check(want.conflict, "a conflict is reported for a grammar that has none");
            reach(0);
            return;
        }
    };
    let idx = |s: Sy| num.iter().position(|x| *x == s).map(|i| TokenIdx(i as u32));
    // the two automata, walked in step from their start states
    let mut to: Vec<Option<usize>> = vec![None; want.action.len()];
    to[0] = Some(0);
    let mut work = vec![0usize];
    let mut cells = 0;
    let mut gotos = 0;
    while let Some(q) = work.pop() {
        let p = to[q].unwrap();
        let mut pair = |a: usize, b: usize, work: &mut Vec<usize>| match to[a] {
            Some(x) => check(x == b, "two entries lead to different states where they should agree"),
            None => { check(!to.contains(&Some(b)), "states that should differ are the same"); to[a] = Some(b); work.push(a); }
        };
        for k in 0..g.terms.len() {
            let w = want.action[q].iter().find(|e| e.0 as usize == k).map(|e| e.1);
            let got = idx(T(k as u8)).and_then(|t| action.try_index((p as u32, t)).copied());
            match (w, got) {
                (None, None) => {}
                (Some(_), None) => fail("an action is missing"),
                (None, Some(_)) => fail("an action is added"),
                (Some(Act::Shift(a)), Some(Action::Shift(b))) => { cells += 1; pair(a, b as usize, &mut work) }
                (Some(Act::Reduce(a)), Some(Action::Reduce(b))) => { cells += 1; check(a == b.0 as usize, "an action reduces another rule") }
                (Some(Act::Accept), Some(Action::Accept)) => cells += 1,
                _ => fail("an action is of another kind"),
            }
        }
        for k in 1..g.nts.len() {
            let w = want.goto[q].iter().find(|e| e.0 as usize == k).map(|e| e.1);
            let got = goto.try_index((p as u32, Ident(g.nts[k]))).copied();
            match (w, got) {
                (None, None) => {}
                (Some(_), None) => fail("a goto entry is missing"),
                (None, Some(_)) => fail("a goto entry is added"),
                (Some(a), Some(b)) => { gotos += 1; pair(a, b, &mut work) }
            }
        }
    }
    let n: usize = action.iter().map(|(_, r)| r.len()).sum();
    check(n == cells, "the tables have actions for states or symbols that do not exist");
    let n: usize = goto.iter().map(|(_, r)| r.len()).sum();
    check(n == gotos, "the tables have goto entries for states or symbols that do not exist");
    out(cells as u64);
    reach(1);
}

/// all sentences of up to n terminals
pub fn sentences(g: &G, n: usize) -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<Vec<u8>>> = vec![vec![]; g.nts.len()];
    loop {
        let mut ch = false;
        for (a, rhs) in &g.rules {
            let mut w: Vec<Vec<u8>> = vec![vec![]];
            for s in rhs {
                let mut next = vec![];
                match s {
                    T(t) => for x in &w { if x.len() < n { let mut y = x.clone(); y.push(*t); next.push(y); } },
                    N(b) => for x in &w { for y in &l[*b as usize] { if x.len() + y.len() <= n { let mut z = x.clone(); z.extend(y); if !next.contains(&z) { next.push(z); } } } },
                }
                w = next;
            }
            for x in w { if !l[*a as usize].contains(&x) { l[*a as usize].push(x); ch = true; } }
        }
        if !ch { return std::mem::take(&mut l[0]); }
    }
}

/// C12: any sequence of up to param(3) terminals
#[no_mangle]
pub extern "C" fn h_accept() {
    let g = any_grammar();
    let gr = lower(&g);
    let num = numbers(&g, gr);
    let (action, goto, _) = match real_tables(gr) { Ok(t) => t, Err(_) => { reach(9); return } };
    let n = pick(param(3) + 1);
    // terminals by their numbers in the reference
    let nt = g.terms.len() as u8;
    if nt < 2 && n > 0 { return; }
    let toks: Vec<u8> = (0..n).map(|_| { let x = u8(); assume(x >= 1 && x < nt); x }).collect();
    let words = sentences(&g, n);
    let member = words.iter().filter(|w| w.len() == n).fold(false, |a, w| a | (0..n).fold(true, |b, i| b & (w[i] == toks[i])));
    // the parser's loop over the tables
    let mut stack = vec![0u32];
    let mut reds: Vec<usize> = vec![];
    let mut i = 0;
    let mut fuel = 40 + 40 * n;
    let ok = loop {
        if fuel == 0 { fail("running the tables does not end"); return; }
        fuel -= 1;
        let t = if i < n { toks[i] } else { 0 };
        let s = *stack.last().unwrap();
        let mut act = None;
        for (k, id) in num.iter().enumerate() {
            if let T(x) = id { if let Some(a) = action.try_index((s, TokenIdx(k as u32))) { if *x == t { act = Some(*a); break; } } }
        }
        match act {
            None => break false,
            Some(Action::Accept) => { check(i == n, "the input is accepted before its end"); break true; }
            Some(Action::Shift(q)) => { if i >= n { fail("the end of input is shifted"); return; } stack.push(q); i += 1; }
            Some(Action::Reduce(p)) => {
                let p = p.0 as usize;
                if p == 0 || p >= g.rules.len() || stack.len() <= g.rules[p].1.len() { fail("a reduction is impossible"); return; }
                for _ in 0..g.rules[p].1.len() { stack.pop(); }
                match goto.try_index((*stack.last().unwrap(), Ident(g.nts[g.rules[p].0 as usize]))) {
                    Some(q) => stack.push(*q as u32),
                    None => { fail("a goto entry is missing after a reduction"); return; }
                }
                reds.push(p);
            }
        }
    };
    if ok { check(member, "a sequence is accepted that is not derivable"); } else { check(!member, "a derivable sequence is rejected"); }
    if ok {
        // backwards, the reductions are a rightmost derivation
        let mut form: Vec<Sy> = g.rules[0].1.clone();
        for &p in reds.iter().rev() {
            let at = form.iter().rposition(|s| matches!(s, N(_)));
            match at {
                Some(k) if form[k] == N(g.rules[p].0) => { let tail = form.split_off(k + 1); form.pop(); form.extend(&g.rules[p].1); form.extend(tail); }
                _ => { fail("the reductions are not a rightmost derivation"); return; }
            }
        }
        let same = form.len() == n && form.iter().enumerate().fold(true, |a, (i, s)| a & match s { T(x) => *x == toks[i], N(_) => false });
        check(same, "the derivation made by the reductions yields another sequence");
    }
    out(ok as u64);
    reach(ok as u64);
}

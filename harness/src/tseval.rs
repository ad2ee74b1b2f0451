//! An evaluator for the type language of TypeScript, as far as ts/*.ts and the generated modules use it:
//! conditional types (infer, constraints, distribution), tuples, objects, unions, keyof, indexed access,
//! template literal types and generic aliases. Strings are UTF-16, as in TypeScript.
use crate::ts::{lex_lines, T};
use std::cell::RefCell;
use std::rc::Rc;

// ------------------------------------------------------------------ expressions
#[derive(Clone, Debug)]
pub enum E {
    Lit(Ty),
    Var(usize),
    Name(Vec<String>, Vec<E>),
    Ref(usize, Vec<E>),
    Tup(Vec<(bool, E)>),
    Arr(Box<E>),
    Obj(Vec<(Key, bool, E)>),
    Uni(Vec<E>),
    Keyof(Box<E>),
    Index(Box<E>, Box<E>),
    Tpl(Vec<(Rc<[u16]>, E)>, Rc<[u16]>),
    Cond(Box<Cond>),
    Infer(usize, Option<Box<E>>),
    Memo(Rc<(RefCell<Option<Ty>>, E)>),
}
#[derive(Clone, Debug)]
pub struct Cond { check: E, dist: Option<usize>, ext: E, pat: bool, then: E, els: E }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Key { N(u64), S(Rc<[u16]>) }

// ------------------------------------------------------------------ types
#[derive(Clone, Debug)]
pub enum Ty {
    Any, Unknown, Never, Undef, Null, StrT, NumT, BoolT,
    Str(Rc<[u16]>),
    Num(u64),
    Bool(bool),
    Tup(Rc<Vec<Ty>>),
    Arr(Rc<Ty>),
    Obj(Rc<Vec<Prop>>),
    Uni(Rc<Vec<Ty>>),
    Keys(Rc<Ty>),
    Tpl(Rc<Vec<(Rc<[u16]>, Ty)>>, Rc<[u16]>),
    Lazy(usize),
    Opaque(Rc<str>),
}
#[derive(Clone, Debug)]
pub struct Prop { pub key: Key, pub opt: bool, pub ty: Ty }

pub fn u16s(s: &str) -> Rc<[u16]> { s.encode_utf16().collect::<Vec<_>>().into() }
pub fn str_ty(s: &str) -> Ty { Ty::Str(u16s(s)) }
pub fn name_ty(s: &str) -> Ty { Ty::Opaque(s.into()) }
pub fn tup(v: Vec<Ty>) -> Ty { Ty::Tup(Rc::new(v)) }
pub fn obj(v: &[(&str, Ty)]) -> Ty { Ty::Obj(Rc::new(v.iter().map(|x| Prop { key: Key::S(u16s(x.0)), opt: false, ty: x.1.clone() }).collect())) }

fn key_text(k: &Key) -> Vec<u16> { match k { Key::N(n) => n.to_string().encode_utf16().collect(), Key::S(s) => s.to_vec() } }
fn key_eq(a: &Key, b: &Key) -> bool {
    match (a, b) { (Key::N(x), Key::N(y)) => x == y, (Key::S(x), Key::S(y)) => eq16(x, y), _ => key_text(a) == key_text(b) }
}
pub fn eq16(a: &[u16], b: &[u16]) -> bool { a.len() == b.len() && (0..a.len()).fold(true, |r, i| r & (a[i] == b[i])) }

// ------------------------------------------------------------------ programs
struct Alias { name: String, module: usize, params: Vec<Option<E>>, slots: usize, body: E, memo: RefCell<Option<Ty>> }
struct Module { name: String, parent: Option<usize>, types: Vec<(String, usize)>, subs: Vec<(String, usize)>, named: Vec<(String, String)>, spaces: Vec<(String, String)> }
pub struct Prog { aliases: Vec<Alias>, modules: Vec<Module>, sums: Vec<(usize, usize)>, limit: u64 }
fn unsupported(m: &str) -> ! { panic!("unsupported: {}", m) }

struct Parser<'a> { t: &'a [T], nl: &'a [bool], i: usize, scope: Vec<(String, usize)>, pend: Vec<(String, usize)>, slots: usize }
type R<X> = Result<X, &'static str>;

impl<'a> Parser<'a> {
    fn peek(&self) -> Option<&'a T> { self.t.get(self.i) }
    fn is(&self, p: &str) -> bool { matches!(self.peek(), Some(T::P(q)) if *q == p) }
    fn punct(&mut self, p: &str) -> bool { if self.is(p) { self.i += 1; true } else { false } }
    fn need(&mut self, p: &str) -> R<()> { if self.punct(p) { Ok(()) } else { Err("unexpected token in a type") } }
    fn is_word(&self, w: &str) -> bool { matches!(self.peek(), Some(T::Id(q)) if q == w) }
    fn word(&mut self, w: &str) -> bool { if self.is_word(w) { self.i += 1; true } else { false } }
    fn ident(&mut self) -> R<String> { match self.peek() { Some(T::Id(q)) => { self.i += 1; Ok(q.clone()) } _ => Err("a name is missing in a type") } }
    fn line(&self) -> bool { self.nl.get(self.i).copied().unwrap_or(true) }

    fn ty(&mut self) -> R<E> { self.cond(true) }
    fn cond(&mut self, allowed: bool) -> R<E> {
        let check = self.union()?;
        if !allowed || !self.is_word("extends") || self.line_before_extends() { return Ok(check); }
        self.i += 1;
        // what the pattern infers is in scope in the first branch only
        let depth = self.scope.len();
        let outer = std::mem::take(&mut self.pend);
        let ext = self.cond(false)?;
        let found = std::mem::replace(&mut self.pend, outer);
        for (i, x) in found.iter().enumerate() { if found[..i].iter().any(|y| y.0 == x.0) { return Err("a pattern infers the same name twice"); } }
        self.scope.extend(found);
        self.need("?")?;
        let then = self.ty()?;
        self.scope.truncate(depth);
        self.need(":")?;
        let els = self.ty()?;
        let dist = if let E::Var(s) = &check { Some(*s) } else { None };
        let pat = has_infer(&ext);
        Ok(E::Cond(Box::new(Cond { check, dist, ext, pat, then, els })))
    }
    fn line_before_extends(&self) -> bool { false }
    fn union(&mut self) -> R<E> {
        self.punct("|");
        let mut v = vec![self.inter()?];
        while self.punct("|") { v.push(self.inter()?); }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { E::Uni(v) })
    }
    fn inter(&mut self) -> R<E> {
        self.punct("&");
        let e = self.unary()?;
        if self.is("&") { return Err("unsupported: intersection types"); }
        Ok(e)
    }
    fn unary(&mut self) -> R<E> {
        if self.word("keyof") { return Ok(E::Keyof(Box::new(self.unary()?))); }
        if self.word("infer") {
            let n = self.ident()?;
            let from = self.i;
            let c = if self.is_word("extends") { self.i += 1; Some(Box::new(self.union()?)) } else { None };
            if (from..self.i).any(|j| self.t[j] == T::Id(n.clone()) && (j == 0 || self.t[j - 1] != T::P(".")) && self.t.get(j + 1) != Some(&T::P("."))) { return Err("the constraint of an inferred name mentions the name"); }
            let s = self.slots;
            self.slots += 1;
            self.pend.push((n, s));
            return Ok(E::Infer(s, c));
        }
        self.postfix()
    }
    fn postfix(&mut self) -> R<E> {
        let mut e = self.primary()?;
        while self.is("[") && !self.line() {
            self.i += 1;
            if self.punct("]") { e = E::Arr(Box::new(e)); continue; }
            let k = self.ty()?;
            self.need("]")?;
            e = E::Index(Box::new(e), Box::new(k));
        }
        Ok(e)
    }
    fn primary(&mut self) -> R<E> {
        match self.peek() {
            Some(T::Num(n)) => { self.i += 1; Ok(E::Lit(Ty::Num(*n))) }
            Some(T::Str(s)) => { self.i += 1; Ok(E::Lit(str_ty(s))) }
            Some(T::Tpl(parts, end)) => {
                self.i += 1;
                let mut v = vec![];
                for (s, t) in parts {
                    let nl = vec![false; t.len()];
                    let mut p = Parser { t, nl: &nl, i: 0, scope: self.scope.clone(), pend: std::mem::take(&mut self.pend), slots: self.slots };
                    let e = p.ty()?;
                    if p.i != t.len() { return Err("a template has a malformed part"); }
                    self.slots = p.slots;
                    self.pend = p.pend;
                    v.push((u16s(s), e));
                }
                Ok(E::Tpl(v, u16s(end)))
            }
            Some(T::P("(")) => { self.i += 1; let e = self.ty()?; self.need(")")?; Ok(match e { E::Var(_) => E::Uni(vec![e]), e => e }) }
            Some(T::P("[")) => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    if self.punct("]") { return Ok(E::Tup(v)); }
                    let spread = self.punct("...");
                    if let (Some(T::Id(_)), Some(T::P(":"))) = (self.peek(), self.t.get(self.i + 1)) { self.i += 2; }
                    v.push((spread, self.ty()?));
                    if !self.punct(",") { self.need("]")?; return Ok(E::Tup(v)); }
                }
            }
            Some(T::P("{")) => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    if self.punct("}") { return Ok(E::Obj(v)); }
                    let k = match self.peek() { Some(T::Num(n)) => Key::N(*n), Some(T::Str(s)) | Some(T::Id(s)) => Key::S(u16s(s)), _ => return Err("a property has no name") };
                    self.i += 1;
                    let opt = self.punct("?");
                    self.need(":")?;
                    let e = self.ty()?;
                    v.push((k, opt, e));
                    if !(self.punct(";") || self.punct(",")) && !self.is("}") && !self.line() { return Err("properties are not separated"); }
                }
            }
            Some(T::Id(w)) => {
                self.i += 1;
                let prim = match w.as_str() {
                    "any" => Some(Ty::Any), "unknown" => Some(Ty::Unknown), "never" => Some(Ty::Never), "undefined" => Some(Ty::Undef), "null" => Some(Ty::Null), "string" => Some(Ty::StrT),
                    "number" => Some(Ty::NumT), "boolean" => Some(Ty::BoolT), "true" => Some(Ty::Bool(true)), "false" => Some(Ty::Bool(false)), _ => None,
                };
                if let Some(t) = prim { return Ok(E::Lit(t)); }
                if ["type", "export", "import", "extends", "infer", "keyof", "declare"].contains(&w.as_str()) && !self.scope.iter().any(|x| x.0 == *w) && w != "type" && w != "declare" { return Err("a keyword where a type is expected"); }
                let mut path = vec![w.clone()];
                while self.punct(".") { path.push(self.ident()?); }
                let mut args = vec![];
                if self.is("<") && !self.line() {
                    self.i += 1;
                    loop {
                        args.push(self.ty()?);
                        if self.punct(",") { if self.punct(">") { break; } continue; }
                        self.need(">")?;
                        break;
                    }
                }
                if path.len() == 1 {
                    if let Some(x) = self.scope.iter().rev().find(|x| x.0 == path[0]) { return Ok(E::Var(x.1)); }
                }
                Ok(E::Name(path, args))
            }
            _ => Err("a type is missing"),
        }
    }
}
fn has_infer(e: &E) -> bool {
    match e {
        E::Infer(..) => true,
        E::Tup(v) => v.iter().any(|x| has_infer(&x.1)),
        E::Arr(e) | E::Keyof(e) => has_infer(e),
        E::Obj(v) => v.iter().any(|x| has_infer(&x.2)),
        E::Uni(v) | E::Name(_, v) | E::Ref(_, v) => v.iter().any(has_infer),
        E::Index(a, b) => has_infer(a) || has_infer(b),
        E::Tpl(v, _) => v.iter().any(|x| has_infer(&x.1)),
        _ => false,
    }
}
fn closed(e: &E) -> bool {
    match e {
        E::Lit(_) | E::Name(..) | E::Memo(_) => true,
        E::Var(_) | E::Infer(..) | E::Cond(_) => false,
        E::Ref(_, v) | E::Uni(v) => v.iter().all(closed),
        E::Tup(v) => v.iter().all(|x| closed(&x.1)),
        E::Arr(e) | E::Keyof(e) => closed(e),
        E::Obj(v) => v.iter().all(|x| closed(&x.2)),
        E::Index(a, b) => closed(a) && closed(b),
        E::Tpl(v, _) => v.iter().all(|x| closed(&x.1)),
    }
}

impl Prog {
    pub fn new() -> Prog { Prog { aliases: vec![], modules: vec![], sums: vec![], limit: 0 } }
    /// adds a source file under the name it is imported by
    pub fn add(&mut self, name: &str, src: &str) -> R<()> {
        let (t, nl) = lex_lines(src);
        if t.contains(&T::Bad) { return Err("the module is not TypeScript: bad token"); }
        let m = self.modules.len();
        self.modules.push(Module { name: name.into(), parent: None, types: vec![], subs: vec![], named: vec![], spaces: vec![] });
        let mut p = Parser { t: &t, nl: &nl, i: 0, scope: vec![], pend: vec![], slots: 0 };
        self.statements(&mut p, m)?;
        if p.i != t.len() { return Err("the module goes on behind its end"); }
        Ok(())
    }
    fn statements(&mut self, p: &mut Parser, m: usize) -> R<()> {
        while let Some(t) = p.peek() {
            if *t == T::P("}") { return Ok(()); }
            if p.punct(";") { continue; }
            if p.word("import") {
                if p.punct("*") {
                    if !p.word("as") { return Err("a malformed import"); }
                    let n = p.ident()?;
                    if !p.word("from") { return Err("a malformed import"); }
                    match p.peek() { Some(T::Str(s)) => self.modules[m].spaces.push((n, s.clone())), _ => return Err("a malformed import") }
                    p.i += 1;
                } else {
                    p.need("{")?;
                    let mut v = vec![];
                    while !p.punct("}") { v.push(p.ident()?); p.punct(","); }
                    if !p.word("from") { return Err("a malformed import"); }
                    match p.peek() { Some(T::Str(s)) => for n in v { self.modules[m].named.push((n, s.clone())); }, _ => return Err("a malformed import") }
                    p.i += 1;
                }
                continue;
            }
            p.word("export");
            if p.word("declare") {
                if !p.word("module") && !p.word("namespace") { return Err("a malformed declaration"); }
                let n = p.ident()?;
                p.need("{")?;
                let s = self.modules.len();
                self.modules.push(Module { name: String::new(), parent: Some(m), types: vec![], subs: vec![], named: vec![], spaces: vec![] });
                if self.modules[m].subs.iter().any(|x| x.0 == n) { return Err("a module is declared twice"); }
                self.modules[m].subs.push((n, s));
                self.statements(p, s)?;
                p.need("}")?;
                continue;
            }
            if !p.word("type") { return Err("a declaration is expected"); }
            let n = p.ident()?;
            p.scope = vec![];
            p.slots = 0;
            let mut params = vec![];
            if p.punct("<") {
                loop {
                    let x = p.ident()?;
                    p.scope.push((x, p.slots));
                    p.slots += 1;
                    if p.word("extends") { p.ty()?; }
                    params.push(if p.punct("=") { Some(p.ty()?) } else { None });
                    if p.punct(",") { if p.punct(">") { break; } continue; }
                    p.need(">")?;
                    break;
                }
            }
            p.need("=")?;
            let body = p.ty()?;
            if !p.punct(";") && !p.is("}") && p.peek().is_some() && !p.line() { return Err("declarations are not separated"); }
            if self.modules[m].types.iter().any(|x| x.0 == n) { return Err("a type is declared twice"); }
            self.modules[m].types.push((n.clone(), self.aliases.len()));
            self.aliases.push(Alias { name: n, module: m, params, slots: p.slots, body, memo: RefCell::new(None) });
        }
        Ok(())
    }
    fn file(&self, n: &str) -> Option<usize> { self.modules.iter().position(|x| x.parent.is_none() && x.name == n) }
    fn lookup(&self, mut m: usize, path: &[String]) -> Option<usize> {
        loop {
            let x = &self.modules[m];
            if path.len() == 1 {
                if let Some(t) = x.types.iter().find(|t| t.0 == path[0]) { return Some(t.1); }
                if let Some(n) = x.named.iter().find(|n| n.0 == path[0]) { return self.lookup(self.file(&n.1)?, path); }
            } else {
                if let Some(s) = x.subs.iter().find(|s| s.0 == path[0]) { return self.modules[s.1].types.iter().find(|t| t.0 == path[1]).map(|t| t.1); }
                if let Some(n) = x.named.iter().find(|n| n.0 == path[0]) { return self.lookup(self.file(&n.1)?, path); }
                if let Some(n) = x.spaces.iter().find(|n| n.0 == path[0]) { return self.modules[self.file(&n.1)?].types.iter().find(|t| t.0 == path[1]).map(|t| t.1); }
            }
            m = x.parent?;
        }
    }
    /// binds the names; call once after the last file
    pub fn link(&mut self) {
        for i in 0..self.aliases.len() {
            let mut b = std::mem::replace(&mut self.aliases[i].body, E::Lit(Ty::Never));
            self.bind(&mut b, self.aliases[i].module);
            self.aliases[i].body = b;
        }
    }
    fn bind(&self, e: &mut E, m: usize) {
        match e {
            E::Name(path, args) => {
                for a in args.iter_mut() { self.bind(a, m); }
                *e = match self.lookup(m, path) { Some(i) => E::Ref(i, std::mem::take(args)), None if args.len() == 1 && *path == ["Array"] => E::Arr(Box::new(args.pop().unwrap())), None => E::Lit(Ty::Opaque(path.join(".").as_str().into())) };
            }
            E::Ref(_, v) | E::Uni(v) => for x in v { self.bind(x, m) },
            E::Tup(v) => for x in v { self.bind(&mut x.1, m) },
            E::Arr(x) | E::Keyof(x) => self.bind(x, m),
            E::Obj(v) => for x in v { self.bind(&mut x.2, m) },
            E::Index(a, b) => { self.bind(a, m); self.bind(b, m); if closed(e) { *e = E::Memo(Rc::new((RefCell::new(None), e.clone()))); } }
            E::Tpl(v, _) => for x in v { self.bind(&mut x.1, m) },
            E::Cond(c) => { self.bind(&mut c.check, m); self.bind(&mut c.ext, m); self.bind(&mut c.then, m); self.bind(&mut c.els, m); if !c.pat && closed(&c.ext) && !matches!(c.ext, E::Lit(_)) { let x = std::mem::replace(&mut c.ext, E::Lit(Ty::Never)); c.ext = E::Memo(Rc::new((RefCell::new(None), x))); } }
            E::Infer(_, Some(c)) => self.bind(c, m),
            _ => {}
        }
    }

    // -------------------------------------------------------------- evaluation
    /// the alias `name` of a file (path: file, name or file, module, name)
    pub fn find(&self, path: &[&str]) -> Option<usize> {
        let f = self.file(path[0])?;
        let p: Vec<String> = path[1..].iter().map(|s| s.to_string()).collect();
        self.lookup(f, &p)
    }
    pub fn call(&self, alias: usize, args: Vec<Ty>) -> Ty {
        let e = E::Ref(alias, args.into_iter().map(E::Lit).collect());
        self.force(&self.eval(&e, &mut vec![]))
    }
    /// takes the comparisons of a file at their word for numbers below the limit (they are checked on their own)
    pub fn summaries(&mut self, file: &str, limit: u64) {
        for (k, n) in ["Gte", "Gt", "Lte", "Lt"].iter().enumerate() { if let Some(a) = self.find(&[file, n]) { self.sums.push((a, k)); } }
        self.limit = limit;
    }
    /// is the string a member of the union
    pub fn has_value(&self, t: &Ty, u: &[u16]) -> bool {
        match self.force(t) { Ty::Obj(p) => p.iter().fold(false, |r, x| r | match &x.ty { Ty::Str(s) => eq16(s, u), _ => false }), _ => false }
    }
    pub fn params(&self, alias: usize) -> usize { self.aliases[alias].params.len() }
    /// a closed type written in the scope of a file
    pub fn read(&self, file: &str, src: &str) -> R<Ty> {
        let (t, nl) = lex_lines(src);
        let mut p = Parser { t: &t, nl: &nl, i: 0, scope: vec![], pend: vec![], slots: 0 };
        let mut e = p.ty()?;
        if p.i != t.len() { return Err("a type goes on behind its end"); }
        self.bind(&mut e, self.file(file).unwrap());
        Ok(self.force(&self.eval(&e, &mut vec![Ty::Never; p.slots])))
    }
    fn zero(&self, a: usize) -> Ty {
        if let Some(t) = &*self.aliases[a].memo.borrow() { return t.clone(); }
        let al = &self.aliases[a];
        let t = self.eval(&al.body, &mut vec![Ty::Never; al.slots]);
        *al.memo.borrow_mut() = Some(t.clone());
        t
    }
    pub fn force(&self, t: &Ty) -> Ty {
        let mut t = t.clone();
        let mut n = 0;
        while let Ty::Lazy(a) = t { t = self.zero(a); n += 1; if n > 50 { return Ty::Any; } }
        t
    }
    /// inside a constructor: aliases without parameters stay names, they may be recursive
    fn part(&self, e: &E, env: &mut Vec<Ty>) -> Ty {
        match e { E::Ref(a, _) if self.aliases[*a].params.is_empty() => Ty::Lazy(*a), E::Memo(m) => if let E::Ref(a, _) = &m.1 { if self.aliases[*a].params.is_empty() { Ty::Lazy(*a) } else { self.eval(e, env) } } else { self.eval(e, env) }, _ => self.eval(e, env) }
    }
    fn eval(&self, e: &E, env: &mut Vec<Ty>) -> Ty {
        let mut e = e;
        let mut own: Option<Vec<Ty>> = None;
        loop {
            let env: &mut Vec<Ty> = match &mut own { Some(v) => v, None => env };
            match e {
                E::Lit(t) => return t.clone(),
                E::Var(s) => return env[*s].clone(),
                E::Memo(m) => {
                    if let Some(t) = &*m.0.borrow() { return t.clone(); }
                    let t = self.eval(&m.1, &mut vec![]);
                    *m.0.borrow_mut() = Some(t.clone());
                    return t;
                }
                E::Ref(a, args) => {
                    if let Some(k) = self.sums.iter().find(|x| x.0 == *a) {
                        if args.len() == 2 {
                            let (x, y) = (self.eval(&args[0], env), self.eval(&args[1], env));
                            if let (Ty::Num(x), Ty::Num(y)) = (&x, &y) {
                                if (*x < self.limit) & (*y < self.limit) { return Ty::Bool(match k.1 { 0 => x >= y, 1 => x > y, 2 => x <= y, _ => x < y }); }
                            }
                        }
                    }
                    let al = &self.aliases[*a];
                    if al.params.is_empty() { return self.zero(*a); }
                    let mut v = Vec::with_capacity(al.slots);
                    for (i, p) in al.params.iter().enumerate() {
                        let x = match args.get(i) { Some(x) => self.eval(x, env), None => match p { Some(d) => self.eval(d, &mut v), None => Ty::Any } };
                        v.push(x);
                    }
                    v.resize(al.slots, Ty::Never);
                    own = Some(v);
                    e = &al.body;
                }
                E::Name(..) => return Ty::Any,
                E::Tup(v) => {
                    let mut r = Vec::with_capacity(v.len() + 4);
                    for (spread, x) in v {
                        if *spread {
                            match self.force(&self.eval(x, env)) { Ty::Tup(t) => r.extend(t.iter().cloned()), Ty::Never => return Ty::Never, _ => return Ty::Any }
                        } else { r.push(self.part(x, env)); }
                    }
                    return tup(r);
                }
                E::Arr(x) => return Ty::Arr(Rc::new(self.part(x, env))),
                E::Obj(v) => return Ty::Obj(Rc::new(v.iter().map(|x| Prop { key: x.0.clone(), opt: x.1, ty: self.part(&x.2, env) }).collect())),
                E::Uni(v) => { let v: Vec<Ty> = v.iter().map(|x| self.eval(x, env)).collect(); return self.union(v); }
                E::Keyof(x) => return Ty::Keys(Rc::new(self.force(&self.eval(x, env)))),
                E::Index(a, b) => { let a = self.force(&self.eval(a, env)); let b = self.force(&self.eval(b, env)); return self.index(&a, &b); }
                E::Tpl(v, end) => {
                    let v: Vec<_> = v.iter().map(|x| (x.0.clone(), self.force(&self.eval(&x.1, env)))).collect();
                    return self.template(v, end);
                }
                E::Infer(..) => unsupported("infer outside a condition"),
                E::Cond(c) => {
                    let t = self.force(&self.eval(&c.check, env));
                    if let Some(s) = c.dist {
                        if let Ty::Never = t { return Ty::Never; }
                        if let Some(v) = self.members(&t) {
                            let mut r = vec![];
                            for m in v {
                                let mut n = env.clone();
                                n[s] = m;
                                r.push(self.eval(e, &mut n));
                            }
                            return self.union(r);
                        }
                    }
                    if let Ty::Any = t {
                        // both branches
                        let ok = match &c.ext { E::Lit(Ty::Any) | E::Lit(Ty::Unknown) => true, _ => false };
                        if !ok {
                            let mut n = env.clone();
                            self.matches(&t, &c.ext, &mut n);
                            let a = self.eval(&c.then, &mut n);
                            let b = self.eval(&c.els, env);
                            return self.union(vec![a, b]);
                        }
                    }
                    let ok = if c.pat { self.matches(&t, &c.ext, env) } else { let x = self.eval(&c.ext, env); self.assignable(&t, &x, 0) };
                    e = if ok { &c.then } else { &c.els };
                }
            }
        }
    }
    /// the members of a union, if it is one
    fn members(&self, t: &Ty) -> Option<Vec<Ty>> {
        match t {
            Ty::Uni(v) => Some(v.to_vec()),
            Ty::BoolT => Some(vec![Ty::Bool(false), Ty::Bool(true)]),
            Ty::Keys(o) => match &**o { Ty::Obj(p) => Some(p.iter().map(|x| match &x.key { Key::N(n) => Ty::Num(*n), Key::S(s) => Ty::Str(s.clone()) }).collect()), _ => None },
            _ => None,
        }
    }
    fn union(&self, v: Vec<Ty>) -> Ty {
        let mut r: Vec<Ty> = vec![];
        for t in v {
            let t = self.force(&t);
            match t {
                Ty::Never => {}
                Ty::Any => return Ty::Any,
                Ty::Unknown => return Ty::Unknown,
                Ty::Uni(u) => for x in u.iter() { if !r.iter().any(|y| self.same(x, y, 0)) { r.push(x.clone()); } },
                t => if !r.iter().any(|y| self.same(&t, y, 0)) { r.push(t) },
            }
        }
        if r.iter().any(|x| matches!(x, Ty::StrT)) { r.retain(|x| !matches!(x, Ty::Str(_) | Ty::Tpl(..))); }
        if r.iter().any(|x| matches!(x, Ty::NumT)) { r.retain(|x| !matches!(x, Ty::Num(_))); }
        if r.iter().any(|x| matches!(x, Ty::Bool(true))) && r.iter().any(|x| matches!(x, Ty::Bool(false))) { r.retain(|x| !matches!(x, Ty::Bool(_))); r.push(Ty::BoolT); }
        match r.len() { 0 => Ty::Never, 1 => r.pop().unwrap(), _ => Ty::Uni(Rc::new(r)) }
    }
    fn find_prop<'b>(p: &'b [Prop], k: &Key) -> Option<&'b Prop> {
        if let (Key::N(n), Some(Prop { key: Key::N(f), .. })) = (k, p.first()) {
            if let Some(x) = n.checked_sub(*f).and_then(|i| p.get(i as usize)) { if x.key == *k { return Some(x); } }
        }
        p.iter().find(|x| key_eq(&x.key, k))
    }
    fn index(&self, a: &Ty, b: &Ty) -> Ty {
        if let Ty::Never = b { return Ty::Never; }
        if let Ty::Any = a { return Ty::Any; }
        if let Ty::Uni(v) = a { let r = v.iter().map(|x| self.index(&self.force(x), b)).collect(); return self.union(r); }
        if let Ty::Keys(o) = b {
            if let (Ty::Obj(p), Ty::Obj(q)) = (a, &**o) { if Rc::ptr_eq(p, q) || self.same(a, o, 0) { let r = p.iter().map(|x| x.ty.clone()).collect(); return self.union(r); } }
        }
        if let Some(v) = self.members(b) { let r = v.iter().map(|x| self.index(a, x)).collect(); return self.union(r); }
        let k = match b { Ty::Num(n) => Key::N(*n), Ty::Str(s) => Key::S(s.clone()), Ty::NumT => return match a { Ty::Tup(v) => self.union(v.to_vec()), Ty::Arr(t) => self.force(t), Ty::StrT | Ty::Str(_) => Ty::StrT, _ => Ty::Unknown }, _ => return Ty::Unknown };
        let len = matches!(&k, Key::S(s) if **s == *u16s("length"));
        match a {
            Ty::Tup(v) => {
                if len { return Ty::Num(v.len() as u64); }
                match k { Key::N(n) => v.get(n as usize).map_or(Ty::Undef, |t| self.force(t)), _ => Ty::Unknown }
            }
            Ty::Arr(t) => if len { Ty::NumT } else { match k { Key::N(_) => self.force(t), _ => Ty::Unknown } },
            Ty::Str(_) | Ty::StrT => if len { Ty::NumT } else { Ty::StrT },
            Ty::Obj(p) if matches!(&k, Key::S(_)) && p.len() > 16 && p.iter().all(|x| matches!((&x.key, &x.ty), (Key::S(_), Ty::Num(_)))) => {
                // one number selected without a case split
                let k = match &k { Key::S(s) => s, _ => return Ty::Unknown };
                let (mut v, mut hit) = (0u64, false);
                for x in p.iter() { if let (Key::S(t), Ty::Num(n)) = (&x.key, &x.ty) { let e = eq16(t, k); v |= (0u64.wrapping_sub(e as u64)) & *n; hit |= e; } }
                if hit { Ty::Num(v) } else { Ty::Unknown }
            }
            Ty::Obj(p) => match Self::find_prop(p, &k) { Some(x) => { let t = self.force(&x.ty); if x.opt { self.union(vec![t, Ty::Undef]) } else { t } } None => Ty::Unknown },
            Ty::Never => Ty::Never,
            _ => Ty::Unknown,
        }
    }
    fn template(&self, v: Vec<(Rc<[u16]>, Ty)>, end: &Rc<[u16]>) -> Ty {
        for i in 0..v.len() {
            if let Ty::Never = v[i].1 { return Ty::Never; }
            if let Some(m) = self.members(&v[i].1) {
                let r = m.into_iter().map(|t| { let mut w = v.clone(); w[i].1 = t; self.template(w, end) }).collect();
                return self.union(r);
            }
        }
        let mut parts: Vec<(Rc<[u16]>, Ty)> = vec![];
        let mut s: Vec<u16> = vec![];
        for (lit, t) in v {
            s.extend_from_slice(&lit);
            match &t {
                Ty::Str(x) => s.extend_from_slice(x),
                Ty::Num(n) => s.extend(n.to_string().encode_utf16()),
                Ty::Bool(b) => s.extend(b.to_string().encode_utf16()),
                Ty::Undef => s.extend("undefined".encode_utf16()),
                Ty::Null => s.extend("null".encode_utf16()),
                Ty::Tpl(p, e) => { for (l, t) in p.iter() { s.extend_from_slice(l); parts.push((std::mem::take(&mut s).into(), t.clone())); } s.extend_from_slice(e); }
                _ => parts.push((std::mem::take(&mut s).into(), t.clone())),
            }
        }
        s.extend_from_slice(end);
        if parts.is_empty() { return Ty::Str(s.into()); }
        if parts.len() == 1 && parts[0].0.is_empty() && s.is_empty() { if let Ty::StrT = parts[0].1 { return Ty::StrT; } }
        Ty::Tpl(Rc::new(parts), s.into())
    }
    /// does the type match the pattern; binds what it infers
    fn matches(&self, src: &Ty, pat: &E, env: &mut Vec<Ty>) -> bool {
        let src = self.force(src);
        match pat {
            E::Infer(s, c) => {
                env[*s] = src.clone();
                match c { Some(c) => { let c = self.eval(c, env); self.assignable(&src, &c, 0) } None => true }
            }
            _ if !has_infer(pat) => { let t = self.eval(pat, env); self.assignable(&src, &t, 0) }
            E::Tup(p) => {
                let v = match &src { Ty::Tup(v) => v.clone(), Ty::Any | Ty::Never => { self.blank(pat, env, if let Ty::Any = src { Ty::Any } else { Ty::Unknown }); return true } _ => return false };
                let sp: Vec<usize> = (0..p.len()).filter(|&i| p[i].0).collect();
                match sp.len() {
                    0 => v.len() == p.len() && p.iter().zip(v.iter()).all(|(p, t)| self.matches(t, &p.1, env)),
                    1 => {
                        let (a, b) = (sp[0], p.len() - sp[0] - 1);
                        if v.len() < a + b { return false; }
                        let m = tup(v[a..v.len() - b].to_vec());
                        (0..a).all(|i| self.matches(&v[i], &p[i].1, env)) && self.matches(&m, &p[a].1, env) && (0..b).all(|i| self.matches(&v[v.len() - b + i], &p[a + 1 + i].1, env))
                    }
                    _ => unsupported("two spreads"),
                }
            }
            E::Obj(p) => {
                let v = match &src { Ty::Obj(v) => v.clone(), Ty::Any | Ty::Never => { self.blank(pat, env, if let Ty::Any = src { Ty::Any } else { Ty::Unknown }); return true } Ty::Uni(_) => unsupported("a union against an object pattern"), _ => return false };
                p.iter().all(|(k, opt, x)| match Self::find_prop(&v, k) { Some(q) => (*opt || !q.opt) && self.matches(&q.ty, x, env), None => { if *opt { self.blank(x, env, Ty::Unknown); } *opt } })
            }
            E::Tpl(p, end) => match &src {
                Ty::Str(s) => self.match_template(s, p, end, env),
                Ty::Any => { self.blank(pat, env, Ty::StrT); true }
                Ty::Never => { self.blank(pat, env, Ty::Never); true }
                _ => false,
            },
            _ => unsupported("pattern"),
        }
    }
    fn blank(&self, pat: &E, env: &mut Vec<Ty>, t: Ty) {
        match pat {
            E::Infer(s, _) => env[*s] = t,
            E::Tup(v) => for x in v { self.blank(&x.1, env, t.clone()) },
            E::Obj(v) => for x in v { self.blank(&x.2, env, t.clone()) },
            E::Tpl(v, _) => for x in v { self.blank(&x.1, env, t.clone()) },
            _ => {}
        }
    }
    fn match_template(&self, s: &[u16], p: &[(Rc<[u16]>, E)], end: &[u16], env: &mut Vec<Ty>) -> bool {
        if s.len() < end.len() || !eq16(&s[s.len() - end.len()..], end) { return false; }
        let stop = s.len() - end.len();
        let mut at = 0;
        for (i, (lit, x)) in p.iter().enumerate() {
            if i == 0 {
                if at + lit.len() > stop || !eq16(&s[at..at + lit.len()], lit) { return false; }
                at += lit.len();
            }
            // the part up to the next literal: one unit if there is none, everything for the last
            let to = if i + 1 == p.len() { stop } else {
                let next = &p[i + 1].0;
                if next.is_empty() { if at >= stop { return false; } at + 1 } else { match (at..=stop.saturating_sub(next.len())).find(|&j| j + next.len() <= stop && eq16(&s[j..j + next.len()], next)) { Some(j) => j, None => return false } }
            };
            let t = Ty::Str(s[at..to].into());
            let ok = match x { E::Infer(..) => self.matches(&t, x, env), x => { let d = self.force(&self.eval(x, env)); match d { Ty::StrT => true, d => self.assignable(&t, &d, 0) } } };
            if !ok { return false; }
            at = to + if i + 1 < p.len() { p[i + 1].0.len() } else { 0 };
        }
        true
    }
    pub fn assignable(&self, a: &Ty, b: &Ty, d: usize) -> bool {
        if d > 12 { return true; }
        if let (Ty::Lazy(x), Ty::Lazy(y)) = (a, b) { if x == y { return true; } }
        let (a, b) = (self.force(a), self.force(b));
        match (&a, &b) {
            (_, Ty::Any) | (_, Ty::Unknown) | (Ty::Never, _) => true,
            (_, Ty::Never) => false,
            (Ty::Any, _) => true,
            (Ty::Uni(v), _) => v.iter().all(|x| self.assignable(x, &b, d)),
            (Ty::BoolT, Ty::BoolT) => true,
            (Ty::BoolT, Ty::Uni(_)) => self.assignable(&Ty::Bool(true), &b, d) && self.assignable(&Ty::Bool(false), &b, d),
            (Ty::Keys(_), _) if self.members(&a).is_some() => self.members(&a).unwrap().iter().all(|x| self.assignable(x, &b, d)),
            (Ty::Str(s), Ty::Uni(v)) => {
                // one test for all of the literals
                v.iter().fold(false, |r, x| r | match x { Ty::Str(t) => eq16(s, t), Ty::Num(_) => false, x => self.assignable(&a, x, d) })
            }
            (_, Ty::Uni(v)) => v.iter().any(|x| self.assignable(&a, x, d)),
            (_, Ty::Keys(o)) => match &**o {
                Ty::Obj(p) => match &a { Ty::Num(n) => Self::find_prop(p, &Key::N(*n)).map_or(false, |x| matches!(x.key, Key::N(_))), Ty::Str(s) => p.iter().fold(false, |r, x| r | match &x.key { Key::S(t) => eq16(s, t), _ => false }), _ => false },
                Ty::Tup(_) | Ty::Arr(_) => match &a { Ty::Num(_) | Ty::NumT => true, Ty::Str(s) => **s == *u16s("length") || matches!(&**o, Ty::Tup(v) if (0..v.len()).any(|i| **s == *u16s(&i.to_string()))), _ => false },
                Ty::Any => matches!(a, Ty::Str(_) | Ty::StrT | Ty::Num(_) | Ty::NumT),
                _ => false,
            },
            (Ty::Str(_) | Ty::StrT | Ty::Tpl(..), Ty::StrT) => true,
            (Ty::Num(_) | Ty::NumT, Ty::NumT) => true,
            (Ty::Bool(_), Ty::BoolT) => true,
            (Ty::Str(x), Ty::Str(y)) => eq16(x, y),
            (Ty::Num(x), Ty::Num(y)) => x == y,
            (Ty::Bool(x), Ty::Bool(y)) => x == y,
            (Ty::Undef, Ty::Undef) | (Ty::Null, Ty::Null) => true,
            (Ty::Tup(x), Ty::Tup(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| self.assignable(x, y, d + 1)),
            (Ty::Tup(x), Ty::Arr(y)) => x.iter().all(|x| self.assignable(x, y, d + 1)),
            (Ty::Arr(x), Ty::Arr(y)) => self.assignable(x, y, d + 1),
            (Ty::Obj(x), Ty::Obj(y)) => y.iter().all(|q| match Self::find_prop(x, &q.key) { Some(p) => (q.opt || !p.opt) && (self.assignable(&p.ty, &q.ty, d + 1) || q.opt && matches!(self.force(&p.ty), Ty::Undef)), None => q.opt }),
            (Ty::Tup(_) | Ty::Arr(_) | Ty::Str(_) | Ty::StrT | Ty::Num(_) | Ty::NumT | Ty::Bool(_) | Ty::BoolT, Ty::Obj(y)) => y.is_empty(),
            (Ty::Opaque(x), Ty::Opaque(y)) => x == y,
            _ => false,
        }
    }
    /// are the types identical
    pub fn same(&self, a: &Ty, b: &Ty, d: usize) -> bool {
        if d > 12 { return true; }
        if let (Ty::Lazy(x), Ty::Lazy(y)) = (a, b) { if x == y { return true; } }
        let (a, b) = (self.force(a), self.force(b));
        match (&a, &b) {
            (Ty::Any, Ty::Any) | (Ty::Unknown, Ty::Unknown) | (Ty::Never, Ty::Never) | (Ty::Undef, Ty::Undef) | (Ty::Null, Ty::Null) | (Ty::StrT, Ty::StrT) | (Ty::NumT, Ty::NumT) | (Ty::BoolT, Ty::BoolT) => true,
            (Ty::Str(x), Ty::Str(y)) => eq16(x, y),
            (Ty::Num(x), Ty::Num(y)) => x == y,
            (Ty::Bool(x), Ty::Bool(y)) => x == y,
            (Ty::Tup(x), Ty::Tup(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| self.same(x, y, d + 1)),
            (Ty::Arr(x), Ty::Arr(y)) => self.same(x, y, d + 1),
            (Ty::Obj(x), Ty::Obj(y)) => x.len() == y.len() && y.iter().all(|q| match Self::find_prop(x, &q.key) { Some(p) => q.opt == p.opt && self.same(&p.ty, &q.ty, d + 1), None => false }),
            (Ty::Uni(x), Ty::Uni(y)) => x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| self.same(p, q, d + 1))),
            (Ty::Opaque(x), Ty::Opaque(y)) => x == y,
            (Ty::Tpl(x, e), Ty::Tpl(y, f)) => x.len() == y.len() && eq16(e, f) && x.iter().zip(y.iter()).all(|(x, y)| eq16(&x.0, &y.0) && self.same(&x.1, &y.1, d + 1)),
            _ => false,
        }
    }
    /// the type as TypeScript (for comparing with the compiler)
    pub fn show(&self, t: &Ty) -> String {
        let q = |s: &[u16]| { let mut r = String::from("\""); for &c in s { if c < 0x20 || c > 0x7e || c == 0x22 || c == 0x5c { r += &format!("\\u{:04x}", c); } else { r.push(c as u8 as char); } } r.push('"'); r };
        match self.force(t) {
            Ty::Any => "any".into(), Ty::Unknown => "unknown".into(), Ty::Never => "never".into(), Ty::Undef => "undefined".into(), Ty::Null => "null".into(), Ty::StrT => "string".into(), Ty::NumT => "number".into(), Ty::BoolT => "boolean".into(),
            Ty::Str(s) => q(&s), Ty::Num(n) => n.to_string(), Ty::Bool(b) => b.to_string(),
            Ty::Tup(v) => format!("[{}]", v.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(", ")),
            Ty::Arr(x) => format!("({})[]", self.show(&x)),
            Ty::Obj(v) => format!("{{ {} }}", v.iter().map(|p| format!("{}{}: {}", match &p.key { Key::N(n) => n.to_string(), Key::S(s) => q(s) }, if p.opt { "?" } else { "" }, self.show(&p.ty))).collect::<Vec<_>>().join("; ")),
            Ty::Uni(v) => format!("({})", v.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(" | ")),
            Ty::Keys(o) => format!("keyof ({})", self.show(&o)),
            Ty::Tpl(p, e) => { let s = |x: &[u16]| String::from_utf16_lossy(x).replace('`', "\\`"); format!("`{}{}`", p.iter().map(|(l, t)| format!("{}${{{}}}", s(l), self.show(t))).collect::<String>(), s(&e)) }
            Ty::Opaque(n) => n.to_string(), Ty::Lazy(_) => unreachable!(),
        }
    }
}
